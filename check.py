#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]

Extracts the functions the property depends on from /repo's current tree,
verifies each against its contract and reports.  Exit 0: every obligation was
discharged.  Exit 1 with a VIOLATION line otherwise."""
import sys, os, time, json, hashlib, multiprocessing as mp, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
from vf import build, props, units, asm
BUDGET = {'quick': 640, 'thorough': 780}

def work(task):
    """verify one case of one unit in a process of its own"""
    name, case, text, tier, budget = task
    u = units.UNITS[name]
    out = dict(unit=name, case=case, obs=[], error=None, fn=u['fn'], nq=0, tq=0.0, rets=0, invs={})
    t = time.time()
    try:
        if u['kind'] in ('ll', 'asm'):
            from vf import ir, sym, asm
            if u['kind'] == 'asm': ex = asm.AExec(text, u['make'](), deadline=t + budget)
            else:
              m = ir.Module(text)
              ex = sym.Exec(m, u['fn'], u['make'](), case=case, deadline=t + budget,
                          timeout_ms=20000 if tier == 'quick' else 60000)
            if hasattr(ex.c, 'assumes'): out['assumes'] = list(ex.c.assumes)
            try: ex.run()
            finally:
                out.update(nq=ex.nq, tq=ex.tq, rets=ex.rets, invs=ex.invs, covers=getattr(ex, 'covers', 0), log=ex.log[:20],
                           backend=dict(ex.backend))
                for o in ex.obs:
                    out['obs'].append((o.tag, o.name, o.status, [str(x) for x in (o.trail or [])][-12:],
                                       model_text(o.model) if o.status != 'proved' else None, round(o.time, 3)))
        else:
            u['run'](out, case, tier, t + budget)
    except Exception as e:
        out['error'] = '%s: %s' % (type(e).__name__, str(e)[:600])
        out['trace'] = traceback.format_exc()[-1500:]
    out['wall'] = round(time.time() - t, 2)
    return out

def model_text(m):
    if m is None: return None
    try: return '; '.join('%s = %s' % (d.name(), m[d]) for d in sorted(m.decls(), key=lambda d: d.name()) if d.arity() == 0)[:3000]
    except Exception: return None

def child(q, task):
    import resource
    try: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    q.send(work(task)); q.close()

def run_tasks(tasks, deadline, workers=8):
    """each task in a fresh process; killed when the deadline passes"""
    ctx = mp.get_context('fork')
    pend, live, res = list(tasks), [], []
    while pend or live:
        while pend and len(live) < workers:
            t = pend.pop(0); a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, t)); p.start(); b.close(); live.append((p, a, t))
        n = []
        for p, a, t in live:
            if a.poll(0.05):
                try: res.append(a.recv())
                except EOFError: res.append(dict(unit=t[0], case=t[1], obs=[], error='verifier process died', fn=units.UNITS[t[0]]['fn'], nq=0, tq=0, wall=0))
                p.join()
            elif time.time() > deadline:
                p.kill(); p.join()
                res.append(dict(unit=t[0], case=t[1], obs=[], error='verification time budget exhausted', fn=units.UNITS[t[0]]['fn'], nq=0, tq=0, wall=0))
            else: n.append((p, a, t))
        live = n
    return res

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = props.PROPS[pid]
    t0 = time.time()
    deadline = t0 + BUDGET[tier]
    fails, res = [], []
    tasks = []
    try:
        texts = {}
        units.prewarm()
        for n in P['units']:
            u = units.UNITS[n]
            if u['kind'] == 'll':
                k = (u['src'], u['keep'])
                if k not in texts: texts[k] = build.ir_text(u['src'], u['keep'])
                tx = texts[k]
            elif u['kind'] == 'asm':
                if u['src'] not in texts: texts[u['src']] = asm.Program(u['src'])
                tx = texts[u['src']]
            else: tx = None
            for c in range(u["cases"]): tasks.append((n, c, tx, tier, BUDGET[tier] - 10))
        tasks.sort(key=lambda t: -units.cost(t[0], t[1]))
        res = run_tasks(tasks, deadline)
    except build.BuildError as e:
        fails.append(dict(unit='build', tag='structure', name='the sources build', status='error', detail=str(e)[-2000:]))
    keep = P['tags'] | props.ALWAYS
    nob = ndis = 0
    backend = {}
    names = {}
    for r in res:
        for k, v in r.get('backend', {}).items(): backend[k] = backend.get(k, 0) + v
        if r['error']:
            fails.append(dict(unit=r['unit'], case=r['case'], tag='structure', name='%s can be verified against its contract' % r['fn'], status='error', detail=r['error'], trace=r.get('trace')))
        elif not r['obs'] :
            fails.append(dict(unit=r['unit'], case=r['case'], tag='structure', name='%s generates obligations' % r['fn'], status='vacuous'))
        for tag, nm, st, trail, model, dt in r['obs']:
            if tag not in keep: continue
            nob += 1
            names.setdefault(r['fn'], set()).add('%s: %s' % (tag, nm))
            if st == 'proved': ndis += 1
            else: fails.append(dict(unit=r['unit'], case=r['case'], fn=r['fn'], tag=tag, name=nm, status=st, path=trail, model=model))
    # on a failed obligation (and in the thorough tier always) look for a concrete failing run of the real code
    found, natinfo = None, []
    if P.get('native') and (fails or tier == 'thorough'):
        try: from vf import native, drivers
        except Exception as e: natinfo.append(str(e)); P = dict(P, native=[])
        left = max(60, t0 + 860 - time.time())
        for drv in P['native']:
            try: found = native.search(drv, pid, seed, tier, min(left, 240 if tier == 'quick' else 100), natinfo)
            except Exception as e: natinfo.append('driver %s failed: %s' % (drv, str(e)[:500]))
            if found: break
            left = max(30, t0 + 860 - time.time())
    # bounded stand-ins: functions out of the verifier's reach (their contracts are assumed above), run on a bounded set of histories; never counted as proved
    bounded = []
    if not found:
        for drv, what in P.get('bounded', []):
            if (fails or tier == 'thorough') and drv in P.get('native', []): bounded.append(dict(stands_in_for=what, driver=drv, level='bounded', result='no failing run', runs=[i for i in natinfo if i.startswith(drv + ':')])); continue
            inf = []; t1 = time.time()
            try:
                from vf import native, drivers
                f = native.search(drv, pid, seed, 'quick', max(30, min(240, t0 + 860 - t1)), inf)
            except Exception as e: f = None; inf.append('driver %s failed: %s' % (drv, str(e)[:500]))
            bounded.append(dict(stands_in_for=what, driver=drv, level='bounded', result='failing run' if f else 'no failing run', wall_s=round(time.time() - t1, 1), runs=inf))
            if f: found = f; break
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(wall, 2), violations=len(fails) + (1 if found and not fails else 0),
        coverage=dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, tier),
            trusted_base=TRUST + sorted({a for n in P['units'] for a in units.UNITS[n].get('trusts', [])}),
            functions_under_contract=sorted({units.UNITS[n]['fn'] for n in P['units']}),
            units={('%s/%s' % (r['unit'], r['case'])): dict(function=r['fn'], obligations=len(r['obs']), solver_queries=r['nq'], solver_s=round(r['tq'], 1), wall_s=r['wall'], returning_paths=r.get('rets', 0), loop_invariants=r.get('invs', {}), assumed=r.get('assumes', [])) for r in res},
            solver_s=round(sum(r['tq'] for r in res), 1), solver_queries=sum(r['nq'] for r in res), discharged_by_backend=backend,
            samples=[dict(function=f, obligations=sorted(v)[:12]) for f, v in sorted(names.items())],
            native_search=natinfo, bounded_stand_ins=bounded),
        assumptions=P.get('assumes', []) + ASSUME)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(HERE + '/evidence/%s.json' % pid, 'w'), indent=1)
    if not fails and not found:
        print('%s holds: %d obligations over %d functions discharged in %.1fs' % (pid, nob, len(ev['coverage']['functions_under_contract']), wall))
        return 0
    os.makedirs(HERE + '/replay', exist_ok=True)
    body = dict(property=pid, failed_obligations=fails, failing_input=found)
    h = hashlib.sha1(json.dumps([sorted((f['unit'], f['tag'], f['name']) for f in fails), bool(found)]).encode()).hexdigest()[:10]
    path = 'replay/%s-%s.json' % (pid, h)
    json.dump(body, open(os.path.join(HERE, path), 'w'), indent=1)
    seen = set()
    for f in fails:
        k = (f['unit'], f['tag'], f['name'])
        if k in seen: continue
        seen.add(k)
        print('failed obligation: %s [%s] %s (%s) %s' % (f['unit'], f['tag'], f['name'], f['status'], (f.get('detail') or '')[:300]))
    if found: print('failing run: %s' % found.get('what', '')[:500])
    print('VIOLATION property=%s replay=%s%s' % (pid, os.path.join(HERE, path), '' if found else ' no-failing-input-found'))
    return 1

TRUST = ['clang-18 -O1 front end and a fixed list of LLVM passes (C to IR)', 'the verifier /verif/vf (IR semantics, path exploration)', 'z3 (and cvc5 as second solver)']
ASSUME = ['x86-64 Linux configuration of /verif/cfg/fficonfig.h (the one configure produces here)', 'machine arithmetic is exact (bit-vectors); no overflow is assumed away',
          'object addresses do not wrap around the address space; distinct objects do not overlap']
if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException as e:
        traceback.print_exc()
        os.makedirs(HERE + '/replay', exist_ok=True)
        p = HERE + '/replay/%s-internal.json' % sys.argv[1]
        json.dump(dict(error=traceback.format_exc()), open(p, 'w'))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (sys.argv[1], p)); sys.exit(1)
