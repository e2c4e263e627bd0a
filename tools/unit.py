#!/usr/bin/env python3-vt
"""developer driver: unit.py <unit> [case] -- verify one unit and print what failed"""
import sys, time, os, traceback; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.setrecursionlimit(20000)
from vf import build, ir, sym, asm, units
u = units.UNITS[sys.argv[1]]
units.prewarm()
cases = [int(sys.argv[2])] if len(sys.argv) > 2 else range(u['cases'])
if u['kind'] == 'll': m = ir.Module(build.ir_text(u['src'], u['keep']))
for c in cases:
    t = time.time()
    if u['kind'] == 'll': ex = sym.Exec(m, u['fn'], u['make'](), case=c, keep_smt=True)
    elif u['kind'] == 'asm': ex = asm.AExec(asm.Program(u['src']), u['make']())
    else:
        out = dict(obs=[], nq=0, tq=0.0, rets=0, invs={}); u['run'](out, c, 'quick', time.time() + 600)
        print(sys.argv[1], c, len(out['obs']), 'failed', [o[:3] for o in out['obs'] if o[2] != 'proved'][:10], '%.1fs' % (time.time() - t)); continue
    try: ex.run()
    except Exception as e: traceback.print_exc()
    print(sys.argv[1], c, 'obs', len(ex.obs), 'failed', len(ex.failed), 'rets', ex.rets, 'paths', ex.paths, 'q', ex.nq, 'tq %.1f t %.1f' % (ex.tq, time.time() - t))
    for h, i in ex.invs.items(): print('  inv', h, i)
    for l in ex.log[:10]: print('  log', l)
    seen = set()
    for o in ex.failed:
        if (o.tag, o.name) in seen: continue
        seen.add((o.tag, o.name)); print('  FAIL', o.tag, o.name, o.status, o.trail[-8:])
        if os.environ.get('SHOW') and o.model is not None: print('     ', o.goal, '\n     ', o.model)
