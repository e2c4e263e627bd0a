"""Closure storage: closures.c (and the parts of dlmalloc.c it depends on).

Ghost state: the locks held, how often a critical section of the allocator's lock was
entered, the chunks handed out by the allocator, the trampolines acquired and released, open
descriptors and streams, and mappings.  The allocator's lock protects its segment list: a
segment found in one critical section may be read in that section only.

  managed(a)   address a lies in a segment of the allocator; seg(a) is that segment
  exo(s)       distance from the writable to the executable mapping of segment s
  addr(t)      code address of static trampoline t (unit traddr)"""
import os
from ..sym import *
from .. import build

_lay = None
def layout():
    """offsets and constants of closures.c and dlmalloc.c, from the compiler"""
    global _lay
    if _lay: return _lay
    F = {'struct malloc_params': ['magic', 'page_size', 'granularity', 'mmap_threshold', 'trim_threshold', 'default_mflags'], 'struct malloc_state': ['mflags', 'mutex', 'seg'],
         'struct malloc_segment': ['base', 'size', 'next', 'exec_offset'], 'ffi_closure': ['ftramp']}
    c = os.path.join(build.scratch(), 'pool%d.c' % os.getpid())
    pr = ['printf("%s.%s|%%d|%%d\\n", (int) offsetof (%s, %s), (int) sizeof (((%s *) 0)->%s));' % (s, f, s, f, s, f) for s in F for f in F[s]]
    pr += ['printf("%s|0|%%d\\n", (int) (%s));' % (e, e) for e in ('USE_LOCK_BIT', '_SC_PAGESIZE', 'sizeof (mparams.granularity)', 'PROT_READ', 'PROT_WRITE', 'PROT_EXEC', 'MAP_SHARED', 'MAP_PRIVATE', 'MAP_ANONYMOUS', 'SEEK_SET')]
    open(c, 'w').write('#include "%s/src/closures.c"\n#include <stdio.h>\n#include <stddef.h>\nint main (void) { %s }\n' % (build.REPO, '\n'.join(pr)))
    build.run(['gcc'] + build.cflags() + [c, '-o', c + '.x', '-lpthread', '-Wl,--unresolved-symbols=ignore-all'])
    _lay = {}
    for l in build.run([c + '.x']).split('\n'):
        if l: a, b, d = l.split('|'); _lay[a.replace('struct ', '').replace('malloc_', '')] = (int(b), int(d))
    return _lay

BO = z3.BoolSort()
MAN = z3.Function('managed', B64, BO); SEG = z3.Function('seg', B64, B64); EXO = z3.Function('exo', B64, B64); ADDR = z3.Function('addr', B64, B64)
SBASE, SSIZE, SNEXT = [z3.Function('seg_' + n, B64, B64) for n in ('base', 'size', 'next')]
SUP = z3.Bool('static_trampolines_supported')

class R(Region):
    """object whose accesses are decided by the contract"""
    def __init__(self, name, c, base=None, key=None):
        Region.__init__(self, '@' + name, base); self.c = c; self.n = name
        if key: self.key = key
    def load(self, ex, st, off, n, isptr): return getattr(self.c, 'ld_' + self.n)(ex, st, off, n, isptr)
    def store(self, ex, st, off, n, val): return getattr(self.c, 'sto_' + self.n)(ex, st, off, n, val)

class Pool(Contract):
    merge = False
    unroll = 3
    held = ()                       # locks held on entry (and on exit)
    def base(self, ex):
        self.ex = ex; self.L = layout(); st = State()
        self.gm, self.mp, self.sr, self.tr = R('_gm_', self), R('mparams', self), R('segment', self, bv(0)), R('trampoline', self, bv(0))
        st.ghost.update(locks=tuple(self.held), epoch=0, ready=(), segs=(), chunks=(), frees=(), tramps=(), trfrees=(), fds=(), fp=(), maps=(), unmaps=(), line=0)
        return st
    def glob(self, ex, st, name):
        if name == '_gm_': return self.gm
        if name == 'mparams': return self.mp
    def call(self, ex, st, name, args, ins):
        f = getattr(self, 'do_' + name, None)
        return f(ex, st, args) if f else None
    # ------------------------------------------------------------ locks
    def lockname(self, p):
        if not isinstance(p, Ptr): return None
        if p.reg is self.gm: return 'gm' if const(p.off) == self.L['state.mutex'][0] else None
        return p.reg.name.lstrip('@') if const(p.off) == 0 else None
    def do_pthread_mutex_lock(self, ex, st, a):
        n = self.lockname(a[0]); g = st.ghost
        ex.ob(st, 'lock', 'a known lock is taken', z3.BoolVal(n in ('gm', 'magic_init_mutex', 'open_temp_exec_file_mutex')))
        ex.ob(st, 'lock', 'the lock is not acquired twice', z3.BoolVal(n not in g['locks']))
        # order: the allocator's lock first
        ex.ob(st, 'lock', 'locks are taken in one order', z3.BoolVal(n != 'gm' or not g['locks']))
        if n == 'gm': ex.ob(st, 'lock', "the allocator's lock is initialised before it is used", self.ready(st), assume=False)
        g['locks'] += (n,); g['epoch'] += 1
        return [(st, bv(0, 32))]
    def do_pthread_mutex_unlock(self, ex, st, a):
        n = self.lockname(a[0]); g = st.ghost
        ex.ob(st, 'lock', 'only a lock that is held is released', z3.BoolVal(n in g['locks']))
        g['locks'] = tuple(x for x in g['locks'] if x != n)
        return [(st, bv(0, 32))]
    def no_lock(self, ex, st, what): ex.ob(st, 'lock', '%s is called without the lock' % what, z3.BoolVal('gm' not in st.ghost['locks']))
    def end_lock(self, ex, st): ex.ob(st, 'lock', 'exactly the locks held on entry are held on exit', z3.BoolVal(sorted(st.ghost['locks']) == sorted(self.held)))
    # ------------------------------------------------------------ allocator parameters and state
    def ready(self, st): return z3.BoolVal(True) if 'gm' in st.ghost['locks'] else z3.Or(*st.ghost['ready']) if st.ghost['ready'] else z3.BoolVal(False)
    def pfield(self, off, n):
        o = const(off)
        for f, (a, s) in self.L.items():
            if f.startswith('params.') and a == o and s == n: return f[7:]
        raise Fail('access to mparams at offset %s' % off)
    def ld_mparams(self, ex, st, off, n, isptr):
        f = self.pfield(off, n); g = st.ghost
        if f != 'page_size':
            ex.ob(st, 'lock', 'parameters are read once they are set', self.ready(st), assume=False); return [(st, z3.BitVec('param_' + f, 8 * n))]
        p = fresh('page_size')
        st.pc += [z3.Implies(x, p != 0) for x in g['ready']]
        if ' acquire' in ex.ins.text or ' seq_cst' in ex.ins.text or 'volatile' in ex.ins.text: g['ready'] += (p != 0,)
        return [(st, p)]
    def sto_mparams(self, ex, st, off, n, val): ex.ob(st, 'lock', 'parameters are set by the initialisation only', z3.BoolVal(False)); return [st]
    def do_init_mparams(self, ex, st, a):
        ex.ob(st, 'lock', 'initialisation is called without its lock', z3.BoolVal('magic_init_mutex' not in st.ghost['locks']))
        st.ghost['ready'] += (z3.BoolVal(True),); return [(st, bv(0, 32))]
    def ld__gm_(self, ex, st, off, n, isptr):
        if const(off) != self.L['state.mflags'][0]: raise Fail("access to the allocator's state at offset %s" % off)
        ex.ob(st, 'lock', "the allocator's flags are read once they are set", self.ready(st), assume=False)
        v = z3.BitVec('mflags', 32); st.pc.append(v & self.L['USE_LOCK_BIT'][1] != 0)
        return [(st, v)]
    def sto__gm_(self, ex, st, off, n, val): ex.ob(st, 'lock', "the allocator's state is left alone", z3.BoolVal(False)); return [st]
    # ------------------------------------------------------------ segments
    def do_segment_holding(self, ex, st, a):
        g = st.ghost; ad = ex.num(a[1])
        ex.ob(st, 'lock', 'the segment list is walked under the lock', z3.BoolVal('gm' in g['locks']))
        ex.ob(st, 'memory', 'the segment list is that of the allocator', z3.BoolVal(isinstance(a[0], Ptr) and a[0].reg is self.gm and const(a[0].off) == 0))
        s = st.fork(); s.branch(z3.Not(MAN(ad))); n = fresh('segment')
        st.branch(MAN(ad)); st.pc += [n == SEG(ad), n != 0]; st.ghost['segs'] += ((n, st.ghost['epoch']),)
        return [(s, NULL), (st, Ptr(self.sr, n))]
    def ld_segment(self, ex, st, off, n, isptr):
        for s, ep in st.ghost['segs']:
            d = const(S(off - s))
            if d is None: continue
            ex.ob(st, 'lock', 'a segment is read in the critical section it was found in', z3.BoolVal('gm' in st.ghost['locks'] and ep == st.ghost['epoch']))
            for f, u in (('exec_offset', EXO), ('base', SBASE), ('size', SSIZE), ('next', SNEXT)):
                if self.L['segment.' + f] == (d, n): return [(st, Ptr(self.sr, u(s)) if isptr else u(s))]
        raise Fail('access through a pointer that is no known segment')
    def sto_segment(self, ex, st, off, n, val): ex.ob(st, 'lock', 'segments are left alone', z3.BoolVal(False)); return [st]
    # ------------------------------------------------------------ allocator (its contract is assumed)
    def do_dlmalloc(self, ex, st, a):
        self.no_lock(ex, st, 'the allocator'); s = st.fork(); s.ghost['nomem'] = 1; n = ex.num(a[0]); i = len(st.ghost['chunks'])
        if i: raise Fail('more than one chunk')
        r = CellRegion('chunk%d' % i, z3.If(z3.ULT(n, 24), bv(24), n)); st.pc += [z3.ULT(n, 1 << 47)]; s.pc += []
        ex.alloc(st, r, 16, False); st.pc += [MAN(r.base), r.base + EXO(SEG(r.base)) != 0]
        st.ghost['chunks'] += ((r, n),)
        return [(s, NULL), (st, Ptr(r, 0))]
    def do_dlfree(self, ex, st, a):
        self.no_lock(ex, st, 'the allocator'); p = ex.num(a[0])
        if const(p) == 0: return [(st, None)]
        for r, n in st.ghost['chunks']:
            if ex.must(st, p == r.base):
                ex.ob(st, 'pool', 'storage is released once', z3.BoolVal(r not in st.ghost['frees'])); st.ghost['frees'] += (r,); st.dead.add(r.key); return [(st, None)]
        ex.ob(st, 'pool', 'only the storage of this closure is released', z3.BoolVal(False)); return [(st, None)]
    # ------------------------------------------------------------ trampolines (tramp.c: units tr*)
    def do_ffi_tramp_is_supported(self, ex, st, a):
        v = fresh('supported', 32); st.pc.append((v != 0) == SUP); return [(st, v)]
    def do_ffi_tramp_alloc(self, ex, st, a):
        ex.ob(st, 'pool', 'a trampoline is asked for only if there are any, without flags', z3.And(SUP, ex.num(a[0]) == 0))
        s = st.fork(); s.ghost['notramp'] = 1; t = fresh('tramp'); st.pc += [t != 0]; st.ghost['tramps'] += (t,)
        return [(s, NULL), (st, Ptr(self.tr, t))]
    def mine(self, ex, st, p): return next((t for t in st.ghost['tramps'] if ex.must(st, p == t)), None)
    def do_ffi_tramp_get_addr(self, ex, st, a):
        p = ex.num(a[0]); t = self.mine(ex, st, p)
        ex.ob(st, 'pool', 'the trampoline is that of this closure, and live', z3.And(SUP, z3.BoolVal(t is not None and not any(t is x for x in st.ghost['trfrees'])))); st.pc.append(ADDR(p) != 0)
        return [(st, Ptr(NULLR, ADDR(p)))]
    def do_ffi_tramp_free(self, ex, st, a):
        p = ex.num(a[0]); t = self.mine(ex, st, p)
        ex.ob(st, 'pool', 'a trampoline is released once, and only that of this closure', z3.And(SUP, z3.BoolVal(t is not None and not any(t is x for x in st.ghost['trfrees']))))
        st.ghost['trfrees'] += (t,); return [(st, None)]
    def live_tramps(self, st): return [t for t in st.ghost['tramps'] if not any(t is x for x in st.ghost['trfrees'])]
    def exec_address(self, p): return p + EXO(SEG(p))

class ClosureAlloc(Pool):
    """ffi_closure_alloc (size, code)"""
    def setup(self, ex):
        out = []
        for null in (True, False):
            st = self.base(ex); self.size = z3.BitVec('size', 64); st.pc += [z3.ULT(self.size, 1 << 40)]
            self.code = CellRegion('code', 8, base=z3.BitVec('&code', 64)); ex.reg(self.code); st.ghost['nullcode'] = null
            out.append((st, [self.size, NULL if null else Ptr(self.code, 0)]))
        return out
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st); g = st.ghost; p = ex.num(v); lt = self.live_tramps(st); lc = [c for c in g['chunks'] if c[0] not in g['frees']]
        if const(p) == 0:
            ex.ob(st, 'fault', 'a refused request keeps no storage', z3.BoolVal(not lc))
            ex.ob(st, 'fault', 'a refused request keeps no trampoline', z3.BoolVal(not lt))
            ex.ob(st, 'fault', 'a request is refused only without memory, trampoline or place for the code address', z3.BoolVal(bool(g['nullcode'] or g.get('nomem') or g.get('notramp'))))
            return
        ex.ob(st, 'pool', 'the closure is one live chunk of storage of the size asked for', z3.And(p == lc[0][0].base, z3.UGE(lc[0][1], self.size)) if len(lc) == 1 else z3.BoolVal(False))
        if g['nullcode'] or len(lc) != 1: ex.ob(st, 'pool', 'no closure without a place for its code address', z3.BoolVal(not g['nullcode'])); return
        [(_, c)] = self.code.load(ex, st, bv(0), 8, False)
        ex.ob(st, 'pool', 'a closure has one trampoline of its own, if there are any', z3.If(SUP, z3.BoolVal(len(lt) == 1), z3.BoolVal(not lt)))
        if lt:
            [(_, f)] = lc[0][0].load(ex, st, bv(self.L['ffi_closure.ftramp'][0]), 8, False)
            ex.ob(st, 'pool', 'the closure records its trampoline', f == lt[0])
        ex.ob(st, 'pool', 'the code address is that of its trampoline, or of its storage where it is executable', c == (ADDR(lt[0]) if lt else self.exec_address(p)))

class ClosureFree(Pool):
    """ffi_closure_free (closure)"""
    def setup(self, ex):
        st = self.base(ex); self.t = z3.BitVec('tramp', 64)
        self.c = CellRegion('closure', 32, base=z3.BitVec('closure', 64)); ex.reg(self.c)
        st.pc += [self.c.base != 0, MAN(self.c.base)]
        self.c.init(st, self.L['ffi_closure.ftramp'][0], 8, Ptr(self.tr, self.t))
        st.ghost['chunks'] = ((self.c, bv(32)),); st.ghost['tramps'] = (self.t,)
        return [(st, [Ptr(self.c, 0)])]
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st); g = st.ghost
        ex.ob(st, 'pool', 'the storage is released', z3.BoolVal(self.c in g['frees']))
        ex.ob(st, 'pool', 'the trampoline is released, if there is one', SUP == z3.BoolVal(len(g['trfrees']) == 1))

class DataToCode(Pool):
    """ffi_data_to_code_pointer (data) and ffi_tramp_is_present (data): any address"""
    def __init__(self, present): self.present = present
    def setup(self, ex):
        st = self.base(ex); self.t = z3.BitVec('tramp', 64)
        self.d = FnRegion('data', base=z3.BitVec('data', 64), loadf=self.ld, frame_tag='pool'); ex.reg(self.d)
        d = self.d.base; st.pc += [d != 0, z3.Implies(MAN(d), self.exec_address(d) != 0)]; st.ghost['tramps'] = (self.t,)
        return [(st, [Ptr(self.d, 0)])]
    def ld(self, ex, st, off, n, isptr):
        ex.ob(st, 'memory', 'memory that is not managed here is not read', MAN(self.d.base))
        if const(off) == self.L['ffi_closure.ftramp'][0] and n == 8: return Ptr(self.tr, self.t) if isptr else self.t
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st); d = self.d.base; r = ex.num(v)
        if self.present: ex.ob(st, 'bind', 'a closure has a trampoline iff it is stored here and there are any', (r != 0) == z3.And(MAN(d), SUP))
        else: ex.ob(st, 'bind', 'the code address of the closure, and the address itself for memory managed elsewhere', r == z3.If(MAN(d), z3.If(SUP, ADDR(self.t), self.exec_address(d)), d))
        ex.ob(st, 'pool', 'nothing is acquired or released', z3.BoolVal(not st.ghost['frees'] and not st.ghost['trfrees'] and not [c for c in st.ghost['chunks']] and len(st.ghost['tramps']) == 1))

class InitParams(Pool):
    """init_mparams (): by whatever thread comes first"""
    def setup(self, ex):
        st = self.base(ex); st.ghost.update(set={}, flags=None, minit=0, published=0)
        return [(st, [])]
    def excl(self, ex, st):
        """this thread holds the initialisation lock and saw there that nothing is initialised"""
        return z3.And(z3.BoolVal('magic_init_mutex' in st.ghost['locks'] and not st.ghost['published']), *([st.ghost['seen'] == 0] if 'seen' in st.ghost else [z3.BoolVal(False)]))
    def ld_mparams(self, ex, st, off, n, isptr):
        f = self.pfield(off, n); g = st.ghost
        if f == 'page_size':
            if g['published']: return [(st, g['published'])]
            p = fresh('page_size'); st.pc += [z3.Implies(x, p != 0) for x in g['ready']]
            acq = any(x in ex.ins.text for x in (' acquire', ' seq_cst', 'volatile'))
            if acq or 'magic_init_mutex' in g['locks']: g['ready'] += (p != 0,)
            if 'magic_init_mutex' in g['locks']: g['seen'] = p
            return [(st, p)]
        if f in g['set']: return [(st, g['set'][f])]
        ex.ob(st, 'lock', 'parameters are read once they are set', self.ready(st), assume=False)
        return [(st, fresh('param_' + f, 8 * n))]
    def sto_mparams(self, ex, st, off, n, val):
        f = self.pfield(off, n); g = st.ghost; v = ex.num(val)
        ex.ob(st, 'lock', 'one thread sets the parameters, once, under the lock', self.excl(ex, st))
        if f != 'page_size': g['set'] = dict(g['set'], **{f: v}); return [st]
        ex.ob(st, 'lock', 'the page size is published with release order', z3.BoolVal(' release' in ex.ins.text or ' seq_cst' in ex.ins.text or 'volatile' in ex.ins.text))
        ex.ob(st, 'lock', 'the page size is published only when every parameter is set', z3.BoolVal(set(g['set']) >= {'granularity', 'mmap_threshold', 'trim_threshold', 'default_mflags', 'magic'}))
        ex.ob(st, 'lock', "the allocator's lock is initialised once, before the page size is published", z3.BoolVal(g['minit'] == 1))
        ex.ob(st, 'lock', "the allocator's flags tell that it has a lock, before the page size is published", g['flags'] & self.L['USE_LOCK_BIT'][1] != 0 if g['flags'] is not None else z3.BoolVal(False))
        if 'granularity' in g['set']: ex.ob(st, 'fault', 'page size and granularity are powers of two', z3.And(v != 0, v & (v - 1) == 0, g['set']['granularity'] != 0, g['set']['granularity'] & (g['set']['granularity'] - 1) == 0))
        g['published'] = v
        return [st]
    def ld__gm_(self, ex, st, off, n, isptr):
        if const(off) == self.L['state.mflags'][0] and st.ghost['flags'] is not None: return [(st, st.ghost['flags'])]
        return Pool.ld__gm_(self, ex, st, off, n, isptr)
    def sto__gm_(self, ex, st, off, n, val):
        if const(off) != self.L['state.mflags'][0]: return Pool.sto__gm_(self, ex, st, off, n, val)
        ex.ob(st, 'lock', "one thread sets the allocator's flags, under the lock", self.excl(ex, st)); st.ghost['flags'] = ex.num(val)
        return [st]
    def do_pthread_mutex_init(self, ex, st, a):
        ex.ob(st, 'lock', "one thread initialises the allocator's lock, under the initialisation lock", z3.And(self.excl(ex, st), z3.BoolVal(self.lockname(a[0]) == 'gm')))
        st.ghost['minit'] += 1; return [(st, bv(0, 32))]
    def do_sysconf(self, ex, st, a):
        p = z3.BitVec('system_page_size', 64); st.pc += [z3.UGE(p, 4096), z3.ULE(p, 1 << 30), p & (p - 1) == 0]
        ex.ob(st, 'lock', 'the page size is asked for', ex.num(a[0]) == self.L['_SC_PAGESIZE'][1]); return [(st, p)]
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st); g = st.ghost
        ex.ob(st, 'lock', 'everything is initialised when it returns', z3.And(v == 0, z3.Or(*g['ready'], z3.BoolVal(bool(z3.is_expr(g['published']))))))

class SegmentHolding(Pool):
    """segment_holding (m, addr): called under the lock"""
    held = ('gm',)
    counter_bits = 30
    live = staticmethod(z3.Function('live_segment', B64, BO)); rank = staticmethod(z3.Function('rank', B64, B64))
    def __init__(self, code=False): self.code = code
    def inv(self, w):
        """the segment list: ranks fall from the head to 1; segments are what lies in [base, base + size)"""
        return z3.Implies(self.live(w), z3.And(w != 0, z3.UGE(self.rank(w), 1), z3.ULE(self.rank(w), self.M), z3.ULE(SBASE(w), bv(-1) - SSIZE(w)),
            z3.If(self.rank(w) == 1, SNEXT(w) == 0, z3.And(SNEXT(w) != 0, self.live(SNEXT(w)), self.rank(SNEXT(w)) == self.rank(w) - 1)),
            z3.Implies(self.rank(w) == self.M, w == self.head)))
    def setup(self, ex):
        st = self.base(ex); self.a = z3.BitVec('addr', 64); self.M = z3.BitVec('segments', 64); gm = z3.BitVec('gm', 64); self.w = z3.BitVec('any_segment', 64)
        self.head = gm + self.L['state.seg'][0]
        st.pc += [z3.ULE(self.M, 1 << 28), z3.UGE(self.M, 1), self.live(self.head), self.rank(self.head) == self.M, self.inv(self.head), self.inv(self.w)]
        self.A = FnRegion('addr', base=self.a); st.ghost['known'] = (self.head,)
        return [(st, [Ptr(self.sr, gm), Ptr(self.A, 0)])]
    def addr_in(self, w):
        b = SBASE(w) + (EXO(w) if self.code else bv(0)); return z3.And(z3.UGE(self.a, b), z3.ULT(self.a, b + SSIZE(w)))
    def ld_segment(self, ex, st, off, n, isptr):
        for s in st.ghost['known'] + tuple(p.off for p in st.env.values() if isinstance(p, Ptr) and p.reg is self.sr):
            d = const(S(off - s))
            if d is None: continue
            for f, u in (('exec_offset', EXO), ('base', SBASE), ('size', SSIZE), ('next', SNEXT)):
                if self.L['segment.' + f] == (d, n):
                    ex.ob(st, 'memory', 'a live segment is read', self.live(s)); v = u(s)
                    if f == 'next':
                        st.pc.append(self.inv(v)); st.ghost['known'] += (v,)
                        r = []
                        if isptr:
                            q = st.fork(); q.branch(v == 0); st.branch(v != 0)
                            return [x for x in ((q, NULL), (st, Ptr(self.sr, v))) if ex.feasible(x[0], z3.BoolVal(True))]
                    return [(st, (Ptr(self.sr if f == 'next' else NULLR, v)) if isptr else v)]
        raise Fail('access through a pointer that is no known segment')
    def cands(self, ex, st, N, loop):
        ps = [st.env[i.dst] for i in ex.f.blocks[loop].ins if i.op == 'phi' and isinstance(st.env.get(i.dst), Ptr) and st.env[i.dst].reg is self.sr]
        if len(ps) != 1: return []
        p = ps[0].off
        return [('!a live segment', z3.And(self.live(p), self.inv(p))), ('!one segment per iteration', self.rank(p) == self.M - N), ('!no earlier segment holds the address', z3.Implies(z3.And(self.live(self.w), z3.UGT(self.rank(self.w), self.rank(p))), z3.Not(self.addr_in(self.w))))]
    def loop_assume(self, ex, st, N, loop):
        # the list has one segment of each rank
        return [z3.Implies(z3.And(self.live(self.w), self.live(v.off), self.rank(self.w) == self.rank(v.off)), self.w == v.off) for v in st.env.values() if isinstance(v, Ptr) and v.reg is self.sr]
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st); r = ex.num(v); w = self.w
        if const(r) == 0: ex.ob(st, 'pool', 'no segment is reported only if none holds the address', z3.Implies(self.live(w), z3.Not(self.addr_in(w))))
        else: ex.ob(st, 'pool', 'the segment reported is a live one that holds the address', z3.And(self.live(r), self.addr_in(r)))

# -------------------------------------------------------------------- mappings
class Mapping(Pool):
    """what the functions below share: descriptors, streams, mappings, the temporary file.
    ghost: fd of the file, pos its position, space [lo, hi) written since"""
    held = ('gm',)
    NOPT = None
    def base(self, ex):
        st = Pool.base(self, ex); self.fdcell = CellRegion('@execfd', 4); self.szcell = CellRegion('@execsize', 8); self.idx = CellRegion('@open_temp_exec_file_opts_idx', 4)
        for c in (self.fdcell, self.szcell, self.idx): ex.reg(c)
        self.fd0, self.sz0, self.i0 = z3.BitVec('execfd', 32), z3.BitVec('execsize', 64), z3.BitVec('idx', 32)
        self.fdcell.init(st, 0, 4, self.fd0); self.szcell.init(st, 0, 8, self.sz0); self.idx.init(st, 0, 4, self.i0)
        t, v, _ = ex.mod.global_init('open_temp_exec_file_opts'); self.optsize = ex.mod.sizeof(t); self.NOPT = len(v[1])
        self.opts = CellRegion('@open_temp_exec_file_opts', self.optsize, readonly=True); cells = {}
        ex.fill(st, cells, 0, t, v); self.opts.static = cells; self.opts.cells = lambda s, r=self.opts: s.mem.get(r.key) or r.static
        st.pc += [z3.ULT(self.i0, self.NOPT), z3.ULT(self.sz0, 1 << 60), self.sz0 & 4095 == 0, z3.Or(self.fd0 == bv(-1, 32), self.fd0 >= 0), z3.Implies(self.fd0 == bv(-1, 32), self.sz0 == 0)]
        st.ghost.update(pos=fresh('file_position'), space=None, files=(), own=(), stores=(), rets=())
        return st
    def glob(self, ex, st, name):
        return {'execfd': self.fdcell, 'execsize': self.szcell, 'open_temp_exec_file_opts_idx': self.idx, 'open_temp_exec_file_opts': self.opts}.get(name) or Pool.glob(self, ex, st, name)
    def cell(self, ex, st, c, n): [(_, v)] = c.load(ex, st, bv(0), n, False); return v
    def icall(self, ex, st, p, args, ins): return None
    # the functions that open a temporary file (units cltmp*): a descriptor that was not open, or -1
    def opener(self, ex, st, a):
        s = st.fork(); fd = fresh('fd', 32); st.pc += [fd >= 0] + [fd != x for x in st.ghost['fds']]; st.ghost['fds'] += (fd,); st.ghost['pos'] = bv(0); st.ghost['space'] = None
        return [(s, bv(-1, 32)), (st, fd)]
    do_open_temp_exec_file_memfd = do_open_temp_exec_file_env = do_open_temp_exec_file_dir = opener
    def do_open_temp_exec_file_mnt(self, ex, st, a):
        return [(st, bv(-1, 32))] if const(ex.num(a[0])) == 0 else self.opener(ex, st, a)
    def do_open_temp_exec_file(self, ex, st, a):
        i = fresh('idx', 32); st.pc.append(z3.ULT(i, self.NOPT)); st = self.idx.store(ex, st, bv(0), 4, i)[0]
        return self.opener(ex, st, a)
    def do_close(self, ex, st, a):
        fd = ex.num(a[0]); g = st.ghost
        k = [x for x in g['fds'] if ex.must(st, fd == x)]
        ex.ob(st, 'fault', 'only a descriptor that is open here is closed, once', z3.BoolVal(len(k) == 1))
        g['fds'] = tuple(x for x in g['fds'] if not any(x is y for y in k)); return [(st, fresh('r', 32))]
    def do_lseek(self, ex, st, a):
        fd, off, wh = [ex.num(x) for x in a]; s = st.fork()
        self.isfile(ex, st, fd); ex.ob(st, 'fault', 'the file position is set from the start', wh == self.L['SEEK_SET'][1]); st.ghost['pos'] = off
        return [(s, bv(-1)), (st, off)]
    do_lseek64 = do_lseek
    def isfile(self, ex, st, fd): ex.ob(st, 'fault', 'the descriptor is open', z3.Or(*[fd == x for x in st.ghost['fds']], z3.BoolVal(False)))
    def do_allocate_space(self, ex, st, a):
        fd, n = [ex.num(x) for x in a]; self.isfile(ex, st, fd); s = st.fork(); p = st.ghost['pos']
        r = fresh('failed', 32); s.pc.append(r != 0); s.ghost['pos'] = fresh('file_position'); st.ghost['space'] = (fd, p, n); st.ghost['pos'] = S(p + n)
        return [(s, r), (st, bv(0, 32))]
    def do_ftruncate(self, ex, st, a):
        self.isfile(ex, st, ex.num(a[0])); ex.ob(st, 'fault', 'only space beyond what is in use is given back', z3.UGE(ex.num(a[1]), self.cell(ex, st, self.szcell, 8))); st.ghost['space'] = None; return [(st, fresh('r', 32))]
    do_ftruncate64 = do_ftruncate
    def do_mmap(self, ex, st, a):
        addr, ln, prot, fl, fd, off = [ex.num(x) for x in a]; s = st.fork(); i = len(st.ghost['maps'])
        ex.ob(st, 'memory', 'the system chooses where to map', addr == 0)
        m = FnRegion('mapping%d' % i, size=ln, storef=self.sto_map, frame_tag='pool'); m.i = i; ex.reg(m)
        st.pc += [m.base != 0, m.base & 0xfff == 0, z3.ULT(m.base, bv(-1) - ln), m.base != bv(-1)] + [z3.Or(z3.ULE(m.base + ln, x.base), z3.ULE(x.base + l, m.base)) for x, l, *_ in st.ghost['maps']]
        st.ghost['maps'] += ((m, ln, prot, fl, fd, off),)
        s.ghost['mfail'] = 1
        return [(s, Ptr(NULLR, bv(-1))), (st, Ptr(m, 0))]
    do_mmap64 = do_mmap
    def do_munmap(self, ex, st, a): st.ghost['unmaps'] += ((ex.num(a[0]), ex.num(a[1])),); r = fresh('r', 32); st.ghost['rets'] += (r,); return [(st, r)]
    def sto_map(self, ex, st, off, n, val): st.ghost['stores'] += ((S(off), n, ex.num(val)),); return [st]
    def ld_map(self, st): return None
    # streams and lines
    def do_fopen(self, ex, st, a):
        s = st.fork(); h = FnRegion('FILE%d' % len(st.ghost['fp']), base=fresh('FILE'), frame_tag='fault'); st.ghost['fp'] += (h.name,); st.pc.append(h.base != 0)
        return [(s, NULL), (st, Ptr(h, 0))]
    do_fopen64 = do_fopen
    def stream(self, ex, st, p): ex.ob(st, 'fault', 'the stream is open when it is used', z3.BoolVal(isinstance(p, Ptr) and p.reg.name in st.ghost['fp']))
    def do_fclose(self, ex, st, a): self.stream(ex, st, a[0]); st.ghost['fp'] = tuple(x for x in st.ghost['fp'] if x != a[0].reg.name); return [(st, fresh('r', 32))]
    def do_getline(self, ex, st, a):
        self.stream(ex, st, a[2]); p = ex.asptr(st, a[0]); q = ex.asptr(st, a[1]); out = []
        line = FnRegion('line', base=z3.BitVec('line', 64), loadf=lambda ex, st, off, n, isptr: fresh('char', 8 * n), frame_tag='memory'); ex.reg(line)
        st.pc.append(line.base != 0)
        st = p.reg.store(ex, st, p.off, 8, Ptr(line, 0))[0]; st = q.reg.store(ex, st, q.off, 8, fresh('len'))[0]
        st.ghost['line'] = 1; r = fresh('chars'); st.pc.append(r >= -1)
        return [(st, r)]
    def do_free(self, ex, st, a):
        p = a[0]
        if isinstance(p, Ptr) and p.reg.name == 'line': ex.ob(st, 'fault', 'the line is released once', z3.BoolVal(const(p.off) == 0 and st.ghost['line'] == 1)); st.ghost['line'] = 0; return [(st, None)]
        if const(ex.num(p)) == 0: return [(st, None)]
        raise Fail('free of something else')
    def do_strchr(self, ex, st, a):
        s = st.fork(); o = fresh('at'); p = ex.asptr(st, a[0]); st.pc += [z3.ULT(o, 1 << 30)]
        return [(s, NULL), (st, Ptr(p.reg, S(p.off + o)))]
    def do_strncmp(self, ex, st, a): return [(st, fresh('cmp', 32))]
    def do_statfs(self, ex, st, a):
        p = ex.asptr(st, a[1]); p.reg.havoc(ex, st); st.wrote.add(p.reg.key); return [(st, fresh('r', 32))]
    def do___errno_location(self, ex, st, a):
        if not hasattr(self, 'err'): self.err = CellRegion('@errno', 4); ex.reg(self.err)
        self.err.init(st, 0, 4, fresh('errno', 32)); return [(st, Ptr(self.err, 0))]
    def do_dlmmap_locked(self, ex, st, a):
        g = st.ghost
        ex.ob(st, 'lock', 'the temporary file is used under its lock and that of the allocator', z3.BoolVal('open_temp_exec_file_mutex' in g['locks'] and 'gm' in g['locks']))
        ex.ob(st, 'pool', 'a readable, writable, private mapping at no given address is asked for', z3.And(ex.num(a[0]) == 0, ex.num(a[1]) == self.len, ex.num(a[2]) == 3, ex.num(a[3]) == self.anon()))
        # trampoline initialisation opens temporary files too: it is over (and has failed) when this is reached
        ex.ob(st, 'lock', 'the temporary file is used only after trampolines were found to be unavailable', z3.Or(z3.Not(SUP), self.fd0 != bv(-1, 32)))
        s = st.fork(); g['via_file'] = 1; m = FnRegion('mapping_file', base=fresh('mapping'), size=self.len, frame_tag='pool'); st.pc += [m.base != bv(-1), m.base != 0]; g['result'] = m
        for q in (s, st): q.mem[self.fdcell.key] = {0: (4, fresh('execfd', 32))}; q.mem[self.szcell.key] = {0: (8, fresh('execsize'))}
        return [(s, Ptr(NULLR, bv(-1))), (st, Ptr(m, 0))]
    def anon(self): return self.L['MAP_PRIVATE'][0] | self.L['MAP_ANONYMOUS'][0] if False else self.L['MAP_PRIVATE'][1] | self.L['MAP_ANONYMOUS'][1]
    def kept(self, ex, st):
        return [m for m in st.ghost['maps'] if not any(ex.must(st, z3.And(a == m[0].base, b == m[1])) for a, b in st.ghost['unmaps'])]

class Dlmmap(Mapping):
    """dlmmap (start, length, ...): called by the allocator, under its lock, for length bytes anywhere"""
    unbounded = True
    def setup(self, ex):
        st = self.base(ex); self.len = z3.BitVec('length', 64); st.pc += [self.len != 0, z3.ULT(self.len, 1 << 40), self.len & 4095 == 0, z3.Or(self.fd0 == bv(-1, 32), z3.Not(SUP))]
        return [(st, [NULL, self.len, bv(3, 32), bv(self.anon(), 32), bv(-1, 32), bv(0)])]
    def cands(self, ex, st, N, loop): return [('!nothing is mapped or opened', z3.BoolVal(not st.ghost['maps'] and not st.ghost['fds'] and len(st.ghost['fp']) == 1))]
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st); g = st.ghost; r = ex.num(v); k = self.kept(ex, st)
        ex.ob(st, 'fault', 'every stream is closed', z3.BoolVal(not g['fp']))
        ex.ob(st, 'fault', 'the line buffer is released', z3.BoolVal(not g['line']))
        failed = const(r) == (1 << 64) - 1
        if failed:
            ex.ob(st, 'fault', 'a failure keeps no mapping', z3.BoolVal(not k)); return
        if g.get('via_file'): ex.ob(st, 'pool', 'the mapping of the file is returned', z3.And(z3.BoolVal(not k), r == g['result'].base)); return
        if len(k) != 1: ex.ob(st, 'pool', 'one mapping is made', z3.BoolVal(False)); return
        m, ln, prot, fl, fd, off = k[0]
        ex.ob(st, 'pool', 'the mapping is private memory of the length asked for, readable and writable', z3.And(r == m.base, ln == self.len, prot & 3 == 3, fl == self.anon(), fd == bv(-1, 32)))
        # anonymous memory is zero, so that the distance to the executable address, its last word, is 0
        ex.ob(st, 'pool', 'memory that closures run from is executable', z3.Implies(z3.Not(SUP), prot & self.L['PROT_EXEC'][1] != 0))
        ex.ob(st, 'pool', 'memory is not executable where trampolines are used', z3.Implies(SUP, prot & self.L['PROT_EXEC'][1] == 0))

class DlmmapLocked(Mapping):
    """dlmmap_locked (start, length, prot, flags, offset): two mappings of the temporary file"""
    held = ('gm', 'open_temp_exec_file_mutex')
    unbounded = True
    unroll = 0
    def setup(self, ex):
        st = self.base(ex); self.len = z3.BitVec('length', 64)
        st.pc += [z3.UGE(self.len, 4096), z3.ULT(self.len, 1 << 40), self.len & 4095 == 0]
        out = []
        for isopen in (False, True):
            s = st.fork(); s.pc.append((self.fd0 != bv(-1, 32)) if isopen else (self.fd0 == bv(-1, 32))); s.ghost['fds'] = (self.fd0,) if isopen else (); s.ghost['was'] = isopen
            out.append((s, [NULL, self.len, bv(3, 32), bv(self.anon(), 32), z3.BitVec('offset', 64)]))
        return out
    def cands(self, ex, st, N, loop):
        g = st.ghost
        return [('!no file is open', z3.BoolVal(not g['fds'])), ('!no mapping is held', z3.BoolVal(not g['maps'])), ('!the file is empty', self.cell(ex, st, self.szcell, 8) == 0), ('!an entry of the table', z3.ULT(self.cell(ex, st, self.idx, 4), self.NOPT))]
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st); g = st.ghost; r = ex.num(v); k = self.kept(ex, st); fd = self.cell(ex, st, self.fdcell, 4); sz = self.cell(ex, st, self.szcell, 8)
        ex.ob(st, 'fault', 'the descriptor recorded is the one that is open', z3.If(fd == bv(-1, 32), z3.BoolVal(not g['fds']), z3.And(z3.BoolVal(len(g['fds']) == 1), fd == g['fds'][0] if g['fds'] else z3.BoolVal(False))))
        ex.ob(st, 'fault', 'the next entry to try is one of the table', z3.ULT(self.cell(ex, st, self.idx, 4), self.NOPT))
        if const(r) == (1 << 64) - 1:
            ex.ob(st, 'fault', 'a failure keeps no mapping', z3.BoolVal(not k)); ex.ob(st, 'fault', 'a failure leaves the space in use', sz == self.sz0); return
        if len(k) != 2: ex.ob(st, 'pool', 'two mappings are made', z3.BoolVal(False)); return
        rw = [m for m in k if ex.must(st, m[0].base == r)]
        if len(rw) != 1: ex.ob(st, 'pool', 'one of the mappings is returned', z3.BoolVal(False)); return
        rw = rw[0]; rx = [m for m in k if m is not rw][0]; L = self.L
        for m, p in ((rw, 3), (rx, L['PROT_READ'][1] | L['PROT_EXEC'][1])):
            ex.ob(st, 'pool', 'the %s is a shared mapping of the new space of the file' % ('writable memory' if m is rw else 'executable memory'), z3.And(m[1] == self.len, m[2] == p, m[3] & 3 == L['MAP_SHARED'][1], m[3] & L['MAP_ANONYMOUS'][1] == 0, m[4] == fd, m[5] == self.sz0))
        ex.ob(st, 'fault', 'the file has space where it is mapped', z3.And(g['space'][0] == fd, z3.ULE(g['space'][1], self.sz0), z3.ULE(self.sz0 + self.len, g['space'][1] + g['space'][2])) if g['space'] else z3.BoolVal(False))
        ex.ob(st, 'pool', 'the space in use grows by the mapping', sz == self.sz0 + self.len)
        ex.ob(st, 'bind', 'the last word is the distance to the executable mapping', z3.And(g['stores'][0][0] == self.len - 8, g['stores'][0][2] == rx[0].base - r, z3.BoolVal(g['stores'][0][1] == 8)) if len(g['stores']) == 1 else z3.BoolVal(False))
        ex.ob(st, 'fault', 'nothing is unmapped', z3.BoolVal(not g['unmaps']))

class Dlmunmap(Mapping):
    """dlmunmap (start, length): called by the allocator, under its lock"""
    def setup(self, ex):
        st = self.base(ex); self.a, self.len = z3.BitVec('start', 64), z3.BitVec('length', 64); r = FnRegion('start', base=self.a); ex.reg(r); st.pc += [self.len != 0]
        return [(st, [Ptr(r, 0), self.len])]
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st); g = st.ghost; r = ex.num(v); a, n = self.a, self.len; u = g['unmaps']; x = a + EXO(SEG(a)); two = z3.And(MAN(a), x != a)
        for p, q in u: ex.ob(st, 'memory', 'only the mapping and its executable alias are unmapped', z3.And(q == n, z3.Or(p == a, z3.And(two, p == x))))
        ok = lambda at: z3.Or(*[z3.And(p == at, t == 0) for (p, q), t in zip(u, g['rets'])], z3.BoolVal(False))
        ex.ob(st, 'fault', 'success is reported only if everything is unmapped', z3.Implies(r == 0, z3.And(ok(a), z3.Implies(two, ok(x)))))
        ex.ob(st, 'fault', 'a failure is reported only if the system refused', z3.Implies(r != 0, z3.Or(*[t != 0 for t in g['rets']], z3.BoolVal(False))))

class AllocateSpace(Mapping):
    """allocate_space (fd, len)"""
    held = ('gm', 'open_temp_exec_file_mutex')
    unroll = 0
    counter_bits = 42
    def setup(self, ex):
        st = self.base(ex); self.fd, self.len = z3.BitVec('fd', 32), z3.BitVec('len', 64); st.pc += [self.fd >= 0, self.len >= 0, self.len < 1 << 40]
        self.W = z3.BitVec('written', 64); st.mem['W'] = bv(0); self.PS = z3.BitVec('system_page_size', 64); st.pc += [z3.Or(*[self.PS == 1 << i for i in range(12, 19)])]
        self.ps = CellRegion('@allocate_space.page_size', 8); ex.reg(self.ps); p = z3.BitVec('page_size', 64); self.ps.init(st, 0, 8, p); st.pc += [z3.Or(p == 0, p == self.PS)]
        return [(st, [self.fd, self.len])]
    def glob(self, ex, st, name): return self.ps if name == 'allocate_space.page_size' else Mapping.glob(self, ex, st, name)
    def do_sysconf(self, ex, st, a): return [(st, self.PS)]
    def alloca(self, ex, st, name, size, al, dyn):
        if dyn: return WRegion('buf', size)
    def havoc_ghost(self, ex, st, k):
        if k != 'W': raise Fail('the loop changes %s' % k)
        st.mem['W'] = fresh('written')
    def do_write(self, ex, st, a):
        fd, p, n = ex.num(a[0]), ex.asptr(st, a[1]), ex.num(a[2]); r = fresh('count'); st.pc += [r >= -1, r <= n]
        ex.ob(st, 'fault', 'space is written to the file', fd == self.fd); ex.bounds(st, p.reg, p.off, n, 'read')
        st.mem['W'] = S(st.mem['W'] + z3.If(r >= 0, r, bv(0))); st.wrote.add('W')
        return [(st, r)]
    def cands(self, ex, st, N, loop):
        ws = [st.env[i.dst] for i in ex.f.blocks[loop].ins if i.op == 'phi' and z3.is_bv(st.env.get(i.dst)) and st.env[i.dst].size() == 64]
        ws = [w for w in ws]
        out = [('progress', z3.Or(st.mem['W'] == self.PS * N, st.mem['W'] == self.len)), ('!never more than asked for', z3.ULE(st.mem['W'], self.len)), ('short', z3.ULE(self.PS * N, self.len + self.PS))]
        for i, w in enumerate(ws): out += [('rest %d' % i, st.mem['W'] + w == self.len), ('start %d' % i, st.mem['W'] == w)]
        return out
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st); ex.ob(st, 'fault', 'success is reported only if all the space was written', z3.Implies(v == 0, st.mem['W'] == self.len))

class OpenTemp(Mapping):
    """open_temp_exec_file (): the entries of the table, in turn"""
    held = ()
    unbounded = True
    unroll = 0
    def setup(self, ex): return [(self.base(ex), [])]
    def cands(self, ex, st, N, loop): return [('!no file is open', z3.BoolVal(not st.ghost['fds'])), ('!an entry of the table', z3.ULT(self.cell(ex, st, self.idx, 4), self.NOPT))]
    def do_open_temp_exec_file(self, ex, st, a): return None
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st); g = st.ghost; r = ex.num(v)
        ex.ob(st, 'fault', 'the descriptor returned is the one that is open', z3.If(r == bv(-1, 32), z3.BoolVal(not g['fds']), z3.And(z3.BoolVal(len(g['fds']) == 1), r == g['fds'][0] if g['fds'] else z3.BoolVal(False))))
        ex.ob(st, 'fault', 'the next entry to try is one of the table', z3.ULT(self.cell(ex, st, self.idx, 4), self.NOPT))

# -------------------------------------------------------------------- openers
DIRB = z3.Function('DIRBYTE', B64, z3.BitVecSort(8))
class Opener(Mapping):
    """what open_temp_exec_file calls through its table: each returns a descriptor it opened, or -1 with nothing left open (assumed of them in units cltemp and clfile).
    Names are NUL-terminated strings shorter than 2^20 bytes."""
    held = ('gm', 'open_temp_exec_file_mutex')
    unbounded = True
    unroll = 0
    def str(self, ex, st, nm):
        n = z3.BitVec('len_' + nm, 64); f = FnRegion(nm, base=z3.BitVec('p_' + nm, 64), size=n + 1, bytef=lambda s, o: z3.If(o == n, bv(0, 8), DIRB(o)), frame_tag='fault'); ex.reg(f)
        st.pc += [z3.ULT(n, 1 << 20), f.base != 0]; f.n = n; return f
    def new(self, ex, st): return self.opener(ex, st, None)
    def do_open(self, ex, st, a): return self.new(ex, st)
    do_open64 = do_open
    def do_strlen(self, ex, st, a):
        p = ex.asptr(st, a[0]); ex.ob(st, 'fault', 'a string is measured from its start', z3.BoolVal(hasattr(p.reg, 'n') and const(p.off) == 0)); return [(st, p.reg.n)]
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st); g = st.ghost; r = ex.num(v)
        ex.ob(st, 'fault', 'the descriptor returned is the one that is open', z3.If(r == bv(-1, 32), z3.BoolVal(not g['fds']), z3.And(z3.BoolVal(len(g['fds']) == 1), r == g['fds'][0] if g['fds'] else z3.BoolVal(False))))

class OpenMemfd(Opener):
    """open_temp_exec_file_memfd (name)"""
    def setup(self, ex):
        st = self.base(ex); self.nm = self.str(ex, st, 'name'); return [(st, [Ptr(self.nm, 0)])]
    def do_memfd_create(self, ex, st, a): return self.new(ex, st)
    def do_open_temp_exec_file_memfd(self, ex, st, a): return None

class OpenName(Opener):
    """open_temp_exec_file_name (name, flags): name is a template of its own, ending in XXXXXX"""
    def setup(self, ex):
        st = self.base(ex); self.nm = self.str(ex, st, 'name'); st.ghost['named'] = 0; return [(st, [Ptr(self.nm, 0), z3.BitVec('flags', 32)])]
    def do_mkostemp(self, ex, st, a):
        ex.ob(st, 'fault', 'the template given is used', ex.num(a[0]) == self.nm.base)
        out = self.new(ex, st); out[-1][0].ghost['named'] = 1; return out
    do_mkostemp64 = do_mkstemp = do_mkstemp64 = do_mkostemp
    def do_unlink(self, ex, st, a):
        ex.ob(st, 'fault', 'only the file that was created is removed, by its name', z3.And(ex.num(a[0]) == self.nm.base, z3.BoolVal(st.ghost['named'] == 1))); st.ghost['named'] = 2; return [(st, fresh('r', 32))]
    def on_ret(self, ex, st, v):
        Opener.on_ret(self, ex, st, v); ex.ob(st, 'fault', 'no named file is left behind', z3.BoolVal(st.ghost['named'] != 1))

class OpenDir(Opener):
    """open_temp_exec_file_dir (dir)"""
    env = False
    def setup(self, ex):
        st = self.base(ex); self.dir = self.str(ex, st, 'dir'); st.ghost['tmpl'] = None
        return [(st, [Ptr(self.dir, 0)])]
    def do_open_temp_exec_file_dir(self, ex, st, a): return None
    def alloca(self, ex, st, name, size, al, dyn):
        if dyn: self.tmp = WRegion('tempname', size); self.tmp.n = None; return self.tmp
    def do_open_temp_exec_file_name(self, ex, st, a):
        p = ex.asptr(st, a[0]); n = self.dir.n; suf = b'/ffiXXXXXX\0'
        ex.ob(st, 'fault', 'the template is memory of the caller', z3.BoolVal(p.reg is getattr(self, 'tmp', None) and const(p.off) == 0))
        A = self.tmp.A; want = DIRB(A)
        for i, c in enumerate(suf): want = z3.If(A == n + i, bv(c, 8), want)
        ex.ob(st, 'fault', 'the template is a terminated name in the directory', z3.Implies(z3.ULE(A, n + len(suf) - 1), self.tmp.val(st) == want))
        ex.ob(st, 'memory', 'the template has room for it', z3.UGE(self.tmp.size, n + len(suf)))
        return self.new(ex, st)

class OpenEnv(Opener):
    """open_temp_exec_file_env (envvar)"""
    def setup(self, ex):
        st = self.base(ex); self.var = self.str(ex, st, 'envvar'); self.value = self.str(ex, st, 'value'); st.ghost['tried'] = 0; return [(st, [Ptr(self.var, 0)])]
    def do_open_temp_exec_file_env(self, ex, st, a): return None
    def do_getenv(self, ex, st, a):
        ex.ob(st, 'fault', 'the variable asked for is looked up', ex.num(a[0]) == self.var.base); s = st.fork(); return [(s, NULL), (st, Ptr(self.value, 0))]
    do_secure_getenv = do_getenv
    def do_open_temp_exec_file_dir(self, ex, st, a):
        ex.ob(st, 'fault', 'the directory is the value of the variable', ex.num(a[0]) == self.value.base); return self.new(ex, st)

class OpenMnt(Opener):
    """open_temp_exec_file_mnt (mounts): keeps a stream open between calls, as long as it is asked about the same file"""
    def setup(self, ex):
        st = self.base(ex); self.last = CellRegion('@last_mounts', 8); self.ent = CellRegion('@last_mntent', 8)
        for c in (self.last, self.ent): ex.reg(c)
        self.statics = {'open_temp_exec_file_mnt.last_mounts': self.last, 'open_temp_exec_file_mnt.last_mntent': self.ent}
        self.mounts = self.str(ex, st, 'mounts'); self.old = FnRegion('old stream', base=fresh('FILE'), frame_tag='fault'); st.pc.append(self.old.base != 0)
        out = []
        for last in ('none', 'same', 'other'):
            for ent in (False, True):
                if last == 'none' and ent: continue
                for null in (False, True):
                    s = st.fork(); o = z3.BitVec('other_mounts', 64); s.pc += [o != 0, o != self.mounts.base]
                    self.last.init(s, 0, 8, {'none': NULL, 'same': Ptr(self.mounts, 0), 'other': Ptr(NULLR, o)}[last])
                    self.ent.init(s, 0, 8, Ptr(self.old, 0) if ent else NULL)
                    if ent: s.ghost['fp'] = (self.old.name,)
                    s.ghost['null'] = null; out.append((s, [NULL if null else Ptr(self.mounts, 0)]))
        return out
    def glob(self, ex, st, name):
        return getattr(self, 'statics', {}).get(name) or Mapping.glob(self, ex, st, name)
    def cands(self, ex, st, N, loop): return [('!no descriptor is open', z3.BoolVal(not st.ghost['fds'])), ('!the stream kept is open', z3.BoolVal(self.kept1(ex, st)))]
    def kept1(self, ex, st):
        v = self.ent.load1(ex, st, 0, 8, True)
        return isinstance(v, Ptr) and v.reg.name in st.ghost['fp'] and len(st.ghost['fp']) == 1
    def do_open_temp_exec_file_mnt(self, ex, st, a): return None
    def do_setmntent(self, ex, st, a):
        ex.ob(st, 'fault', 'the mounts file asked for is read', ex.num(a[0]) == self.mounts.base); return self.do_fopen(ex, st, a)
    def do_endmntent(self, ex, st, a): return self.do_fclose(ex, st, a)
    def do_getmntent_r(self, ex, st, a):
        self.stream(ex, st, a[0]); m, b, n = ex.asptr(st, a[1]), ex.asptr(st, a[2]), zx(ex.num(a[3]))
        ex.bounds(st, b.reg, b.off, n, 'write'); s = st.fork()
        if getattr(self, 'mdir', None) is None:
            self.mdir = FnRegion('mnt_dir', base=fresh('mnt_dir'), frame_tag='fault'); ex.reg(self.mdir); self.mdir.n = z3.BitVec('len_mnt_dir', 64)
        d = self.mdir
        st = m.reg.store(ex, st, S(m.off + 8), 8, Ptr(d, 0))[0]
        for o in (0, 16, 24): st = m.reg.store(ex, st, S(m.off + o), 8, Ptr(NULLR, fresh('mnt')))[0]
        for o in (32, 36): st = m.reg.store(ex, st, S(m.off + o), 4, fresh('mnt', 32))[0]
        st.ghost['entry'] = 1
        return [(s, NULL), (st, a[1])]
    def do_hasmntopt(self, ex, st, a): return [(st, Ptr(NULLR, fresh('opt')))]
    def do_access(self, ex, st, a): self.isdir(ex, st, a[0]); return [(st, fresh('r', 32))]
    def isdir(self, ex, st, p): ex.ob(st, 'fault', 'the directory is that of a mount read', z3.BoolVal(isinstance(p, Ptr) and p.reg is getattr(self, 'mdir', None) and const(p.off) == 0))
    def do_open_temp_exec_file_dir(self, ex, st, a): self.isdir(ex, st, a[0]); return self.new(ex, st)
    def on_ret(self, ex, st, v):
        Opener.on_ret(self, ex, st, v); e = self.ent.load1(ex, st, 0, 8, True); fp = st.ghost['fp']
        ex.ob(st, 'fault', 'the stream kept is the only one open', z3.BoolVal(self.kept1(ex, st)) if fp else ex.num(e) == 0)
        if st.ghost['null']: ex.ob(st, 'fault', 'asked about no file, the stream is closed and nothing is opened', z3.And(z3.BoolVal(not fp), ex.num(v) == bv(-1, 32)))
