"""Static trampolines: tramp.c.

The data structure (tables of trampolines, the free list of each table, the list of
tables with free trampolines) is specified by an invariant over ghost state:

  live(n), tlive(t)   node n / table t belongs to a mapped table
  free(n)             n is on its table's free list; an allocated node is a live node that is not
  pos(n)              rank of a free node in the list of its table, 1 .. nfree; next has rank - 1
  apos(n)             rank of an allocated node, 1 .. ntramp - nfree, injective per table: so a table
                      whose free count equals ntramp has no allocated node
  tpos(t)             rank of a listed table, 1 .. nfree_tables; a table is listed iff nfree > 0

Every function is verified from an arbitrary state satisfying the invariant; quantified
facts are instantiated at the nodes and tables the path touches and at arbitrary (skolem)
witnesses, for which the invariant is proved again at the exit.  Fields are maps
address -> value; stores are updates of the maps, so aliasing is decided by the solver.
Ghost state for the lock and for everything acquired (heap blocks, mappings, descriptors)."""
import os
from ..sym import *
from .. import build
from .sysv import abi_consts, macros

_lay = None
def layout():
    """offsets of the structures of tramp.c, from the compiler"""
    global _lay
    if _lay: return _lay
    F = dict(tramp_table=['prev', 'next', 'code_table', 'parm_table', 'array', 'free', 'nfree'], tramp=['prev', 'next', 'table', 'code', 'parm'], tramp_parm=['data', 'target'],
             tramp_globals=['fd', 'offset', 'text', 'map_size', 'size', 'ntramp', 'free_tables', 'nfree_tables', 'status'])
    E = ['TRAMP_GLOBALS_UNINITIALIZED', 'TRAMP_GLOBALS_PASSED', 'TRAMP_GLOBALS_FAILED']
    c = os.path.join(build.scratch(), 'trl%d.c' % os.getpid())
    pr = ['printf("%s.%s %%d %%d\\n", (int) offsetof (struct %s, %s), (int) sizeof (((struct %s *) 0)->%s));' % (s, f, s, f, s, f) for s in F for f in F[s]]
    pr += ['printf("%s. 0 %%d\\n", (int) sizeof (struct %s));' % (s, s) for s in F] + ['printf("%s 0 %%d\\n", (int) %s);' % (e, e) for e in E]
    open(c, 'w').write('#include "%s/src/tramp.c"\n#include <stdio.h>\n#include <stddef.h>\nint open_temp_exec_file (void) { return -1; }\nint main (void) { %s }\n' % (build.REPO, '\n'.join(pr)))
    build.run(['gcc'] + build.cflags() + [c, '-o', c + '.x', '-lpthread'])
    r = [l.split() for l in build.run([c + '.x']).split('\n') if l]
    _lay = {a: (int(b), int(d)) for a, b, d in r}
    return _lay

B32 = z3.BitVecSort(32); BO = z3.BoolSort()
T_F = ('prev', 'next', 'table', 'code', 'parm'); K_F = ('prev', 'next', 'code_table', 'parm_table', 'array', 'free', 'nfree')
PTRKIND = {'T.prev': 'T', 'T.next': 'T', 'T.table': 'K', 'T.code': 'X', 'T.parm': 'P', 'K.prev': 'K', 'K.next': 'K', 'K.code_table': 'X', 'K.parm_table': 'X', 'K.array': 'T', 'K.free': 'T',
           'G.free_tables': 'K', 'G.text': 'X'}
NULLABLE = {'T.prev', 'T.next', 'K.prev', 'K.next', 'K.free', 'G.free_tables'}

class Flat(Region):
    """objects addressed absolutely: the offset of a pointer is its address"""
    def __init__(self, c, kind): Region.__init__(self, 'tramp.' + kind, bv(0)); self.c, self.k = c, kind
    def load(self, ex, st, off, n, isptr): return self.c.load(ex, st, self.k, off, n, isptr)
    def store(self, ex, st, off, n, val): return self.c.store(ex, st, self.k, off, n, val)

class GlobR(Region):
    def __init__(self, c): Region.__init__(self, 'tramp_globals'); self.c = c; self.key = 'G'
    def havoc(self, ex, st): self.c.havoc_ghost(ex, st, 'G')
    def field(self, ex, st, off, n):
        o = const(off)
        for f, (a, s) in self.c.L.items():
            if f.startswith('tramp_globals.') and f[14:] and a == o and s == n: return f[14:]
        raise Fail('access to tramp_globals at offset %s' % off)
    def load(self, ex, st, off, n, isptr):
        f = self.field(ex, st, off, n); self.c.locked(ex, st)
        return self.c.out(ex, st, 'G.' + f, st.mem['G'][f], isptr)
    def store(self, ex, st, off, n, val):
        f = self.field(ex, st, off, n); self.c.locked(ex, st)
        d = dict(st.mem['G']); d[f] = ex.num(val); st.mem['G'] = d; st.wrote.add('G')
        return [st]

class Tramp(Contract):
    merge = False
    unroll = 3
    entry_locked = False            # the lock is held on entry (and on exit)
    passed = True                   # status is PASSED on entry
    def __init__(self): pass
    # ------------------------------------------------------------ state
    def base(self, ex):
        self.ex = ex; self.L = layout(); M = macros('internal64.h')
        self.SZ, self.MAP = M['UNIX64_TRAMP_SIZE'], M['UNIX64_TRAMP_MAP_SIZE']
        self.NT = self.MAP // self.SZ
        if self.NT < 1 or self.L['tramp_parm.'][1] > self.SZ: raise Fail('a trampoline is smaller than its parameters')
        self.TS, self.KS = self.L['tramp.'][1], self.L['tramp_table.'][1]
        for s, k in (('tramp', 'T'), ('tramp_table', 'K')):
            for f in (T_F if k == 'T' else K_F):
                if self.L['%s.%s' % (s, f)][1] != (4 if f == 'nfree' else 8): raise Fail('field size')
        self.reg = {k: Flat(self, k) for k in 'TKXP'}
        F = lambda n, *s: z3.Function(n, *s)
        self.UF = {'%s.%s' % (k, f): F('%s.%s' % (k, f), B64, B32 if f == 'nfree' else B64) for k, fs in (('T', T_F), ('K', K_F)) for f in fs}
        self.LT, self.LK, self.FREE, self.IN = [F(n, B64, BO) for n in ('live', 'tlive', 'free', 'fresh_node')]
        self.POS, self.APOS, self.TPOS = [F(n, B64, B32) for n in ('pos', 'apos', 'tpos')]
        self.IDX = F('idx', B64, B64)
        self.gr = GlobR(self)
        st = State()
        G = {}
        for f, (o, s) in self.L.items():
            if f.startswith('tramp_globals.') and f[14:]: G[f[14:]] = z3.BitVec('g_' + f[14:], 8 * s)
        self.G0 = G; st.mem['G'] = G
        for k, u in self.UF.items(): st.mem[k] = (u, ())
        st.ghost.update(lock=int(self.entry_locked), tn=(), kn=(), heap=(), maps=(), unmaps=(), frees=(), fds=(), fp=())
        return st
    def consts(self, G):
        return [G['map_size'] == self.MAP, G['size'] == self.SZ, G['ntramp'] == self.NT, G['text'] == z3.BitVec('&trampoline_code_table', 64)]
    def fld(self, st, k, w):
        b, ups = st.mem[k]
        v = b(w)
        for a, x in ups: v = z3.If(w == a, x, v)
        return v
    def maps0(self): return lambda k, w: self.UF[k](w)
    def mapsof(self, st): return lambda k, w: self.fld(st, k, w)
    # ------------------------------------------------------------ invariant
    def inv_node(self, m, g, w):
        """clauses of the invariant for a live node w; m: field maps, g: ghost maps"""
        t = m('T.table', w); nf = m('K.nfree', t); nx, pv = m('T.next', w), m('T.prev', w)
        free, pos = g['free'](w), g['pos'](w)
        return [
            ('belongs to a live table', z3.And(g['tlive'](t), w != 0)),
            ('is an element of the array of its table', z3.And(z3.ULT(self.IDX(w), self.NT), w == m('K.array', t) + self.TS * self.IDX(w))),
            ('has the code and parameter slots of its index', z3.And(m('T.code', w) == m('K.code_table', t) + self.SZ * self.IDX(w), m('T.parm', w) == m('K.parm_table', t) + self.SZ * self.IDX(w))),
            ('free node ranks within the free count', z3.Implies(free, z3.And(pos >= 1, pos <= nf))),
            ('free node of highest rank is the head of the list', z3.Implies(z3.And(free, pos == nf), m('K.free', t) == w)),
            ('next of a free node', z3.Implies(free, z3.If(pos == 1, nx == 0, z3.And(nx != 0, g['live'](nx), g['free'](nx), m('T.table', nx) == t, g['pos'](nx) == pos - 1, m('T.prev', nx) == w)))),
            ('prev of a free node', z3.Implies(free, z3.If(pos == nf, pv == 0, z3.And(pv != 0, g['live'](pv), g['free'](pv), m('T.table', pv) == t, g['pos'](pv) == pos + 1, m('T.next', pv) == w)))),
            ('allocated node is counted as not free', z3.Implies(z3.Not(free), z3.And(g['apos'](w) >= 1, g['apos'](w) <= self.NT - nf)))]
    def inv_pair(self, m, g, a, b):
        return z3.Implies(z3.And(z3.Not(g['free'](a)), z3.Not(g['free'](b)), m('T.table', a) == m('T.table', b), g['apos'](a) == g['apos'](b)), a == b)
    def inv_table(self, m, g, k, G):
        nf, fr, nx, pv, tp = m('K.nfree', k), m('K.free', k), m('K.next', k), m('K.prev', k), g['tpos'](k)
        N = G['nfree_tables']; listed = lambda x: m('K.nfree', x) > 0
        return [
            ('free count in range', z3.And(k != 0, nf >= 0, nf <= self.NT)),
            ('head of the free list', z3.If(nf == 0, fr == 0, z3.And(fr != 0, g['live'](fr), g['free'](fr), m('T.table', fr) == k, g['pos'](fr) == nf))),
            ('array is a block of its own', m('K.array', k) != k),
            ('parameter table follows the code table', m('K.parm_table', k) == m('K.code_table', k) + self.MAP),
            ('listed table ranks within the table count', z3.Implies(nf > 0, z3.And(tp >= 1, tp <= N))),
            ('listed table of highest rank is the head of the list', z3.Implies(z3.And(nf > 0, tp == N), G['free_tables'] == k)),
            ('next of a listed table', z3.Implies(nf > 0, z3.If(tp == 1, nx == 0, z3.And(nx != 0, g['tlive'](nx), listed(nx), g['tpos'](nx) == tp - 1, m('K.prev', nx) == k)))),
            ('prev of a listed table', z3.Implies(nf > 0, z3.If(tp == N, pv == 0, z3.And(pv != 0, g['tlive'](pv), listed(pv), g['tpos'](pv) == tp + 1, m('K.next', pv) == k))))]
    def inv_tpair(self, m, g, a, b):
        return z3.Implies(z3.And(m('K.nfree', a) > 0, m('K.nfree', b) > 0, g['tpos'](a) == g['tpos'](b)), a == b)
    def inv_glob(self, m, g, G):
        N, f = G['nfree_tables'], G['free_tables']
        return [('head of the table list', z3.And(N >= 0, z3.If(N == 0, f == 0, z3.And(f != 0, g['tlive'](f), m('K.nfree', f) > 0, g['tpos'](f) == N))))]
    def apart(self, m, a, b):
        """mappings of different tables do not overlap"""
        x, y = m('K.code_table', a), m('K.code_table', b)
        e = z3.And(z3.ULE(x, bv(-1) - 2 * self.MAP), z3.ULE(y, bv(-1) - 2 * self.MAP))
        return z3.And(e, z3.Implies(a != b, z3.Or(z3.ULE(x + 2 * self.MAP, y), z3.ULE(y + 2 * self.MAP, x))))
    def g0(self): return dict(live=self.LT, tlive=self.LK, free=self.FREE, pos=self.POS, apos=self.APOS, tpos=self.TPOS)
    def pre_node(self, n): return z3.Implies(self.LT(n), z3.And(*[f for _, f in self.inv_node(self.maps0(), self.g0(), n)]))
    def pre_table(self, k):
        return z3.Implies(self.LK(k), z3.And(*[f for _, f in self.inv_table(self.maps0(), self.g0(), k, self.G0)]))
    def pre_glob(self): return [f for _, f in self.inv_glob(self.maps0(), self.g0(), self.G0)]
    # ------------------------------------------------------------ memory
    def locked(self, ex, st):
        ex.ob(st, 'lock', 'shared trampoline state is accessed under the lock', z3.BoolVal(st.ghost['lock'] == 1), assume=False)
    def know(self, ex, st, kind, v):
        """register address term v as a node / table; -> an atomic name for it"""
        key = 'tn' if kind == 'T' else 'kn'
        v = S(v)
        for n in st.ghost[key]:
            if n.eq(v): return n
        if not (z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            n = fresh('node' if kind == 'T' else 'table'); st.pc.append(n == v); v = n
        st.ghost[key] = st.ghost[key] + (v,)
        if kind == 'T': st.pc += [self.pre_node(v)] + [z3.Implies(z3.And(self.LT(v), self.LT(n)), self.inv_pair(self.maps0(), self.g0(), v, n)) for n in st.ghost['tn'] if n is not v and self.pairs]
        else: st.pc += [self.pre_table(v)] + [z3.Implies(z3.And(self.LK(v), self.LK(n)), self.inv_tpair(self.maps0(), self.g0(), v, n)) for n in st.ghost['kn'] if n is not v]
        return v
    pairs = True
    def resolve(self, ex, st, kind, off, what='access'):
        """which node/table does this address point into, and where"""
        size = self.TS if kind == 'T' else self.KS
        off = S(off)
        names = st.ghost['tn' if kind == 'T' else 'kn']
        for n in names:
            d = const(S(off - n))
            if d is not None and d < size: return n, d
        m = ex.live_model(st)
        if m is None:
            r, m, _ = ex.check(st.pc, True)
            if r != z3.sat: raise Stop()
        for n in names:
            d = m.eval(off - n, model_completion=True).as_long()
            if d < size and ex.must(st, off == n + d): return n, d
        for h, kd, cnt in st.ghost['heap']:
            # an element of a block just allocated
            if kd != kind or h in st.ghost['frees']: continue
            for i in [S(z3.UDiv(off - h, bv(size)))] if z3.is_bv_value(S(off - h)) else [x for x in self.indices_(st)]:
                d = m.eval(off - h - size * i, model_completion=True).as_long()
                if d < size and ex.must(st, off == h + size * i + d): return self.elem(ex, st, h, i), d
        if kind == 'T': st.pc.append(self.pre_node(off))
        raise Fail('%s through a pointer that is no known %s: %s' % (what, 'trampoline' if kind == 'T' else 'table', off))
    def indices_(self, st): return [v for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == 'N']
    def elem(self, ex, st, h, i):
        n = self.know(ex, st, 'T', h + self.TS * i)
        st.pc.append(z3.Implies(z3.ULT(i, self.NT), z3.And(self.IN(n), self.IDX(n) == i, z3.Not(self.LT(n)))))
        return n
    def alive(self, st, kind, n):
        fr = st.ghost['frees']
        blocks = [(h, c) for h, kd, c in st.ghost['heap'] if kd == kind and h not in fr]
        if kind == 'K': return z3.Or(z3.And(self.LK(n), *[n != f for f in fr]), *[n == h for h, c in blocks])
        return z3.Or(z3.And(self.LT(n), *[self.UF['K.array'](self.UF['T.table'](n)) != f for f in fr]), *[z3.And(self.IN(n), z3.ULT(self.IDX(n), c)) for h, c in blocks])
    def out(self, ex, st, k, v, isptr):
        if not isptr: return [(st, v)]
        v = S(v); kind = PTRKIND.get(k, 'X'); res = []
        if k in NULLABLE:
            s = st.fork()
            if ex.feasible(s, v == 0): s.branch(v == 0); res.append((s, NULL))
            if not ex.feasible(st, v != 0): return res
            st.branch(v != 0)
        if kind in 'TK': v = self.know(ex, st, kind, v)
        res.append((st, Ptr(self.reg[kind], v)))
        return res
    def field(self, kind, d, n):
        s = 'tramp' if kind == 'T' else 'tramp_table'
        for f in (T_F if kind == 'T' else K_F):
            if self.L['%s.%s' % (s, f)] == (d, n): return '%s.%s' % (kind, f)
        raise Fail('access of %d bytes at offset %d of a %s' % (n, d, s))
    def load(self, ex, st, kind, off, n, isptr):
        if kind not in 'TK': raise Fail('load from a mapping')
        w, d = self.resolve(ex, st, kind, off); k = self.field(kind, d, n); self.locked(ex, st)
        ex.ob(st, 'memory', '%s is valid when read' % ('trampoline' if kind == 'T' else 'table'), self.alive(st, kind, w))
        return self.out(ex, st, k, self.fld(st, k, w), isptr)
    def store(self, ex, st, kind, off, n, val):
        if kind == 'P': return self.store_parm(ex, st, off, n, ex.num(val))
        if kind == 'X': raise Fail('store to a mapping')
        w, d = self.resolve(ex, st, kind, off); k = self.field(kind, d, n); self.locked(ex, st)
        ex.ob(st, 'memory', '%s is valid when written' % ('trampoline' if kind == 'T' else 'table'), self.alive(st, kind, w))
        b, ups = st.mem[k]; st.mem[k] = (b, ups + ((w, ex.num(val)),)); st.wrote.add(k)
        return [st]
    def store_parm(self, ex, st, off, n, val): raise Fail('store to trampoline parameters')
    def glob(self, ex, st, name):
        if name == 'tramp_globals': return self.gr
        if name == 'ffi_tramp_arch': return Region('@' + name, z3.BitVec('&' + name, 64))
    # ------------------------------------------------------------ library
    def call(self, ex, st, name, args, ins):
        f = getattr(self, 'do_' + name, None)
        return f(ex, st, args) if f else None
    def do_pthread_mutex_lock(self, ex, st, a):
        ex.ob(st, 'lock', 'the lock taken is the trampoline lock', z3.BoolVal(isinstance(a[0], Ptr) and a[0].reg.name == '@tramp_globals_mutex' and const(a[0].off) == 0))
        ex.ob(st, 'lock', 'the lock is not acquired twice', z3.BoolVal(st.ghost['lock'] == 0)); st.ghost['lock'] = 1
        return [(st, bv(0, 32))]
    def do_pthread_mutex_unlock(self, ex, st, a):
        ex.ob(st, 'lock', 'the lock released is the trampoline lock', z3.BoolVal(isinstance(a[0], Ptr) and a[0].reg.name == '@tramp_globals_mutex' and const(a[0].off) == 0))
        ex.ob(st, 'lock', 'only a lock that is held is released', z3.BoolVal(st.ghost['lock'] == 1)); st.ghost['lock'] = 0
        return [(st, bv(0, 32))]
    def do_malloc(self, ex, st, a):
        x = S(ex.num(a[0])); n = const(x)
        if n is None: n = next((v for v in (self.KS, self.TS * self.NT) if ex.must(st, x == v)), None)
        if n is None: raise Fail('malloc of unknown size')
        s = st.fork(); h = fresh('heap')
        kind, cnt = ('K', 1) if n == self.KS else ('T', n // self.TS)
        st.pc += [h != 0, h & 15 == 0, z3.ULE(h, bv(-1) - n)]
        st.ghost['heap'] = st.ghost['heap'] + ((h, kind, cnt),)
        st.pc += [z3.Not(self.LK(h))] if kind == 'K' else []
        if kind == 'K': self.know(ex, st, 'K', h)
        # the block overlaps no live table, node array or earlier block
        st.pc += [h != x for x, _, _ in st.ghost['heap'] if x is not h]
        return [(s, NULL), (st, Ptr(self.reg[kind], h))]
    def do_calloc(self, ex, st, a):
        x, y = const(ex.num(a[0])), const(ex.num(a[1]))
        if x is None or y is None: raise Fail('calloc of unknown size')
        return self.do_malloc(ex, st, [bv(x * y)])
    def do_free(self, ex, st, a):
        p = ex.num(a[0])
        if const(p) == 0: return [(st, None)]
        for h, kd, c in st.ghost['heap']:
            if ex.must(st, p == h):
                ex.ob(st, 'memory', 'a block is freed once', z3.BoolVal(h not in st.ghost['frees']))
                st.ghost['frees'] = st.ghost['frees'] + (h,); return [(st, None)]
        self.free_old(ex, st, p); st.ghost['frees'] = st.ghost['frees'] + (p,)
        return [(st, None)]
    def free_old(self, ex, st, p): ex.ob(st, 'memory', 'only blocks that were allocated are freed', z3.BoolVal(False))
    def do_mmap(self, ex, st, a):
        addr, ln, prot, flags, fd, off = [ex.num(x) for x in a]
        s = st.fork(); s.ghost['mfail'] = 1
        if const(addr) == 0:
            r = fresh('map')
            ex.ob(st, 'pool', 'parameters are readable and writable, code table is not yet visible', z3.And(prot == 3, flags == 0x22, fd == bv(-1, 32)))
            st.pc += [r & 0xfff == 0, r != 0, z3.ULT(r, bv(-1) - ln), z3.ULE(ln, 1 << 40)]
            st.ghost['maps'] = st.ghost['maps'] + ((r, ln, 0),)
        else:
            ok = [z3.And(z3.UGE(addr, m), z3.ULE(addr - m, l), z3.ULE(ln, l - (addr - m))) for m, l, f in st.ghost['maps'] if not f]
            ex.ob(st, 'memory', 'a fixed mapping replaces only our own pages', z3.Or(*ok) if ok else z3.BoolVal(False))
            G = st.mem['G']
            ex.ob(st, 'pool', 'the code table is mapped from its place in the file, readable and executable only', z3.And(prot == 5, flags == 0x12, fd == G['fd'], off == G['offset'], ln == self.MAP))
            r = addr; st.ghost['maps'] = st.ghost['maps'] + ((r, ln, 1),)
        return [(s, Ptr(NULLR, bv(-1))), (st, Ptr(self.reg['X'], r))]
    def do_munmap(self, ex, st, a):
        st.ghost['unmaps'] = st.ghost['unmaps'] + ((ex.num(a[0]), ex.num(a[1])),)
        return [(st, fresh('ret', 32))]
    # ------------------------------------------------------------ callees under contract
    def ready(self, ex, st):
        """the state has not been touched since entry, so that it is the state of the invariant"""
        return all(not st.mem[k][1] and st.mem[k][0] is self.UF[k] for k in self.UF) and not st.ghost['kn'] and not st.ghost['tn']
    def do_ffi_tramp_init(self, ex, st, a):
        ex.ob(st, 'lock', 'initialisation runs under the lock', z3.BoolVal(st.ghost['lock'] == 1))
        if not self.ready(ex, st): raise Fail('state modified before ffi_tramp_init')
        s = st.fork(); s.ghost['initfail'] = 1; st.ghost['init'] = 1
        # the maps and G0 stand for the state after initialisation: it changes nothing that is live
        st.pc += self.consts(self.G0) + self.pre_glob() + [self.G0['status'] == self.L['TRAMP_GLOBALS_PASSED'][1], z3.ULT(self.G0['nfree_tables'], 1 << 30)]
        v = fresh('init', 32); st.pc.append(v != 0)
        return [(s, bv(0, 32)), (st, v)]
    def do_tramp_table_alloc(self, ex, st, a):
        ex.ob(st, 'lock', 'a table is allocated under the lock', z3.BoolVal(st.ghost['lock'] == 1))
        if not self.ready(ex, st): raise Fail('state modified before tramp_table_alloc')
        s = st.fork(); s.ghost['tabfail'] = 1; st.ghost['tab'] = 1
        st.pc += [self.G0['nfree_tables'] > 0]
        v = fresh('tab', 32); st.pc.append(v != 0)
        return [(s, bv(0, 32)), (st, v)]
    # ------------------------------------------------------------ exit
    def end_lock(self, ex, st):
        ex.ob(st, 'lock', 'the lock is held on exit' if self.entry_locked else 'the lock is released on every path', z3.BoolVal(st.ghost['lock'] == int(self.entry_locked)))
    def unchanged(self, ex, st, tag='pool'):
        ok = all(not st.mem[k][1] for k in self.UF)
        return z3.And(z3.BoolVal(ok), *[st.mem['G'][f] == self.G0[f] for f in self.G0])
    def no_leak(self, ex, st, tag='fault'):
        g = st.ghost
        ex.ob(st, tag, 'every heap block is released', z3.BoolVal(all(h in g['frees'] for h, _, _ in g['heap'])))
        X = z3.BitVec('page_byte', 64)
        for m, l, fx in g['maps']:
            if fx: continue
            ex.ob(st, tag, 'every mapping is released', z3.Implies(z3.ULT(X - m, l), z3.Or(*[z3.ULT(X - a, b) for a, b in g['unmaps']])) if g['unmaps'] else z3.BoolVal(False))
        for a, b in g['unmaps']:
            ex.ob(st, 'memory', 'only our own pages are unmapped', z3.Implies(z3.ULT(X - a, b), z3.Or(*[z3.ULT(X - m, l) for m, l, fx in g['maps']], self.own_page(X, st))))
        ex.ob(st, tag, 'every descriptor is closed', z3.BoolVal(not g['fds'] and not g['fp']))
    def own_page(self, X, st): return z3.BoolVal(False)
    def post_inv(self, ex, st, g, dead=None):
        """the invariant again, for arbitrary live node, pair of nodes and table; dead: a released table"""
        m = self.mapsof(st); G = st.mem['G']
        w, w2, k, k2 = z3.BitVec('any_node', 64), z3.BitVec('any_node2', 64), z3.BitVec('any_table', 64), z3.BitVec('any_table2', 64)
        s = st.fork(); u = self.UF
        for x in (w, w2): self.know(ex, s, 'T', x)
        for x in (k, k2): self.know(ex, s, 'K', x)
        for x in (u['T.next'](w), u['T.prev'](w), u['K.free'](u['T.table'](w)), u['K.free'](k)): self.know(ex, s, 'T', x)
        for x in (u['T.table'](w), u['K.next'](k), u['K.prev'](k), self.G0['free_tables']): self.know(ex, s, 'K', x)
        s0 = s
        s = s0.fork(); s.pc.append(g['live'](w))
        for n, f in self.inv_node(m, g, w): ex.ob(s, 'pool', 'invariant: trampoline ' + n, f, assume=False)
        s.pc.append(g['live'](w2))
        ex.ob(s, 'pool', 'invariant: allocated trampolines are counted once each', self.inv_pair(m, g, w, w2), assume=False)
        s = s0.fork(); s.pc.append(g['tlive'](k))
        for n, f in self.inv_table(m, g, k, G): ex.ob(s, 'pool', 'invariant: table ' + n, f, assume=False)
        s.pc.append(g['tlive'](k2))
        ex.ob(s, 'pool', 'invariant: listed tables are counted once each', self.inv_tpair(m, g, k, k2), assume=False)
        for n, f in self.inv_glob(m, g, G): ex.ob(s0, 'pool', 'invariant: ' + n, f, assume=False)
        return s0, w, k
    def frame(self, ex, st, w, allocated):
        """an allocated trampoline keeps its table, code and parameters"""
        for f in ('table', 'code', 'parm'):
            ex.ob(st, 'pool', 'other trampolines keep their %s' % f, z3.Implies(allocated, self.fld(st, 'T.' + f, w) == self.UF['T.' + f](w)), assume=False)
        for f in ('code_table', 'parm_table', 'array'):
            t = self.UF['T.table'](w)
            ex.ob(st, 'pool', 'tables keep their %s' % f, z3.Implies(allocated, self.fld(st, 'K.' + f, t) == self.UF['K.' + f](t)), assume=False)

class Alloc(Tramp):
    """ffi_tramp_alloc (flags)"""
    def setup(self, ex):
        st = self.base(ex); self.flags = z3.BitVec('flags', 32)
        return [(st, [self.flags])]
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st); p = ex.num(v)
        if v is NULL or const(p) == 0:
            ex.ob(st, 'fault', 'fails only if initialisation or a new table failed or flags are not supported', z3.Or(z3.BoolVal(bool(st.ghost.get('initfail') or st.ghost.get('tabfail'))), self.flags != 0))
            ex.ob(st, 'fault', 'a failed allocation changes nothing', self.unchanged(ex, st)); self.no_leak(ex, st); return
        ex.ob(st, 'pool', 'unsupported flags are refused', self.flags == 0)
        m = self.mapsof(st); t = self.UF['T.table'](p)
        ex.ob(st, 'pool', 'the trampoline handed out was free', z3.And(self.LT(p), self.FREE(p)))
        self.know(ex, st, 'K', t)
        nf = m('K.nfree', t)
        g = self.g0()
        g['free'] = lambda n: z3.And(self.FREE(n), n != p)
        g['apos'] = lambda n: z3.If(n == p, self.NT - nf, self.APOS(n))
        # a table without free trampolines leaves the list
        g['tpos'] = lambda k: z3.If(z3.And(nf == 0, self.TPOS(k) > self.TPOS(t)), self.TPOS(k) - 1, self.TPOS(k))
        s, w, k = self.post_inv(ex, st, g)
        self.frame(ex, s, w, self.LT(w))
        ex.ob(s, 'pool', 'nothing is released', z3.BoolVal(not st.ghost['unmaps'] and not st.ghost['frees']))
        # so its code and parameters are apart from those of every allocated trampoline
        s = s.fork(); tw = self.UF['T.table'](w); u = self.maps0()
        s.pc += [self.LT(w), z3.Not(self.FREE(w)), self.LK(t), self.apart(u, t, tw)]
        ex.ob(s, 'pool', 'the trampoline handed out is not an allocated one', p != w)
        slot = lambda n, tt: z3.And(z3.ULT(self.IDX(n), self.NT), n == m('K.array', tt) + self.TS * self.IDX(n), m('T.code', n) == m('K.code_table', tt) + self.SZ * self.IDX(n),
            m('T.parm', n) == m('K.code_table', tt) + self.MAP + self.SZ * self.IDX(n))
        facts = z3.And(p != w, slot(p, t), slot(w, tw))
        ex.ob(s, 'pool', 'both trampolines have the slots of their index', facts, assume=False)
        for f, n in (('code', self.SZ), ('parm', self.L['tramp_parm.'][1])):
            # what follows needs these facts only
            x, y = fresh(f), fresh(f); i, j, c1, c2 = fresh('i'), fresh('j'), fresh('table_at'), fresh('table_at')
            for same in (True, False):
                q = State(); q.trail = s.trail
                o = 0 if f == 'code' else self.MAP
                q.pc = [z3.ULT(i, self.NT), z3.ULT(j, self.NT), x == c1 + o + self.SZ * i, y == c2 + o + self.SZ * j, z3.ULE(c1, bv(-1) - 2 * self.MAP), z3.ULE(c2, bv(-1) - 2 * self.MAP)]
                q.pc += [c1 == c2, i != j] if same else [z3.Or(z3.ULE(c1 + 2 * self.MAP, c2), z3.ULE(c2 + 2 * self.MAP, c1))]
                s2 = s.fork(); s2.pc.append(t == tw if same else t != tw)
                ex.ob(s2, 'pool', '%s: the premises hold' % f, z3.substitute(z3.And(*q.pc), (i, self.IDX(p)), (j, self.IDX(w)), (c1, m('K.code_table', t)), (c2, m('K.code_table', tw)), (x, m('T.' + f, p)), (y, m('T.' + f, w))), assume=False)
                ex.ob(q, 'pool', 'code addresses of allocated trampolines are distinct' if f == 'code' else 'parameters of allocated trampolines are disjoint', z3.Or(z3.ULE(x + n, y), z3.ULE(y + n, x)), assume=False)

class Free(Tramp):
    """ffi_tramp_free (trampoline)"""
    def setup(self, ex):
        st = self.base(ex)
        p = self.p = z3.BitVec('tramp', 64)
        st.pc += self.consts(self.G0) + self.pre_glob() + [self.G0['status'] == self.L['TRAMP_GLOBALS_PASSED'][1], z3.ULT(self.G0['nfree_tables'], 1 << 30)]
        self.know(ex, st, 'T', p); self.t = self.know(ex, st, 'K', self.UF['T.table'](p))
        st.pc += [self.LT(p), z3.Not(self.FREE(p))]
        return [(st, [Ptr(self.reg['T'], p)])]
    def free_old(self, ex, st, q):
        ex.ob(st, 'memory', 'only the blocks of one table are freed, each once', z3.And(z3.Or(q == self.t, q == self.UF['K.array'](self.t)), *[q != x for x in st.ghost['frees']]))
    def own_page(self, X, st): return z3.ULT(X - self.UF['K.code_table'](self.t), 2 * self.MAP)
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st); p, t = self.p, self.t; m = self.mapsof(st); g0 = self.g0(); gh = st.ghost
        nf = m('K.nfree', t); nf0 = self.UF['K.nfree'](t)
        g = dict(g0)
        g['free'] = lambda n: z3.Or(self.FREE(n), n == p)
        g['pos'] = lambda n: z3.If(n == p, nf0 + 1, self.POS(n))
        g['apos'] = lambda n: z3.If(z3.And(self.UF['T.table'](n) == t, self.APOS(n) > self.APOS(p)), self.APOS(n) - 1, self.APOS(n))
        tp = lambda k: z3.If(z3.And(k == t, nf0 == 0), self.G0['nfree_tables'] + 1, self.TPOS(k))
        if gh['frees'] or gh['unmaps']:
            # the whole table is released: none of its trampolines may be allocated
            w = z3.BitVec('any_node', 64); s = st.fork(); self.know(ex, s, 'T', w)
            s.pc += [self.LT(w), self.UF['T.table'](w) == t]
            ex.ob(s, 'pool', 'a table is released only when none of its trampolines is allocated', g['free'](w), assume=False)
            X = z3.BitVec('page_byte', 64)
            for x in (t, self.UF['K.array'](t)): ex.ob(st, 'fault', 'a released table gives back its heap blocks', z3.Or(*[q == x for q in gh['frees']]) if gh['frees'] else z3.BoolVal(False))
            ex.ob(st, 'fault', 'a released table gives back its whole mapping', z3.Implies(z3.ULT(X - self.UF['K.code_table'](t), 2 * self.MAP), z3.Or(*[z3.ULT(X - a, b) for a, b in gh['unmaps']])) if gh['unmaps'] else z3.BoolVal(False))
            for a, b in gh['unmaps']: ex.ob(st, 'memory', 'only pages of the released table are unmapped', z3.Implies(z3.ULT(X - a, b), self.own_page(X, st)))
            g['live'] = lambda n: z3.And(self.LT(n), self.UF['T.table'](n) != t)
            g['tlive'] = lambda k: z3.And(self.LK(k), k != t)
            g['tpos'] = lambda k: z3.If(tp(k) > tp(t), tp(k) - 1, tp(k))
            s, w, k = self.post_inv(ex, st, g)
            ex.ob(st, 'fault', 'one table with free trampolines is kept', st.mem['G']['nfree_tables'] >= 1)
            self.frame(ex, s, w, z3.And(self.LT(w), z3.Not(self.FREE(w)), w != p))
            return
        g['tpos'] = tp
        s, w, k = self.post_inv(ex, st, g)
        self.frame(ex, s, w, self.LT(w))
        ex.ob(st, 'pool', 'the trampoline can be handed out again', nf == nf0 + 1)

class Access(Tramp):
    """ffi_tramp_set_parms (trampoline, target, data) and ffi_tramp_get_addr (trampoline)"""
    def __init__(self, setp): self.setp = setp
    def setup(self, ex):
        st = self.base(ex); p = self.p = z3.BitVec('tramp', 64)
        st.pc += self.consts(self.G0) + self.pre_glob() + [self.G0['status'] == self.L['TRAMP_GLOBALS_PASSED'][1]]
        self.know(ex, st, 'T', p); st.pc += [self.LT(p), z3.Not(self.FREE(p))]
        self.tgt, self.dat = FnRegion('target', base=z3.BitVec('target', 64), frame_tag='pool'), FnRegion('data', base=z3.BitVec('data', 64), frame_tag='pool')
        st.ghost['parm'] = ()
        return [(st, [Ptr(self.reg['T'], p)] + ([Ptr(self.tgt, 0), Ptr(self.dat, 0)] if self.setp else []))]
    def store_parm(self, ex, st, off, n, val):
        d = const(S(off - self.UF['T.parm'](self.p)))
        if d is None: d = next((o for o in (0, 8) if ex.must(st, off == self.UF['T.parm'](self.p) + o)), None)
        ex.ob(st, 'pool', "only this trampoline's own parameters are written", z3.BoolVal(self.setp and d in (0, 8) and n == 8))
        st.ghost['parm'] = st.ghost['parm'] + ((d, val),)
        return [st]
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st)
        ex.ob(st, 'pool', 'the lists are left alone', self.unchanged(ex, st)); self.no_leak(ex, st)
        if self.setp:
            d = dict(st.ghost['parm'])
            # the places the trampoline code (unit asm_tramp) reads
            ex.ob(st, 'bind', 'the trampoline is given its data and its target', z3.And(d[0] == self.dat.base, d[8] == self.tgt.base) if 0 in d and 8 in d else z3.BoolVal(False))
        else: ex.ob(st, 'bind', 'the address is that of this trampoline', ex.num(v) == self.UF['T.code'](self.p))

class Supported(Tramp):
    """ffi_tramp_is_supported ()"""
    def setup(self, ex): return [(self.base(ex), [])]
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st); self.no_leak(ex, st)
        ex.ob(st, 'pool', 'the lists are left alone', self.unchanged(ex, st))
        ex.ob(st, 'pool', 'supported iff initialisation succeeded', (v != 0) == z3.BoolVal(bool(st.ghost.get('init'))))

class TableAlloc(Tramp):
    """tramp_table_alloc (): called under the lock, during initialisation or after it"""
    entry_locked = True
    def setup(self, ex):
        st = self.base(ex)
        st.pc += self.consts(self.G0) + self.pre_glob() + [z3.ULT(self.G0['nfree_tables'], 1 << 30)]
        self.J = z3.ZeroExt(32, z3.BitVec('any_index', 32)); st.pc.append(z3.ULT(self.J, self.NT))
        self.w = z3.BitVec('any_node', 64); self.k = z3.BitVec('any_table', 64)
        return [(st, [])]
    def tab(self, st): return next((h for h, kd, _ in reversed(st.ghost['heap']) if kd == 'K'), None)
    def arr(self, st): return next((h for h, kd, _ in reversed(st.ghost['heap']) if kd == 'T'), None)
    def forms(self, st, N):
        """state after N trampolines have been added, as maps over the index j < N / fields of the table"""
        A, T = self.arr(st), self.tab(st); m = self.mapsof(st)
        ct, pt = st.ghost['ct'], st.ghost['pt']
        node = {'T.next': lambda j: z3.If(j == 0, bv(0), A + self.TS * (j - 1)), 'T.prev': lambda j: z3.If(j == N - 1, bv(0), A + self.TS * (j + 1)), 'T.table': lambda j: T,
                'T.code': lambda j: ct + self.SZ * j, 'T.parm': lambda j: pt + self.SZ * j}
        tab = {'K.free': z3.If(N == 0, bv(0), A + self.TS * (N - 1)), 'K.nfree': z3.Extract(31, 0, N), 'K.next': bv(0), 'K.prev': bv(0)}
        return node, tab
    def isloop(self, st): return 'base' in st.ghost or (self.tab(st) is not None and self.arr(st) is not None)
    def enter(self, st):
        if 'base' not in st.ghost:
            T = self.tab(st)
            st.ghost['base'] = {k: st.mem[k] for k in self.UF}; st.ghost['baseG'] = st.mem['G']
            st.ghost['ct'], st.ghost['pt'] = self.fld(st, 'K.code_table', T), self.fld(st, 'K.parm_table', T)
    def unfold(self, ex, st, N, loop):
        if not self.isloop(st): return []
        self.enter(st); out = []
        if loop in ex.cutloops or True:
            s = st
            for i in (N, N - 1, self.J, self.J - 1, self.J + 1):
                h = self.arr(st); n = S(h + self.TS * i)
                out.append(z3.Implies(z3.ULT(i, self.NT), z3.And(self.IN(n), self.IDX(n) == i, z3.Not(self.LT(n)))))
        return out
    def havoc_ghost(self, ex, st, k):
        N = self.loopN; node, tab = self.forms(st, N); T = self.tab(st); b, ups = st.ghost['base'][k] if k != 'G' else (None, None)
        pre = lambda w: self.fld_of((b, ups), w)
        if k in node:
            st.mem[k] = ((lambda w: z3.If(z3.And(self.IN(w), z3.ULT(self.IDX(w), N)), node[k](self.IDX(w)), pre(w))), ())
        elif k in tab:
            st.mem[k] = ((lambda w: z3.If(z3.And(w == T, N != 0), tab[k], pre(w))), ())
        elif k == 'G':
            G = dict(st.ghost['baseG'])
            G['free_tables'] = z3.If(N == 0, G['free_tables'], T); G['nfree_tables'] = z3.If(N == 0, G['nfree_tables'], bv(1, 32)); st.mem['G'] = G
        else: raise Fail('the loop that fills a table changes %s' % k)
    def fld_of(self, bu, w):
        v = bu[0](w)
        for a, x in bu[1]: v = z3.If(w == a, x, v)
        return v
    def cands(self, ex, st, N, loop):
        if not self.isloop(st): return []
        self.enter(st)
        node, tab = self.forms(st, N); A, T = self.arr(st), self.tab(st); base = st.ghost['base']; J = self.J
        w = S(A + self.TS * J); out = [('at most as many as the table holds', z3.ULE(N, self.NT))]
        for k in node: out.append(('!trampolines added so far: ' + k, z3.If(z3.ULT(J, N), self.fld(st, k, w) == node[k](J), self.fld(st, k, w) == self.fld_of(base[k], w))))
        for k in tab: out.append(('!table being filled: ' + k, self.fld(st, k, T) == z3.If(N == 0, self.fld_of(base[k], T), tab[k])))
        for k in self.UF:
            x = self.w if k[0] == 'T' else self.k
            lv = (self.LT if k[0] == 'T' else self.LK)(x)
            out.append(('!live objects keep ' + k, z3.Implies(z3.And(lv, z3.Not(self.IN(x)), x != T), self.fld(st, k, x) == self.fld_of(base[k], x))))
        G, b = st.mem['G'], st.ghost['baseG']
        for f in G: out.append(('!globals: ' + f, G[f] == (z3.If(N == 0, b[f], T if f == 'free_tables' else bv(1, 32)) if f in ('free_tables', 'nfree_tables') else b[f])))
        return out
    def accs(self, ex, st, N, loop): return {'size*N': S(N * self.SZ)} if self.isloop(st) else {}
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st); g = st.ghost
        r = v != 0
        if not g['heap'] and not g['maps']:
            ex.ob(st, 'pool', 'nothing changes unless a table is needed', self.unchanged(ex, st))
            # 1: a table with a free trampoline exists already; 0: no memory
            ex.ob(st, 'pool', 'reports whether a table with free trampolines exists', r == (self.G0['nfree_tables'] > 0)); return
        kept = [h for h, _, _ in g['heap'] if h not in g['frees']]
        if const(v) == 0 or (const(v) is None and not ex.feasible(st, r)):
            self.no_leak(ex, st)
            ex.ob(st, 'fault', 'a failed allocation changes nothing that is visible', z3.And(*[st.mem['G'][f] == self.G0[f] for f in self.G0]))
            for k in self.UF:
                x = self.w if k[0] == 'T' else self.k
                s = st.fork(); s.pc += [self.LT(x) if k[0] == 'T' else self.LK(x)]
                ex.ob(s, 'fault', 'a failed allocation leaves live trampolines alone', self.fld(s, k, x) == self.UF[k](x), assume=False)
            return
        ex.ob(st, 'pool', 'success is reported', r)
        A, T = self.arr(st), self.tab(st); m = self.mapsof(st); G = st.mem['G']; u = self.UF
        ex.ob(st, 'fault', 'exactly the blocks and the mapping of the new table are kept', z3.BoolVal(len(kept) == 2 and len([1 for _, _, f in g['maps'] if not f]) == 1 and not g['unmaps'] and not g['frees']))
        if len(kept) != 2: return
        map_, ln, _ = [x for x in g['maps'] if not x[2]][0]; fx = [x for x in g['maps'] if x[2]]
        ex.ob(st, 'pool', 'code and parameters of the table lie in its mapping', z3.And(m('K.code_table', T) == map_, ln == 2 * self.MAP, m('K.parm_table', T) == map_ + self.MAP, z3.BoolVal(len(fx) == 1), fx[0][0] == map_ if fx else z3.BoolVal(True)))
        # the new table satisfies the invariant, with rank index + 1
        J = self.J; w = S(A + self.TS * J); nt = self.NT
        s = st.fork(); wn = self.elem(ex, s, A, J)
        for i in (J - 1, J + 1, bv(nt - 1), bv(0)): self.elem(ex, s, A, S(i))
        gg = dict(live=lambda n: z3.Or(self.LT(n), z3.And(self.IN(n), z3.ULT(self.IDX(n), nt))), tlive=lambda k: z3.Or(self.LK(k), k == T), free=lambda n: z3.If(self.IN(n), True, self.FREE(n)),
                  pos=lambda n: z3.If(self.IN(n), z3.Extract(31, 0, self.IDX(n)) + 1, self.POS(n)), apos=self.APOS, tpos=lambda k: z3.If(k == T, bv(1, 32), self.TPOS(k)))
        for n, f in self.inv_node(m, gg, wn): ex.ob(s, 'pool', 'new table: trampoline ' + n, f, assume=False)
        for n, f in self.inv_table(m, gg, T, G): ex.ob(s, 'pool', 'new table: table ' + n, f, assume=False)
        for n, f in self.inv_glob(m, gg, G): ex.ob(s, 'pool', 'new table: ' + n, f, assume=False)
        s.pc.append(self.LK(self.k)); self.know(ex, s, 'K', self.k)
        ex.ob(s, 'pool', 'new table: listed tables are counted once each', self.inv_tpair(m, gg, T, self.k), assume=False)
        # everything that was live is as before; no table was listed before
        s = st.fork(); self.know(ex, s, 'T', self.w); self.know(ex, s, 'K', self.k)
        s.pc += [z3.Implies(self.LT(self.w), z3.Not(self.IN(self.w))), self.LT(self.w), self.LK(self.k)]
        for k in u:
            x = self.w if k[0] == 'T' else self.k
            ex.ob(s, 'pool', 'live trampolines and tables keep their fields', self.fld(s, k, x) == u[k](x), assume=False)
        ex.ob(s, 'pool', 'a table is added only when no listed table exists', u['K.nfree'](self.k) == 0, assume=False)
        for f in G:
            if f not in ('free_tables', 'nfree_tables'): ex.ob(st, 'pool', 'other globals are unchanged', G[f] == self.G0[f])

class Init(Tramp):
    """ffi_tramp_init (): called under the lock"""
    unbounded = True
    entry_locked = True
    def setup(self, ex):
        st = self.base(ex); self.U, self.P, self.Fl = [self.L['TRAMP_GLOBALS_' + x][1] for x in ('UNINITIALIZED', 'PASSED', 'FAILED')]
        s0 = self.G0['status']
        st.pc += [z3.Or(s0 == self.U, s0 == self.P, s0 == self.Fl)]
        # static storage starts as zero; later states are those this function leaves behind
        st.pc += [z3.Implies(s0 != self.P, z3.And(self.G0['free_tables'] == 0, self.G0['nfree_tables'] == 0))]
        return [(st, [])]
    # trusted library functions
    def do_ffi_tramp_arch(self, ex, st, a):
        for p, v in ((a[0], self.SZ), (a[1], self.MAP)):
            [st] = p.reg.store(ex, st, p.off, 8, bv(v))
        return [(st, Ptr(self.reg['X'], z3.BitVec('&trampoline_code_table', 64)))]
    def do_sysconf(self, ex, st, a): return [(st, fresh('page_size', 64))]
    def do_getpid(self, ex, st, a): return [(st, fresh('pid', 32))]
    def do_snprintf(self, ex, st, a): return [(st, fresh('n', 32))]
    def do_fopen(self, ex, st, a):
        s = st.fork(); h = ex_region('FILE%d' % len(st.ghost['fp'])); st.ghost['fp'] = st.ghost['fp'] + (h.name,); st.pc.append(h.base != 0)
        return [(s, NULL), (st, Ptr(h, 0))]
    def file(self, ex, st, p): ex.ob(st, 'fault', 'the file is open when it is used', z3.BoolVal(isinstance(p, Ptr) and p.reg.name in st.ghost['fp']))
    def do_feof(self, ex, st, a): self.file(ex, st, a[0]); return [(st, fresh('eof', 32))]
    def do_fgets(self, ex, st, a):
        self.file(ex, st, a[2]); n = const(ex.num(a[1])); p = ex.asptr(st, a[0])
        ex.bounds(st, p.reg, p.off, n if n is not None else 1 << 30, 'write')
        return [(st.fork(), NULL), (st, p)]
    def do_fclose(self, ex, st, a):
        self.file(ex, st, a[0]); st.ghost['fp'] = tuple(x for x in st.ghost['fp'] if x != a[0].reg.name); return [(st, fresh('r', 32))]
    def do_sscanf(self, ex, st, a):
        for p in a[2:]:
            p = ex.asptr(st, p); n = const(p.reg.size)
            if n == 8: [st] = p.reg.store(ex, st, p.off, 8, fresh('field'))
        return [(st, fresh('nfields', 32))]
    do___isoc23_sscanf = do___isoc99_sscanf = do_sscanf
    # a buffer to compare the file with
    def do_malloc(self, ex, st, a):
        n = ex.num(a[0]); s = st.fork(); h = fresh('buffer'); st.pc += [h != 0, h & 15 == 0, z3.ULE(h, bv(-1) - n)]
        st.ghost['heap'] = st.ghost['heap'] + ((h, 'B', n),)
        return [(s, NULL), (st, Ptr(FnRegion('buffer', base=h, frame_tag='fault'), 0))]
    def do_pread(self, ex, st, a):
        fd, p, n, off = [ex.num(x) for x in a]; r = fresh('count')
        st.pc += [r >= -1, z3.Implies(r >= 0, z3.ULE(r, n))]
        b = next(((h, l) for h, k, l in st.ghost['heap'] if k == 'B' and h not in st.ghost['frees'] and ex.must(st, p == h)), None)
        if b is None: raise Fail('pread to an unknown buffer')
        ex.ob(st, 'memory', 'the file is read into the buffer', z3.ULE(n, b[1]))
        st.ghost['read'] = (fd, off, b[0], r)
        return [(st, r)]
    do_pread64 = do_pread
    def do_memcmp(self, ex, st, a):
        x, y, n = [ex.num(v) for v in a]; c = st.ghost.get('read')
        if c is None: raise Fail('memcmp without a file')
        if not ex.must(st, x == c[2]): x, y = y, x
        ex.ob(st, 'memory', 'what is compared was read from the file', z3.And(x == c[2], c[3] >= 0, z3.ULE(n, c[3])))
        ex.ob(st, 'memory', 'the code table is compared within its bounds', z3.And(y == z3.BitVec('&trampoline_code_table', 64), z3.ULE(n, self.MAP)))
        s = st.fork(); st.ghost['same'] = (c[0], c[1], y, n); v = fresh('differ', 32); s.pc.append(v != 0)
        return [(s, v), (st, bv(0, 32))]
    do_bcmp = do_memcmp
    def do_open(self, ex, st, a):
        s = st.fork(); fd = fresh('fd', 32); st.pc.append(fd >= 0); st.ghost['fds'] = st.ghost['fds'] + (fd,)
        st.ghost['src'] = (fd, 'lib')
        return [(s, bv(-1, 32)), (st, fd)]
    def do_open_temp_exec_file(self, ex, st, a):
        s = st.fork(); fd = fresh('tfd', 32); st.pc.append(fd >= 0); st.ghost['fds'] = st.ghost['fds'] + (fd,); st.ghost['src'] = (fd, 'tmp')
        return [(s, bv(-1, 32)), (st, fd)]
    def do_write(self, ex, st, a):
        r = fresh('written'); fd, buf, n = [ex.num(x) for x in a]
        st.pc += [r >= -1, z3.Implies(r >= 0, z3.ULE(r, n)), z3.Implies(fd == bv(-1, 32), r == -1)]
        st.ghost['written'] = (fd, buf, r, n)
        return [(st, r)]
    def do_close(self, ex, st, a):
        fd = ex.num(a[0])
        for x in st.ghost['fds']:
            if ex.must(st, fd == x): st.ghost['fds'] = tuple(y for y in st.ghost['fds'] if y is not x); return [(st, fresh('r', 32))]
        ex.ob(st, 'fault', 'a descriptor is closed once', fd == bv(-1, 32))
        return [(st, bv(-1, 32))]
    def do_tramp_table_alloc(self, ex, st, a):
        G = st.mem['G']; src = st.ghost.get('src'); self.tried = True
        ex.ob(st, 'lock', 'a table is allocated under the lock', z3.BoolVal(st.ghost['lock'] == 1))
        ex.ob(st, 'pool', 'table geometry is that of the code table', z3.And(*self.consts(G)))
        ex.ob(st, 'pool', 'no table exists yet', z3.And(G['free_tables'] == 0, G['nfree_tables'] == 0))
        ex.ob(st, 'pool', 'the trampoline file is open', z3.And(z3.BoolVal(src is not None and any(src[0] is x for x in st.ghost['fds'])), G['fd'] == (src[0] if src else 0)))
        if src and src[1] == 'lib':
            c = st.ghost.get('same')
            ex.ob(st, 'bind', 'the file holds the whole code table at the offset', z3.And(c[0] == src[0], c[1] == G['offset'], c[2] == G['text'], c[3] == self.MAP) if c else z3.BoolVal(False))
        elif src:
            w = st.ghost.get('written')
            ex.ob(st, 'bind', 'the temporary file holds the whole code table', z3.And(w[0] == src[0], w[1] == G['text'], w[2] == self.MAP, G['offset'] == 0) if w else z3.BoolVal(False))
        s = st.fork(); v = fresh('tab', 32)
        d = dict(G); d['free_tables'] = fresh('new_table'); d['nfree_tables'] = bv(1, 32); st.mem['G'] = d; st.wrote.add('G'); st.ghost['built'] = 1
        st.pc += [v != 0, d['free_tables'] != 0]
        return [(s, bv(0, 32)), (st, v)]
    def havoc_ghost(self, ex, st, k):
        if k != 'G': raise Fail('loop changes %s' % k)
        # only the file offset is computed inside a loop
        d = dict(st.mem['G']); d['offset'] = fresh('offset'); st.mem['G'] = d
    def cands(self, ex, st, N, loop):
        if 'pg' not in st.ghost: st.ghost['pg'] = st.mem['G']
        return [('!globals other than the offset: ' + f, st.mem['G'][f] == st.ghost['pg'][f]) for f in st.mem['G'] if f != 'offset']
    def on_ret(self, ex, st, v):
        self.end_lock(ex, st); G = st.mem['G']; g = st.ghost; s0 = self.G0['status']
        ex.ob(st, 'pool', 'a successful or failed initialisation is final', z3.Implies(s0 != self.U, z3.And(self.unchanged(ex, st), (v != 0) == (s0 == self.P))))
        ex.ob(st, 'fault', 'the memory map is closed again', z3.BoolVal(not g['fp']))
        ex.ob(st, 'fault', 'every heap block is released', z3.BoolVal(all(h in g['frees'] for h, _, _ in g['heap'])))
        ex.ob(st, 'pool', 'no trampoline or table is touched', z3.BoolVal(all(not st.mem[k][1] for k in self.UF)))
        s = st.fork(); s.pc.append(s0 == self.U)
        if not ex.feasible(st, s0 == self.U): return
        ex.ob(s, 'pool', 'success is recorded', (v != 0) == (G['status'] == self.P))
        ok = S(v != 0)
        if g.get('built'):
            ex.ob(s, 'fault', 'the file of a built table stays open', z3.And(ok, z3.BoolVal(len(g['fds']) == 1), G['fd'] == g['fds'][0] if g['fds'] else z3.BoolVal(False)))
            ex.ob(s, 'pool', 'geometry recorded', z3.And(*self.consts(G)))
        else:
            ex.ob(s, 'fault', 'failure is reported', z3.Not(ok))
            ex.ob(s, 'fault', 'no file stays open', z3.BoolVal(not g['fds']))
            ex.ob(s, 'fault', 'no table is recorded', z3.And(G['free_tables'] == 0, G['nfree_tables'] == 0))

def ex_region(name): return FnRegion(name, base=z3.BitVec('&' + name, 64), frame_tag='fault')
