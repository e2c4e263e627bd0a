"""Deductive verifier: path-wise weakest-precondition style symbolic execution
of LLVM IR under function contracts, obligations discharged by an SMT solver.

Unbounded loops are cut at the header: everything the body may change is
havocked, an invariant (inferred from templates over a ghost iteration counter
and the contract's ghost recurrences, and checked inductive on every run) is
assumed, and the body is required to re-establish it.  Loops whose trip count
is bounded on every path are unrolled completely, with the solver proving that
no further iteration is feasible.  Calls are replaced by the callee's contract.
"""
import z3, time, os
from . import ir
from .ir import Unsupported

B64 = z3.BitVecSort(64); B8 = z3.BitVecSort(8)
def bv(v, w=64): return z3.BitVecVal(v, w)
_fresh = [0]
DEBUG = os.environ.get('VF_DEBUG')
def fresh(name, w=64):
    _fresh[0] += 1
    return z3.BitVec('%s!%d' % (name, _fresh[0]), w)
def freshb(name):
    _fresh[0] += 1
    return z3.Bool('%s!%d' % (name, _fresh[0]))
def S(x): return z3.simplify(x)
def const(x):
    """python int if x is a constant bit-vector else None"""
    if isinstance(x, int): return x
    if z3.is_bv_value(x): return x.as_long()
    y = z3.simplify(x)
    return y.as_long() if z3.is_bv_value(y) else None
def align_up(v, a):
    """spec function: least multiple of a (a power of two) that is >= v"""
    return (v + a - 1) & ~(a - 1)
def zx(x, w=64):
    n = x.size()
    return x if n == w else z3.ZeroExt(w - n, x) if n < w else z3.Extract(w - 1, 0, x)
def sx(x, w=64):
    n = x.size()
    return x if n == w else z3.SignExt(w - n, x) if n < w else z3.Extract(w - 1, 0, x)
def bytes_to_int(bs):
    return bs[0] if len(bs) == 1 else z3.Concat(*reversed(bs))

BB = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'ackermannize_bv', 'bit-blast', 'aig', 'sat')

class Fail(Exception):
    """structural failure: the function cannot be verified as it stands"""

class Stop(Exception): pass

# --------------------------------------------------------------- regions
class Ptr:
    __slots__ = ('reg', 'off')
    def __init__(self, reg, off=0):
        self.reg = reg; self.off = bv(off) if isinstance(off, int) else off
    def num(self): return S(self.reg.base + self.off)
    def __repr__(self): return '<%s+%s>' % (self.reg.name, self.off)

class Region:
    kind = 'opaque'; readonly = False
    def __init__(self, name, base=None, size=None):
        self.name = name; self.key = name
        self.base = z3.BitVec('&' + name, 64) if base is None else base
        self.size = bv(size) if isinstance(size, int) else size
    def load(self, ex, st, off, n, isptr): raise Fail('load through %s' % self.name)
    def store(self, ex, st, off, n, val): raise Fail('store through %s' % self.name)
    def byte(self, ex, st, off): raise Fail('byte of %s' % self.name)
    def havoc(self, ex, st): pass
    def facts(self): return []

class NullRegion(Region):
    def load(self, ex, st, off, n, isptr):
        ex.ob(st, 'memory', 'no null/wild pointer dereference', z3.BoolVal(False)); raise Stop()
    def store(self, ex, st, off, n, val):
        ex.ob(st, 'memory', 'no null/wild pointer dereference', z3.BoolVal(False)); raise Stop()
    def byte(self, ex, st, off):
        ex.ob(st, 'memory', 'no null/wild pointer dereference', z3.BoolVal(False)); raise Stop()
NULLR = NullRegion('null', bv(0), 0)
NULL = Ptr(NULLR, 0)

class CellRegion(Region):
    """fixed-layout object; content addressed by concrete byte offsets"""
    kind = 'cells'
    def __init__(self, name, size, readonly=False, base=None, frame_tag='frame', volatile=()):
        Region.__init__(self, name, base, size); self.readonly = readonly; self.frame_tag = frame_tag
        self.volatile = volatile
    def cells(self, st): return st.mem.setdefault(self.key, {})
    def offs(self, ex, st, off, n):
        c = const(off)
        if c is not None: return [(st, c)]
        vals = ex.enumerate(st, off, 70)
        out = []
        for v in vals:
            s2 = st.fork(); s2.branch(off == v); out.append((s2, v))
        return out
    def init(self, st, off, n, val):
        c = dict(self.cells(st)); c[off] = (n, val); st.mem[self.key] = c
    def uniform(self, ex, st, off, n):
        """small array of n-byte integers accessed at a symbolic, aligned offset:
        the cell offsets to select from (no case split needed)"""
        sz = const(self.size)
        if const(off) is not None or sz is None or n not in (4, 8) or sz > 64 or sz % n: return None
        c = self.cells(st)
        for o, (k, v) in c.items():
            if k != n or o % n or isinstance(v, Ptr): return None
        if not ex.must(st, z3.Extract(n.bit_length() - 2, 0, off) == 0): return None
        return range(0, sz, n)
    def load(self, ex, st, off, n, isptr):
        ex.bounds(st, self, off, n, 'read')
        out = []
        u = None if isptr else self.uniform(ex, st, off, n)
        if u is not None:
            r = None
            for o in u:
                v = self.load1(ex, st, o, n, False)
                r = v if r is None else z3.If(off == o, v, r)
            return [(st, S(r))]
        for s, o in self.offs(ex, st, off, n):
            out.append((s, self.load1(ex, s, o, n, isptr)))
        return out
    def load1(self, ex, st, o, n, isptr):
        c = self.cells(st)
        if o in c and c[o][0] == n: v = c[o][1]
        elif not any(k < o + n and o < k + cv[0] for k, cv in c.items()):
            v = fresh(self.name + '.u%d_' % o, 8 * n); self.init(st, o, n, v)
        else:
            bs = [self.byte1(ex, st, o + i) for i in range(n)]
            v = S(bytes_to_int(bs))
        if isptr and not isinstance(v, Ptr): v = ex.toptr(st, v)
        if not isptr and isinstance(v, Ptr): v = v.num()
        return v
    def byte1(self, ex, st, o):
        c = self.cells(st)
        for k in range(o, max(-1, o - 17), -1):
            if k in c and k + c[k][0] > o:
                v = c[k][1]
                if isinstance(v, Ptr): v = v.num()
                i = o - k
                return S(z3.Extract(8 * i + 7, 8 * i, v))
        f = fresh(self.name + '.u%d_' % o, 8)
        self.init(st, o, 1, f)
        return f
    def byte(self, ex, st, off):
        c = const(off)
        if c is not None: return self.byte1(ex, st, c)
        n = const(self.size)
        if n is None or n > 256: raise Fail('symbolic byte read of big ' + self.name)
        r = self.byte1(ex, st, 0)
        for i in range(1, n): r = z3.If(off == i, self.byte1(ex, st, i), r)
        return r
    def store(self, ex, st, off, n, val):
        ex.bounds(st, self, off, n, 'write')
        if self.readonly:
            ex.ob(st, self.frame_tag, '%s is not modified' % self.name, z3.BoolVal(False))
        out = []
        u = None if isinstance(val, Ptr) else self.uniform(ex, st, off, n)
        if u is not None:
            for o in u:
                self.store1(ex, st, o, n, S(z3.If(off == o, val, self.load1(ex, st, o, n, False))))
            return [st]
        for s, o in self.offs(ex, st, off, n):
            self.store1(ex, s, o, n, val); out.append(s)
        return out
    def store1(self, ex, st, o, n, val):
        c = dict(self.cells(st))
        for k in list(c):
            kn, kv = c[k]
            if k < o + n and o < k + kn and not (k == o and kn == n):
                if k >= o and k + kn <= o + n: del c[k]
                else:
                    if isinstance(kv, Ptr): kv = kv.num()
                    del c[k]
                    for i in range(kn):
                        if not (o <= k + i < o + n): c[k + i] = (1, S(z3.Extract(8*i+7, 8*i, kv)))
        c[o] = (n, val); st.mem[self.key] = c
        st.wrote.add(self.key)
    def havoc(self, ex, st): st.mem[self.key] = {}

class WRegion(Region):
    """object of any size whose content is tracked at one arbitrary (skolem)
    byte offset: what is proved for it holds for every byte"""
    kind = 'witness'
    def __init__(self, name, size, A=None, base=None):
        Region.__init__(self, name, base, size)
        self.A = A if A is not None else z3.BitVec('A_' + name, 64)
        self.unk = z3.BitVec('u_' + name, 8)
    def val(self, st): return st.mem.get(self.key, self.unk)
    def load(self, ex, st, off, n, isptr):
        ex.bounds(st, self, off, n, 'read')
        v = fresh(self.name + '.ld', 8 * n)
        d = self.A - off
        ex_b = z3.Extract(7, 0, z3.LShR(zx(v, max(64, 8*n)), zx(d, max(64, 8*n)) * 8))
        st.pc.append(z3.Implies(z3.ULT(d, n), ex_b == self.val(st)))
        return [(st, ex.toptr(st, v) if isptr else v)]
    def byte(self, ex, st, off):
        f = fresh(self.name + '.b', 8)
        return z3.If(off == self.A, self.val(st), f)
    def store(self, ex, st, off, n, val):
        ex.bounds(st, self, off, n, 'write')
        if isinstance(val, Ptr): val = val.num()
        d = S(self.A - off)
        w = max(64, 8 * n)
        b = z3.Extract(7, 0, z3.LShR(zx(val, w), zx(d, w) * 8))
        st.mem[self.key] = S(z3.If(z3.ULT(d, n), b, self.val(st)))
        st.wrote.add(self.key)
        return [st]
    def havoc(self, ex, st): st.mem[self.key] = fresh('w_' + self.name, 8)

class FnRegion(Region):
    """read-only (or functionally modelled) object: callbacks give the content"""
    kind = 'fn'; readonly = True
    def __init__(self, name, base=None, size=None, loadf=None, bytef=None, storef=None, frame_tag='frame', key=None):
        Region.__init__(self, name, base, size)
        if key: self.key = key
        self.loadf, self.bytef, self.storef, self.frame_tag = loadf, bytef, storef, frame_tag
    def load(self, ex, st, off, n, isptr):
        ex.bounds(st, self, off, n, 'read')
        if self.loadf:
            r = self.loadf(ex, st, off, n, isptr)
            if r is not None: return r if isinstance(r, list) else [(st, r)]
        if self.bytef:
            v = S(bytes_to_int([self.bytef(st, S(off + i)) for i in range(n)]))
            return [(st, ex.toptr(st, v) if isptr else v)]
        raise Fail('load of %s+%s (%d)' % (self.name, off, n))
    def byte(self, ex, st, off):
        if self.bytef: return self.bytef(st, off)
        raise Fail('byte of ' + self.name)
    def store(self, ex, st, off, n, val):
        ex.bounds(st, self, off, n, 'write')
        if self.storef:
            r = self.storef(ex, st, off, n, val)
            if r is not None: return r
        ex.ob(st, self.frame_tag, '%s is not modified' % self.name, z3.BoolVal(False))
        return [st]

class CodeRegion(Region):
    kind = 'code'
    def __init__(self, name): Region.__init__(self, name, None, 1)

# --------------------------------------------------------------- state
class State:
    __slots__ = ('pc', 'env', 'mem', 'ghost', 'wrote', 'dead', 'trail', 'iter', 'brs', 'model', 'mlen')
    def __init__(self):
        self.pc, self.env, self.mem, self.ghost = [], {}, {}, {}
        self.wrote, self.dead, self.trail, self.iter = set(), set(), [], {}
        self.brs = []; self.model = None; self.mlen = 0
    def branch(self, c):
        """assume a branch condition (alternatives are taken by other states)"""
        self.brs.append((len(self.pc), c)); self.pc.append(c)
    def fork(self):
        s = State()
        s.pc = list(self.pc); s.env = dict(self.env); s.mem = dict(self.mem); s.ghost = dict(self.ghost)
        s.wrote = set(self.wrote); s.dead = set(self.dead); s.trail = list(self.trail); s.iter = dict(self.iter)
        s.brs = list(self.brs); s.model = self.model; s.mlen = self.mlen
        return s

class Obligation:
    __slots__ = ('tag', 'name', 'status', 'model', 'trail', 'where', 'pc', 'goal', 'time')
    def __init__(self, tag, name, status, where, trail=None, model=None, pc=None, goal=None, t=0):
        self.tag, self.name, self.status, self.where = tag, name, status, where
        self.trail, self.model, self.pc, self.goal, self.time = trail, model, pc, goal, t

class Contract:
    """Base class.  A contract names the function, builds the symbolic
    pre-state, gives callee contracts, ghost recurrences and the post-condition."""
    unroll = 6
    counter_bits = 22      # iterations of a cut loop: an invariant bounds them (checked: counter in range)
    cut_hint = False
    nowrap = True          # assume of every array that it does not wrap around the address space (False: only where an obligation fails without)
    integers = False       # obligations are mostly linear arithmetic: try the integer encoding first
    merge = True
    def setup(self, ex): raise NotImplementedError
    def call(self, ex, st, name, args, ins): return None
    def icall(self, ex, st, ptr, args, ins): return None
    def on_ret(self, ex, st, val): pass
    def on_exit(self, ex, st, name): ex.ob(st, 'noabort', 'call to %s is unreachable' % name, z3.BoolVal(False))
    def unfold(self, ex, st, N, loop): return []
    def step(self, ex, st, N, loop): return []
    def accs(self, ex, st, N, loop): return {}
    def cands(self, ex, st, N, loop): return []
    def strides(self): return (1, 8)
    def indices(self): return ()
    def canon(self, ex, st): return []
    def alloca(self, ex, st, name, size, al, dynamic): return None
    def glob(self, ex, st, name): return None

_syms = {}
def symbols(f):
    """names of the uninterpreted symbols of a term"""
    k = f.get_id()
    if k in _syms and _syms[k][0].eq(f): return _syms[k][1]
    out, seen, stack = set(), set(), [f]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(t.decl().name())
            stack.extend(t.children())
    _syms[k] = (f, frozenset(out))
    return _syms[k][1]

class Exec:
    MAXPATHS = 20000
    def __init__(self, mod, fname, contract, timeout_ms=20000, keep_smt=False, deadline=None, case=None):
        self.case = case
        self.mod, self.f, self.c = mod, mod.func(fname), contract
        self.fname = fname
        self.obs, self.failed = [], []
        self.record = True
        self.timeout = timeout_ms; self.facts = []
        self.nq = 0; self.tq = 0.0; self.nhit = 0; self.models = []; self.unrolled = set(); self.sums = {}; self.offcache = {}
        self.prof = {}; self.backend = {}
        self.regions = {}
        self.globs = {}
        self.paths = 0; self.rets = 0
        self.keep_smt = keep_smt
        self.invs = {}
        self.base_of = {}
        self.deadline = deadline
        self.cutloops = set()
        self.log = []
    # ---- solver
    def check(self, fs, want_model=False, timeout=None, quick=False):
        """satisfiability of fs; a portfolio of z3 configurations"""
        if self.deadline and time.time() > self.deadline: raise Fail('verification time budget exhausted')
        t = time.time()
        timeout = timeout or self.timeout
        r, m = z3.unknown, None
        plan = [('simple', min(timeout, 250 if quick else 1500))]
        if not quick: plan += ([('int', 0), ('bb', timeout // 2)] if self.c.integers else [('bb', timeout // 2), ('int', 0)]) + [('default', timeout // 2)]
        for kind, ms in plan:
            if kind == 'int':
                # linear arithmetic in disguise: cvc5 over the integers
                if cvc5_check(fs, 8, True) == 'unsat':
                    r, kind, m = z3.unsat, 'cvc5-int', None
                    break
                continue
            s = z3.SimpleSolver() if kind == 'simple' else BB.solver() if kind == 'bb' else z3.Solver()
            s.set('timeout', ms)
            s.add(*fs)
            try: r = s.check()
            except z3.Z3Exception: r = z3.unknown
            if r != z3.unknown:
                if r == z3.sat and want_model: m = s.model()
                break
        dt = time.time() - t
        self.nq += 1; self.tq += dt
        import sys as _s
        k = _s._getframe(1).f_code.co_name
        a = self.prof.setdefault((k, str(r), kind), [0, 0.0]); a[0] += 1; a[1] += dt
        if DEBUG and dt > 1:
            n = len([x for x in os.listdir(DEBUG)])
            open('%s/q%d_%s_%s_%.1f.smt2' % (DEBUG, n, r, kind, dt), 'w').write(s.to_smt2())
        if r == z3.unsat:
            b = 'cvc5/bv-as-int' if kind == 'cvc5-int' else 'z3/' + kind
            self.backend[b] = self.backend.get(b, 0) + 1
        if want_model: return r, m, s
        return r
    def mtrue(self, m, f): return z3.is_true(m.eval(f, model_completion=True))
    def live_model(self, st):
        """a model of st.pc if one is at hand"""
        if st.model is not None:
            while st.mlen < len(st.pc):
                if not self.mtrue(st.model, st.pc[st.mlen]): st.model = None; break
                st.mlen += 1
        if st.model is None:
            for m in self.models:
                if all(self.mtrue(m, f) for f in reversed(st.pc)):
                    st.model, st.mlen = m, len(st.pc); break
        return st.model
    def feasible(self, st, c):
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        m = self.live_model(st)
        if m is not None and self.mtrue(m, c): self.nhit += 1; return True
        r, m2, _ = self.check(st.pc + [c], True, quick=True)
        if r == z3.sat:
            self.models.insert(0, m2); del self.models[6:]
            if m is None: st.model, st.mlen = m2, len(st.pc)
        return r != z3.unsat
    def must(self, st, c):
        m = self.live_model(st)
        if m is not None and not self.mtrue(m, c): self.nhit += 1; return False
        return self.check(st.pc + [z3.Not(c)], quick=True) == z3.unsat
    def prove(self, st, c):
        """like must, with the whole portfolio"""
        c = S(c)
        if z3.is_true(c): return True
        m = self.live_model(st)
        if m is not None and not self.mtrue(m, c): self.nhit += 1; return False
        return self.check(st.pc + [z3.Not(c)]) == z3.unsat
    def enumerate(self, st, term, limit):
        vals = []
        extra = []
        while True:
            r, m, _ = self.check(st.pc + extra, True)
            if r == z3.unsat: return vals
            if r != z3.sat: raise Fail('cannot enumerate')
            v = m.eval(term, model_completion=True).as_long()
            vals.append(v); extra.append(term != v)
            if len(vals) > limit: raise Fail('symbolic offset has too many values: %s' % term)
    def ob(self, st, tag, name, goal, assume=True):
        """generate and discharge one proof obligation"""
        goal = S(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        if not self.record: 
            if assume: st.pc.append(goal)
            return
        t = time.time()
        if z3.is_true(goal):
            self.obs.append(Obligation(tag, name, 'proved', self.fname, t=0.0)); return
        r, m, s = self.check(st.pc + [z3.Not(goal)], True)
        if r != z3.unsat and self.facts and self.check(st.pc + self.facts + [z3.Not(goal)]) == z3.unsat: r = z3.unsat
        if r == z3.unknown: r, m, s = self.check(st.pc + [z3.Not(goal)], True, timeout=3 * self.timeout)      # a slow machine
        dt = time.time() - t
        if r == z3.unsat:
            o = Obligation(tag, name, 'proved', self.fname, t=dt)
            if self.keep_smt: o.pc, o.goal = list(st.pc), goal
            self.obs.append(o)
        else:
            # a second solver before giving up
            if r == z3.unknown:
                r2 = cvc5_check(st.pc + [z3.Not(goal)], 20)
                if r2 == 'unsat':
                    self.backend['cvc5'] = self.backend.get('cvc5', 0) + 1
                    self.obs.append(Obligation(tag, name, 'proved', self.fname, t=time.time() - t))
                    if assume: st.pc.append(goal)
                    return
            o = Obligation(tag, name, 'refuted' if r == z3.sat else 'unknown', self.fname,
                           list(st.trail), m, list(st.pc), goal, dt)
            self.obs.append(o); self.failed.append(o)
            if len(self.failed) >= 12: raise Fail('too many failed obligations')
        if assume: st.pc.append(goal)
    def bounds(self, st, reg, off, n, what):
        n = bv(n) if isinstance(n, int) else n
        if reg.key in st.dead:
            self.ob(st, 'memory', '%s of %s after its lifetime' % (what, reg.name), z3.BoolVal(False))
        if isinstance(reg, NullRegion): return
        g = []
        if reg.size is not None:
            g = [z3.ULE(n, reg.size), z3.ULE(off, reg.size - n)]
        if not reg.base.decl().name().startswith('&') and not z3.is_bv_value(reg.base):
            g.append(reg.base != 0)
        if g: self.ob(st, 'memory', '%s of %s in bounds' % (what, reg.name), S(z3.Or(n == 0, z3.And(*g))))
    # ---- values
    def toptr(self, st, v):
        if isinstance(v, Ptr): return v
        v = S(v)
        if z3.is_bv_value(v):
            return NULL if v.as_long() == 0 else Ptr(NULLR, v)
        seen, stack, cands = set(), [v], []
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in seen: continue
            seen.add(i)
            r = self.base_of.get(t.get_id())
            if r is not None and r[0].eq(t): cands.append(r[1]); continue
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: continue
            if z3.is_bv(t): stack.extend(c for c in t.children() if z3.is_bv(c))
        if len(cands) >= 1:
            for r in cands:
                off = S(v - r.base)
                if len(cands) == 1: return Ptr(r, self.offset(st, v, r, off))
            return Ptr(cands[0], S(v - cands[0].base))
        return Ptr(NULLR, v)
    def norm(self, st, i):
        """the ghost loop counter equal to index i, if there is one (keeps terms canonical)"""
        i = S(i)
        if z3.is_bv_value(i): return i
        for k, N in st.ghost.items():
            if isinstance(k, tuple) and k[0] == 'N':
                if i.eq(N): return N
                if self.must(st, i == N): return N
        for N in self.c.indices():
            if i.eq(N): return N
        return i
    def offset(self, st, v, r, off):
        """v - base, in a form without base when alignment arithmetic allows it"""
        if z3.is_bv_value(off): return off
        k = v.get_id()
        if k in self.offcache and self.offcache[k][0].eq(v): return self.offcache[k][1]
        o2 = S(z3.substitute(v, (r.base, bv(0))))
        vs = symbols(v) | {r.base.decl().name()}
        al = [f for f in st.pc if symbols(f) <= vs]
        s = z3.SimpleSolver(); s.set('timeout', 2000)
        s.add(*al); s.add(off != o2)
        res = o2 if s.check() == z3.unsat else off
        if not res.eq(off):
            done = False
            cs = self.c.canon(self, st)
            for cand, facts in cs:
                s = z3.SimpleSolver(); s.set('timeout', 3000)
                s.add(*facts); s.add(res != cand); self.nq += 1
                rr = s.check()
                if rr == z3.unsat: res = S(cand); done = True; break
            if not done and cs:
                for cand, facts in cs: st.pc += facts
                return res
        self.nq += 1
        self.offcache[k] = (v, res)
        return res
    def reg(self, r):
        """register a region so that addresses can be mapped back to it"""
        if r.key not in self.regions: self.regions[r.key] = r
        self.base_of[r.base.get_id()] = (r.base, r)
        return r
    def val(self, st, t, v):
        k = v[0]
        if k == 'loc':
            try: return st.env[v[1]]
            except KeyError: raise Fail('use of undefined value %' + v[1])
        if k == 'int':
            if t[0] == 'i' and t[1] == 1: return z3.BoolVal(bool(v[1] & 1))
            if t[0] == 'i': return bv(v[1], t[1])
        if k in ('undef',):
            if t[0] == 'ptr': return Ptr(NULLR, fresh('undefp'))
            if t == ir.I1: return freshb('undef')
            return fresh('undef', self.mod.sizeof(t) * 8 if t[0] != 'i' else t[1])
        if k == 'null': return NULL
        if k == 'zero':
            if t[0] == 'ptr': return NULL
            return bv(0, 8 * self.mod.sizeof(t))
        if k == 'glob': return self.globptr(st, v[1])
        if k == 'gep':
            base = self.val(st, v[2][0], v[2][1])
            return self.gep(st, v[1], base, v[3])
        if k == 'cast':
            a = self.val(st, v[2][0], v[2][1])
            return self.cast(st, v[1], v[2][0], a, v[3])
        if k == 'cicmp': return self.icmp(v[1], self.val(st, *v[2]), self.val(st, *v[3]))
        if k == 'fpconst':
            x = v[1]
            n = self.mod.sizeof(t)
            if x.startswith('0x') and not x.startswith('0xK') and n == 8: return bv(int(x, 16), 64)
            if n == 8: 
                import struct
                return bv(struct.unpack('<Q', struct.pack('<d', float(x)))[0], 64)
            return fresh('fp', n * 8)
        raise Unsupported('value %r' % (v,))
    def globptr(self, st, name):
        if name in self.globs: return Ptr(self.globs[name], 0)
        r = self.c.glob(self, st, name)
        if r is None:
            if name in self.mod.funcs or name in self.mod.decls: r = CodeRegion(name)
            else: r = self.mkglobal(st, name)
        r.base_fact = True
        self.globs[name] = r; self.reg(r)
        return Ptr(r, 0)
    def mkglobal(self, st, name):
        t, v, isconst = self.mod.global_init(name)
        r = CellRegion('@' + name, self.mod.sizeof(t), readonly=isconst)
        if isconst and v is not None:
            cells = {}
            self.fill(st, cells, 0, t, v)
            r.static = cells
            orig = r.cells
            r.cells = lambda s, r=r: s.mem.get(r.key) or r.static
        return r
    def fill(self, st, cells, off, t, v):
        tt = self.mod.structs[t[1]] if t[0] == 'named' else t
        if v[0] == 'zero':
            for i in range(self.mod.sizeof(t)): cells[off + i] = (1, bv(0, 8))
        elif v[0] == 'bytes':
            for i, b in enumerate(v[1]): cells[off + i] = (1, bv(b, 8))
        elif v[0] == 'agg':
            if tt[0] == 'struct': offs = self.mod.layout(tt)[0]
            else:
                es = self.mod.sizeof(tt[2]); offs = [i * es for i in range(len(v[1]))]
            for o, (et, ev) in zip(offs, v[1]): self.fill(st, cells, off + o, et, ev)
        else:
            cells[off] = (self.mod.sizeof(t), self.val(st, t, ev) if False else self.val(st, t, v))
    def gep(self, st, bt, base, idx):
        off = base.off
        t = bt
        for i, (it, iv) in enumerate(idx):
            x = self.val(st, it, iv)
            if i == 0:
                off = off + sx(x) * bv(self.mod.sizeof(t))
            else:
                tt = self.mod.structs[t[1]] if t[0] == 'named' else t
                if tt[0] == 'struct':
                    n = const(x)
                    off = off + bv(self.mod.layout(tt)[0][n]); t = tt[1][n]
                else:
                    t = tt[2]; off = off + sx(x) * bv(self.mod.sizeof(t))
        return Ptr(base.reg, S(off))
    def cast(self, st, op, t, a, t2):
        if op == 'ptrtoint': return zx(a.num(), t2[1])
        if op == 'inttoptr': return self.toptr(st, zx(a))
        if op == 'bitcast' or op == 'addrspacecast': return a
        if op in ('zext', 'sext'):
            if isinstance(a, z3.BoolRef):
                return z3.If(a, bv(1 if op == 'zext' else -1, t2[1]), bv(0, t2[1]))
            return S(zx(a, t2[1]) if op == 'zext' else sx(a, t2[1]))
        if op == 'trunc':
            if t2[1] == 1: return S(z3.Extract(0, 0, a) == 1)
            return S(z3.Extract(t2[1] - 1, 0, a))
        raise Unsupported('cast ' + op)
    def num(self, v): return v.num() if isinstance(v, Ptr) else v
    # ---- instructions
    def step_ins(self, st, ins):
        """-> list of successor states (value bound in env)"""
        op = ins.op; self.ins = ins
        if op == 'bin':
            o, a, b, fl = ins.a
            x, y = self.val(st, ins.ty, a), self.val(st, ins.ty, b)
            if ins.ty == ir.I1:
                f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[o]
                st.env[ins.dst] = S(f(x, y)); return [st]
            x, y = self.num(x), self.num(y)
            if o == 'add': r = x + y
            elif o == 'sub': r = x - y
            elif o == 'mul': r = x * y
            elif o == 'and': r = x & y
            elif o == 'or': r = x | y
            elif o == 'xor': r = x ^ y
            elif o == 'shl': r = x << y
            elif o == 'lshr': r = z3.LShR(x, y)
            elif o == 'ashr': r = x >> y
            elif o == 'udiv': r = self.pow2div(x, y); 
            elif o == 'urem':
                c = const(y)
                r = (x & bv(c - 1, x.size())) if c and c & (c - 1) == 0 else z3.URem(x, y)
            elif o == 'sdiv': r = x / y
            elif o == 'srem': r = z3.SRem(x, y)
            if o in ('udiv', 'urem', 'sdiv', 'srem') and const(y) is None:
                self.ob(st, 'memory', 'no division by zero', y != 0)
            st.env[ins.dst] = S(r); return [st]
        if op == 'cast':
            o, t, v = ins.a
            st.env[ins.dst] = self.cast(st, o, t, self.val(st, t, v), ins.ty); return [st]
        if op == 'icmp':
            pr, t, a, b = ins.a
            x, y = self.val(st, t, a), self.val(st, t, b)
            st.env[ins.dst] = self.icmp(pr, x, y); return [st]
        if op == 'select':
            c, a, b = ins.a
            cv = S(self.val(st, ir.I1, c))
            x, y = self.val(st, ins.ty, a), self.val(st, ins.ty, b)
            if z3.is_true(cv): st.env[ins.dst] = x; return [st]
            if z3.is_false(cv): st.env[ins.dst] = y; return [st]
            if isinstance(x, Ptr):
                if x.reg is y.reg:
                    st.env[ins.dst] = Ptr(x.reg, S(z3.If(cv, x.off, y.off))); return [st]
                out = []
                for c2, v2 in ((cv, x), (S(z3.Not(cv)), y)):
                    if self.feasible(st, c2):
                        s2 = st.fork(); s2.branch(c2); s2.env[ins.dst] = v2; out.append(s2)
                return out
            st.env[ins.dst] = S(z3.If(cv, x, y)); return [st]
        if op == 'freeze':
            st.env[ins.dst] = self.val(st, ins.ty, ins.a); return [st]
        if op == 'gep':
            bt, (pt, pv), idx = ins.a
            st.env[ins.dst] = self.gep(st, bt, self.asptr(st, self.val(st, pt, pv)), idx); return [st]
        if op == 'alloca':
            n, al = ins.a
            es = self.mod.sizeof(ins.ty)
            cnt = None if n is None else zx(self.val(st, n[0], n[1]))
            size = bv(es) if cnt is None else S(cnt * bv(es))
            dyn = cnt is not None and const(size) is None
            r = self.c.alloca(self, st, ins.dst, size, al, dyn)
            if r is None:
                nm = '%s.%s' % (self.fname, ins.dst)
                if nm in self.regions and nm in st.mem: st.mem.pop(nm)
                r = self.regions.get(nm)
                if r is None:
                    if dyn: r = WRegion(nm, size)
                    else: r = CellRegion(nm, const(size))
                elif dyn: r.size = size
            if isinstance(r, list):
                out = []
                for s2, r2 in r: self.alloc(s2, r2, al, dyn); s2.env[ins.dst] = Ptr(r2, 0); out.append(s2)
                return out
            self.alloc(st, r, al, dyn)
            st.env[ins.dst] = Ptr(r, 0)
            return [st]
        if op == 'load':
            p = self.asptr(st, self.val(st, ins.a[0], ins.a[1]))
            n = self.mod.sizeof(ins.ty) if ins.ty[0] != 'fp' else ins.ty[1]
            out = []
            for s, v in p.reg.load(self, st, p.off, n, ins.ty[0] == 'ptr'):
                if ins.ty == ir.I1: v = S(z3.Extract(0, 0, v) == 1)
                s.env[ins.dst] = v; out.append(s)
            return out
        if op == 'store':
            (t, v), (pt, pv) = ins.a
            x = self.val(st, t, v)
            if isinstance(x, z3.BoolRef): x = z3.If(x, bv(1, 8), bv(0, 8))
            p = self.asptr(st, self.val(st, pt, pv))
            n = self.mod.sizeof(t) if t[0] != 'fp' else t[1]
            return p.reg.store(self, st, p.off, n, x)
        if op == 'call': return self.do_call(st, ins)
        raise Unsupported(ins.text)
    def alloc(self, st, r, al, dyn):
        self.reg(r)
        st.dead.discard(r.key)
        st.pc += [r.base != 0, r.base & bv(max(al, 16) - 1 if dyn else al - 1) == 0]
        if r.size is not None: st.pc.append(z3.ULE(r.size, bv(0) - r.base - 1) if const(r.size) is not None else z3.ULE(r.base, bv(0) - r.size - 1))
        st.ghost['alive'] = st.ghost.get('alive', ()) + ((r.key,) if r.key not in st.ghost.get('alive', ()) else ())
    def pow2div(self, x, y):
        c = const(y)
        if c and c & (c - 1) == 0: return z3.LShR(x, bv(c.bit_length() - 1, x.size()))
        return z3.UDiv(x, y)
    def asptr(self, st, v): return v if isinstance(v, Ptr) else self.toptr(st, v)
    def icmp(self, pr, x, y):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.reg is y.reg and pr in ('eq', 'ne'):
                e = S(x.off == y.off); return e if pr == 'eq' else S(z3.Not(e))
            if pr in ('eq', 'ne'):
                a, b = (x, y)
                for p, q in ((a, b), (b, a)):
                    if isinstance(p, Ptr) and p.reg.kind in ('cells', 'witness', 'code') and isinstance(q, Ptr) and q is NULL and const(p.off) == 0 and p.reg.base.decl().name().startswith('&') and not getattr(p.reg,'nullable',False):
                        return z3.BoolVal(pr == 'ne')
            x, y = self.num(x), self.num(y)
        if isinstance(x, z3.BoolRef):
            x, y = z3.If(x, bv(1, 1), bv(0, 1)), z3.If(y, bv(1, 1), bv(0, 1))
        return S({'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
                'sgt': lambda: x > y, 'sge': lambda: x >= y}[pr]())
    def memcpy(self, st, d, s, n):
        cn = const(n)
        if cn == 0: return [st]
        self.bounds(st, s.reg, s.off, n, 'read')
        if cn is not None and d.reg.kind == 'cells' and cn <= 4096:
            # keep pointer-sized cells intact when both sides are cell regions
            if s.reg.kind == 'cells' and const(s.off) is not None and const(d.off) is not None:
                so, do = const(s.off), const(d.off)
                src = dict(s.reg.cells(st)); i = 0
                while i < cn:
                    c = src.get(so + i)
                    if c and i + c[0] <= cn: 
                        st = d.reg.store(self, st, bv(do + i), c[0], c[1])[0]; i += c[0]
                    else:
                        st = d.reg.store(self, st, bv(do + i), 1, s.reg.byte1(self, st, so + i))[0]; i += 1
                return [st]
            if cn in (1, 2, 4, 8, 16):
                v = S(bytes_to_int([s.reg.byte(self, st, S(s.off + i)) for i in range(cn)]))
                return d.reg.store(self, st, d.off, cn, v)
        self.bounds(st, d.reg, d.off, n, 'write')
        if d.reg.kind == 'witness':
            A = d.reg.A
            dd = S(A - d.off)
            if hasattr(d.reg, 'clobber'): d.reg.clobber(self, st, d.off, n)
            st.mem[d.reg.key] = S(z3.If(z3.ULT(dd, n), s.reg.byte(self, st, S(s.off + dd)), d.reg.val(st)))
            st.wrote.add(d.reg.key)
            return [st]
        if d.reg.kind == 'cells':
            if d.reg.readonly: self.ob(st, d.reg.frame_tag, '%s is not modified' % d.reg.name, z3.BoolVal(False))
            out = []
            for s1, o in d.reg.offs(self, st, d.off, 1):
                lim = const(d.reg.size) - o
                if lim > 64 : 
                    # need a bound on n
                    if not self.must(s1, z3.ULE(n, 64)): raise Fail('memcpy of unbounded size into ' + d.reg.name)
                    lim = 64
                for i in range(lim):
                    old = d.reg.byte1(self, s1, o + i)
                    if not self.feasible(s1, z3.UGT(n, i)): break
                    d.reg.store1(self, s1, o + i, 1, S(z3.If(z3.UGT(n, i), s.reg.byte(self, s1, S(s.off + i)), old)))
                out.append(s1)
            return out
        if d.reg.kind == 'fn' and d.reg.storef:
            r = d.reg.storef(self, st, d.off, n, s)
            if r is not None: return r
        self.ob(st, getattr(d.reg, 'frame_tag', 'frame'), '%s is not modified' % d.reg.name, z3.BoolVal(False))
        return [st]
    def do_call(self, st, ins):
        (callee, cargs) = ins.a
        args = [None if v is None else self.val(st, t, v) for t, v in cargs]
        if callee[0] == 'glob':
            name = callee[1]
        else:
            p = self.val(st, ir.PTR, callee)
            if isinstance(p, Ptr) and isinstance(p.reg, CodeRegion) and const(p.off) == 0: name = p.reg.name
            else:
                r = self.c.icall(self, st, p, args, ins)
                if r is None: raise Fail('indirect call without contract: ' + ins.text)
                return self.bind(r, ins)
        if name.startswith('llvm.'):
            if name.startswith(('llvm.memcpy', 'llvm.memmove')):
                return self.memcpy(st, self.asptr(st, args[0]), self.asptr(st, args[1]), zx(args[2]))
            if name.startswith('llvm.memset'):
                d = self.asptr(st, args[0]); n = zx(args[2])
                return self.memset(st, d, args[1], n)
            if name.startswith('llvm.lifetime.start'):
                p = args[1]
                if isinstance(p, Ptr) and p.reg.kind == 'cells':
                    st.mem.pop(p.reg.key, None); st.dead.discard(p.reg.key)
                return [st]
            if name.startswith('llvm.lifetime.end'):
                p = args[1]
                if isinstance(p, Ptr): st.dead.add(p.reg.key)
                return [st]
            if name.startswith('llvm.stacksave'):
                st.env[ins.dst] = Ptr(NULLR, fresh('ss')); st.ghost[('ss', ins.dst)] = st.ghost.get('alive', ()); return [st]
            if name.startswith('llvm.stackrestore'):
                src = cargs[0][1]
                keep = st.ghost.get(('ss', src[1])) if src[0] == 'loc' else None
                if keep is None: raise Fail('stackrestore')
                for k in st.ghost.get('alive', ()):
                    if k not in keep: st.dead.add(k)
                return [st]
            if name.startswith(('llvm.assume', 'llvm.dbg', 'llvm.experimental.noalias')): return [st]
            if name.startswith('llvm.expect'): st.env[ins.dst] = args[0]; return [st]
            for m, f in (('umax', z3.UGT), ('umin', z3.ULT)):
                if name.startswith('llvm.' + m):
                    st.env[ins.dst] = S(z3.If(f(args[0], args[1]), args[0], args[1])); return [st]
            if name.startswith('llvm.smax'): st.env[ins.dst] = S(z3.If(args[0] > args[1], args[0], args[1])); return [st]
            if name.startswith('llvm.smin'): st.env[ins.dst] = S(z3.If(args[0] < args[1], args[0], args[1])); return [st]
            if name.startswith('llvm.returnaddress') or name.startswith('llvm.frameaddress'):
                st.env[ins.dst] = Ptr(NULLR, fresh('ra')); return [st]
            raise Unsupported(ins.text)
        r = self.c.call(self, st, name, args, ins)
        if r is None:
            if name in ('abort', 'exit', '__assert_fail', '_exit', '__stack_chk_fail'):
                self.c.on_exit(self, st, name); return []
            if name in ('memcpy', 'memmove'):
                out = self.memcpy(st, self.asptr(st, args[0]), self.asptr(st, args[1]), zx(args[2]))
                for s in out: s.env[ins.dst] = args[0]
                return out
            if name == 'memset':
                out = self.memset(st, self.asptr(st, args[0]), z3.Extract(7, 0, args[1]), zx(args[2]))
                for s in out: s.env[ins.dst] = args[0]
                return out
            if self.is_pure(name):
                ps, r = self.summary(name)
                return self.bind([(st, S(z3.substitute(r, *[(p, self.num(a)) for p, a in zip(ps, args)])))], ins)
            raise Fail('call to %s, which has no contract here' % name)
        return self.bind(r, ins)
    def memset(self, st, d, v, n):
        cn = const(n)
        if cn is None and d.reg.kind == 'cells' and const(d.off) is not None and const(d.reg.size) is not None and const(d.reg.size) <= 64:
            self.bounds(st, d.reg, d.off, n, 'write'); out = []     # few lengths are possible: one path for each
            for k in range(const(d.reg.size) - const(d.off) + 1):
                if self.feasible(st, n == k): q = st.fork(); q.branch(n == k); out += self.memset(q, d, v, bv(k))
            return out
        if d.reg.kind == 'witness':
            self.bounds(st, d.reg, d.off, n, 'write')
            st.mem[d.reg.key] = S(z3.If(z3.ULT(d.reg.A - d.off, n), v, d.reg.val(st))); st.wrote.add(d.reg.key); return [st]
        if cn is not None and cn <= 512 and d.reg.kind == 'cells' and const(d.off) is not None:
            o, i = const(d.off), 0
            while i < cn:
                k = 8 if cn - i >= 8 else 1
                st = d.reg.store(self, st, bv(o + i), k, S(bytes_to_int([v] * k)))[0]; i += k
            return [st]
        if d.reg.kind == 'fn' and d.reg.storef:
            r = d.reg.storef(self, st, d.off, n, ('memset', v))
            if r is not None: return r
        raise Fail('memset of ' + d.reg.name)
    def bind(self, r, ins):
        out = []
        for s, v in r:
            if ins.dst is not None:
                if v is None: v = fresh('ret', 64)
                if ins.ty[0] == 'ptr': v = self.asptr(s, v)
                elif ins.ty == ir.I1 and not isinstance(v, z3.BoolRef): v = S(z3.Extract(0, 0, v) == 1)
                elif ins.ty[0] == 'i' and not isinstance(v, z3.BoolRef): v = zx(self.num(v), ins.ty[1])
                s.env[ins.dst] = v
            out.append(s)
        return out
    # ---- control
    def run(self):
        self.t0 = time.time()
        self.covers = 0
        inits = self.c.setup(self)
        start = []
        self.ncases = len(inits)
        if self.case is not None: inits = [inits[self.case]]
        for st, args in inits:
            # an array does not wrap around the address space
            self.facts = [z3.ULE(r.size, bv(-1) - r.base) for r in self.regions.values() if r.kind == 'fn' and z3.is_expr(r.size) and const(r.size) is None and r.base.decl().kind() == z3.Z3_OP_UNINTERPRETED and r.base.num_args() == 0]
            if self.c.nowrap: st.pc += self.facts; self.facts = []
            if self.check(st.pc) == z3.unsat:
                raise Fail('vacuous precondition')
            self.covers += 1
            if len(args) != len(self.f.params): raise Fail('signature of %s changed' % self.fname)
            for (t, nm), a in zip(self.f.params, args):
                if isinstance(a, Ptr): a = a
                st.env[nm] = a
            start.append((self.f.order[0], None, st))
        exits = self.explore(start, set(self.f.rpo), None)
        if any(exits.values()): raise Fail('internal: unexpected exits')
        if self.rets == 0 and not getattr(self.c, 'noreturn', False) and not self.failed:
            raise Fail('no path of %s returns: contract vacuous' % self.fname)
        return self
    def explore(self, start, body, header):
        """run states until they leave `body` or come back to `header`;
        -> {target block: [(pred, state)]}"""
        f = self.f
        exits = {}
        pend = {}
        for blk, pred, st in start: pend.setdefault(blk, []).append((pred, st))
        first = header
        while pend:
            blk = min(pend, key=lambda b: f.rpoi[b])
            items = pend.pop(blk)
            if blk in f.loops and blk != first:
                outs = self.handle_loop(blk, items)
            else:
                first = None if blk == first else first
                if len(items) > 1 and self.c.merge and len(f.blocks[blk].pred) > 1 and not self.latch(blk, header):
                    items = self.merge_block(blk, items)
                outs = []
                for pred, st in items: outs += self.run_block(blk, pred, st)
            for tgt, pred, st in outs:
                if tgt not in body or tgt == header: exits.setdefault(tgt, []).append((pred, st))
                else: pend.setdefault(tgt, []).append((pred, st))
            if len(outs) > self.MAXPATHS: raise Fail('path explosion')
        return exits
    def latch(self, blk, header):
        """straight line from blk back to the header of the cut loop being explored: paths are kept apart there"""
        if header is None or header not in self.cutloops: return False
        n = 0
        while blk != header and n < 10:
            if len(self.f.blocks[blk].succ) != 1: return False
            blk = self.f.blocks[blk].succ[0]; n += 1
        return blk == header
    def phis(self, blk, pred, st):
        vals = []
        for ins in self.f.blocks[blk].ins:
            if ins.op != 'phi': break
            for v, lab in ins.a:
                if lab == pred: vals.append((ins.dst, self.val(st, ins.ty, v))); break
            else: raise Fail('phi')
        for d, v in vals: st.env[d] = v
    def run_block(self, blk, pred, st, nophi=False):
        """-> [(succ, blk, state)]"""
        if pred is not None and not nophi: self.phis(blk, pred, st)
        st.trail.append(blk)
        states = [st]
        out = []
        for ins in self.f.blocks[blk].ins:
            if ins.op == 'phi': continue
            if ins.op == 'br':
                for s in states:
                    if ins.a[0] is None: out.append((ins.a[1], blk, s)); continue
                    if ins.a[0][0] == 'loc' or True:
                        c = S(self.val(s, ir.I1, ins.a[0]))
                    n = S(z3.Not(c))
                    if z3.is_true(c): out.append((ins.a[1], blk, s)); continue
                    if z3.is_true(n): out.append((ins.a[2], blk, s)); continue
                    fc = self.feasible(s, c)
                    fn = self.feasible(s, n) if fc else True
                    if fc and fn:
                        s2 = s.fork(); s2.branch(c); out.append((ins.a[1], blk, s2))
                        s.branch(n); out.append((ins.a[2], blk, s))
                    elif fc: s.branch(c); out.append((ins.a[1], blk, s))
                    else: s.branch(n); out.append((ins.a[2], blk, s))
                return out
            if ins.op == 'switch':
                (t, v), d, cs = ins.a
                for s in states:
                    x = self.val(s, t, v)
                    x = self.num(x)
                    cx = const(x)
                    w = t[1]
                    if cx is not None:
                        tgt = d
                        for k, lab in cs:
                            if (k & ((1 << w) - 1)) == cx: tgt = lab
                        out.append((tgt, blk, s)); continue
                    groups = {}
                    for k, lab in cs: groups.setdefault(lab, []).append(k)
                    rest = []
                    for lab, ks in groups.items():
                        c = z3.Or(*[x == bv(k, w) for k in ks]) if len(ks) > 1 else x == bv(ks[0], w)
                        rest.append(z3.Not(c))
                        if lab == d: continue
                        if self.feasible(s, c):
                            s2 = s.fork(); s2.branch(c); out.append((lab, blk, s2))
                    dc = z3.And(*[r for r, (lab, ks) in zip(rest, groups.items()) if lab != d])
                    if self.feasible(s, dc):
                        s.branch(dc); out.append((d, blk, s))
                return out
            if ins.op == 'ret':
                for s in states:
                    self.rets += 1
                    self.paths += 1
                    v = None if ins.a is None else self.val(s, ins.ty, ins.a)
                    if self.record: self.c.on_ret(self, s, v)
                return []
            if ins.op == 'unreachable': return []
            nxt = []
            for s in states:
                try: nxt += self.step_ins(s, ins)
                except Stop: pass
            states = nxt
            if not states: return []
        return out
    # ---- merging of states at join points
    def live_from(self, blk):
        """names of SSA values that may still be used at or after blk"""
        if not hasattr(self, '_live'): self._live = self._liveness()
        return self._live[blk]
    def _liveness(self):
        f = self.f
        use, dfn = {}, {}
        def names(x, acc):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'loc': acc.add(x[1])
                else:
                    for y in x: names(y, acc)
            elif isinstance(x, list):
                for y in x: names(y, acc)
        phiu = {}
        for b in f.rpo:
            u, d = set(), set()
            for ins in f.blocks[b].ins:
                if ins.op == 'phi':
                    d.add(ins.dst)
                    for v, lab in ins.a:
                        if v[0] == 'loc': phiu.setdefault((lab, b), set()).add(v[1])
                    continue
                acc = set(); names(ins.a if not isinstance(ins.a, list) else list(ins.a), acc)
                u |= acc - d
                if ins.dst: d.add(ins.dst)
            use[b], dfn[b] = u, d
        live = {b: set() for b in f.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.rpo):
                o = set()
                for s in f.blocks[b].succ:
                    o |= live[s] | phiu.get((b, s), set())
                n = use[b] | (o - dfn[b])
                # phi results of b are live-in by definition once evaluated
                if n != live[b]: live[b] = n; ch = True
        self._phiu = phiu
        return live
    def merge_block(self, blk, items):
        """evaluate phis per item, then merge states of the same shape"""
        states = []
        for pred, st in items:
            if pred is not None: self.phis(blk, pred, st)
            states.append(st)
        phi_names = [i.dst for i in self.f.blocks[blk].ins if i.op == 'phi']
        live = self.live_from(blk) | set(phi_names)
        merged = self.merge_states(states, live)
        return [(None, s) for s in merged]
    def shape(self, st, live):
        sh = []
        for n in sorted(live):
            v = st.env.get(n)
            if isinstance(v, Ptr): sh.append((n, v.reg.key))
            elif v is None: sh.append((n, None))
            else: sh.append((n, 'i'))
        for k in sorted(st.mem, key=str):
            r = self.regions.get(k)
            m = st.mem[k]
            if isinstance(m, dict):
                sh.append((k, tuple(sorted((o, c[0], c[1].reg.key if isinstance(c[1], Ptr) else 'i') for o, c in m.items()))))
            else: sh.append((k, 'm'))
        sh.append(tuple(sorted(map(str, st.dead))))
        sh.append(tuple(sorted((str(k), str(v)) for k, v in st.ghost.items())))
        return tuple(sh)
    def merge_states(self, states, live):
        groups = {}
        for s in states:
            s.env = {k: v for k, v in s.env.items() if k in live}
            groups.setdefault(self.shape(s, live), []).append(s)
        out = []
        for g in groups.values():
            out.append(g[0] if len(g) == 1 else self.merge_group(g))
        return out
    def merge_group(self, g):
        # common prefix of path conditions
        n = 0
        while all(len(s.pc) > n for s in g) and all(s.pc[n].eq(g[0].pc[n]) for s in g): n += 1
        m = g[0].fork()
        m.pc = g[0].pc[:n]; m.brs = [b for b in g[0].brs if b[0] < n]
        if m.mlen > n: m.mlen = n
        bconds, facts = [], []
        for s in g:
            bi = {i for i, _ in s.brs if i >= n}
            bconds.append([s.pc[i] for i in sorted(bi)])
            facts.append([s.pc[i] for i in range(n, len(s.pc)) if i not in bi])
        conds = [z3.And(*b) if b else z3.BoolVal(True) for b in bconds]
        if self.exclusive(bconds):
            sel = [S(c) for c in conds]
            o = S(z3.Or(*sel))
            if not z3.is_true(o): m.branch(o)
        else:
            sel = []
            for i in range(len(g)): sel.append(freshb('path'))
            m.pc.append(z3.Or(*sel))
            for i, b in enumerate(sel):
                m.pc.append(z3.Implies(b, conds[i]))
                for j in range(i): m.pc.append(z3.Not(z3.And(b, sel[j])))
            m.model = None
        # facts common to all paths need no guard
        common = {f.get_id() for f in facts[0]}
        for fl in facts[1:]: common &= {f.get_id() for f in fl}
        done = set()
        for c, fl in zip(sel, facts):
            for f in fl:
                if f.get_id() in common:
                    if f.get_id() not in done: done.add(f.get_id()); m.pc.append(f)
                else: m.pc.append(z3.Implies(c, f))
        def mg(vs):
            if all(isinstance(v, Ptr) for v in vs):
                return Ptr(vs[0].reg, mg([v.off for v in vs]))
            if all(v.eq(vs[0]) for v in vs): return vs[0]
            r = vs[-1]
            for b, v in zip(reversed(sel[:-1]), reversed(vs[:-1])): r = z3.If(b, v, r)
            return S(r)
        m.env = {k: mg([s.env[k] for s in g]) for k in g[0].env if all(k in s.env for s in g)}
        m.mem = {}
        for k in g[0].mem:
            vs = [s.mem[k] for s in g]
            if isinstance(vs[0], dict):
                m.mem[k] = {o: (c[0], mg([v[o][1] for v in vs])) for o, c in vs[0].items()}
            elif z3.is_expr(vs[0]):
                m.mem[k] = mg(vs)
            else:
                m.mem[k] = vs[0]
        for s in g: m.wrote |= s.wrote
        m.trail = g[0].trail[:]
        return m
    def exclusive(self, bconds):
        for i in range(len(bconds)):
            for j in range(i):
                a, b = bconds[i], bconds[j]
                k = 0
                while k < min(len(a), len(b)) and a[k].eq(b[k]): k += 1
                if k >= min(len(a), len(b)): return False
                x, y = a[k], b[k]
                if S(z3.Not(x)).eq(S(y)) or S(z3.Not(y)).eq(S(x)): continue
                s = z3.Solver(); s.set('timeout', 200); s.add(x, y)
                if s.check() != z3.unsat:
                    s = z3.Solver(); s.set('timeout', 500); s.add(*a); s.add(*b)
                    if s.check() != z3.unsat: return False
        return True
    # ---- exact summaries of pure functions
    def summary(self, name):
        if name in self.sums: return self.sums[name]
        outer = self
        class Pure(Contract):
            unroll = 1
            def setup(self, ex):
                self.ps = [z3.Bool('p%d' % i) if t == ir.I1 else z3.BitVec('p%d' % i, t[1]) for i, (t, _) in enumerate(ex.f.params)]
                self.out = []
                return [(State(), list(self.ps))]
            def on_ret(self, ex, st, v): self.out.append((z3.And(*st.pc) if st.pc else z3.BoolVal(True), v, st.pc))
            def on_exit(self, ex, st, n): pass
        c = Pure()
        e = Exec(self.mod, name, c); e.run()
        r = c.out[-1][1]
        for cond, v, _ in reversed(c.out[:-1]): r = z3.If(cond, v, r)
        r = S(r)
        self.sums[name] = (c.ps, r); self.nq += e.nq; self.tq += e.tq
        return self.sums[name]
    def is_pure(self, name):
        f = self.mod.funcs.get(name)
        if f is None: return False
        f = self.mod.func(name)
        if any(t[0] != 'i' for t, _ in f.params) or f.loops: return False
        return all(i.op in ('phi', 'br', 'switch', 'ret', 'bin', 'cast', 'icmp', 'select', 'freeze') for b in f.rpo for i in f.blocks[b].ins)
    # ---- loops
    def handle_loop(self, h, items):
        """-> [(target, pred, state)] for states that leave the loop"""
        f = self.f
        body = f.loops[h]
        if h not in self.cutloops:
            snapshot = [(p, s.fork()) for p, s in items]
            nob, nf = len(self.obs), len(self.failed)
            r0 = self.rets
            ok, outs = self.try_unroll(h, items, body)
            if ok: return outs
            del self.obs[nob:]; del self.failed[nf:]; self.rets = r0
            self.cutloops.add(h)
            items = snapshot
        # merge arrivals
        sts = []
        for p, s in items:
            if p is not None: self.phis(h, p, s)
            sts.append(s)
        phi = [i for i in f.blocks[h].ins if i.op == 'phi']
        if self.c.merge and len(sts) > 1:
            sts = self.merge_states(sts, self.live_from(h) | {i.dst for i in phi})
        outs = []
        for _ in range(4):
            if not getattr(self.c, 'unbounded', False): break
            # arrivals that are not yet of the shape the invariant describes go round once more by themselves
            odd = [s for s in sts if not self.required(s, h)]
            if not odd: break
            ex = self.explore([(h, None, s) for s in odd], body, h)
            sts = [s for s in sts if not any(s is o for o in odd)]
            for p, s in ex.pop(h, []): self.phis(h, p, s); sts.append(s)
            for t, l in ex.items(): outs += [(t, p, s) for p, s in l]
        for s in sts: outs += self.cut_loop(h, body, phi, s)
        return outs
    def required(self, s, h):
        """the facts a contract insists on hold in s, at the head of loop h"""
        for nm, g in self.c.cands(self, s, bv(0), h):
            if nm.startswith('!') and not z3.is_true(S(g)) and not self.must(s, g): return False
        return True
    def extra_turns(self, ex, body, h):
        """back edges whose state the invariant does not describe are followed once more (contracts whose invariants do not speak of N)"""
        if not getattr(self.c, 'unbounded', False): return ex
        for _ in range(3):
            odd, rest = [], []
            for p, s in ex.get(h, []):
                q = s.fork(); self.phis(h, p, q)
                (rest if self.required(q, h) else odd).append((p, s))
            if not odd: break
            ex[h] = rest
            for t, l in self.explore([(h, p, s) for p, s in odd], body, h).items(): ex[t] = list(ex.get(t, [])) + list(l)
        return ex
    def counted(self, h, items, limit):
        """a counted loop (i = const; i < X; i++) whose bound X may exceed limit on arrival"""
        f = self.f
        ph = {i.dst: i for i in f_phis(f, h)}
        body = f.loops[h]
        defs = {i.dst: i for b in body for i in f.blocks[b].ins if i.dst}
        blk = h
        last = f.blocks[blk].ins[-1]
        if last.op != 'br' or last.a[0] is None: return False
        c = defs.get(last.a[0][1]) if last.a[0][0] == 'loc' else None
        if c is None or c.op != 'icmp': return False
        pr, t, a, b = c.a
        if t[0] != 'i': return False
        for x, y in ((a, b), (b, a)):
            if x[0] == 'loc' and x[1] in ph and not (y[0] == 'loc' and y[1] in defs):
                step = None
                for v, lab in ph[x[1]].a:
                    if lab in body and v[0] == 'loc' and v[1] in defs:
                        d = defs[v[1]]
                        if d.op == 'bin' and d.a[0] == 'add' and d.a[1] == x and d.a[2][0] == 'int': step = d.a[2][1]
                if step != 1: continue
                for p, s in items[:2]:
                    s = s.fork()
                    if p is not None: self.phis(h, p, s)
                    i0 = const(s.env[x[1]])
                    if i0 != 0: continue
                    n = self.val(s, t, y)
                    if const(n) is None and self.feasible(s, n == bv(limit + 7, n.size())): return True
        return False
    def try_unroll(self, h, items, body):
        """depth-first full unrolling; gives up when > limit iterations are feasible"""
        limit = self.c.unroll
        if self.counted(h, items, limit): return False, None
        outs = []
        # quick probe with recording off: follow one path deep
        rec = self.record; self.record = False
        probe = [] if h in self.unrolled else [(0, [(p, s.fork()) for p, s in items])]
        deep = False; budget = 40
        while probe and budget:
            budget -= 1
            d, its = probe.pop()
            if d > limit: deep = True; break
            its = its[:1] if d else its
            for p, s in its[:3]:
                ex = self.explore([(h, p, s)], body, h)
                back = ex.pop(h, [])
                if back: probe.append((d + 1, [back[-1]])); 
                if len(back) > 1: probe.insert(0, (d + 1, [back[0]]))
        self.record = rec
        if deep: return False, None
        cur = items
        for it in range(limit + 2):
            if not cur: self.unrolled.add(h); return True, outs
            # header join of this iteration
            if self.c.merge and len(cur) > 1:
                sts = []
                for p, s in cur:
                    if p is not None: self.phis(h, p, s)
                    sts.append(s)
                sts = self.merge_states(sts, self.live_from(h) | {i.dst for i in f_phis(self.f, h)})
                start = [(h, None, s) for s in sts]
            else: start = [(h, p, s) for p, s in cur]
            ex = self.explore(start, body, h)
            cur = ex.pop(h, [])
            for t, l in ex.items(): outs += [(t, p, s) for p, s in l]
        return False, None
    def int_cands(self, ex_st, phi, init, N, accs):
        """template invariants for one header phi: (name, predicate on the value, closed form or None)"""
        out = []
        nm = phi.dst
        if isinstance(init, z3.BoolRef):
            return [('%s=%s0' % (nm, nm), lambda v: v == init, init)]
        if isinstance(init, Ptr):
            o0 = init.off
            P = lambda o: Ptr(init.reg, S(o))
            out.append(('%s=%s0' % (nm, nm), lambda v: v.off == o0, init))
            for c in self.c.strides():
                for sg in (1, -1):
                    e = o0 + bv(sg * c) * N
                    out.append(('%s=%s0%+d*N' % (nm, nm, sg * c), (lambda v, e=e: v.off == e), P(e)))
            for an, (F, F0) in accs.items():
                e = o0 + (F - F0)
                out.append(('%s=%s0+%s' % (nm, nm, an), (lambda v, e=e: v.off == e), P(e)))
            out.append(('%s!=null' % nm, lambda v: v.num() != 0, None))
            out.append(('%s>=%s0' % (nm, nm), lambda v: z3.UGE(v.off, o0), None))
            return out
        w = init.size()
        T = lambda x: zx(x, w)
        out.append(('%s=%s0' % (nm, nm), lambda v: v == init, init))
        for c in self.c.strides():
            for sg in (1, -1):
                e = S(init + bv(sg * c, w) * T(N))
                out.append(('%s=%s0%+d*N' % (nm, nm, sg * c), (lambda v, e=e: v == e), e))
        for an, (F, F0) in accs.items():
            e = S(init + T(F - F0)); e2 = S(init - T(F - F0))
            out.append(('%s=%s0+%s' % (nm, nm, an), (lambda v, e=e: v == e), e))
            out.append(('%s=%s0-%s' % (nm, nm, an), (lambda v, e=e2: v == e), e2))
        out.append(('%s>=0' % nm, lambda v: v >= 0, None))
        if w >= 32:
            out.append(('%s<=%s0' % (nm, nm), lambda v: v <= init, None))
            out.append(('%s>=%s0' % (nm, nm), lambda v: v >= init, None))
        return out
    def cut_loop(self, h, body, phi, st0):
        c = self.c
        N = z3.ZeroExt(64 - self.c.counter_bits, fresh('N', self.c.counter_bits))
        zero = bv(0)
        # ghost facts at 0
        st0.pc += c.unfold(self, st0, zero, h)
        phi_n = [p.dst for p in phi]
        init = {p.dst: st0.env[p.dst] for p in phi}
        havoc = set()
        c.loopN, c.loopH = N, h
        accs0 = c.accs(self, st0, zero, h)
        accsN = c.accs(self, st0, N, h)
        accs1 = c.accs(self, st0, S(N + 1), h)
        A_N = {k: (accsN[k], accs0[k]) for k in accsN}
        A_1 = {k: (accs1[k], accs0[k]) for k in accs1}
        # candidates: ('phi', name, index) or ('c', name)
        def phi_cands(k_accs, n):
            r = []
            for p in phi:
                for nm, fn, closed in self.int_cands(st0, p, init[p.dst], n, k_accs):
                    r.append((nm, p.dst, fn, closed))
            return r
        PN, P1, P0 = phi_cands(A_N, N), phi_cands(A_1, S(N + 1)), phi_cands({k: (accs0[k], accs0[k]) for k in accs0}, zero)
        alive = set()
        def evalphi(st, cand): 
            v = st.env[cand[1]]
            return cand[2](v)
        # initiation
        for i, cd in enumerate(P0):
            try: g = evalphi(st0, cd)
            except Exception: continue
            if z3.is_true(S(g)) or self.must(st0, g): alive.add(('p', i))
        cc0 = c.cands(self, st0, zero, h)
        for i, (nm, g) in enumerate(cc0):
            if z3.is_true(S(g)) or self.must(st0, g): alive.add(('c', i))
            elif nm.startswith('!'): raise Fail('loop %s: "%s" does not hold on entry' % (h, nm[1:]))
            else: self.log.append('candidate %s of %s does not hold on entry' % (nm, h))
        rounds = 0
        shapes_fixed = {d: init[d].reg if isinstance(init[d], Ptr) else None for d in phi_n}
        unknown_shape = set()
        rec = self.record
        while True:
            rounds += 1
            if rounds > 40: raise Fail('invariant inference did not converge at ' + h)
            st = st0.fork()
            st.wrote = set()
            for k in havoc:
                r = self.regions.get(k)
                if r is not None: r.havoc(self, st)
                else: c.havoc_ghost(self, st, k)
            for p in phi:
                v0 = init[p.dst]
                if isinstance(v0, Ptr):
                    if p.dst in unknown_shape: st.env[p.dst] = Ptr(NULLR, fresh(p.dst))
                    else: st.env[p.dst] = Ptr(v0.reg, fresh(p.dst))
                elif isinstance(v0, z3.BoolRef): st.env[p.dst] = freshb(p.dst)
                else: st.env[p.dst] = fresh(p.dst, v0.size())
            st.ghost['N'] = N; st.ghost[('N', h)] = N; closed_for = set()
            st.pc.append(z3.ULT(N, bv((1 << self.c.counter_bits) - 1)))
            st.pc += c.unfold(self, st, N, h)
            for i, cd in enumerate(PN):
                if ('p', i) in alive and cd[3] is not None and cd[1] not in unknown_shape and cd[1] not in closed_for:
                    closed_for.add(cd[1]); st.env[cd[1]] = cd[3]
            for i, cd in enumerate(PN):
                if ('p', i) in alive and not (cd[1] in unknown_shape): 
                    g = S(evalphi(st, cd))
                    if not z3.is_true(g): st.pc.append(g)
            for i, (nm, g) in enumerate(c.cands(self, st, N, h)):
                if ('c', i) in alive: st.pc.append(g)
            if hasattr(c, 'loop_assume'): st.pc += c.loop_assume(self, st, N, h)
            if self.check(st.pc) == z3.unsat: raise Fail('loop invariant at %s is contradictory (vacuous)' % h)
            head = st.fork()
            st.wrote = set()
            self.record = False
            r0 = self.rets
            ex = self.extra_turns(self.explore([(h, None, st)], body, h), body, h)
            self.record = rec; self.rets = r0
            back = ex.get(h, [])
            changed = False
            for pred, s in back:
                new = (s.wrote) - havoc
                if new: havoc |= new; changed = True
            bstates = []
            for pred, s in back:
                self.phis(h, pred, s)
                for p in phi:
                    v, v0 = s.env[p.dst], init[p.dst]
                    if isinstance(v0, Ptr) and p.dst not in unknown_shape:
                        if v.reg is not v0.reg and v.reg.key != v0.reg.key:
                            unknown_shape.add(p.dst); changed = True
                bstates.append(s)
            if changed: continue
            # preservation
            dropped = False
            for s in bstates:
                s.pc += c.unfold(self, s, S(N + 1), h)
                s.pc += c.step(self, s, N, h)
                goals = []
                for i, cd in enumerate(P1):
                    if ('p', i) in alive:
                        if cd[1] in unknown_shape: alive.discard(('p', i)); continue
                        goals.append((('p', i), evalphi(s, cd)))
                for i, (nm, g) in enumerate(c.cands(self, s, S(N + 1), h)):
                    if ('c', i) in alive: goals.append((('c', i), g))
                goals = [(k, S(g)) for k, g in goals if k in alive]
                goals = [(k, g) for k, g in goals if not z3.is_true(g)]
                while goals:
                    r, m, _ = self.check(s.pc + [z3.Not(z3.And(*[g for _, g in goals]))], True, timeout=self.timeout // 2 if len(goals) > 1 else None)
                    if r == z3.unsat: break
                    if r == z3.sat:
                        bad = [k for k, g in goals if not z3.is_true(m.eval(g, model_completion=True))]
                        if not bad: bad = [goals[0][0]]
                    else:
                        bad = []
                        for k, g in goals:
                            q = self.check(s.pc + [z3.Not(g)])
                            # what the contract relies on is not given up for a slow machine
                            if q == z3.unknown and k[0] == 'c': q = self.check(s.pc + [z3.Not(g)], timeout=3 * self.timeout)
                            if q != z3.unsat: bad.append(k)
                        if not bad: break
                    for k in bad:
                        alive.discard(k); dropped = True
                        if k[0] == 'c' and cc0[k[1]][0].startswith('!'): raise Fail('loop %s: "%s" is not preserved' % (h, cc0[k[1]][0][1:]))
                        if k[0] == 'c':
                            self.log.append('candidate %s of %s not preserved via %s' % (cc0[k[1]][0], h, s.trail[-6:]))
                    goals = [(k, g) for k, g in goals if k not in bad]
            if not dropped: break
        unb = getattr(c, 'unbounded', False)      # the invariant does not speak of N
        if unb and any(k[0] == 'p' and '*N' in P0[k[1]][0] for k in alive): raise Fail('unbounded loop %s has counters' % h)
        for s in bstates:
            if not unb and not self.must(s, z3.ULT(N + 1, bv((1 << c.counter_bits) - 1))) and \
               self.check(s.pc + [z3.UGE(N + 1, bv((1 << c.counter_bits) - 1))]) != z3.unsat:
                raise Fail('iterations of loop %s are not bounded by 2^%d' % (h, c.counter_bits))
        if self.check(head.pc + [N == 2]) == z3.unsat: raise Fail('loop invariant at %s excludes later iterations (vacuous)' % h)
        # stable: the invariant is inductive; record this as proved obligations
        if rec:
            for k in sorted(alive):
                nm = P0[k[1]][0] if k[0] == 'p' else cc0[k[1]][0]
                self.obs.append(Obligation('invariant', 'loop %s: %s established and preserved' % (h, nm), 'proved', self.fname))
            self.invs[h] = [P0[k[1]][0] if k[0] == 'p' else cc0[k[1]][0] for k in sorted(alive)]
            req = getattr(c, 'required_invs', None)
        # final pass with recording on
        st = head
        st.wrote = set()
        ex = self.extra_turns(self.explore([(h, None, st)], body, h), body, h)
        ex.pop(h, None)
        outs = []
        for t, l in ex.items():
            for p, s in l:
                s.wrote |= st0.wrote | havoc
                s.ghost.pop('N', None)
                outs.append((t, p, s))
        return outs

def f_phis(f, h): return [i for i in f.blocks[h].ins if i.op == 'phi']

def cvc5_check(fs, secs, asint=False):
    """same query, second solver, via SMT-LIB text"""
    try:
        import cvc5
        s = z3.Solver(); s.add(*fs)
        txt = s.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        sol = cvc5.Solver(tm) if tm else cvc5.Solver()
        sol.setOption('tlimit-per', str(secs * 1000))
        if asint: sol.setOption('solve-bv-as-int', 'sum')
        sol.setLogic('ALL')
        p = cvc5.InputParser(sol)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            r = c.invoke(sol, sm)
            if r: res = str(r).strip()
        return res
    except Exception as e:
        return 'error %s' % e
