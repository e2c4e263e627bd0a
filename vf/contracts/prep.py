"""Machine-independent preparation (prep_cif.c): layout of aggregates, the checks of a
signature, what a call interface records, the variadic rule.

Spec functions over the heap as it is when the function is entered (all defined here,
independently of the code):
  SZ0(t), AL0(t)   size and alignment stored in descriptor t (size 0: no layout yet)
  ESZ(e), EAL(e)   size and alignment e has in the end: the stored ones, or the natural layout
  AEND(t,i), AMAX(t,i)  end and strictest alignment of the first i members of t
  OKP(t,i)         the first i members of t are valid;  OKAGG(t): t is a layable aggregate
Type graphs are acyclic (a C type cannot contain itself), so the recursion terminates and
an aggregate is not reachable from its own members."""
from ..theory import *
from .sysv import abi_consts, small

SZ0 = uf('SZ0', 1, 40, 64); AL0 = uf('AL0', 1, 16, 16)
AEND = uf('AEND', 2, 48, 64); AMAX = uf('AMAX', 2, 16, 16); ASZ = uf('ASZ', 1, 48, 64); AAL = lambda t: AMAX(t, NEL(t))
OKP = z3.Function('OKP', B64, B64, BOOL); OKAGG = z3.Function('OKAGG', B64, BOOL)
ARG = z3.Function('ARGT', B64, B64)
def aup(v, a):
    """least multiple of the power of two a that is >= v"""
    a = zx(a); return v + ((bv(0) - v) & (a - 1))
def OKE(e): return z3.Or(SZ0(e) != 0, OKAGG(e))
def ESZ(e): return z3.If(SZ0(e) != 0, SZ0(e), ASZ(e))
def EAL(e): return z3.If(SZ0(e) != 0, AL0(e), AAL(e))
def p2(a): return z3.And(a != 0, a & (a - 1) == 0)
def valid(e):
    """descriptor e: whatever already has a size has a power-of-two alignment; what is valid has both"""
    return [e != 0, z3.Implies(SZ0(e) != 0, p2(AL0(e))), z3.Implies(OKAGG(e), z3.And(ASZ(e) != 0, p2(AAL(e)), z3.ULT(ASZ(e), bv(1 << 40))))]
def member(t, i):
    """definition of the recurrences at member i, and the monotonicity of OKP"""
    e = ELEM(t, i); o = aup(AEND(t, i), EAL(e))
    return [AEND(t, bv(0)) == 0, AMAX(t, bv(0)) == 0, OKP(t, bv(0)),
            (e == 0) == (i == NEL(t)),
            z3.Implies(z3.ULT(i, NEL(t)), z3.And(
                z3.Implies(OKE(e), z3.And(AEND(t, i + 1) == o + ESZ(e), AMAX(t, i + 1) == z3.If(z3.UGT(EAL(e), AMAX(t, i)), EAL(e), AMAX(t, i)))),
                OKP(t, i + 1) == z3.And(OKP(t, i), OKE(e)),
                z3.Implies(OKP(t, NEL(t)), OKP(t, i + 1)),
                *valid(e)))]
def agg(t):
    """definition of OKAGG and of the size of an aggregate with a member list"""
    return [OKAGG(t) == z3.And(ELS(t) != 0, OKP(t, NEL(t)), ASZ(t) != 0), z3.Implies(OKP(t, NEL(t)), ASZ(t) == aup(AEND(t, NEL(t)), AMAX(t, NEL(t))))]
def okp_lemma(ex):
    st = State(); t = z3.BitVec('lt', 64); i, j = z3.BitVecs('li lj', 64)
    st.pc += [z3.ULE(i, j), OKP(t, j + 1) == z3.And(OKP(t, j), OKE(ELEM(t, j))), z3.Implies(OKP(t, j), OKP(t, i))]
    ex.ob(st, 'lemma', 'validity of a prefix is monotone: induction step', z3.Implies(OKP(t, j + 1), OKP(t, i)), assume=False)

class TyCell(CellRegion):
    """a type descriptor the function reaches through a member or argument list: already laid out, laid
    out meanwhile, or without layout.  The code under proof may not write it itself."""
    def __init__(self, heap, t, k):
        CellRegion.__init__(self, 'type[%s]' % t, 24, readonly=True, base=t, frame_tag='untouched'); self.key = 'type:%d' % k
        self.t, self.heap = t, heap
    def cells(self, st):
        if not st.mem.get(self.key):
            t, s, a = self.t, z3.ZeroExt(24, fresh('size', 40)), fresh('align', 16)
            st.pc.append(z3.If(SZ0(t) != 0, z3.And(s == SZ0(t), a == AL0(t)), z3.Or(s == 0, z3.And(OKAGG(t), s == ASZ(t), a == AAL(t)))))
            st.mem[self.key] = {0: (8, s), 8: (2, a), 10: (2, TYP(t)), 16: (8, ELS(t))}
        return st.mem[self.key]
    def load1(self, ex, st, o, n, isptr):
        v = CellRegion.load1(self, ex, st, o, n, isptr)
        if (o, n) == (0, 8) and 'laid' in st.mem:
            st.mem['laid'] = S(z3.Or(st.mem['laid'], z3.And(self.t == self.heap.watch, v != 0))); st.wrote.add('laid')
        return v

class Heap:
    def __init__(self, ex): self.ex, self.cache, self.watch = ex, {}, None
    def ptr(self, st, t):
        t = S(t); k = t.get_id()
        if k not in self.cache: self.cache[k] = TyCell(self, t, k); self.ex.reg(self.cache[k])
        st.pc += valid(t)
        self.cache[k].cells(st)
        return Ptr(self.cache[k], 0)
    def members(self, t):
        r = FnRegion('members', base=ELS(t), size=(NEL(t) + 1) * 8, frame_tag='untouched')
        def loadf(ex, st, off, n, isptr):
            if n != 8: raise Fail('member list access size')
            ex.ob(st, 'memory', 'member access aligned', off & 7 == 0)
            i = ex.norm(st, z3.LShR(off, 3))
            st.pc += member(t, i)
            out = []
            if ex.feasible(st, i == NEL(t)):
                s2 = st.fork(); s2.pc.append(i == NEL(t)); out.append((s2, NULL))
            if ex.feasible(st, i != NEL(t)):
                st.pc.append(i != NEL(t)); out.append((st, self.ptr(st, ELEM(t, i))))
            return out
        r.loadf = loadf
        return self.ex.reg(r)

def init_agg_call(self, ex, st, args):
    """contract of initialize_aggregate, as its callers use it (no offsets array)"""
    p, o = args
    K = abi_consts()
    if not (isinstance(o, Ptr) and const(o.num()) == 0): raise Fail('layout with offsets of an inner type')
    if not isinstance(p.reg, TyCell) or const(p.off) != 0: raise Fail('layout of something that is not a type of the signature')
    e = p.reg.t
    ex.ob(st, 'untouched', 'only types without a layout are laid out', CellRegion.load1(p.reg, ex, st, 0, 8, False) == 0)
    ok = OKAGG(e)
    st.mem[p.reg.key] = {0: (8, z3.If(ok, ASZ(e), bv(0))), 8: (2, z3.If(ok, AAL(e), fresh('al', 16))), 10: (2, TYP(e)), 16: (8, ELS(e))}
    st.wrote.add(p.reg.key)
    if 'laid' in st.mem: st.mem['laid'] = S(z3.Or(st.mem['laid'], z3.And(e == self.heap.watch, ok))); st.wrote.add('laid')
    return [(st, z3.If(ok, bv(K['FFI_OK'], 32), bv(K['FFI_BAD_TYPEDEF'], 32)))]

class Words(WRegion):
    """caller-supplied array of size_t, followed at one arbitrary index k"""
    def __init__(self, name, n, k):
        WRegion.__init__(self, name, n * 8); self.k = k; self.unk = z3.BitVec('w_' + name, 64)
    def load(self, ex, st, off, n, isptr): raise Fail('read of ' + self.name)
    def store(self, ex, st, off, n, val):
        ex.bounds(st, self, off, n, 'write')
        if n != 8: raise Fail('store size into ' + self.name)
        ex.ob(st, 'memory', 'aligned store', off & 7 == 0)
        st.mem[self.key] = S(z3.If(off == 8 * self.k, ex.num(val), self.val(st))); st.wrote.add(self.key)
        return [st]
    def havoc(self, ex, st): st.mem[self.key] = fresh('w_' + self.name)

class InitAgg(Contract):
    """static ffi_status initialize_aggregate (ffi_type *arg, size_t *offsets)"""
    def setup(self, ex):
        okp_lemma(ex)
        out = []
        t = self.t = z3.BitVec('t', 64)
        self.heap = Heap(ex)
        self.arg = ex.reg(CellRegion('aggregate', 24, base=t))
        els = self.heap.members(t)
        self.k = small('k', 21)
        self.offs = ex.reg(Words('offsets', NEL(t), self.k))
        for case in ('null type', 'no member list', 'layout only', 'layout and offsets'):
            st = State(); st.ghost['case'] = case
            st.pc += [t != 0, z3.ULE(NEL(t), 1 << 20)] + agg(t)
            st.pc += [self.offs.base != 0, z3.ULE(self.offs.base, bv(0) - 8 * NEL(t) - 8)]     # the array does not wrap around
            st.pc.append(ELS(t) == 0 if case == 'no member list' else ELS(t) != 0)
            self.arg.init(st, 0, 8, SZ0(t)); self.arg.init(st, 8, 2, AL0(t)); self.arg.init(st, 10, 2, TYP(t))
            self.arg.init(st, 16, 8, NULL if case == 'no member list' else Ptr(els, 0))
            out.append((st, [NULL if case == 'null type' else Ptr(self.arg, 0), Ptr(self.offs, 0) if case == 'layout and offsets' else NULL]))
        return out
    def f(self, ex, st, o, n): return self.arg.load1(ex, st, o, n, False)
    def unfold(self, ex, st, N, loop): return member(self.t, N)
    def accs(self, ex, st, N, loop): return {'AEND': AEND(self.t, N), 'AMAX': zx(AMAX(self.t, N))}
    def cands(self, ex, st, N, loop):
        t = self.t; s, a = self.f(ex, st, 0, 8), self.f(ex, st, 8, 2)
        E, A = AEND(t, N), AMAX(t, N)
        out = [('N<=NEL', z3.ULE(N, NEL(t))), ('running size', s == E), ('running alignment', a == A),
                ('alignment is a power of two', z3.If(N == 0, A == 0, p2(A))), ('members so far are valid', OKP(t, N)),
                ('size is positive', z3.Implies(N != 0, E != 0)),
                ('type code is kept', self.f(ex, st, 10, 2) == TYP(t)), ('member list is kept', self.f(ex, st, 16, 8) == ELS(t))]
        if st.ghost['case'] == 'layout and offsets':
            w = self.offs.val(st)
            out += [('offset of a member', z3.Implies(z3.ULT(self.k, N), w == aup(AEND(t, self.k), EAL(ELEM(t, self.k))))),
                    ('offsets to come are not written', z3.Implies(z3.UGE(self.k, N), w == self.offs.unk))]
        return out
    def call(self, ex, st, name, args, ins):
        if name == ex.fname: return init_agg_call(self, ex, st, args)
    def on_ret(self, ex, st, v):
        t, K, c = self.t, abi_consts(), st.ghost['case']
        if c == 'null type':
            ex.ob(st, 'verdict', 'no type is no type', v == K['FFI_BAD_TYPEDEF']); return
        ex.ob(st, 'verdict', 'accepted iff every member is valid and the size is not zero', v == z3.If(OKAGG(t), bv(K['FFI_OK'], 32), bv(K['FFI_BAD_TYPEDEF'], 32)))
        s, a = self.f(ex, st, 0, 8), self.f(ex, st, 8, 2)
        ex.ob(st, 'layout', 'size is the natural size', z3.Implies(OKAGG(t), s == ASZ(t)), assume=False)
        ex.ob(st, 'layout', 'alignment is that of the strictest member', z3.Implies(OKAGG(t), a == AAL(t)), assume=False)
        ex.ob(st, 'layout', 'alignment is a power of two', z3.Implies(OKAGG(t), p2(a)), assume=False)
        ex.ob(st, 'verdict', 'a rejected aggregate stays without layout', z3.Implies(z3.And(z3.Not(OKAGG(t)), z3.Or(ELS(t) != 0, SZ0(t) == 0)), s == 0), assume=False)
        ex.ob(st, 'layout', 'type code and member list are not changed', z3.And(self.f(ex, st, 10, 2) == TYP(t), self.f(ex, st, 16, 8) == ELS(t)), assume=False)
        if c == 'layout and offsets':
            ex.ob(st, 'layout', 'offset of every member', z3.Implies(z3.And(OKAGG(t), z3.ULT(self.k, NEL(t))), self.offs.val(st) == aup(AEND(t, self.k), EAL(ELEM(t, self.k)))), assume=False)
    def __init__(self): self.assumes = ['type graphs are acyclic; natural size of an aggregate is below 2^48, of a valid member below 2^40']

class StructOffsets(Contract):
    """ffi_status ffi_get_struct_offsets (ffi_abi abi, ffi_type *struct_type, size_t *offsets)"""
    def setup(self, ex):
        st = State(); self.t = z3.BitVec('t', 64); t = self.t
        self.heap = Heap(ex); self.abi = z3.BitVec('abi', 32)
        self.arg = ex.reg(CellRegion('aggregate', 24, base=t, readonly=True, frame_tag='untouched'))
        st.pc += [t != 0]
        self.arg.init(st, 0, 8, SZ0(t)); self.arg.init(st, 8, 2, AL0(t)); self.arg.init(st, 10, 2, TYP(t)); self.arg.init(st, 16, 8, ELS(t))
        self.offs = ex.reg(FnRegion('offsets', base=z3.BitVec('p_offsets', 64), frame_tag='untouched'))
        return [(st, [self.abi, Ptr(self.arg, 0), Ptr(self.offs, 0)])]
    def call(self, ex, st, name, args, ins):
        if name != 'initialize_aggregate': return None
        ex.ob(st, 'layout', 'lays out the given type into the given array', z3.And(args[0].num() == self.t, ex.num(args[1]) == self.offs.base))
        st.ghost['r'] = 1
        self.r = z3.BitVec('status', 32)
        return [(st, self.r)]
    def on_ret(self, ex, st, v):
        K = abi_consts()
        known = z3.Or(*[self.abi == K[k] for k in ('FFI_UNIX64', 'FFI_WIN64', 'FFI_GNUW64', 'FFI_EFI64')])
        struct = TYP(self.t) == STRUCT
        r = self.r if st.ghost.get('r') else None
        if r is None: ex.ob(st, 'verdict', 'unknown ABI or not a struct', z3.And(z3.Or(z3.Not(known), z3.Not(struct)), v == z3.If(known, bv(K['FFI_BAD_TYPEDEF'], 32), bv(K['FFI_BAD_ABI'], 32))))
        else: ex.ob(st, 'verdict', 'verdict of the layout', z3.And(known, struct, v == r))

OKARGP = z3.Function('OKARGP', B64, BOOL)
def argstep(i): return [OKARGP(bv(0)), OKARGP(i + 1) == z3.And(OKARGP(i), OKE(ARG(i)))]

class ArgList:
    def __init__(self, ex, heap, n):
        self.r = FnRegion('atypes', base=z3.BitVec('p_atypes', 64), size=n * 8, frame_tag='untouched')
        def loadf(ex, st, off, m, isptr):
            if m != 8: raise Fail('argument type list access size')
            ex.ob(st, 'memory', 'argument type access aligned', off & 7 == 0)
            i = ex.norm(st, z3.LShR(off, 3))
            st.pc += argstep(i) + [z3.Implies(OKARGP(n), OKARGP(i + 1))]
            return heap.ptr(st, ARG(i))
        self.r.loadf = loadf; ex.reg(self.r)

class Core(Contract):
    """ffi_status ffi_prep_cif_core (cif, abi, isvariadic, nfixedargs, ntotalargs, rtype, atypes)"""
    def setup(self, ex):
        st = State(); self.K = abi_consts()
        # monotonicity of OKARGP
        l = State(); i, j = z3.BitVecs('li lj', 64)
        l.pc += [z3.ULE(i, j), z3.Implies(OKARGP(j), OKARGP(i))] + argstep(j)
        ex.ob(l, 'lemma', 'validity of an argument prefix is monotone: induction step', z3.Implies(OKARGP(j + 1), OKARGP(i)), assume=False)
        self.abi = z3.BitVec('abi', 32); self.n32 = z3.ZeroExt(11, z3.BitVec('nargs', 21)); self.n = zx(self.n32)
        self.RT = z3.BitVec('rtype', 64); self.k = small('k', 21)
        self.heap = Heap(ex); self.heap.watch = ARG(self.k)
        self.args = ArgList(ex, self.heap, self.n)
        self.cif = ex.reg(CellRegion('cif', 32))
        self.isvar, self.nfix = z3.BitVec('isvariadic', 32), z3.BitVec('nfixed', 32)
        st.pc += [z3.ULE(self.n, 1 << 20), z3.ULE(self.nfix, self.n32), z3.Implies(self.n != 0, self.args.r.base != 0), OKARGP(bv(0))]
        st.mem['laid'] = z3.BoolVal(False)
        self.status = z3.BitVec('machdep_status', 32)
        rp = self.heap.ptr(st, self.RT)
        return [(st, [Ptr(self.cif, 0), self.abi, self.isvar, self.nfix, self.n32, rp, Ptr(self.args.r, 0)])]
    def havoc_ghost(self, ex, st, k):
        if k != 'laid': raise Fail('ghost ' + str(k))
        st.mem['laid'] = freshb('laid')
    def unfold(self, ex, st, N, loop): return argstep(N) + [z3.Implies(OKARGP(self.n), OKARGP(N))]
    def fields(self, ex, st):
        return z3.And(self.cif.load1(ex, st, 0, 4, False) == self.abi, self.cif.load1(ex, st, 4, 4, False) == self.n32,
                      self.cif.load1(ex, st, 8, 8, False) == self.args.r.base, self.cif.load1(ex, st, 16, 8, False) == self.RT)
    def cands(self, ex, st, N, loop):
        return [('N<=nargs', z3.ULE(N, self.n)), ('arguments so far are valid', OKARGP(N)), ('arguments so far are laid out', z3.Implies(z3.ULT(self.k, N), st.mem['laid']))]
    def call(self, ex, st, name, args, ins):
        if name == 'initialize_aggregate': return init_agg_call(self, ex, st, args)
        if name == 'ffi_prep_cif_machdep':
            ex.ob(st, 'recorded', 'machine-dependent preparation gets this call interface', ex.num(args[0]) == self.cif.base)
            ex.ob(st, 'recorded', 'the interface holds the given signature', self.fields(ex, st))
            ex.ob(st, 'recorded', 'stack size and flags start from zero', z3.And(self.cif.load1(ex, st, 24, 4, False) == 0, self.cif.load1(ex, st, 28, 4, False) == 0))
            ex.ob(st, 'verdict', 'every type of the signature is valid', z3.And(OKE(self.RT), OKARGP(self.n)))
            ex.ob(st, 'laid', 'every argument type is laid out', z3.Implies(z3.ULT(self.k, self.n), st.mem['laid']))
            ex.ob(st, 'laid', 'the return type is laid out', CellRegion.load1(self.heap.ptr(st, self.RT).reg, ex, st, 0, 8, False) != 0)
            if st.ghost.get('m'): raise Fail('machine-dependent preparation runs twice')
            st.ghost['m'] = 1
            # its contract: status, and only the two derived fields change (units machdep / wmachdep)
            self.cif.store1(ex, st, 24, 4, z3.BitVec('md_bytes', 32)); self.cif.store1(ex, st, 28, 4, z3.BitVec('md_flags', 32))
            return [(st, self.status)]
    def on_ret(self, ex, st, v):
        K = self.K
        known = z3.Or(*[self.abi == K[k] for k in ('FFI_UNIX64', 'FFI_WIN64', 'FFI_GNUW64', 'FFI_EFI64')])
        good = z3.And(OKE(self.RT), OKARGP(self.n))
        if st.ghost.get('m'):
            ex.ob(st, 'verdict', 'verdict of the machine-dependent part', z3.And(known, v == self.status))
            ex.ob(st, 'recorded', 'the interface holds the signature and what the machine-dependent part derived', z3.And(self.fields(ex, st),
                  self.cif.load1(ex, st, 24, 4, False) == z3.BitVec('md_bytes', 32), self.cif.load1(ex, st, 28, 4, False) == z3.BitVec('md_flags', 32)))
        else:
            ex.ob(st, 'verdict', 'bad ABI for every ABI that is not one of the platform, bad type for every invalid type, nothing else',
                  z3.And(z3.Not(z3.And(known, good)), v == z3.If(known, bv(K['FFI_BAD_TYPEDEF'], 32), bv(K['FFI_BAD_ABI'], 32))))

class Prep(Contract):
    """ffi_prep_cif and ffi_prep_cif_var"""
    def __init__(self, var): self.var = var
    def setup(self, ex):
        st = State(); self.K = abi_consts()
        self.abi = z3.BitVec('abi', 32); self.n32 = z3.ZeroExt(11, z3.BitVec('nargs', 21)); self.n = zx(self.n32)
        self.nf32 = z3.ZeroExt(11, z3.BitVec('nfixed', 21))
        self.RT, self.k = z3.BitVec('rtype', 64), small('k', 21)
        self.cif = ex.reg(CellRegion('cif', 32, readonly=True, frame_tag='recorded')); self.rt = ex.reg(FnRegion('rtype', base=self.RT, size=24, frame_tag='untouched'))
        r = self.args = FnRegion('atypes', base=z3.BitVec('p_atypes', 64), size=self.n * 8, frame_tag='untouched')
        self.cache = {}
        def loadf(ex, st, off, m, isptr):
            if m != 8: raise Fail('argument type list access size')
            if not st.ghost.get('called'): raise Fail('argument types examined before the signature is checked')
            ex.ob(st, 'memory', 'argument type access aligned', off & 7 == 0)
            i = ex.norm(st, z3.LShR(off, 3)); t = ARG(i); k = t.get_id()
            st.ghost['seen'] = (i,)
            if k not in self.cache:
                q = FnRegion('type[%s]' % t, base=t, size=24, frame_tag='untouched', key='type:%d' % k)
                q.loadf = lambda ex, st, o, n, isptr, t=t: {(0, 8): SIZE(t), (8, 2): ALIGN(t), (10, 2): TYP(t)}.get((const(o), n))
                ex.reg(q); self.cache[k] = q
            st.pc += [t != 0]
            return Ptr(self.cache[k], 0)
        r.loadf = loadf; ex.reg(r)
        st.pc += [z3.ULE(self.n, 1 << 20), z3.ULE(self.nf32, self.n32), z3.Implies(self.n != 0, r.base != 0), self.cif.base != 0]
        # the only float type descriptor a caller can name is ffi_type_float
        self.float = z3.BitVec('&@ffi_type_float', 64)
        common = [Ptr(self.rt, 0), Ptr(r, 0)]
        return [(st, [Ptr(self.cif, 0), self.abi] + ([self.nf32, self.n32] if self.var else [self.n32]) + common)]
    def glob(self, ex, st, name):
        if name == 'ffi_type_float': return FnRegion('@ffi_type_float', base=self.float, size=24, frame_tag='untouched')
        if name.startswith('ffi_type_'):
            # the other predefined types: size as unit `types` establishes it
            sz = {'sint8': 1, 'uint8': 1, 'sint16': 2, 'uint16': 2, 'sint32': 4, 'uint32': 4, 'sint64': 8, 'uint64': 8, 'pointer': 8, 'double': 8}.get(name[9:])
            q = FnRegion('@' + name, size=24, frame_tag='untouched')
            q.loadf = lambda ex, st, o, n, isptr: bv(sz) if sz and (const(o), n) == (0, 8) else None
            return q
    def tyfacts(self, i):
        t = ARG(i)
        return [z3.Implies(TYP(t) == FLOAT, t == self.float), z3.Implies(t == self.float, z3.And(TYP(t) == FLOAT, SIZE(t) == 4))]
    def bad(self, i):
        t = ARG(i)
        return z3.Or(TYP(t) == FLOAT, z3.And(TYP(t) != STRUCT, TYP(t) != COMPLEX, z3.ULT(SIZE(t), 4)))
    def unfold(self, ex, st, N, loop):
        i = zx(self.nf32) + N
        return self.tyfacts(i) + self.tyfacts(self.k)
    def indices(self): return (self.k,)
    def cands(self, ex, st, N, loop):
        i = zx(self.nf32) + N
        return [('N<=variable arguments', z3.ULE(i, self.n)), ('variable arguments so far are promoted', z3.Implies(z3.And(z3.UGE(self.k, zx(self.nf32)), z3.ULT(self.k, i)), z3.Not(self.bad(self.k))))]
    def call(self, ex, st, name, args, ins):
        if name != 'ffi_prep_cif_core': return None
        if st.ghost.get('called'): raise Fail('prepares twice')
        st.ghost['called'] = 1
        c, a, v, f, n, rt, at = args
        ex.ob(st, 'recorded', 'the signature is prepared as given', z3.And(ex.num(c) == self.cif.base, a == self.abi, n == self.n32, ex.num(rt) == self.RT, ex.num(at) == self.args.base))
        ex.ob(st, 'variadic', 'variadic flag and fixed arguments', z3.And((v != 0) == z3.BoolVal(self.var), f == (self.nf32 if self.var else self.n32)))
        return [(st, z3.BitVec('core_status', 32))]
    def on_ret(self, ex, st, v):
        K = self.K; core = z3.BitVec('core_status', 32)
        ex.ob(st, 'verdict', 'the signature is prepared', z3.BoolVal(bool(st.ghost.get('called'))))
        if not self.var: ex.ob(st, 'verdict', 'verdict of the preparation', v == core); return
        bad = v == K['FFI_BAD_ARGTYPE']
        x = st.fork(); x.pc += self.tyfacts(self.k)
        ex.ob(x, 'variadic', 'a failed preparation keeps its verdict', z3.Implies(core != K['FFI_OK'], v == core))
        ex.ob(x, 'variadic', 'bad argument type or success', z3.Implies(core == K['FFI_OK'], z3.Or(v == K['FFI_OK'], bad)))
        ex.ob(x, 'variadic', 'accepted only if every variable argument is promoted', z3.Implies(z3.And(core == K['FFI_OK'], v == K['FFI_OK'], z3.UGE(self.k, zx(self.nf32)), z3.ULT(self.k, self.n)), z3.Not(self.bad(self.k))))
        # a rejection has a witness: an argument the loop looked at
        ws = [i for i in st.ghost.get('seen', ())]
        x.pc += [f for i in ws for f in self.tyfacts(i)]
        ex.ob(x, 'variadic', 'rejected only if some variable argument is not promoted', z3.Implies(z3.And(core == K['FFI_OK'], bad),
              z3.Or(*[z3.And(z3.UGE(i, zx(self.nf32)), z3.ULT(i, self.n), self.bad(i)) for i in ws]) if ws else z3.BoolVal(False)))
