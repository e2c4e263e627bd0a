"""Specification vocabulary shared by the contracts.

Type descriptions (ffi_type trees) are modelled by uninterpreted functions of
the descriptor's address; the recurrences below *define* layout and register
classification independently of the code (C natural layout, psABI 3.2.3)."""
import z3
from .sym import *

def uf(name, nargs, width, full):
    """uninterpreted spec function whose range is stated by its width (a precondition
    such as `sizes are below 2^30` costs the solver nothing this way)"""
    f = z3.Function(name, *([B64] * nargs + [z3.BitVecSort(width)]))
    return lambda *a: z3.ZeroExt(full - width, f(*a)) if full > width else f(*a)
SIZE = uf('SIZE', 1, 31, 64)
ALIGN = uf('ALIGN', 1, 5, 16)
TYP = uf('TYP', 1, 5, 16)
ELS = z3.Function('ELS', B64, B64)          # value of ->elements
NEL = uf('NEL', 1, 21, 64)                  # number of elements
ELEM = z3.Function('ELEM', B64, B64, B64)   # i-th element
END = uf('END', 2, 32, 64)                  # end of the first i elements
KM = z3.Function('KM', B64, B64, z3.BitVecSort(12))        # category mask of type t placed at offset o (o<8)
PM = z3.Function('PM', B64, B64, B64, z3.BitVecSort(12))   # same for the first i elements of struct t

VOID, INT, FLOAT, DOUBLE, LDBL, U8T, S8T, U16T, S16T, U32T, S32T, U64T, S64T, STRUCT, POINTER, COMPLEX = range(16)
INTS = (U8T, S8T, U16T, S16T, U32T, S32T, U64T, S64T, POINTER)
PRIM = {U8T: 1, S8T: 1, U16T: 2, S16T: 2, U32T: 4, S32T: 4, U64T: 8, S64T: 8, POINTER: 8, FLOAT: 4, DOUBLE: 8, LDBL: 16, VOID: 1}
h16 = lambda v: bv(v, 16)
def AL(t): return zx(ALIGN(t))
def is_(t, *codes): return z3.Or(*[TYP(t) == h16(c) for c in codes])
def pow2(a, hi=16):
    r, k = [], 1
    while k <= hi: r.append(a == k); k *= 2
    return z3.Or(*r)

def wf(t, void_ok=False, maxalign=16, big=(1 << 30)):
    """well-formed, initialised type description (preconditions of the ABI layer)"""
    inner = ELEM(t, bv(0))
    fs = [t != 0, z3.Or(*[TYP(t) == h16(c) for c in list(PRIM) + [STRUCT, COMPLEX]])]
    if not void_ok: fs.append(TYP(t) != VOID)
    fs.append(pow2(AL(t), maxalign))
    for c, s in PRIM.items():
        fs.append(z3.Implies(TYP(t) == h16(c), z3.And(SIZE(t) == s, ALIGN(t) == s)))
    fs.append(z3.Implies(TYP(t) == STRUCT, z3.And(z3.UGE(SIZE(t), 1), z3.ULE(SIZE(t), big), pow2(AL(t), maxalign),
                                                   z3.ULE(NEL(t), 1 << 20), z3.UGE(NEL(t), 1), ELS(t) != 0, END(t, bv(0)) == 0)))
    fs.append(z3.Implies(TYP(t) == COMPLEX, z3.And(
        is_(inner, FLOAT, DOUBLE, LDBL, *[x for x in INTS if x != POINTER]), NEL(t) == 1, ELS(t) != 0, inner != 0,
        *[z3.Implies(TYP(inner) == h16(c), z3.And(SIZE(inner) == s, SIZE(t) == 2 * s, ALIGN(t) == s)) for c, s in PRIM.items()])))
    return fs

def offs(t, i): return align_up(END(t, i), AL(ELEM(t, i)))
def layout(t, i):
    """C layout of element i of struct t, in terms of the prefix end (definition) """
    e = ELEM(t, i)
    return z3.Implies(z3.And(TYP(t) == STRUCT, z3.ULT(i, NEL(t))),
        z3.And(END(t, i + 1) == offs(t, i) + SIZE(e), z3.ULE(END(t, i), SIZE(t)), z3.ULE(offs(t, i), SIZE(t)),
               z3.ULE(END(t, i + 1), SIZE(t)), z3.ULE(AL(e), AL(t)), e != 0))

# --- categories per 4-byte half: bit 3h = INTEGER, 3h+1 = SSE, 3h+2 = X87
def halves(o, s, cat):
    m = bv(0, 12)
    for h in range(4):
        m = m | z3.If(z3.And(z3.ULT(o, 4 * h + 4), z3.UGT(o + s, 4 * h)), bv(1 << (3 * h + cat), 12), bv(0, 12))
    return m
def leafcat(t):
    inner = ELEM(t, bv(0))
    u = z3.If(TYP(t) == COMPLEX, TYP(inner), TYP(t))
    return (z3.Or(*[u == c for c in INTS]), z3.Or(u == FLOAT, u == DOUBLE), u == LDBL)
def km_def(t, o):
    """definition of KM(t, o)"""
    ci, cs, cx = leafcat(t)
    leaf = z3.If(ci, halves(o, SIZE(t), 0), z3.If(cs, halves(o, SIZE(t), 1), z3.If(cx, halves(o, SIZE(t), 2), bv(0, 12))))
    return KM(t, o) == z3.If(TYP(t) == STRUCT, PM(t, o, NEL(t)), leaf)
def pm_def(t, o, i):
    """definition of the prefix mask, one step"""
    e = ELEM(t, i); p = o + offs(t, i)
    sh = z3.Extract(11, 0, z3.LShR(p, 3) * 6)
    k = KM(e, p & 7)
    shifted = z3.If(z3.UGE(z3.LShR(p, 3), 2), bv(0, 12), z3.If(z3.LShR(p, 3) == 1, k << 6, k))
    return z3.And(PM(t, o, bv(0)) == 0,
                  z3.Implies(z3.ULT(i, NEL(t)), PM(t, o, i + 1) == (PM(t, o, i) | shifted)))
XALL = 0o4444
def half(m, h): return z3.Extract(3 * h + 2, 3 * h, m)
def mfacts(m, o, end):
    fs = []
    for h in range(4):
        x = half(m, h)
        fs.append(z3.Implies(x != 0, z3.And(z3.ULT(bv(4 * h), end), z3.UGT(bv(4 * h + 4), o))))
        fs.append(z3.Implies(x & 2 != 0, z3.ULE(bv(4 * h + 4), end)))
    fs.append(z3.Implies(m & XALL != 0, z3.And(m == XALL, z3.UGE(end, 16))))
    return z3.And(*fs)
def kmfacts(t, o):
    return z3.And(mfacts(KM(t, o), o, o + SIZE(t)),
                  z3.Implies(o == 0, half(KM(t, o), 0) != 0),       # something starts at offset 0
                  z3.Implies(KM(t, o) & XALL != 0, z3.And(o == 0, z3.UGE(AL(t), 16))))
# x86_64_reg_class encodings used only at the classify/examine boundary
NO, INTEGER, INTEGERSI, SSE, SSESF, SSEDF, SSEUP, X87, X87UP, CX87, MEMORY = range(11)
def rel(cls, m, j):
    """class value `cls` of eightbyte j describes mask m"""
    lo, hi = half(m, 2 * j), half(m, 2 * j + 1)
    b = lo | hi
    i, s, x = b & 1 != 0, b & 2 != 0, b & 4 != 0
    C = lambda *ks: z3.Or(*[cls == k for k in ks])
    return z3.And(z3.Implies(b == 0, C(NO)),
                  z3.Implies(i, C(INTEGER, INTEGERSI)),
                  z3.Implies(z3.And(z3.Not(i), x), C(X87 if j == 0 else X87UP)),
                  z3.Implies(z3.And(z3.Not(i), z3.Not(x), s), z3.And(C(SSE, SSESF, SSEDF), (cls == SSESF) == (hi == 0),
                                                                    z3.Implies(hi == 0, lo == 2), z3.Implies(cls != SSESF, hi & 2 != 0))))
def words(t, o): return z3.LShR(SIZE(t) + o + 7, 3)

# --- argument classes of a whole type, as used by caller and callee.
# Opaque to the marshalling contracts; their definition (kdef) from the category
# mask KM is used where the classifier itself is verified.
BOOL = z3.BoolSort()
XXK = z3.Function('XXK', B64, BOOL)                       # value of an x87 class
KI = [z3.Function('KI%d' % j, B64, BOOL) for j in (0, 1)]  # eightbyte j is INTEGER
KS = [z3.Function('KS%d' % j, B64, BOOL) for j in (0, 1)]  # eightbyte j is SSE
OCC = [z3.Function('OCC%d' % h, B64, BOOL) for h in range(4)]  # a field overlaps 4-byte half h
def kdef(t):
    """definition of the opaque kinds from the category mask"""
    m = KM(t, bv(0)); n = words(t, bv(0))
    fs = [km_def(t, bv(0)),
          XXK(t) == z3.Or(m & XALL != 0, z3.And(TYP(t) == COMPLEX, TYP(ELEM(t, bv(0))) == LDBL))]
    small = z3.ULE(SIZE(t), 16)
    for j in (0, 1):
        b = half(m, 2*j) | half(m, 2*j+1)
        fs.append(KI[j](t) == z3.And(small, z3.UGT(n, j), b & 1 != 0))
        fs.append(KS[j](t) == z3.And(small, z3.UGT(n, j), b & 1 == 0, b & 2 != 0))
    for h in range(4): fs.append(OCC[h](t) == (half(m, h) != 0))
    return fs
def kfacts(t):
    """consequences of kdef used by the marshalling contracts (each is an obligation of Examine)"""
    n = words(t, bv(0)); T = TYP(t); inner = TYP(ELEM(t, bv(0)))
    fs = []
    for j in (0, 1):
        fs.append(z3.Not(z3.And(KI[j](t), KS[j](t))))
        fs.append(z3.Implies(z3.Or(KI[j](t), KS[j](t)), z3.UGT(n, j)))
        fs.append(z3.Implies(KS[j](t), z3.Or(OCC[2*j](t), OCC[2*j+1](t))))
        # a vector eightbyte with both halves in use lies inside the object
        fs.append(z3.Implies(z3.And(KS[j](t), OCC[2*j+1](t)), z3.UGE(SIZE(t), 8*j + 8)))
        fs.append(z3.Implies(z3.And(KS[j](t), OCC[2*j](t)), z3.UGE(SIZE(t), 8*j + 4)))
    fs.append(z3.Implies(z3.And(T != VOID, z3.Not(XXK(t)), z3.ULE(SIZE(t), 16)), z3.Or(KI[0](t), KS[0](t))))
    isint = is_(t, *INTS)
    fs.append(z3.Implies(isint, z3.And(KI[0](t), z3.Not(KI[1](t)), z3.Not(KS[1](t)), z3.Not(XXK(t)), OCC[0](t), OCC[1](t) == (SIZE(t) == 8))))
    fs.append(z3.Implies(is_(t, FLOAT, DOUBLE), z3.And(KS[0](t), z3.Not(KI[0](t)), z3.Not(KI[1](t)), z3.Not(KS[1](t)), z3.Not(XXK(t)), OCC[0](t), OCC[1](t) == (SIZE(t) == 8))))
    fs.append(z3.Implies(T == LDBL, XXK(t)))
    fs.append(z3.Implies(z3.And(T == COMPLEX, inner == LDBL), XXK(t)))
    fs.append(z3.Implies(z3.And(T == COMPLEX, z3.Or(inner == FLOAT, inner == DOUBLE)), z3.And(KS[0](t), KS[1](t) == (inner == DOUBLE), z3.Not(KI[0](t)), z3.Not(KI[1](t)),
                          z3.Not(XXK(t)), OCC[0](t), OCC[1](t), OCC[2](t) == (inner == DOUBLE), OCC[3](t) == (inner == DOUBLE))))
    fs.append(z3.Implies(z3.And(T == COMPLEX, z3.Or(*[inner == c for c in INTS])), z3.And(KI[0](t), KI[1](t) == (SIZE(t) == 16), z3.Not(KS[0](t)), z3.Not(KS[1](t)), z3.Not(XXK(t)))))
    fs.append(z3.Implies(z3.And(XXK(t), T == STRUCT, z3.ULE(SIZE(t), 16)), SIZE(t) == 16))
    fs.append(z3.Implies(z3.And(T == STRUCT, z3.UGT(SIZE(t), 16)), z3.Not(z3.Or(*[f(t) for f in KI + KS]))))
    fs.append(z3.Implies(T == VOID, z3.Not(z3.Or(XXK(t), *[f(t) for f in KI + KS]))))
    return fs
def kinds(t):
    """(in_memory, n eightbytes, [int_j], [sse_j], x87)"""
    mem = z3.Or(z3.And(TYP(t) == STRUCT, z3.UGT(SIZE(t), 16)), XXK(t))
    return mem, words(t, bv(0)), [KI[0](t), KI[1](t)], [KS[0](t), KS[1](t)], XXK(t)
def b2i(b, w=64): return z3.If(b, bv(1, w), bv(0, w))
def NG(t): return b2i(KI[0](t)) + b2i(KI[1](t))
def NS(t): return b2i(KS[0](t)) + b2i(KS[1](t))
def occ_at(t, b):
    """byte b lies in a 4-byte half some field overlaps"""
    h = z3.LShR(b, 2)
    return z3.If(h == 0, OCC[0](t), z3.If(h == 1, OCC[1](t), z3.If(h == 2, OCC[2](t), OCC[3](t))))
def krel(cls, t, j):
    """class value of eightbyte j, in terms of the opaque kinds"""
    C = lambda *ks: z3.Or(*[cls == k for k in ks])
    return z3.And(z3.Implies(KI[j](t), C(INTEGER, INTEGERSI)),
                  z3.Implies(KS[j](t), z3.And(C(SSE, SSESF, SSEDF), (cls == SSESF) == z3.Not(OCC[2*j+1](t)))),
                  z3.Implies(z3.And(z3.Not(KI[j](t)), z3.Not(KS[j](t))), C(NO)))

# --------------------------------------------------------------- heap objects
class Types:
    """read-only ffi_type objects, reached by address"""
    def __init__(self, ex, void_ok=False, maxalign=16, extra=None, nowf=False):
        self.ex, self.void_ok, self.maxalign, self.extra, self.nowf = ex, void_ok, maxalign, extra, nowf
        self.cache = {}
    def ptr(self, st, t, facts=True):
        t = S(t)
        k = t.get_id()
        if k not in self.cache:
            r = FnRegion('type[%s]' % t, base=t, size=24, key='type:%d' % k)
            r.loadf = lambda ex, st, off, n, isptr, t=t: self.load(ex, st, t, off, n)
            self.ex.reg(r); self.cache[k] = r
        if facts and not self.nowf: st.pc += wf(t, self.void_ok, self.maxalign)
        return Ptr(self.cache[k], 0)
    def load(self, ex, st, t, off, n):
        o = const(off)
        f = {(0, 8): SIZE(t), (8, 2): ALIGN(t), (10, 2): TYP(t)}.get((o, n))
        if f is not None: return f
        if (o, n) == (16, 8): return self.elements(st, t)
        if o is not None and o < 8 and o + n <= 8: return S(z3.Extract(8*(o+n)-1, 8*o, SIZE(t)))
        if o is not None and 8 <= o < 12 and o + n <= 12:
            return S(z3.Extract(8*(o-8+n)-1, 8*(o-8), z3.Concat(TYP(t), ALIGN(t))))
        return None
    def elements(self, st, t):
        r = FnRegion('elements[%s]' % t, base=ELS(t), size=(NEL(t) + 1) * 8, key='els:%d' % t.get_id())
        def loadf(ex, st, off, n, isptr):
            if n != 8: raise Fail('elements access size')
            ex.ob(st, 'memory', 'element access aligned', off & 7 == 0)
            i = ex.norm(st, z3.LShR(off, 3))
            st.pc += [(ELEM(t, i) == 0) == (i == NEL(t)), layout(t, i)]
            if self.extra: st.pc += self.extra(t, i)
            s2 = st.fork()
            out = []
            if ex.feasible(st, i == NEL(t)):
                s2.pc.append(i == NEL(t)); out.append((s2, NULL))
            if ex.feasible(st, i != NEL(t)):
                st.pc.append(i != NEL(t)); out.append((st, self.ptr(st, ELEM(t, i))))
            return out
        r.loadf = loadf
        self.ex.reg(r)
        return Ptr(r, 0)
