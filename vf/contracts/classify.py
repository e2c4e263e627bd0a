"""classify_argument / examine_argument against the psABI classification."""
from ..theory import *

def cls_region(name): return CellRegion(name, 16)

def cell(ex, st, p, o, n=4):
    """content of a (cell) object, for post-conditions"""
    return p.reg.load1(ex, st, const(p.off) + o, n, False)

def classify_post(t, o, r, c):
    """what classify_argument promises; c[j] = classes[j]"""
    m = KM(t, o)
    w = words(t, o)
    cl = z3.And(TYP(t) == COMPLEX, TYP(ELEM(t, bv(0))) == LDBL)
    mem = z3.And(TYP(t) == STRUCT, z3.Or(z3.UGT(w, 2)))
    reg = z3.And(z3.Not(mem), z3.Not(cl))
    return [('returns 0 exactly for aggregates passed in memory', (r == 0) == mem),
            ('number of eightbytes', z3.Implies(reg, r == w)),
            ('complex long double class', z3.Implies(cl, z3.And(r == 1, c[0] == CX87))),
            ('class of eightbyte 0', z3.Implies(reg, rel(c[0], m, 0))),
            ('class of eightbyte 1', z3.Implies(z3.And(reg, r == 2), rel(c[1], m, 1))),
            ('mask facts', z3.Implies(z3.Not(mem), z3.Implies(z3.Not(cl), kmfacts(t, o))))]

def classify_pre(t, o):
    a = AL(t)
    return [z3.ULT(o, 8), z3.Or(z3.And(z3.ULE(a, 8), o & (a - 1) == 0), z3.And(z3.UGT(a, 8), o == 0)),
            z3.Or(z3.UGT(SIZE(t), 32), z3.ULE(o + SIZE(t), 32))]

class Classify(Contract):
    """size_t classify_argument (ffi_type *t, enum class classes[4], size_t off)"""
    tag = 'classify'
    strides = lambda self: (1, 8)
    def setup(self, ex):
        st = State()
        self.t, self.o = z3.BitVec('t', 64), z3.BitVec('off', 64)
        self.T = Types(ex, extra=self.extra)
        self.classes = ex.reg(cls_region('classes'))
        p = self.T.ptr(st, self.t)
        st.pc += classify_pre(self.t, self.o)
        st.pc += [km_def(self.t, self.o)]
        t, o = self.t, self.o
        w = words(t, o); s = TYP(t) == STRUCT
        out = []
        for nm, g in (('scalar', z3.Not(s)), ('1 eightbyte', z3.And(s, w == 1)), ('2 eightbytes', z3.And(s, w == 2)),
                      ('3-4 eightbytes', z3.And(s, z3.UGT(w, 2), z3.ULE(SIZE(t), 32))), ('large', z3.And(s, z3.UGT(SIZE(t), 32)))):
            x = st.fork(); x.pc.append(g); x.ghost['case'] = nm
            out.append((x, [p, Ptr(self.classes, 0), self.o]))
        return out
    def extra(self, t, i): return [pm_def(t, self.o, i)]
    def unfold(self, ex, st, N, loop): return [pm_def(self.t, self.o, N), layout(self.t, N)]
    def accs(self, ex, st, N, loop): return {'END(N)': END(self.t, N)}
    def cands(self, ex, st, N, loop):
        c = [cell(ex, st, Ptr(self.classes, 0), 4 * j) for j in range(4)]
        t, o = self.t, self.o
        P = PM(t, o, N)
        w = words(t, o)
        return [('N<=NEL', z3.ULE(N, NEL(t))),
                ('END(N)<=SIZE', z3.ULE(END(t, N), SIZE(t))),
                ('prefix mask facts', z3.Implies(z3.ULE(w, 2), mfacts(P, o, o + END(t, N)))),
                ('a field starts at offset 0', z3.Implies(z3.And(z3.ULE(w, 2), o == 0, z3.UGE(N, 1)), half(P, 0) != 0)),
                ('class 0 of prefix', z3.Implies(z3.ULE(w, 2), rel(c[0], P, 0))),
                ('class 1 of prefix', z3.Implies(w == 2, rel(c[1], P, 1))),
                ('x87 needs 16-alignment', z3.Implies(z3.And(z3.ULE(w, 2), P & XALL != 0), z3.UGE(AL(t), 16))),
                ('no X87 in small prefix unless whole', z3.Implies(z3.ULE(w, 2), z3.Implies(P & XALL != 0, z3.UGE(o + END(t, N), 16)))),
                ('classes valid', z3.And(*[z3.Implies(z3.UGT(w, j), z3.And(z3.ULE(c[j], 10), c[j] != SSEUP)) for j in range(4)]))]
    def call(self, ex, st, name, args, ins):
        if name != ex.fname: return None
        return classify_call(self, ex, st, args)
    def on_ret(self, ex, st, v):
        c = [cell(ex, st, Ptr(self.classes, 0), 4 * j) for j in range(4)]
        for nm, g in classify_post(self.t, self.o, v, c): ex.ob(st, 'classify', nm, g)
        for j in range(4):
            ex.ob(st, 'classify', 'class values are valid', z3.Implies(z3.UGT(v, j), z3.And(z3.ULE(c[j], 10), c[j] != SSEUP)), assume=False)
        ex.ob(st, 'classify', 'at most 4 eightbytes', z3.ULE(v, 4))

def classify_call(self, ex, st, args):
    p, cp, o = args
    t = p.reg.base if const(p.off) == 0 else None
    if t is None or cp.reg.kind != 'cells': raise Fail('classify_argument called on something else')
    for k, g in enumerate(classify_pre(t, o)): ex.ob(st, 'classify', 'precondition %d of classify_argument' % k, g)
    st.pc += [km_def(t, o)]
    r = fresh('ncls')
    ex.bounds(st, cp.reg, cp.off, 16, 'write')
    c = [fresh('cls%d' % j, 32) for j in range(4)]
    for j in range(4): st = cp.reg.store(ex, st, cp.off + 4 * j, 4, c[j])[0]
    for nm, g in classify_post(t, o, r, c): st.pc.append(g)
    for j in range(4): st.pc.append(z3.Implies(z3.UGT(r, j), z3.And(z3.ULE(c[j], 10), c[j] != SSEUP)))
    st.pc.append(z3.ULE(r, 4))
    return [(st, r)]

def examine_post(t, inret, r, ng, ns, c):
    mem, n, ii, ss, xx = kinds(t)
    big = z3.And(TYP(t) == STRUCT, z3.UGT(SIZE(t), 16))
    reg = z3.Not(mem)
    return [('0 iff passed in memory', (r == 0) == z3.And(mem, z3.Or(z3.Not(inret), z3.Not(xx), big))),
            ('number of eightbytes', z3.Implies(reg, r == n)),
            ('general registers needed', z3.Implies(reg, zx(ng) == NG(t))),
            ('vector registers needed', z3.Implies(reg, zx(ns) == NS(t))),
            ('class 0', z3.Implies(reg, krel(c[0], t, 0))),
            ('class 1', z3.Implies(z3.And(reg, n == 2), krel(c[1], t, 1))),
            ('x87 class in return', z3.Implies(z3.And(xx, inret, r != 0), z3.And(r == 1, z3.If(TYP(t) == COMPLEX, c[0] == CX87, c[0] == X87))))]

class Examine(Contract):
    """size_t examine_argument (ffi_type*, classes[4], _Bool in_return, int *ngpr, int *nsse)"""
    tag = 'classify'
    def setup(self, ex):
        st = State()
        self.t = z3.BitVec('t', 64)
        self.T = Types(ex)
        self.classes = ex.reg(cls_region('classes'))
        self.g, self.s = ex.reg(CellRegion('pngpr', 4)), ex.reg(CellRegion('pnsse', 4))
        self.inr = z3.Bool('in_return')
        p = self.T.ptr(st, self.t)
        st.pc += kdef(self.t)
        # the facts about argument kinds that the callers rely on
        l = State(); t = self.t
        l.pc += wf(t, void_ok=True) + kdef(t) + [kmfacts(t, bv(0))]
        for k, f in enumerate(kfacts(t)): ex.ob(l, 'lemma', 'kind fact %d' % k, f, assume=False)
        return [(st, [p, Ptr(self.classes, 0), self.inr, Ptr(self.g, 0), Ptr(self.s, 0)])]
    def call(self, ex, st, name, args, ins):
        if name == 'classify_argument': return classify_call(self, ex, st, args)
    def on_ret(self, ex, st, v):
        c = [cell(ex, st, Ptr(self.classes, 0), 4 * j) for j in range(2)]
        ng, ns = cell(ex, st, Ptr(self.g, 0), 0), cell(ex, st, Ptr(self.s, 0), 0)
        for nm, g in examine_post(self.t, self.inr, v, ng, ns, c): ex.ob(st, 'classify', nm, g)

def examine_call(self, ex, st, args):
    p, cp, inr, gp, sp = args
    if const(p.off) != 0 or cp.reg.kind != 'cells': raise Fail('examine_argument called on something else')
    t = p.reg.base
    r = fresh('nex')
    c = [fresh('cls%d' % j, 32) for j in range(4)]
    ex.bounds(st, cp.reg, cp.off, 16, 'write')
    for j in range(4): st = cp.reg.store(ex, st, cp.off + 4 * j, 4, c[j])[0]
    # on the paths that return early the counters are left alone; their values are not relied upon
    st = gp.reg.store(ex, st, gp.off, 4, fresh('ngpr', 32))[0]
    st = sp.reg.store(ex, st, sp.off, 4, fresh('nsse', 32))[0]
    ng, ns = cell(ex, st, gp, 0), cell(ex, st, sp, 0)
    for nm, g in examine_post(t, inr, r, ng, ns, c): st.pc.append(g)
    st.pc += kfacts(t)
    return [(st, r)]
