"""Raw argument areas (raw_api.c) and their Java flavour (java_raw_api.c).

Slot layout, defined here: RW(i) words of 8 bytes are used by the first i arguments.
Plain: an aggregate is represented by a pointer (one word), anything else by its bytes
rounded up to a word.  Java: 64-bit integers and doubles occupy two words, everything
else one.  Everything is proved for an arbitrary argument k and byte j of its slot."""
from .sysv import *

_RW = z3.Function('RW', B64, z3.BitVecSort(22))
def RW(i): return zx(_RW(i))
def ROFF(i): return z3.Concat(bv(0, 39), _RW(i), bv(0, 3))
def agg(t): return is_(t, STRUCT, COMPLEX)
def words8(t, java):
    if java: return z3.If(is_(t, U64T, S64T, DOUBLE), bv(2), bv(1))
    return z3.If(agg(t), bv(1), z3.LShR(SIZE(t) + 7, 3))
def rw_def(i, java): return [RW(i + 1) == RW(i) + words8(ARGT(i), java)]
def rw_mono(i, j): return z3.Implies(z3.ULE(i, j), z3.And(z3.ULE(RW(i), RW(j)), z3.ULE(RW(i) + (j - i), RW(j))))
def rw_range(i): return [z3.ULE(RW(i), 2 * i)]
def argty(t, java): return wf(t) + ([is_(t, *INTS, FLOAT, DOUBLE)] if java else [])
def raw_lemmas(ex, java):
    st = State(); i, j = z3.BitVecs('ri rj', 64)
    st.pc += [z3.ULE(i, j), z3.ULT(j, bv(MAXARGS)), rw_mono(i, j)] + rw_def(j, java) + rw_range(j) + argty(ARGT(j), java)
    ex.ob(st, 'lemma', 'slots: monotone, one word at least each', z3.And(z3.ULE(RW(i), RW(j + 1)), z3.ULE(RW(i) + (j + 1 - i), RW(j + 1))), assume=False)
    ex.ob(st, 'lemma', 'slots: two words at most each', z3.ULE(RW(j + 1), 2 * (j + 1)), assume=False)
def want_byte(k, j, word):
    """(constrained, value) of byte j of the slot(s) of argument k"""
    t = ARGT(k); s = SIZE(t)
    sb = BYTE(k, s - 1)
    ext = z3.If(z3.And(is_(t, S8T, S16T, S32T), z3.Extract(7, 7, sb) == 1), bv(0xff, 8), bv(0, 8))
    p = z3.Extract(7, 0, z3.LShR(VAL(k), 8 * j))
    narrow = is_(t, U8T, S8T, U16T, S16T, U32T, S32T)
    return (z3.Or(z3.And(agg(t), z3.ULT(j, 8)), z3.And(z3.Not(agg(t)), z3.Or(z3.ULT(j, s), z3.And(narrow, z3.ULT(j, 8))))),
            z3.If(agg(t), p, z3.If(z3.ULT(j, s), BYTE(k, j), ext)))
RWORD = z3.Function('RWORD', B64, B64)      # 8-byte words of a raw area given by the caller

class Raw(Contract):
    java = False
    counter_bits = 21
    def __init__(self, java=False): self.java = java; self.tag = 'java' if java else 'raw'
    def base(self, ex, st, cells=False):
        self.K = abi_consts()
        g = self.sig = Sig(ex, st, False, facts=False)
        if self.java: g.TA.ptr0 = g.TA.ptr; g.TA.ptr = lambda st, t, facts=True: (st.pc.extend(argty(t, True)), g.TA.ptr0(st, t, facts))[1]
        raw_lemmas(ex, self.java)
        self.k = small('k', 20)
        st.pc += [RW(bv(0)) == 0] + rw_range(g.n)
        return g
    def followed(self, st):
        """facts about the followed argument"""
        k, n = self.k, self.sig.n
        return [z3.ULT(k, n), rw_mono(k, n), rw_mono(k + 1, n)] + argty(ARGT(k), self.java) + rw_def(k, self.java) + rw_range(k)
    def unfold(self, ex, st, N, loop):
        k, n = self.k, self.sig.n
        return rw_def(N, self.java) + rw_range(N) + argty(ARGT(N), self.java) + [rw_mono(N, n), rw_mono(N + 1, n), rw_mono(N + 1, k), rw_mono(k + 1, N), z3.ULE(N, bv(1 << 21))]
    def accs(self, ex, st, N, loop): return {'ROFF': ROFF(N), 'RW': RW(N)}
    def cands(self, ex, st, N, loop): return [('N<=nargs', z3.ULE(N, self.sig.n))] + self.more(ex, st, N)
    def more(self, ex, st, N): return []
    # contracts of the three conversion functions, towards their callers
    def call(self, ex, st, name, args, ins):
        j = 'java_' if self.java else ''
        g = self.sig
        if name == 'ffi_%sraw_size' % j and ex.fname != name:
            ex.ob(st, self.tag, 'size of the area of this call interface', ex.num(args[0]) == g.cif.base)
            return [(st, ROFF(g.n))]
        return self.call2(ex, st, name, args, ins)
    def call2(self, ex, st, name, args, ins): return None

class RawSize(Raw):
    """ffi_raw_size / ffi_java_raw_size"""
    def setup(self, ex):
        st = State(); g = self.base(ex, st)
        return [(st, [Ptr(g.cif, 0)])]
    def on_ret(self, ex, st, v): ex.ob(st, self.tag, 'size is the number of bytes the arguments occupy', v == ROFF(self.sig.n))

class ToPtr(Raw):
    """ffi_raw_to_ptrarray / ffi_java_raw_to_ptrarray (cif, raw, args)"""
    def regions(self, ex, st):
        g = self.sig
        self.raw = ex.reg(FnRegion('raw', base=z3.BitVec('p_raw', 64), size=ROFF(g.n), frame_tag=self.tag))
        def loadf(ex, st, off, n, isptr):
            if n != 8: raise Fail('access to a raw slot: %d bytes' % n)
            ex.ob(st, 'memory', 'raw access aligned', off & 7 == 0)
            v = RWORD(S(off))
            return ex.toptr(st, v) if isptr else v
        self.raw.loadf = loadf
        self.av = ex.reg(FnRegion('args', base=z3.BitVec('p_args', 64), size=g.n * 8, key='avalue'))
        self.av.storef = self.av_store
        st.mem['avalue'] = z3.BitVec('avalue_k0', 64)
        t = ARGT(self.k)
        self.want = z3.If(agg(t), RWORD(ROFF(self.k)), self.raw.base + ROFF(self.k))
        st.pc += [z3.Implies(g.n != 0, z3.And(self.raw.base != 0, self.av.base != 0))]
    av_store = Inner.av_store
    def setup(self, ex):
        st = State(); g = self.base(ex, st); self.regions(ex, st)
        st.pc += self.followed(st)
        x = State(); x.pc += [g.n == 0, z3.ULE(g.n, MAXARGS)] + st.pc[:1]
        a = [Ptr(g.cif, 0), Ptr(self.raw, 0), Ptr(self.av, 0)]
        return [(st, a)]
    def havoc_ghost(self, ex, st, key):
        if key != 'avalue': raise Fail('havoc of ' + str(key))
        st.mem[key] = fresh(key)
    def more(self, ex, st, N): return [('argument k delivered', z3.Implies(z3.UGT(N, self.k), st.mem['avalue'] == self.want))]
    def on_ret(self, ex, st, v):
        ex.ob(st, self.tag, 'every argument pointer refers to the argument in its slot', st.mem['avalue'] == self.want)
        ex.ob(st, self.tag, 'the slot holds the whole argument and lies inside the area', z3.Implies(z3.Not(agg(ARGT(self.k))), z3.ULE(ROFF(self.k) + SIZE(ARGT(self.k)), ROFF(self.sig.n))))

class ToRaw(Raw):
    """ffi_ptrarray_to_raw / ffi_java_ptrarray_to_raw (cif, args, raw)"""
    def regions(self, ex, st):
        g = self.sig
        self.args = Args(ex, g)
        self.j = small('j', 5)
        self.A = ROFF(self.k) + self.j
        self.raw = ex.reg(WRegion('raw', ROFF(g.n), A=self.A, base=z3.BitVec('p_raw', 64)))
        st.mem[self.raw.key] = self.raw.unk
        con, self.want = want_byte(self.k, self.j, 8)
        st.pc += [z3.Implies(g.n != 0, z3.And(self.args.r.base != 0, self.raw.base != 0)), con]
    def setup(self, ex):
        st = State(); g = self.base(ex, st); self.regions(ex, st)
        st.pc += self.followed(st)
        # a raw area and back: composition of the two contracts
        l = State(); l.pc += list(st.pc); k, j = self.k, self.j; t = ARGT(k)
        RB = z3.Function('RAWBYTE', B64, B8)
        raw = z3.BitVec('p_raw', 64)
        post = lambda jj: z3.Implies(want_byte(k, jj, 8)[0], RB(ROFF(k) + jj) == want_byte(k, jj, 8)[1])
        l.pc += [post(bv(b)) for b in range(16)] + [RWORD(ROFF(k)) == bytes_to_int([RB(ROFF(k) + b) for b in range(8)]), z3.ULT(j, SIZE(t))]
        back = z3.If(agg(t), RWORD(ROFF(k)), raw + ROFF(k))
        ex.ob(l, self.tag, 'there and back: every argument refers to the same bytes again', z3.If(agg(t), back == VAL(k), z3.And(back == raw + ROFF(k), RB(ROFF(k) + j) == BYTE(k, j))), assume=False)
        return [(st, [Ptr(g.cif, 0), Ptr(self.args.r, 0), Ptr(self.raw, 0)])]
    def more(self, ex, st, N): return [('argument byte in its slot', z3.Implies(z3.UGT(N, self.k), self.raw.val(st) == self.want))]
    def on_ret(self, ex, st, v):
        ex.ob(st, self.tag, 'every byte of every argument is in its slot, narrow integers widened', self.raw.val(st) == self.want)

class RawCall(ToPtr):
    """ffi_raw_call / ffi_java_raw_call (cif, fn, rvalue, raw)"""
    def setup(self, ex):
        st = State(); g = self.base(ex, st); self.regions(ex, st)
        self.fn = z3.BitVec('p_fn', 64)
        self.rv = ex.reg(FnRegion('rvalue', base=z3.BitVec('p_rvalue', 64), frame_tag=self.tag))
        out = []
        for c, f in (('none', []), ('arg', self.followed(st))):
            for null in (False, True):
                x = st.fork(); x.pc += f; x.ghost['case'] = c; x.ghost['null'] = null
                if not null: x.pc.append(self.rv.base != 0)
                out.append((x, [Ptr(g.cif, 0), Ptr(NULLR, self.fn), NULL if null else Ptr(self.rv, 0), Ptr(self.raw, 0)]))
        return out
    def alloca(self, ex, st, name, size, al, dyn):
        if not dyn: return None
        ex.ob(st, self.tag, 'room for every argument pointer', z3.UGE(size, 8 * self.sig.n))
        return self.av
    def more(self, ex, st, N): return ToPtr.more(self, ex, st, N) if st.ghost['case'] == 'arg' else []
    def call2(self, ex, st, name, args, ins):
        g = self.sig
        if name == 'ffi_%sraw_to_ptrarray' % ('java_' if self.java else ''):
            ex.ob(st, self.tag, 'the raw area is converted into the argument vector', z3.And(ex.num(args[0]) == g.cif.base, ex.num(args[1]) == self.raw.base, z3.Or(g.n == 0, ex.num(args[2]) == self.av.base)))
            st.mem['avalue'] = self.want; st.wrote.add('avalue')
            return [(st, None)]
        if name == 'ffi_call':
            st.ghost['calls'] = st.ghost.get('calls', 0) + 1
            ex.ob(st, self.tag, 'same call interface, function and result', z3.And(ex.num(args[0]) == g.cif.base, ex.num(args[1]) == self.fn, ex.num(args[2]) == (0 if st.ghost['null'] else self.rv.base)))
            ex.ob(st, self.tag, 'the argument vector is passed', z3.Or(g.n == 0, ex.num(args[3]) == self.av.base))
            if st.ghost['case'] == 'arg': ex.ob(st, self.tag, 'every argument is the one in the raw area', st.mem['avalue'] == self.want)
            return [(st, None)]
    def on_ret(self, ex, st, v): ex.ob(st, self.tag, 'the function is called exactly once', st.ghost.get('calls', 0) == 1)

class Translate(ToRaw):
    """ffi_translate_args / ffi_java_translate_args: the closure behind a raw closure"""
    def setup(self, ex):
        st = State(); g = self.base(ex, st); self.regions(ex, st)
        T = self.K['FFI_TRAMPOLINE_SIZE']
        self.FUN, self.UD = z3.BitVec('rc_fun', 64), z3.BitVec('rc_user', 64)
        self.rv = ex.reg(FnRegion('rvalue', base=z3.BitVec('p_rvalue', 64), frame_tag=self.tag))
        self.cl = ex.reg(FnRegion('raw closure', base=z3.BitVec('p_closure', 64), size=T + 40, frame_tag=self.tag))
        m = {T: g.cif.base, T + 24: self.FUN, T + 32: self.UD}
        def loadf(ex, st, off, n, isptr):
            if n != 8 or const(off) not in m: return None
            v = m[const(off)]
            return ex.toptr(st, v) if isptr else v
        self.cl.loadf = loadf
        out = []
        for c, f in (('none', []), ('arg', self.followed(st))):
            x = st.fork(); x.pc += f + [self.cl.base != 0]; x.ghost['case'] = c
            out.append((x, [Ptr(g.cif, 0), Ptr(self.rv, 0), Ptr(self.args.r, 0), Ptr(self.cl, 0)]))
        return out
    def alloca(self, ex, st, name, size, al, dyn):
        if not dyn: return None
        ex.ob(st, self.tag, 'the area is as big as the arguments need', z3.UGE(size, ROFF(self.sig.n)))
        return self.raw
    def more(self, ex, st, N): return ToRaw.more(self, ex, st, N) if st.ghost['case'] == 'arg' else []
    def call2(self, ex, st, name, args, ins):
        g = self.sig
        if name == 'ffi_%sptrarray_to_raw' % ('java_' if self.java else ''):
            ex.ob(st, self.tag, 'the arguments are converted into the raw area', z3.And(ex.num(args[0]) == g.cif.base, ex.num(args[1]) == self.args.r.base, z3.Or(g.n == 0, ex.num(args[2]) == self.raw.base)))
            st.mem[self.raw.key] = self.want; st.wrote.add(self.raw.key)
            return [(st, None)]
    def icall(self, ex, st, p, args, ins):
        g = self.sig
        st.ghost['calls'] = st.ghost.get('calls', 0) + 1
        ex.ob(st, self.tag, "the function called is the raw closure's own", ex.num(p) == self.FUN)
        if len(args) != 4: raise Fail('user function called with %d arguments' % len(args))
        ex.ob(st, self.tag, 'it gets the call interface, the result area and its own user data', z3.And(ex.num(args[0]) == g.cif.base, ex.num(args[1]) == self.rv.base, ex.num(args[3]) == self.UD))
        ex.ob(st, self.tag, 'it gets the raw area', z3.Or(g.n == 0, ex.num(args[2]) == self.raw.base))
        if st.ghost['case'] == 'arg': ex.ob(st, self.tag, 'the raw area is the image of the arguments', self.raw.val(st) == self.want)
        return [(st, None)]
    def on_ret(self, ex, st, v): ex.ob(st, self.tag, 'the user function is called exactly once', st.ghost.get('calls', 0) == 1)

class PrepRaw(Contract):
    """ffi_prep_raw_closure_loc / ffi_prep_java_raw_closure_loc; plain=True: without a code address"""
    merge = False
    def __init__(self, java=False, plain=False): self.java, self.plain = java, plain; self.tag = 'java' if java else 'raw'
    def setup(self, ex):
        K = self.K = abi_consts(); T = self.T = K['FFI_TRAMPOLINE_SIZE']
        st = State()
        self.cif, self.fun, self.ud, self.code = [ex.reg(FnRegion(n, base=z3.BitVec('p_' + n, 64), frame_tag=self.tag)) for n in ('cif', 'fun', 'user_data', 'codeloc')]
        self.cl = ex.reg(CellRegion('raw closure', T + 40))
        self.w0 = [z3.BitVec('closure[%d]' % k, 64) for k in range((T + 40) // 8)]
        for k, w in enumerate(self.w0): self.cl.init(st, 8 * k, 8, w)
        a = [Ptr(self.cl, 0), Ptr(self.cif, 0), Ptr(self.fun, 0), Ptr(self.ud, 0)]
        return [(st, a if self.plain else a + [Ptr(self.code, 0)])]
    def word(self, ex, st, o): return self.cl.load1(ex, st, o, 8, False)
    def call(self, ex, st, name, args, ins):
        if name.endswith('raw_closure_loc') and self.plain:
            st.ghost['deleg'] = 1
            ex.ob(st, self.tag, 'prepares the given closure at its own address', z3.And(*[ex.num(x) == y for x, y in zip(args, (self.cl.base, self.cif.base, self.fun.base, self.ud.base, self.cl.base))]))
            return [(st, z3.BitVec('status', 32))]
        if name != 'ffi_prep_closure_loc': return None
        st.ghost['n'] = st.ghost.get('n', 0) + 1
        code = self.cl.base if self.plain else self.code.base
        tr = z3.BitVec('&ffi_java_translate_args' if self.java else '&ffi_translate_args', 64)
        ex.ob(st, self.tag, 'a plain closure is prepared in the raw closure, at the given code address', z3.And(ex.num(args[0]) == self.cl.base, ex.num(args[1]) == self.cif.base, ex.num(args[4]) == code))
        ex.ob(st, self.tag, 'its function translates the arguments, its user data is the raw closure', z3.And(ex.num(args[2]) == tr, ex.num(args[3]) == self.cl.base))
        s = z3.BitVec('status', 32)
        # contract of ffi_prep_closure_loc (units pclo, pclow): OK and bound, or rejected and untouched
        x, y = st.fork(), st
        x.branch(s == self.K['FFI_OK']); y.branch(s != self.K['FFI_OK']); x.ghost['ok'] = 1
        for k in range(self.T // 8): self.cl.store1(ex, x, 8 * k, 8, z3.BitVec('tramp[%d]' % k, 64))
        for o, v in ((0, self.cif.base), (8, tr), (16, self.cl.base)): self.cl.store1(ex, x, self.T + o, 8, v)
        return [(x, s), (y, s)]
    def on_ret(self, ex, st, v):
        s = z3.BitVec('status', 32); T = self.T
        ex.ob(st, self.tag, 'verdict of the preparation', v == s)
        if st.ghost.get('deleg'): return
        ex.ob(st, self.tag, 'prepared exactly once', st.ghost.get('n') == 1)
        if st.ghost.get('ok'):
            ex.ob(st, self.tag, 'the raw closure holds its own function and user data', z3.And(self.word(ex, st, T + 24) == self.fun.base, self.word(ex, st, T + 32) == self.ud.base))
            ex.ob(st, self.tag, 'the plain closure in it stays as prepared', z3.And(*[self.word(ex, st, 8 * k) == z3.BitVec('tramp[%d]' % k, 64) for k in range(T // 8)], self.word(ex, st, T) == self.cif.base, self.word(ex, st, T + 16) == self.cl.base))
        else: ex.ob(st, 'reject', 'a rejected raw closure is not modified', z3.And(*[self.word(ex, st, 8 * k) == w for k, w in enumerate(self.w0)]))
