"""Microsoft x64 convention: the C part (ffiw64.c).  The glue is in contracts/glue.py.

Slot i (8 bytes each) holds argument i - hidden pointer included - by value
when its size is 1, 2, 4 or 8, else a pointer to a private copy."""
from .sysv import *
from . import glue

_CS = z3.Function('CS16', B64, z3.BitVecSort(26))
_RS = z3.Function('RS16', B64, z3.BitVecSort(28))
def m16(x): return z3.Concat(bv(0, 60 - x.size()), x, bv(0, 4))
def CSUM(i): return m16(_CS(i))     # bytes of copies needed by the first i arguments (layout of the current code; only used in candidate invariants)
def RSZ(t): return m16(_RS(t))      # SIZE rounded up to 16 (defined by rsz_def)
def rsz_def(t): return RSZ(t) == align_up(SIZE(t), bv(16))
def rsz_facts(t): return [z3.UGE(RSZ(t), SIZE(t)), z3.ULE(RSZ(t) - SIZE(t), 15)]
def byval(t): return z3.Or(*[SIZE(t) == s for s in (1, 2, 4, 8)])
def csum_def(i): return CSUM(i + 1) == CSUM(i) + z3.If(byval(ARGT(i)), bv(0), RSZ(ARGT(i)))
def csum_step(i): return [csum_def(i)] + rsz_facts(ARGT(i))
def csum_mono(i, j): return z3.Implies(z3.ULE(i, j), z3.ULE(CSUM(i), CSUM(j)))
def lite(t): return [t != 0, z3.UGE(SIZE(t), 1), z3.ULE(SIZE(t), LIM), pow2(AL(t))]
def win_lemmas(ex):
    """monotonicity by induction; the bound on CSUM (total copies below 2^30) is a precondition"""
    st = State(); i, j = z3.BitVecs('wi wj', 64)
    t = ARGT(j)
    st.pc += [z3.ULE(i, j), csum_mono(i, j), csum_def(j), z3.ULE(SIZE(t), LIM), z3.ULE(CSUM(j), LIM), rsz_def(t)]
    for f in rsz_facts(t): ex.ob(st, 'lemma', 'rounded sizes', f)
    ex.ob(st, 'lemma', 'copies: monotone', z3.ULE(CSUM(i), CSUM(j + 1)), assume=False)

def is_sret(t): return z3.And(TYP(t) != VOID, z3.Or(is_(t, STRUCT, COMPLEX, LDBL)), z3.Not(byval(t)))
def win_flags_ok(fl, t, T):
    """return code -> the glue (contracts/glue.py CallWin64/ClosureWin64) moves exactly the value of type t"""
    is_c = lambda *ks: z3.Or(*[fl == T[k] for k in ks])
    agg = z3.And(is_(t, STRUCT, COMPLEX, LDBL), byval(t))
    out = [('hidden-pointer returns are coded so, and only those', is_c('STRUCT') == is_sret(t)),
           ('void return', z3.Implies(TYP(t) == VOID, is_c('VOID')))]
    for k, c in (('UINT8', U8T), ('SINT8', S8T), ('UINT16', U16T), ('SINT16', S16T), ('UINT32', U32T), ('SINT32', S32T)):
        out.append(('%s return is widened as such' % k, z3.Implies(TYP(t) == c, is_c(k))))
    out.append(('64-bit return', z3.Implies(is_(t, U64T, S64T, POINTER), is_c('UINT64', 'SINT64', 'POINTER'))))
    out.append(('float return', z3.Implies(TYP(t) == FLOAT, is_c('FLOAT'))))
    out.append(('double return', z3.Implies(TYP(t) == DOUBLE, is_c('DOUBLE'))))
    for s, ks in ((8, ('UINT64', 'SINT64', 'POINTER')), (4, ('SMALL_STRUCT_4B',)), (2, ('SMALL_STRUCT_2B',)), (1, ('SMALL_STRUCT_1B',))):
        out.append(('%d-byte aggregate return stores exactly its size' % s, z3.Implies(z3.And(agg, SIZE(t) == s), is_c(*ks))))
    return out
def slots(g): return g.n + b2i(is_sret(g.RT))
def win_room(by, n, sret): return [z3.UGE(by, 32), by & 7 == 0, z3.UGE(by, 8 * (n + (1 if sret else 0))), z3.ULE(by, 1 << 24)]
def win_bytes(g): return 8 * z3.If(z3.ULT(slots(g), 4), bv(4), slots(g))

class MachdepWin(Contract):
    """ffi_status ffi_prep_cif_machdep_efi64 (ffi_cif *)"""
    def setup(self, ex):
        st = State(); self.K, self.T = abi_consts(), glue.ffi_types()
        g = self.sig = Sig(ex, st, True)
        return [(st, [Ptr(g.cif, 0)])]
    def on_ret(self, ex, st, v):
        g, K = self.sig, self.K
        win = z3.Or(*[g.abi == K[k] for k in ('FFI_WIN64', 'FFI_EFI64', 'FFI_GNUW64')])
        ex.ob(st, 'wprep', 'FFI_BAD_ABI iff not a Windows ABI', z3.And((v == K['FFI_BAD_ABI']) == z3.Not(win), z3.Implies(win, v == K['FFI_OK'])))
        if not ex.feasible(st, v == K['FFI_OK']): return
        st.pc.append(v == K['FFI_OK'])
        fl, by = g.cif.load1(ex, st, 28, 4, False), g.cif.load1(ex, st, 24, 4, False)
        for nm, f in win_flags_ok(fl, g.RT, self.T): ex.ob(st, 'wreturn', nm, f)
        ex.ob(st, 'wprep', 'room for every slot and the shadow space', zx(by) == win_bytes(g))
        ex.ob(st, 'wprep', 'signature fields are not touched', z3.And(
            g.cif.load1(ex, st, 0, 4, False) == g.abi, g.cif.load1(ex, st, 4, 4, False) == g.n32,
            g.cif.load1(ex, st, 8, 8, False) == g.argtypes.base, g.cif.load1(ex, st, 16, 8, False) == g.RT))

class Block(WRegion):
    """memory block followed at one arbitrary byte A and at a few 8-byte words (offset terms, multiples of 8)"""
    def __init__(self, name, size, A, words):
        WRegion.__init__(self, name, size, A); self.words = words
    def word(self, st, k): return st.mem.get(self.key + ':' + k, z3.BitVec('unk_' + k, 64))
    def clobber(self, ex, st, off, n):
        for k, o in self.words.items():
            hit = S(z3.And(z3.ULT(off, o + 8), z3.ULT(o, off + n)))
            if not z3.is_false(hit) and not ex.prove(st, z3.Not(hit)): st.mem[self.key + ':' + k] = S(z3.If(hit, fresh('w_' + k), self.word(st, k)))
    def store(self, ex, st, off, n, val):
        if isinstance(val, Ptr): val = val.num()
        for k, o in self.words.items():
            same = S(off == o)
            if n == 8: 
                if z3.is_true(same): st.mem[self.key + ':' + k] = val; continue
                d = S(off - o)
                c = const(d)
                if c is not None and (8 <= c <= (1 << 64) - 8): continue
                al = S(z3.Extract(2, 0, off) == 0)
                part = z3.And(z3.Not(same), z3.Not(al), z3.ULT(off - o + 7, bv(15)))
                w = z3.If(same, val, self.word(st, k))
                if not z3.is_true(al) and not ex.must(st, al): w = z3.If(part, fresh('w_' + k), w)
                st.mem[self.key + ':' + k] = S(w)
            else:
                hit = z3.And(z3.ULT(off, o + 8), z3.ULT(o, off + n))
                st.mem[self.key + ':' + k] = S(z3.If(hit, fresh('w_' + k), self.word(st, k)))
        if ex.prove(st, z3.UGE(S(self.A - off), n)):
            ex.bounds(st, self, off, n, 'write'); st.wrote.add(self.key); return [st]
        return WRegion.store(self, ex, st, off, n, val)
    def havoc(self, ex, st):
        WRegion.havoc(self, ex, st)
        for k in self.words: st.mem[self.key + ':' + k] = fresh('w_' + k)

class CallWin(Contract):
    """ffi_call_efi64 / ffi_call_go_efi64"""
    integers = True
    nowrap = False
    def __init__(self, go=False): self.go = go
    def setup(self, ex):
        st = State(); K, T = self.K, self.T = abi_consts(), glue.ffi_types()
        g = self.sig = Sig(ex, st, False, facts=False)
        g.TA.nowf = g.T.nowf = True; st.pc += lite(g.RT)
        g.bytes = zx(z3.Concat(z3.BitVec('bytes8', 22), bv(0, 3)), 32); g.m[24, 4] = g.bytes
        self.args = Args(ex, g)
        self.k, self.b, self.A = small('k', 20), small('b', 30), small('A', 32)
        self.rv = FnRegion('rvalue', base=z3.BitVec('p_rvalue', 64), size=None, frame_tag='wreturn'); ex.reg(self.rv)
        self.fn, self.closure = z3.BitVec('p_fn', 64), z3.BitVec('p_closure', 64)
        win_lemmas(ex)
        st.pc += [z3.Implies(g.n != 0, self.args.r.base != 0), z3.Or(*[g.abi == K[k] for k in ('FFI_WIN64', 'FFI_EFI64', 'FFI_GNUW64')])]
        st.pc += [f for _, f in win_flags_ok(g.flags, g.RT, T)] + [CSUM(bv(0)) == 0, z3.ULE(CSUM(g.n), LIM)]
        k, b, A = self.k, self.b, self.A
        out = []
        base = [z3.ULT(k, g.n), z3.ULT(b, SIZE(ARGT(k)))] + lite(ARGT(k)) + csum_step(k) + [csum_mono(k, g.n), csum_mono(k + 1, g.n)]
        for c in ('frame', 'val', 'ref'):
            for sret in (False, True):
                for null in (False, True):
                    x = st.fork(); x.ghost.update(case=c, sret=sret, null=null)
                    slot = k + (1 if sret else 0)
                    x.pc += [is_sret(g.RT) if sret else z3.Not(is_sret(g.RT)), (g.flags == T['STRUCT']) if sret else (g.flags != T['STRUCT'])]
                    x.pc += win_room(zx(g.bytes), g.n, sret)
                    if not null: x.pc.append(self.rv.base != 0)
                    if c != 'frame': x.pc += base
                    if c == 'val': x.pc += [byval(ARGT(k)), A == 8 * slot + b]
                    if c == 'ref': x.pc += [z3.Not(byval(ARGT(k))), A == self.co() + CSUM(k) + b]
                    out.append((x, [Ptr(g.cif, 0), Ptr(NULLR, self.fn), NULL if null else Ptr(self.rv, 0), Ptr(self.args.r, 0)] + ([Ptr(NULLR, self.closure)] if self.go else [])))
        return out
    def alloca(self, ex, st, name, size, al, dyn):
        if not dyn: return None
        g = self.sig
        nm = '%s.%s' % (ex.fname, name)
        w = {'rv': zx(g.bytes) + 32, 'fn': zx(g.bytes) + 16, 'flags': zx(g.bytes) + 24}
        c = st.ghost['case']
        if st.ghost['sret']: w['slot0'] = bv(0)
        if c == 'ref': w['slot'] = 8 * (self.k + (1 if st.ghost['sret'] else 0))
        r = ex.regions.get(nm)
        if r is None: r = Block(nm, size, self.A, {k: S(v) for k, v in w.items()})
        elif not r.size.eq(size): r.size = size
        for k in list(st.mem):
            if isinstance(k, str) and k.startswith(nm): st.mem.pop(k)
        self.block = r
        return r
    def co(self): return align_up(zx(self.sig.bytes) + 40, bv(16))
    def unfold(self, ex, st, N, loop):
        k, n = self.k, self.sig.n
        return csum_step(N) + [rsz_def(ARGT(N))] + lite(ARGT(N)) + [csum_mono(k + 1, N), csum_mono(N + 1, k), csum_mono(N, k), csum_mono(N, n), csum_mono(N + 1, n), z3.ULT(N, bv(1 << 21))]
    def accs(self, ex, st, N, loop): return {'CSUM': bv(0) if z3.is_bv_value(N) and N.as_long() == 0 else CSUM(N)}
    def cands(self, ex, st, N, loop):
        out = [('N<=nargs', z3.ULE(N, self.sig.n))]
        r = getattr(self, 'block', None)
        if r is None or r.key not in ex.regions: return out
        if z3.is_bv_value(N): self.entry = {(loop, w): r.word(st, w) for w in r.words}
        c = st.ghost['case']
        for w in r.words:
            if w == 'slot': out.append(('slot of the followed argument', z3.Implies(z3.UGT(N, self.k), r.word(st, 'slot') == r.base + self.co() + CSUM(self.k))))
            else: out.append(('%s word is kept' % w, r.word(st, w) == self.entry[(loop, w)]))
        if c == 'val': out.append(('argument byte in place', z3.Implies(z3.UGT(N, self.k), r.val(st) == BYTE(self.k, self.b))))
        if c == 'ref': out.append(('copied byte in place', z3.Implies(z3.UGT(N, self.k), r.val(st) == BYTE(self.k, self.b))))
        return out
    def call(self, ex, st, name, args, ins):
        if name != 'ffi_call_win64': return None
        g, K, T = self.sig, self.K, self.T
        p, f, chain = args
        st.ghost['calls'] = st.ghost.get('calls', 0) + 1
        if p.reg.kind != 'witness' or not isinstance(p.reg, Block): raise Fail('argument block is not a fresh stack block')
        r = p.reg
        by = 8 * (g.n + (1 if st.ghost['sret'] else 0))
        ex.ob(st, 'wcall', 'argument block starts the allocation', p.off == 0)
        fo = S(f.num() - r.base)
        # the contract of the glue: frame above the slots, inside the block
        ex.ob(st, 'wcall', 'frame lies above every slot, inside the allocation', z3.And(z3.UGE(fo, by), z3.UGE(fo, 32), z3.ULE(fo, 1 << 31), z3.ULE(fo + 40, r.size), fo & 7 == 0))
        if not ex.must(st, fo == zx(g.bytes)): raise Fail('frame is not where this contract follows it')
        ex.ob(st, 'state', 'stack is 16-byte aligned at the call', r.base & 15 == 0)
        ex.ob(st, 'wcall', 'target is the given function', r.word(st, 'fn') == self.fn)
        ex.ob(st, 'go', 'static chain is the closure', ex.num(chain) == (self.closure if self.go else 0))
        null, sret = st.ghost['null'], st.ghost['sret']
        fl, rvn = r.word(st, 'flags'), r.word(st, 'rv')
        so = S(rvn - r.base)
        if not null: ex.ob(st, 'wreturn', 'a wanted return value goes to the caller buffer', z3.And(rvn == self.rv.base, fl == sx(g.flags)))
        elif not sret: ex.ob(st, 'wreturn', 'an unwanted return value is dropped', fl == T['VOID'])
        else: ex.ob(st, 'wreturn', 'an unwanted in-memory result goes to scratch memory big enough', z3.And(fl == T['STRUCT'], z3.UGE(so, fo + 40), z3.ULE(so, 1 << 33), z3.ULE(so + SIZE(g.RT), r.size)))
        if sret: ex.ob(st, 'wreturn', 'the hidden pointer is the first slot', r.word(st, 'slot0') == rvn)
        c = st.ghost['case']
        if c == 'val': ex.ob(st, 'wargs', 'every byte of a by-value argument is in its slot', r.val(st) == BYTE(self.k, self.b))
        if c == 'ref':
            q = r.word(st, 'slot'); qo = q - r.base; t = ARGT(self.k)
            ex.ob(st, 'wargs', 'a by-reference argument lies in the block, clear of slots and frame', z3.And(z3.UGE(qo, fo + 40), z3.ULE(qo, 1 << 33), z3.ULE(qo + SIZE(t), r.size)))
            ex.ob(st, 'wargs', 'a by-reference argument is aligned', q & (AL(t) - 1) == 0)
            ex.ob(st, 'wargs', 'every byte of a by-reference argument is in its copy', z3.And(self.A == qo + self.b, r.val(st) == BYTE(self.k, self.b)))
            if null and sret:
                # stepping stones; where the code lays its copies out otherwise, the goal itself is tried
                for f in (so == self.co() + CSUM(g.n), qo == self.co() + CSUM(self.k), z3.ULE(CSUM(self.k) + SIZE(t), CSUM(g.n))):
                    if ex.prove(st, f): st.pc.append(f)
                ex.ob(st, 'wargs', 'scratch for an unwanted result is clear of the copies', z3.Or(z3.UGE(so, qo + SIZE(t)), z3.ULE(so + SIZE(g.RT), qo)))
        return [(st, None)]
    def on_ret(self, ex, st, v):
        ex.ob(st, 'wcall', 'the function is called exactly once', z3.BoolVal(st.ghost.get('calls', 0) == 1))

FW = z3.Function('FW', B64, B64)     # 8-byte words of the closure frame, by offset
class InnerWin(Contract):
    """ffi_closure_win64_inner"""
    def setup(self, ex):
        st = State(); K, T = self.K, self.T = abi_consts(), glue.ffi_types()
        g = self.sig = Sig(ex, st, False)
        self.k = small('k', 20); k = self.k
        self.fun, self.ud = z3.BitVec('p_fun', 64), z3.BitVec('p_user', 64)
        self.fr = FnRegion('closure frame', base=z3.BitVec('p_frame', 64), size=bv(56) + win_bytes(g), frame_tag='wclosure'); ex.reg(self.fr)
        def loadf(ex, st, off, n, isptr):
            if n != 8: return None
            o = const(off)
            if o == 0: v = st.mem['rv0']
            elif o is not None and o < 16: v = fresh('rv1')
            else:
                ex.ob(st, 'memory', 'frame access aligned', off & 7 == 0)
                v = FW(S(off))
            return ex.toptr(st, v) if isptr else v
        def storef(ex, st, off, n, val):
            o = const(off)
            if o == 0 and n == 8: st.mem['rv0'] = val.num() if isinstance(val, Ptr) else val; st.wrote.add('rv0'); return [st]
            if o is not None and o + n <= 16: raise Fail('partial store to the result area')
            return None
        self.fr.loadf, self.fr.storef = loadf, storef
        st.mem['rv0'] = z3.BitVec('rv0', 64)
        self.av = FnRegion('avalue', base=z3.BitVec('&avalue', 64), size=g.n * 8, key='avalue'); self.av.storef = self.av_store
        st.mem['avalue'] = z3.BitVec('avalue_k0', 64); ex.reg(self.av)
        st.pc += [z3.Or(*[g.abi == K[x] for x in ('FFI_WIN64', 'FFI_EFI64', 'FFI_GNUW64')]), self.fr.base != 0, self.fr.base & 7 == 0, z3.ULT(self.fr.base, bv(-(1 << 32)))]
        st.pc += [f for _, f in win_flags_ok(g.flags, g.RT, T)]
        a = [Ptr(g.cif, 0), Ptr(NULLR, self.fun), Ptr(NULLR, self.ud), Ptr(self.fr, 0)]
        x = st.fork(); x.ghost['case'] = 'none'; y = st.fork(); y.ghost['case'] = 'arg'
        y.pc += [z3.ULT(k, g.n)] + wf(ARGT(k))
        t = ARGT(k); slot = k + b2i(is_sret(g.RT))
        self.want = z3.If(z3.And(is_(t, FLOAT, DOUBLE), z3.ULT(slot, 4)), self.fr.base + 16 + 8 * slot,
                          z3.If(byval(t), self.fr.base + 56 + 8 * slot, FW(56 + 8 * slot)))
        return [(x, a), (y, a)]
    av_store = Inner.av_store
    def havoc_ghost(self, ex, st, key):
        if key in ('avalue', 'rv0'): st.mem[key] = fresh(key)
        else: raise Fail('havoc of ' + str(key))
    def alloca(self, ex, st, name, size, al, dyn): return self.av if dyn else None
    def canon(self, ex, st): return []
    def unfold(self, ex, st, N, loop): return wf(ARGT(N)) + [z3.ULT(N, bv(1 << 21))]
    def cands(self, ex, st, N, loop):
        out = [('N<=nargs', z3.ULE(N, self.sig.n))]
        if z3.is_bv_value(N): self.entry = st.mem['rv0']
        out.append(('result area is kept', st.mem['rv0'] == self.entry))
        if st.ghost['case'] == 'arg': out.append(('argument k delivered', z3.Implies(z3.UGT(N, self.k), st.mem['avalue'] == self.want)))
        return out
    def icall(self, ex, st, p, args, ins):
        g = self.sig
        st.ghost['calls'] = st.ghost.get('calls', 0) + 1
        ex.ob(st, 'wclosure', 'the function called is the one the closure was prepared with', ex.num(p) == self.fun)
        if len(args) != 4: raise Fail('user function called with %d arguments' % len(args))
        cif, rv, av, ud = args
        sret = is_sret(g.RT)
        ex.ob(st, 'wclosure', 'cif and user data are passed on', z3.And(ex.num(cif) == g.cif.base, ex.num(ud) == self.ud))
        ex.ob(st, 'wclosure', 'the argument vector is passed on', z3.Or(g.n == 0, ex.num(av) == self.av.base))
        ex.ob(st, 'wclosure return', 'a hidden-pointer result goes where the caller asked', z3.Implies(sret, ex.num(rv) == FW(bv(56))))
        ex.ob(st, 'wclosure return', 'any other result goes to the area the glue loads from', z3.Implies(z3.Not(sret), ex.num(rv) == self.fr.base))
        if st.ghost['case'] == 'arg': ex.ob(st, 'wclosure args', 'every argument pointer refers to what the caller passed', st.mem['avalue'] == self.want)
        if ex.feasible(st, z3.Not(sret)):
            self.after = fresh('result'); st.mem['rv0'] = S(z3.If(sret, st.mem['rv0'], self.after))
        return [(st, None)]
    def on_ret(self, ex, st, v):
        g = self.sig; sret = is_sret(g.RT)
        ex.ob(st, 'wclosure', 'the user function is called exactly once', z3.BoolVal(st.ghost.get('calls', 0) == 1))
        ex.ob(st, 'wclosure return', 'the result area holds the hidden address or the user result', st.mem['rv0'] == z3.If(sret, FW(bv(56)), getattr(self, 'after', st.mem['rv0'])))
