"""System V x86-64 marshalling: ffi_prep_cif_machdep, ffi_call(_go), closure inner.

Ghost recurrences over the signature (independent of the code):
  GPR(i), SSR(i)  registers consumed by the first i arguments
  OFF(i)          end of the stack area used by the first i arguments
  INREG(i)        argument i travels in registers
"""
from ..theory import *
from .classify import classify_call, examine_call, cell
import re, os, subprocess
from .. import build

GPR = uf('GPR', 1, 4, 64); SSR = uf('SSR', 1, 4, 64); OFF = uf('OFF', 1, 32, 64); START = uf('START', 1, 32, 64)
ARGT = z3.Function('ARGT', B64, B64)
BYTE = z3.Function('BYTE', B64, B64, B8)      # BYTE(i, w): byte w of the i-th argument value
VAL = z3.Function('VAL', B64, B64)            # avalue[i]
LIM = 1 << 30
MAXARGS = 1 << 20

def small(name, w): return z3.ZeroExt(64 - w, z3.BitVec(name, w))

def macros(hdr, extra=()):
    """object-like macros of a /repo header, evaluated by the preprocessor"""
    src = '#define LIBFFI_ASM\n#include <fficonfig.h>\n#include <ffi.h>\n#include "%s/src/x86/%s"\n' % (build.REPO, hdr)
    r = subprocess.run(['gcc', '-E', '-dM', '-x', 'c', '-'] + build.cflags() + list(extra), input=src, stdout=subprocess.PIPE, text=True, check=True).stdout
    defs = dict(re.findall(r'^#define (\w+) (.*)$', r, re.M))
    out = {}
    def ev(s, d=0):
        if d > 8: raise ValueError
        s = re.sub(r'\b[A-Za-z_]\w*\b', lambda m: str(ev(defs[m.group(0)], d + 1)) if m.group(0) in defs else '@', s)
        s = re.sub(r'\b(0x[0-9a-fA-F]+|\d+)[uUlL]+\b', r'\1', s)
        if '@' in s or not re.fullmatch(r'[\d\sxa-fA-F()+\-*/<>&|~]+', s): raise ValueError(s)
        return eval(s)
    for k, v in defs.items():
        try: out[k] = ev(v)
        except Exception: pass
    return out

def amax8(t): return z3.If(z3.ULT(AL(t), 8), bv(8), AL(t))
def INREG(i):
    t = ARGT(i); mem = kinds(t)[0]
    return z3.And(z3.Not(mem), z3.ULE(GPR(i) + NG(t), 6), z3.ULE(SSR(i) + NS(t), 8))
def start_def(i):
    """definition of START: where argument i goes if it travels on the stack"""
    return START(i) == align_up(OFF(i), amax8(ARGT(i)))
def start_facts(i):
    """consequences of start_def (lemma)"""
    return [z3.UGE(START(i), OFF(i)), START(i) & 7 == 0, z3.ULE(START(i) - OFF(i), 15)]
def rec_step(i):
    """definition of the recurrences at i -> i+1"""
    t = ARGT(i); r = INREG(i)
    return [GPR(i + 1) == GPR(i) + z3.If(r, NG(t), bv(0)), SSR(i + 1) == SSR(i) + z3.If(r, NS(t), bv(0)),
            OFF(i + 1) == z3.If(r, OFF(i), START(i) + SIZE(t))] + start_facts(i)
def rec_range(i): return [z3.ULE(GPR(i), 6), z3.ULE(SSR(i), 8), z3.ULE(OFF(i), LIM)]
def mono(i, j):
    """lemma (proved by induction, see lemmas()): the recurrences are monotone"""
    return z3.Implies(z3.ULE(i, j), z3.And(z3.ULE(GPR(i), GPR(j)), z3.ULE(SSR(i), SSR(j)), z3.ULE(OFF(i), OFF(j))))
def lemmas(ex):
    """induction proof of `mono` and of the register ranges, from the definitions alone"""
    st = State(); i, j = z3.BitVecs('li lj', 64)
    st.pc += [z3.ULE(i, j), z3.ULE(j, bv(MAXARGS)), mono(i, j)] + rec_step(j)[:3] + [start_def(j)] + rec_range(j) + wf(ARGT(j))
    for k, f in enumerate(start_facts(j)): ex.ob(st, 'lemma', 'start of a stack argument: fact %d' % k, f)
    ex.ob(st, 'lemma', 'monotone recurrences: induction step', z3.Implies(z3.ULE(i, j), z3.And(
        z3.ULE(GPR(i), GPR(j + 1)), z3.ULE(SSR(i), SSR(j + 1)), z3.ULE(OFF(i), OFF(j + 1)))), assume=False)
    ex.ob(st, 'lemma', 'register counts stay in range: induction step', z3.And(z3.ULE(GPR(j + 1), 6), z3.ULE(SSR(j + 1), 8)), assume=False)
    ex.ob(st, 'lemma', 'an argument placed on the stack stays inside OFF(i+1)', z3.Implies(z3.Not(INREG(j)), z3.ULE(START(j) + SIZE(ARGT(j)), OFF(j + 1))), assume=False)

class Sig:
    """the prepared (or to be prepared) call interface under a contract"""
    def __init__(self, ex, st, cells, ret=True, abi=None, void_args=False, facts=True):
        self.ex = ex
        self.n32 = z3.ZeroExt(11, z3.BitVec('nargs', 21)); self.n = zx(self.n32)
        self.RT = z3.BitVec('rtype', 64)
        self.T = Types(ex, void_ok=True)
        self.TA = Types(ex, void_ok=False)
        self.TA.cache = {}
        self.abi = z3.BitVec('abi', 32) if abi is None else bv(abi, 32)
        self.flags, self.bytes = z3.BitVec('cif_flags', 32), z3.BitVec('cif_bytes', 32)
        self.argtypes = FnRegion('arg_types', base=z3.BitVec('p_arg_types', 64), size=self.n * 8)
        def loadf(ex, st, off, n, isptr):
            if n != 8: raise Fail('arg_types access')
            ex.ob(st, 'memory', 'arg_types access aligned', off & 7 == 0)
            i = ex.norm(st, z3.LShR(off, 3))
            return self.TA.ptr(st, ARGT(i))
        self.argtypes.loadf = loadf
        ex.reg(self.argtypes)
        st.pc += [z3.ULE(self.n, MAXARGS), z3.Implies(self.n != 0, self.argtypes.base != 0)] + (kfacts(self.RT) if facts else [])
        rp = self.T.ptr(st, self.RT)
        if cells:
            self.cif = CellRegion('cif', 32)
            c = self.cif
            for o, n, v in ((0, 4, self.abi), (4, 4, self.n32), (8, 8, Ptr(self.argtypes, 0)), (16, 8, rp),
                            (24, 4, self.bytes), (28, 4, self.flags)):
                c.init(st, o, n, v)
        else:
            self.cif = FnRegion('cif', size=32, frame_tag='callerdata')
            m = self.m = {(0, 4): self.abi, (4, 4): self.n32, (8, 8): Ptr(self.argtypes, 0), (16, 8): rp, (24, 4): self.bytes, (28, 4): self.flags}
            self.cif.loadf = lambda ex, st, off, n, isptr: m.get((const(off), n))
        ex.reg(self.cif)
    def retmem(self):
        """the return value travels in caller-provided memory"""
        t = self.RT; mem, n, ii, ss, xx = kinds(t)
        # a complex long double or a lone x87 aggregate comes back in st(0)/st(1)
        return z3.And(TYP(t) == STRUCT, z3.UGT(SIZE(t), 16))

def ret_kinds(t):
    mem, n, ii, ss, xx = kinds(t)
    return z3.And(TYP(t) == STRUCT, z3.UGT(SIZE(t), 16)), n, ii, ss, xx

def ret_flags_ok(flags, t, M):
    """the flags word makes the glue (see contracts/asm.py: RETCODE table) move
    exactly the bytes of a return value of type t from where the ABI puts them"""
    code = flags & 0xff
    inmem = flags & M['UNIX64_FLAG_RET_IN_MEM'] != 0
    size = z3.LShR(flags, M['UNIX64_SIZE_SHIFT'])
    mem, n, ii, ss, xx = ret_kinds(t)
    is_c = lambda k: code == M['UNIX64_RET_' + k]
    T = TYP(t); inner = TYP(ELEM(t, bv(0)))
    out = [('in-memory returns are flagged, and only those', inmem == mem),
           ('in-memory and void returns store nothing in the glue', z3.Implies(z3.Or(mem, T == VOID), is_c('VOID')))]
    for k, c in (('UINT8', U8T), ('SINT8', S8T), ('UINT16', U16T), ('SINT16', S16T), ('UINT32', U32T), ('SINT32', S32T)):
        out.append(('%s return is widened as such' % k, z3.Implies(T == c, is_c(k))))
    out.append(('64-bit return', z3.Implies(z3.Or(T == U64T, T == S64T, T == POINTER), is_c('INT64'))))
    out.append(('float return', z3.Implies(T == FLOAT, is_c('XMM32'))))
    out.append(('double return', z3.Implies(T == DOUBLE, is_c('XMM64'))))
    out.append(('long double return', z3.Implies(T == LDBL, is_c('X87'))))
    out.append(('complex long double return', z3.Implies(z3.And(T == COMPLEX, inner == LDBL), is_c('X87_2'))))
    agg = z3.And(z3.Or(T == STRUCT, T == COMPLEX), z3.Not(mem), z3.Not(z3.And(T == COMPLEX, inner == LDBL)))
    out.append(('x87 aggregate return', z3.Implies(z3.And(agg, xx), is_c('X87'))))
    g = z3.And(agg, z3.Not(xx))
    one_s, one_i = z3.And(n == 1, ss[0]), z3.And(n == 1, ii[0])
    st = lambda a: z3.And(is_c(a), zx(size) == SIZE(t))
    # eightbyte j from the k-th register of its class
    a0s, a0i, a1s, a1i = ss[0], ii[0], ss[1], ii[1]
    exact = z3.Or(z3.And(is_c('XMM32'), SIZE(t) == 4, a0s), z3.And(is_c('XMM64'), SIZE(t) == 8, a0s),
                  z3.And(is_c('INT64'), SIZE(t) == 8, z3.Not(a0s)),
                  z3.And(st('ST_XMM0_RAX'), z3.Not(a0i), z3.Not(a1s)), z3.And(st('ST_RAX_XMM0'), z3.Not(a0s), z3.Not(a1i)),
                  z3.And(st('ST_XMM0_XMM1'), z3.Not(a0i), z3.Not(a1i)), z3.And(st('ST_RAX_RDX'), z3.Not(a0s), z3.Not(a1s)))
    out.append(('aggregate return: right registers, exactly its size', z3.Implies(g, exact)))
    return out

class Machdep(Contract):
    """ffi_status ffi_prep_cif_machdep (ffi_cif *)"""
    def setup(self, ex):
        st = State()
        self.M = macros('internal64.h'); self.A = macros('ffitarget.h') 
        g = self.sig = Sig(ex, st, True)
        self.consts = abi_consts()
        out = []
        lemmas(ex)
        st.pc += [GPR(bv(0)) == b2i(g.retmem()), SSR(bv(0)) == 0, OFF(bv(0)) == 0] + rec_range(bv(0)) + rec_range(g.n)
        for case, f in (('void/scalar return', z3.Not(is_(g.RT, STRUCT))), ('struct return', is_(g.RT, STRUCT))):
            x = st.fork(); x.pc.append(f); x.ghost['case'] = case
            out.append((x, [Ptr(g.cif, 0)]))
        return out
    def unfold(self, ex, st, N, loop): return rec_step(N) + [start_def(N)] + rec_range(N) + wf(ARGT(N)) + [mono(N, self.sig.n), mono(N + 1, self.sig.n)]
    def accs(self, ex, st, N, loop): return {'GPR': GPR(N), 'SSR': SSR(N), 'OFF': OFF(N)}
    def cands(self, ex, st, N, loop): return [('N<=nargs', z3.ULE(N, self.sig.n))]
    def call(self, ex, st, name, args, ins):
        if name == 'examine_argument': return examine_call(self, ex, st, args)
        if name == 'classify_argument': return classify_call(self, ex, st, args)
        if name == 'ffi_prep_cif_machdep_efi64':
            st.ghost['efi'] = True
            ex.ob(st, 'prep', 'Windows back end gets the Windows ABIs only, with the same cif',
                  z3.And(z3.Or(*[self.sig.abi == self.consts[k] for k in ('FFI_EFI64', 'FFI_GNUW64', 'FFI_WIN64') if k in self.consts]),
                         args[0].num() == self.sig.cif.base))
            return [(st, fresh('efi', 32))]
    def on_ret(self, ex, st, v):
        g = self.sig
        if st.ghost.get('efi'): return
        M, K = self.M, self.consts
        ex.ob(st, 'prep', 'FFI_BAD_ABI iff the ABI is not one of this target', (v == K['FFI_BAD_ABI']) == (g.abi != K['FFI_UNIX64']))
        ex.ob(st, 'prep', 'every well-formed signature is accepted', z3.Implies(g.abi == K['FFI_UNIX64'], v == K['FFI_OK']))
        ok = v == K['FFI_OK']
        fl, by = g.cif.load1(ex, st, 28, 4, False), g.cif.load1(ex, st, 24, 4, False)
        st.pc.append(ok) if ex.feasible(st, ok) else None
        if not ex.feasible(st, ok): return
        for nm, f in ret_flags_ok(fl, g.RT, M): ex.ob(st, 'return', nm, z3.Implies(ok, f))
        ex.ob(st, 'prep', 'stack size is the end of the last stack argument, rounded to 8', zx(by) == align_up(OFF(g.n), bv(8)))
        ex.ob(st, 'prep', 'vector-argument flag iff a vector register is used', (fl & M['UNIX64_FLAG_XMM_ARGS'] != 0) == (SSR(g.n) != 0))
        ex.ob(st, 'prep', 'signature fields are not touched', z3.And(
            g.cif.load1(ex, st, 0, 4, False) == g.abi, g.cif.load1(ex, st, 4, 4, False) == g.n32,
            g.cif.load1(ex, st, 8, 8, False) == g.argtypes.base, g.cif.load1(ex, st, 16, 8, False) == g.RT))

_abi = None
def abi_consts():
    """enumerators of ffi_abi / ffi_status, evaluated by the compiler from the headers"""
    global _abi
    if _abi: return _abi
    names = ['FFI_FIRST_ABI', 'FFI_LAST_ABI', 'FFI_UNIX64', 'FFI_WIN64', 'FFI_EFI64', 'FFI_GNUW64', 'FFI_DEFAULT_ABI', 'FFI_OK', 'FFI_BAD_TYPEDEF', 'FFI_BAD_ABI', 'FFI_BAD_ARGTYPE', 'FFI_TRAMPOLINE_SIZE']
    c = os.path.join(build.scratch(), 'abi%d.c' % os.getpid())
    open(c, 'w').write('#include <stdio.h>\n#include <ffi.h>\nint main(void){\n' + ''.join('printf("%s %%d\\n",(int)%s);\n' % (n, n) for n in names) + '}\n')
    build.run(['gcc'] + build.cflags() + [c, '-o', c + '.x'])
    _abi = {k: int(v) for k, v in (l.split() for l in build.run([c + '.x']).split('\n') if l)}
    return _abi

# ---------------------------------------------------------------- ffi_call
RA_SSE, RA_RAX, RA_R10, RA_SIZE = 0x30, 0xb0, 0xb8, 0xc0      # struct register_args, as unix64.S reads it

class Args:
    """argument values of a call: read-only, any content"""
    def __init__(self, ex, sig):
        self.ex, self.sig, self.cache = ex, sig, {}
        self.r = FnRegion('avalue', base=z3.BitVec('p_avalue', 64), size=sig.n * 8, frame_tag='callerdata')
        def loadf(ex, st, off, n, isptr):
            if n != 8: raise Fail('avalue access size')
            ex.ob(st, 'memory', 'avalue access aligned', off & 7 == 0)
            return self.arg(st, ex.norm(st, z3.LShR(off, 3)))
        self.r.loadf = loadf
        ex.reg(self.r)
    def arg(self, st, i):
        i = S(i); k = i.get_id()
        if k not in self.cache:
            r = FnRegion('argument value %s' % i, base=VAL(i), size=SIZE(ARGT(i)), key='arg:%d' % k, frame_tag='callerdata')
            r.bytef = lambda st, off, i=i: BYTE(i, S(off))
            r.keep = i
            self.ex.reg(r); self.cache[k] = r
        st.pc += [VAL(i) != 0]
        return Ptr(self.cache[k], 0)

def expect_byte(k, b):
    """(constrained, byte) of eightbyte-extended argument k at byte b"""
    t = ARGT(k)
    small = is_(t, U8T, S8T, U16T, S16T, U32T, S32T)
    sb = BYTE(k, SIZE(t) - 1)
    ext = z3.If(z3.And(is_(t, S8T, S16T, S32T), z3.Extract(7, 7, sb) == 1), bv(0xff, 8), bv(0, 8))
    inval = z3.And(z3.ULT(b, SIZE(t)), z3.Or(z3.Not(INREG(k)), occ_at(t, b)))   # padding is not passed in registers
    return z3.Or(inval, z3.And(small, z3.UGE(b, SIZE(t)), z3.ULT(b, 8), INREG(k))), z3.If(z3.ULT(b, SIZE(t)), BYTE(k, b), ext)

def location(k, b):
    """offset in the argument block (register image, then stack) of byte b of argument k"""
    t = ARGT(k); mem, n, ii, ss, xx = kinds(t)
    j = z3.LShR(b, 3); w = b & 7
    g = z3.If(j == 0, bv(0), b2i(ii[0])); s = z3.If(j == 0, bv(0), b2i(ss[0]))
    isint = z3.If(j == 0, ii[0], ii[1]); issse = z3.If(j == 0, ss[0], ss[1])
    loc = z3.If(INREG(k), z3.If(isint, 8 * (GPR(k) + g) + w, RA_SSE + 16 * (SSR(k) + s) + w), RA_SIZE + START(k) + b)
    return z3.If(INREG(k), z3.And(z3.ULT(j, n), z3.Or(isint, issse)), z3.ULT(b, SIZE(t))), loc

class Call(Contract):
    """ffi_call / ffi_call_go (with ffi_call_int and every helper inlined)"""
    def __init__(self, go=False): self.go = go
    def setup(self, ex):
        st = State()
        self.M, self.K = macros('internal64.h'), abi_consts()
        g = self.sig = Sig(ex, st, False)
        self.args = Args(ex, g)
        self.k, self.b = small('k', 20), small('b', 30)
        self.A = small('A', 32)
        self.rv = FnRegion('rvalue', base=z3.BitVec('p_rvalue', 64), size=None, frame_tag='return'); ex.reg(self.rv)
        self.fn = z3.BitVec('p_fn', 64); self.closure = z3.BitVec('p_closure', 64)
        K, M = self.K, self.M
        st.pc += [z3.Implies(g.n != 0, self.args.r.base != 0)]
        efi = z3.Or(g.abi == K['FFI_EFI64'], g.abi == K['FFI_GNUW64'])
        a = [Ptr(g.cif, 0), Ptr(NULLR, self.fn), Ptr(self.rv, 0), Ptr(self.args.r, 0)] + ([Ptr(NULLR, self.closure)] if self.go else [])
        x = st.fork(); x.pc += [efi]; x.ghost['case'] = 'windows'
        out = [(x, a)]
        lemmas(ex)
        # the call interface was prepared by ffi_prep_cif (postcondition of Machdep)
        st.pc += [g.abi == K['FFI_UNIX64'], GPR(bv(0)) == b2i(g.retmem()), SSR(bv(0)) == 0, OFF(bv(0)) == 0] + rec_range(bv(0)) + rec_range(g.n)
        st.pc += [f for _, f in ret_flags_ok(g.flags, g.RT, M)]
        st.pc += [zx(g.bytes) == align_up(OFF(g.n), bv(8)), (g.flags & M['UNIX64_FLAG_XMM_ARGS'] != 0) == (SSR(g.n) != 0)]
        k, b, A = self.k, self.b, self.A
        req, loc = location(k, b); con, _ = expect_byte(k, b)
        x = st.fork(); x.ghost['case'] = 'arg'
        x.pc += [z3.ULT(k, g.n), req, con, A == loc] + wf(ARGT(k)) + rec_step(k) + rec_range(k) + rec_range(k + 1) + [mono(k, g.n), mono(k + 1, g.n)] + kfacts(ARGT(k))
        i1, i2 = x.fork(), x.fork()
        i1.pc.append(INREG(k)); i2.pc.append(z3.Not(INREG(k)))
        i2.ghost['case'] = 'stackarg'
        out += [(i1, a), (i2, a)]
        x = st.fork(); x.ghost['case'] = 'sret'; x.pc += [g.retmem(), z3.ULT(A, 8)]; out.append((x, a))
        x = st.fork(); x.ghost['case'] = 'al'; x.pc += [z3.UGE(A, RA_RAX), z3.ULT(A, RA_RAX + 4)]; out.append((x, a))
        if self.go:
            x = st.fork(); x.ghost['case'] = 'chain'; x.pc += [z3.UGE(A, RA_R10), z3.ULT(A, RA_R10 + 8)]; out.append((x, a))
        return out
    def alloca(self, ex, st, name, size, al, dyn):
        if not dyn: return None
        nm = '%s.%s' % (ex.fname, name)
        r = ex.regions.get(nm)
        if r is None: r = WRegion(nm, size, A=self.A)
        elif not r.size.eq(size): r.size = size
        st.mem.pop(nm, None)
        return r
    def expected(self, ex, st, rvnum=None):
        c = st.ghost['case']
        if c in ('arg', 'stackarg'): return expect_byte(self.k, self.b)[1]
        if c == 'chain': return z3.Extract(7, 0, z3.LShR(self.closure, (self.A - RA_R10) * 8))
        return None
    def canon(self, ex, st):
        """pointer arithmetic that computes where a stack argument starts is replaced by START(N), once proved equal"""
        N = st.ghost.get('N')
        if N is None: return []
        t = ARGT(N)
        return [(RA_SIZE + START(N), [start_def(N), pow2(AL(t)), z3.ULE(OFF(N), LIM)])]
    def unfold(self, ex, st, N, loop):
        k, n = self.k, self.sig.n
        return rec_step(N) + rec_range(N) + rec_range(N + 1) + wf(ARGT(N)) + [mono(k + 1, N), mono(k, N), mono(N, n), mono(N + 1, n), mono(N, k)] + \
               kfacts(ARGT(N))
    def accs(self, ex, st, N, loop): return {'GPR': GPR(N), 'SSR': SSR(N), 'OFF': OFF(N)}
    def cands(self, ex, st, N, loop):
        out = [('N<=nargs', z3.ULE(N, self.sig.n))]
        c = st.ghost['case']
        for k, r in sorted(ex.regions.items(), key=lambda x: str(x[0])):
            if r.kind != 'witness' or k in st.dead: continue
            v = r.val(st)
            if c in ('arg', 'stackarg'): out.append(('argument byte in place', z3.Implies(z3.UGT(N, self.k), v == self.expected(ex, st))))
            if c == 'chain': out.append(('static chain in place', v == self.expected(ex, st)))
            if c == 'sret':
                out.append(('return pointer in place', v == z3.Extract(7, 0, z3.LShR(self.rv.base, self.A * 8))))
                for k2, r2 in sorted(ex.regions.items(), key=lambda x: str(x[0])):
                    if r2.kind == 'witness' and r2 is not r:
                        out.append(('return pointer in place (scratch)', v == z3.Extract(7, 0, z3.LShR(r2.base, self.A * 8))))
        return out
    def call(self, ex, st, name, args, ins):
        g, K, M = self.sig, self.K, self.M
        if name == 'examine_argument': return examine_call(self, ex, st, args)
        if name == 'classify_argument': return classify_call(self, ex, st, args)
        if name in ('ffi_call_efi64', 'ffi_call_go_efi64'):
            st.ghost['calls'] = st.ghost.get('calls', 0) + 1
            want = [g.cif.base, self.fn, self.rv.base, self.args.r.base] + ([self.closure] if self.go else [])
            ex.ob(st, 'call', 'Windows-ABI calls are handed to the Windows back end unchanged',
                  z3.And(z3.Or(g.abi == K['FFI_EFI64'], g.abi == K['FFI_GNUW64']), bool(self.go) == (name == 'ffi_call_go_efi64'),
                         *[ex.num(a) == w for a, w in zip(args, want)]))
            return [(st, None)]
        if name == 'ffi_call_unix64':
            p, nb, fl, rv, fn = args
            if p.reg.kind != 'witness': raise Fail('argument block is not a fresh stack block')
            st.ghost['calls'] = st.ghost.get('calls', 0) + 1
            if st.ghost['case'] == 'windows':
                ex.ob(st, 'call', 'Windows ABIs do not reach the System V glue', z3.BoolVal(False)); raise Stop()
            r = p.reg
            ex.ob(st, 'call', 'argument block starts the allocation', p.off == 0)
            ex.ob(st, 'call', 'block is big enough for arguments and the glue frame', z3.And(z3.UGE(nb, RA_SIZE + OFF(g.n)), z3.ULE(nb + 32, r.size), z3.ULE(nb, 1 << 40), nb & 7 == 0))
            ex.ob(st, 'state', 'stack is 16-byte aligned at the call', (r.base + RA_SIZE) & 15 == 0)
            ex.ob(st, 'call', 'target is the given function', ex.num(fn) == self.fn)
            c = st.ghost['case']
            v = r.val(st)
            rvn = ex.num(rv)
            if c in ('arg', 'stackarg'): ex.ob(st, 'args', 'every byte of every argument is where the ABI puts it', v == self.expected(ex, st))
            if c == 'chain': ex.ob(st, 'go', 'static chain is the closure', v == self.expected(ex, st))
            if c == 'sret': ex.ob(st, 'return', 'hidden return pointer is the first integer argument', v == z3.Extract(7, 0, z3.LShR(rvn, self.A * 8)))
            if c == 'al':
                w = z3.Extract(7, 0, z3.LShR(SSR(g.n), (self.A - RA_RAX) * 8))
                ex.ob(st, 'args', 'number of vector registers for variadic callees', v == w)
            code = fl & 0xff
            null = self.rv.base == 0
            x87 = z3.Or(g.flags & 0xff == M['UNIX64_RET_X87'], g.flags & 0xff == M['UNIX64_RET_X87_2'])
            scratch_ok = z3.BoolVal(False)
            if rv.reg.kind in ('witness', 'cells') and rv.reg is not r and rv.reg.key not in st.dead:
                scratch_ok = z3.And(z3.ULE(rv.off, rv.reg.size), z3.UGE(rv.reg.size - rv.off, SIZE(g.RT)), rvn != 0)
            ex.ob(st, 'return', 'a wanted return value goes to the caller buffer', z3.Implies(z3.Not(null), z3.And(rvn == self.rv.base, fl == g.flags)))
            ex.ob(st, 'return', 'an unwanted return value is dropped or goes to scratch memory big enough',
                  z3.Implies(null, z3.Or(z3.And(code == M['UNIX64_RET_VOID'], z3.Not(g.retmem()), z3.Not(x87)),
                                         z3.And(fl == g.flags, scratch_ok, z3.Or(g.retmem(), x87, z3.And(z3.UGE(SIZE(g.RT), 8) if True else True))))))
            return [(st, None)]
    def on_ret(self, ex, st, v):
        ex.ob(st, 'call', 'the function is called exactly once', z3.BoolVal(st.ghost.get('calls', 0) == 1))
UNITS = {'call': ('ffi_call', lambda: Call()), 'callgo': ('ffi_call_go', lambda: Call(True))}

# ---------------------------------------------------------------- closures
REGB = z3.Function('REGB', B64, B8)     # image of the argument registers at closure entry
FRAME_R = 0xb0                          # bytes of it that the closure glue saves

class Inner(Contract):
    """ffi_closure_unix64_inner: hand every argument to the user's function.
    One arbitrary argument k and one arbitrary byte b of it are followed."""
    def setup(self, ex):
        st = State()
        self.M, self.K = macros('internal64.h'), abi_consts()
        g = self.sig = Sig(ex, st, False)
        M = self.M
        self.k, self.b = small('k', 20), small('b', 30)
        k, b = self.k, self.b
        self.fun, self.ud = z3.BitVec('p_fun', 64), z3.BitVec('p_user', 64)
        self.rv = ex.reg(CellRegion('rvalue area', 32))
        self.regs = FnRegion('saved registers', size=FRAME_R, frame_tag='frame', bytef=lambda s, o: REGB(o)); ex.reg(self.regs)
        self.stk = FnRegion('stack arguments', base=z3.BitVec('p_argp', 64), size=align_up(OFF(g.n), bv(16)), frame_tag='frame'); ex.reg(self.stk)
        self.av = FnRegion('avalue', base=z3.BitVec('&avalue', 64), size=g.n * 8, key='avalue')
        self.av.storef = self.av_store
        st.mem['avalue'] = z3.BitVec('avalue_k0', 64)
        ex.reg(self.av)
        self.copy = WRegion('argument copy', bv(16), A=b); self.other = WRegion('other argument copy', bv(16), A=b)
        ex.reg(self.copy); ex.reg(self.other)
        st.mem[self.copy.key] = self.copy.unk; st.mem[self.other.key] = self.other.unk
        st.pc += [self.regs.base != 0, self.regs.base & 15 == 0, self.stk.base != 0, self.stk.base & 15 == 0, self.rv.base != 0, self.copy.base != 0, self.other.base != 0]
        for r, n in ((self.regs, FRAME_R), (self.rv, 32), (self.copy, 16)): st.pc.append(z3.ULT(r.base, bv(-4096)))
        st.pc += [z3.ULT(self.stk.base, bv(-(1 << 32)))]
        lemmas(ex)
        st.pc += [g.abi == self.K['FFI_UNIX64'], GPR(bv(0)) == b2i(g.retmem()), SSR(bv(0)) == 0, OFF(bv(0)) == 0] + rec_range(bv(0)) + rec_range(g.n)
        st.pc += [f for _, f in ret_flags_ok(g.flags, g.RT, M)]
        a = [Ptr(g.cif, 0), Ptr(NULLR, self.fun), Ptr(NULLR, self.ud), Ptr(self.rv, 0), Ptr(self.regs, 0), Ptr(self.stk, 0)]
        req, loc = location(k, b); con, _ = expect_byte(k, b)
        self.loc = loc
        out = []
        x = st.fork(); x.ghost['case'] = 'none'; out.append((x, a))
        base = [z3.ULT(k, g.n), z3.ULT(b, SIZE(ARGT(k))), req, con] + wf(ARGT(k)) + rec_step(k) + rec_range(k) + rec_range(k + 1) + [mono(k, g.n), mono(k + 1, g.n)] + kfacts(ARGT(k))
        t = ARGT(k); mem, n, ii, ss, xx = kinds(t)
        for nm, c in (('stack', [z3.Not(INREG(k))]), ('register', [INREG(k), n == 1]), ('registers', [INREG(k), n != 1])):
            x = st.fork(); x.pc += base + c; x.ghost['case'] = nm; out.append((x, a))
        return out
    def av_store(self, ex, st, off, n, val):
        if n != 8: raise Fail('avalue store size')
        ex.ob(st, 'memory', 'avalue store aligned', off & 7 == 0)
        i = ex.norm(st, z3.LShR(off, 3))
        v = val.num() if isinstance(val, Ptr) else val
        st.mem['avalue'] = S(z3.If(i == self.k, v, st.mem['avalue'])); st.wrote.add('avalue')
        return [st]
    def havoc_ghost(self, ex, st, key): raise Fail('havoc of ' + str(key))
    def alloca(self, ex, st, name, size, al, dyn):
        if dyn: return self.av
        if const(size) == 16:
            N = st.ghost.get('N')
            if N is None: return None
            out = []
            for c, r in ((N == self.k, self.copy), (N != self.k, self.other)):
                if ex.feasible(st, c): s2 = st.fork(); s2.branch(c); out.append((s2, r))
            return out
        return None
    def canon(self, ex, st):
        N = st.ghost.get('N')
        if N is None: return []
        t = ARGT(N)
        return [(START(N), [start_def(N), pow2(AL(t)), z3.ULE(OFF(N), LIM)])]
    def unfold(self, ex, st, N, loop):
        k, n = self.k, self.sig.n
        return rec_step(N) + rec_range(N) + rec_range(N + 1) + wf(ARGT(N)) + [mono(k + 1, N), mono(k, N), mono(N, n), mono(N + 1, n), mono(N, k)] + kfacts(ARGT(N))
    def accs(self, ex, st, N, loop): return {'GPR': GPR(N), 'SSR': SSR(N), 'OFF': OFF(N)}
    def good(self, st):
        """the address handed out for argument k holds byte b of it"""
        a = st.mem['avalue']; c = st.ghost['case']
        if c == 'stack': return a == self.stk.base + START(self.k)
        inplace = a + self.b - self.regs.base == self.loc
        if c == 'register': return inplace
        return z3.Or(inplace, z3.And(a == self.copy.base, z3.ULT(self.b, 16), self.copy.val(st) == REGB(self.loc)))
    def cands(self, ex, st, N, loop):
        out = [('N<=nargs', z3.ULE(N, self.sig.n))]
        if st.ghost['case'] != 'none': out.append(('argument k delivered', z3.Implies(z3.UGT(N, self.k), self.good(st))))
        return out
    def gpr0(self): return bytes_to_int([REGB(bv(i)) for i in range(8)])
    def call(self, ex, st, name, args, ins):
        if name == 'examine_argument': return examine_call(self, ex, st, args)
        if name == 'classify_argument': return classify_call(self, ex, st, args)
    def icall(self, ex, st, p, args, ins):
        g = self.sig
        st.ghost['calls'] = st.ghost.get('calls', 0) + 1
        ex.ob(st, 'closure', 'the function called is the one the closure was prepared with', ex.num(p) == self.fun)
        if len(args) != 4: raise Fail('user function called with %d arguments' % len(args))
        cif, rv, av, ud = args
        ex.ob(st, 'closure', 'cif and user data are passed on', z3.And(ex.num(cif) == g.cif.base, ex.num(ud) == self.ud))
        ex.ob(st, 'closure', 'the argument vector is passed on', z3.Or(g.n == 0, ex.num(av) == self.av.base))
        rm = g.retmem()
        ex.ob(st, 'closure return', 'an in-memory result goes where the caller asked', z3.Implies(rm, ex.num(rv) == self.gpr0()))
        ex.ob(st, 'closure return', 'a result in registers goes to the area the glue loads from', z3.Implies(z3.Not(rm), ex.num(rv) == self.rv.base))
        if st.ghost['case'] != 'none':
            ex.ob(st, 'closure args', 'every byte of every argument is what the caller passed', self.good(st))
            if st.ghost['case'] == 'register':
                ex.ob(st, 'closure args', 'a narrow argument lies at the address handed out', z3.Implies(z3.ULT(self.b, SIZE(ARGT(self.k))), self.good(st)))
        st.ghost['slot'] = True
        if not ex.feasible(st, rm): self.rv.havoc(ex, st)
        return [(st, None)]
    def on_ret(self, ex, st, v):
        g, M = self.sig, self.M
        ex.ob(st, 'closure', 'the user function is called exactly once', z3.BoolVal(st.ghost.get('calls', 0) == 1))
        rm = g.retmem()
        ex.ob(st, 'closure return', 'the glue is told to return the address for in-memory results', z3.Implies(rm, z3.And(v & 0xff == M['UNIX64_RET_INT64'],
              self.rv.load1(ex, st, 0, 8, False) == self.gpr0())) if ex.feasible(st, rm) else z3.BoolVal(True))
        ex.ob(st, 'closure return', 'the glue is told how to load the result', z3.Implies(z3.Not(rm), v & 0xff == g.flags & 0xff))
UNITS['inner'] = ('ffi_closure_unix64_inner', lambda: Inner())
