"""Contracts for the hand-written glue: unix64.S and win64.S.

Each entry point is executed symbolically from an arbitrary register file; the
places where control leaves the glue (call, ret, jump) carry the conditions."""
import z3, re
from ..sym import S, bv, fresh, const, Fail, Stop
from ..asm import AState, Region, R64, AExec
from .. import asm
from . import sysv
B8 = z3.BitVecSort(8)
SAVED = ('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15')
WSAVED = SAVED + ('rdi', 'rsi')
def lo(v, n): return S(z3.Extract(n - 1, 0, v))
def cat(bs): return S(z3.Concat(*reversed(bs)))

class Glue:
    """common part: entry state, what must hold at every boundary"""
    saved = SAVED; wsse = ()
    def entry(self, ex, name, **regs):
        st = AState()
        for r in R64: st.r[r] = regs.get(r, z3.BitVec(r + '_in', 64))
        for i in range(16): st.x['xmm%d' % i] = z3.BitVec('xmm%d_in' % i, 128)
        st.ghost['calls'] = 0
        st.ip = ex.p.syms.get(name)
        if st.ip is None: raise Fail('no entry point ' + name)
        self.in_ = dict(st.r); self.xin = dict(st.x)
        return st
    def havoc_call(self, ex, st, preserved=SAVED, xpres=()):
        for r in R64:
            if r not in preserved and r != 'rsp': st.r[r] = fresh(r + '_c', 64)
        for i in range(16):
            if i not in xpres: st.x['xmm%d' % i] = fresh('xmm%d_c' % i, 128)
        st.fl = None
    def saved_ok(self, ex, st, rsp):
        ex.ob(st, 'state', 'callee-saved registers are preserved', z3.And(*[st.r[r] == self.in_[r] for r in self.saved]))
        if self.wsse: ex.ob(st, 'state', 'callee-saved vector registers are preserved', z3.And(*[st.x['xmm%d' % i] == self.xin['xmm%d' % i] for i in self.wsse]))
        ex.ob(st, 'state', 'direction flag is clear on return', z3.Not(st.df))
    def at_call(self, ex, st):
        """conditions the ABI puts on every call made by the glue"""
        ex.ob(st, 'state', 'stack is 16-byte aligned when other code is entered', st.r['rsp'] & 15 == 0)
        ex.ob(st, 'state', 'direction flag is clear when other code is entered', z3.Not(st.df))
        ex.ob(st, 'state', 'x87 stack is empty when other code is entered', len(st.st) == 0)
        sp = S(st.r['rsp'] - 8); ex.store(st, sp, 8, z3.BitVec('glue_ret', 64))
    def tail(self, ex, st, name): raise Fail('jump to ' + name)
    def jump_out(self, ex, st, t): return None
    # ---- unwind tables
    def at(self, ex, st, i):
        row = ex.p.cfi_row(i.addr)
        if st.ghost.get('nocfi'): return
        if row is None:
            if i.op in ('call', 'callq'): ex.ob(st, 'unwind', 'unwind table at a call finds the caller and its registers', z3.BoolVal(False), assume=False)
            return
        if i.op not in ('call', 'callq') and not getattr(self, 'async_cfi', True): return
        cfa = S(st.r[row[1]] + row[2])
        def peek(a):
            r, d = ex.locate(st, a)
            if r is None: return z3.BitVec('no_such_memory', 64)
            return cat([ex.byte(st, r, d + k) for k in range(8)])
        fs = []
        for reg in self.saved + ('ra',):
            want = self.RET if reg == 'ra' else self.in_[reg]
            off = row[3].get('ra' if reg == 'ra' else reg)
            if reg == 'ra': fs.append(peek(cfa + bv(off & (2**64-1))) == want if off is not None else z3.BoolVal(False))
            elif off is not None: fs.append(peek(cfa + bv(off & (2**64-1))) == want)
            else: fs.append(st.r[reg] == want)
        if i.op in ('call', 'callq'):
            ex.ob(st, 'unwind', 'unwind table at a call finds the caller and its registers', z3.And(*fs), assume=False)
        else:
            ex.ob(st, 'unwind', 'unwind table finds the caller and its registers', z3.And(*fs), assume=False)

def ext(v, w, signed): return z3.SignExt(64 - w, v) if signed else z3.ZeroExt(64 - w, v)
INTK = {'UINT8': (8, 0), 'SINT8': (8, 1), 'UINT16': (16, 0), 'SINT16': (16, 1), 'UINT32': (32, 0), 'SINT32': (32, 1), 'INT64': (64, 0)}
CODES = ['VOID', 'UINT8', 'UINT16', 'UINT32', 'SINT8', 'SINT16', 'SINT32', 'INT64', 'XMM32', 'XMM64', 'X87', 'X87_2', 'ST_XMM0_RAX', 'ST_RAX_XMM0', 'ST_XMM0_XMM1', 'ST_RAX_RDX']

class CallUnix64(Glue):
    """ffi_call_unix64 (args, bytes, flags, raddr, fn)"""
    def setup(self, ex):
        self.M = M = sysv.macros('internal64.h')
        out = []
        A, B = z3.BitVec('args', 64), z3.BitVec('bytes', 64)
        self.A, self.B, self.raddr, self.fn = A, B, z3.BitVec('raddr', 64), z3.BitVec('fn', 64)
        self.flags = z3.BitVec('flags', 32)
        self.RET = z3.BitVec('return_address', 64)
        self.size = S(z3.LShR(z3.ZeroExt(32, self.flags), M['UNIX64_SIZE_SHIFT']))
        S0 = z3.BitVec('rsp_in', 64)
        self.args = ex.region(Region('args', A, 0, 1 << 20))
        self.frame = ex.region(Region('frame', S(A + B), -128, 32))
        def rb(o): return S(z3.Extract(8*o+7, 8*o, self.RET)) if 0 <= o < 8 else z3.BitVec('stack[%d]' % o, 8)
        self.stack = ex.region(Region('stack', S0, -256, 8, init=rb))
        for c in CODES:
            code = M.get('UNIX64_RET_' + c)
            if code is None: raise Fail('no return code ' + c)
            st = self.entry(ex, 'ffi_call_unix64', rdi=A, rsi=B, rdx=S(z3.Concat(z3.BitVec('rdx_hi', 32), self.flags)), rcx=self.raddr, r8=self.fn, rsp=S0)
            st.ghost['code'] = c
            st.pc += [lo(self.flags, 8) == code, (A + 0xc0) & 15 == 0, B & 7 == 0, z3.UGE(B, 0xc0), z3.ULE(B, 1 << 32), S0 & 15 == 8, z3.ULT(S0, bv(1 << 47)),
                      z3.UGE(A, S0 + 8), z3.ULT(A, bv(1 << 47))]
            lim = {'VOID': bv(0), 'XMM32': bv(4), 'XMM64': bv(8), 'X87': bv(16), 'X87_2': bv(32)}.get(c)
            if lim is None: lim = self.size if c.startswith('ST_') else bv(8)
            if c.startswith('ST_'): st.pc += [z3.UGE(self.size, 1), z3.ULE(self.size, 16)]
            st.ghost['lim'] = lim
            out.append(st)
        self.rv = ex.region(Region('the result buffer', self.raddr, 0, 64, limit=bv(0)))
        return out
    def at(self, ex, st, i):
        self.rv.limit = st.ghost['lim']
        Glue.at(self, ex, st, i)
    def word(self, off, n=8): return cat([self.args.f(off + k) for k in range(n)])
    def call(self, ex, st, tgt, i):
        st.ghost['calls'] += 1
        ex.ob(st, 'args', 'the target is entered', (tgt == self.fn) if not isinstance(tgt, str) else False)
        for k, r in enumerate(('rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9')):
            ex.ob(st, 'args', 'integer registers hold the register image', st.r[r] == self.word(8 * k))
        n = self.word(sysv.RA_RAX, 4)
        ex.ob(st, 'args', 'al is the number of vector registers', lo(st.r['rax'], 8) == lo(n, 8))
        for k in range(8):
            ex.ob(st, 'args', 'vector registers hold the register image', z3.Implies(n != 0, st.x['xmm%d' % k] == self.word(sysv.RA_SSE + 16 * k, 16)))
        ex.ob(st, 'go', 'static chain register holds its image', st.r['r10'] == self.word(sysv.RA_R10))
        ex.ob(st, 'args', 'stack arguments start at the stack pointer', st.r['rsp'] == self.A + sysv.RA_SIZE)
        ex.ob(st, 'args', 'stack arguments are not modified', not any(o >= sysv.RA_SIZE for o in st.wrote.get('args', ())) )
        self.at_call(ex, st)
        self.havoc_call(ex, st)
        c = st.ghost['code']
        st.st = [z3.BitVec('st1', 80), z3.BitVec('st0', 80)][{'X87': 1, 'X87_2': 0}.get(c, 2):]
        st.ghost['ret'] = (st.r['rax'], st.r['rdx'], st.x['xmm0'], st.x['xmm1'])
        st.dead.add('args')
        ex.havoc(st, 'frame', below=0); ex.havoc(st, 'stack')
        return st
    def ret(self, ex, st, t):
        ex.ob(st, 'state', 'returns to its caller', t == self.RET)
        ex.ob(st, 'state', 'stack pointer on return lies in the block ffi_call allocated', z3.And(z3.UGT(st.r['rsp'], self.in_['rsp']), z3.ULE(st.r['rsp'], self.A + self.B + 32), st.r['rsp'] & 7 == 0))
        self.saved_ok(ex, st, None)
        ex.ob(st, 'state', 'x87 stack is empty on return', len(st.st) == 0)
        ex.ob(st, 'call', 'the target is called exactly once', st.ghost['calls'] == 1)
        if st.ghost['calls'] != 1: return
        c = st.ghost['code']; rax, rdx, x0, x1 = st.ghost['ret']
        rv = lambda k: ex.byte(st, self.rv, k)
        def same(off, v, n, cond=None):
            w = st.wrote.get(self.rv.name, set())
            for k in range(n):
                g = rv(off + k) == z3.Extract(8*k+7, 8*k, v)
                f = g if (off + k) in w else z3.BoolVal(False)
                ex.ob(st, 'return', 'result byte %d is what the callee returned' % (off + k), z3.Implies(cond(off + k), f) if cond else f, assume=False)
        if c in INTK:
            w, s = INTK[c]; same(0, S(ext(lo(rax, w), w, s)) if w < 64 else rax, 8)
        elif c == 'XMM32': same(0, x0, 4)
        elif c == 'XMM64': same(0, x0, 8)
        elif c == 'X87': same(0, z3.BitVec('st0', 80), 10)
        elif c == 'X87_2': same(0, z3.BitVec('st0', 80), 10); same(16, z3.BitVec('st1', 80), 10)
        elif c.startswith('ST_'):
            a = lambda o: z3.ULT(bv(o), self.size)
            first, second = {'ST_XMM0_RAX': (x0, rax), 'ST_RAX_XMM0': (rax, x0), 'ST_XMM0_XMM1': (x0, x1), 'ST_RAX_RDX': (rax, rdx)}[c]
            same(0, first, 8, a); same(8, second, 8, a)

FRAME_R = sysv.FRAME_R
class ClosureUnix64(Glue):
    """closure entries: ffi_closure_unix64[_sse][_alt], ffi_go_closure_unix64[_sse]"""
    def __init__(self, name): self.name = name
    def setup(self, ex):
        self.M = sysv.macros('internal64.h'); K = sysv.abi_consts()
        go, alt, sse = 'go_' in self.name, self.name.endswith('_alt'), '_sse' in self.name
        self.sse = sse
        R = z3.BitVec('rsp_in', 64); C = z3.BitVec('closure', 64)
        self.RET = z3.BitVec('return_address', 64); self.R, self.C = R, C
        def rb(o):
            if 0 <= o < 8: return S(z3.Extract(8*o+7, 8*o, self.RET))
            if alt and -8 <= o < 0: return S(z3.Extract(8*(o+8)+7, 8*(o+8), C))
            return z3.BitVec('stack[%d]' % o, 8)
        self.stack = ex.region(Region('stack', R, -1024, 1 << 20, init=rb))
        base = 8 if go else K['FFI_TRAMPOLINE_SIZE']
        self.clo = ex.region(Region('closure', C, 0, base + (16 if go else 24), write=False))
        f = lambda o: cat([self.clo.f(o + k) for k in range(8)])
        self.cif, self.fun, self.ud = f(base), f(base + 8), (C if go else f(base + 16))
        st = self.entry(ex, self.name, rsp=S(R - 16) if alt else R, **({} if alt else {'r10': C}))
        self.in_['rsp'] = R
        st.pc += [R & 15 == 8, z3.UGT(R, bv(1 << 16)), z3.ULT(R, bv(1 << 47))]
        if alt: st.ghost['nocfi'] = False
        return [st]
    def at(self, ex, st, i):
        # an _alt entry has no unwind entry of its own: exempt (it makes no calls)
        if i.addr in () : return
        Glue.at(self, ex, st, i)
    def call(self, ex, st, tgt, i):
        if not isinstance(tgt, str) or tgt != 'ffi_closure_unix64_inner': raise Fail('unexpected call to %s' % tgt)
        st.ghost['calls'] += 1
        r = st.r
        ex.ob(st, 'closure', 'cif, function and user data come from the closure', z3.And(r['rdi'] == self.cif, r['rsi'] == self.fun, r['rdx'] == self.ud))
        ex.ob(st, 'closure args', 'stack arguments are found where the caller put them', r['r9'] == self.R + 8)
        rsp = r['rsp']
        off = const(S(r['r8'] - self.R)); ro = const(S(r['rcx'] - self.R))
        if off is None or ro is None: raise Fail('register image or result area is not in the frame')
        sg = lambda x: x - (1 << 64) if x >> 63 else x
        off, ro = sg(off), sg(ro)
        sp = const(S(rsp - self.R)); sp = sg(sp) if sp is not None else None
        ex.ob(st, 'closure args', 'register image is inside the frame', sp is not None and sp <= off and off + FRAME_R <= 0)
        ex.ob(st, 'closure return', 'result area is inside the frame, apart from the register image', sp is not None and sp <= ro and ro + 32 <= 0 and (ro + 32 <= off or off + FRAME_R <= ro))
        ex.ob(st, 'closure args', 'register image is aligned', r['r8'] & 15 == 0)
        if sp is None: raise Stop()
        img = lambda o, n: cat([ex.byte(st, self.stack, off + o + k) for k in range(n)])
        for k, g in enumerate(('rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9')):
            ex.ob(st, 'closure args', 'register image holds the integer registers', img(8 * k, 8) == self.in_[g])
        if self.sse:
            for k in range(8):
                ex.ob(st, 'closure args', 'register image holds the vector registers', img(sysv.RA_SSE + 16 * k, 16) == z3.BitVec('xmm%d_in' % k, 128))
        ex.ob(st, 'state', 'return address and stack arguments are not touched', not any(o >= 0 for o in st.wrote.get('stack', ())))
        self.at_call(ex, st)
        self.havoc_call(ex, st)
        keep = {o: b for o, b in st.mem.get('stack', {}).items()}
        ex.havoc(st, 'stack', below=sp)
        V = [z3.BitVec('V[%d]' % k, 8) for k in range(32)]
        for k in range(32): st.mem['stack'][ro + k] = V[k]
        for k in range(FRAME_R): st.mem['stack'].setdefault(off + k, z3.BitVec('img[%d]' % k, 8))
        self.V = V
        out = []
        for c in CODES:
            s2 = st.fork(); s2.ghost['code'] = c
            s2.r['rax'] = S(z3.Concat(z3.BitVec('rax_hi', 56), bv(self.M['UNIX64_RET_' + c], 8)))
            out.append(s2)
        return out
    def ret(self, ex, st, t):
        ex.ob(st, 'state', 'returns to its caller', t == self.RET)
        ex.ob(st, 'state', 'stack pointer is restored', st.r['rsp'] == self.R + 8)
        self.saved_ok(ex, st, None)
        ex.ob(st, 'closure', 'the C part runs exactly once', st.ghost['calls'] == 1)
        if st.ghost['calls'] != 1: return
        ex.ob(st, 'state', 'return address and stack arguments are not touched', not any(o >= 0 for o in st.wrote.get('stack', ())))
        c = st.ghost['code']; V = self.V
        v = lambda a, n: cat(V[a:a + n])
        o = lambda nm, f: ex.ob(st, 'closure return', nm, f)
        if c in INTK:
            w, s = INTK[c]
            if w == 64: o('rax holds the result', st.r['rax'] == v(0, 8))
            else: o('eax holds the widened result', lo(st.r['rax'], 32) == lo(S(ext(v(0, w // 8) if w > 8 else V[0], w, s)), 32))
        elif c == 'XMM32': o('xmm0 holds the result', lo(st.x['xmm0'], 32) == v(0, 4))
        elif c == 'XMM64': o('xmm0 holds the result', lo(st.x['xmm0'], 64) == v(0, 8))
        elif c.startswith('ST_'):
            for k, q in enumerate(c[3:].split('_')):
                # the second vector register is xmm1, the second integer register rdx: named in the code
                reg = st.x[q.lower()] if q.startswith('XMM') else st.r[q.lower()]
                o('eightbyte %d of the result is in %s' % (k, q.lower()), lo(reg, 64) == v(8 * k, 8))
        if c == 'X87': ex.ob(st, 'closure return', 'st(0) holds the result', st.st[-1] == v(0, 10) if len(st.st) == 1 else False)
        elif c == 'X87_2': ex.ob(st, 'closure return', 'st(0) and st(1) hold the result', z3.And(st.st[-1] == v(0, 10), st.st[-2] == v(16, 10)) if len(st.st) == 2 else False)
        else: ex.ob(st, 'state', 'x87 stack is empty on return', len(st.st) == 0)

class TrampTable(Glue):
    """trampoline_code_table: every slot saves r10, pushes its data and jumps to its target.
    The slot's parameter block lies at the same offset in the page after the table."""
    def setup(self, ex):
        M = sysv.macros('internal64.h')
        self.ts, self.ms = M['UNIX64_TRAMP_SIZE'], M['UNIX64_TRAMP_MAP_SIZE']
        base = ex.p.syms['trampoline_code_table']
        ex.ob(AState(), 'pool', 'code table starts on a page boundary', base % self.ms == 0)
        ex.ob(AState(), 'pool', 'a parameter block is big enough for target and data', self.ts >= 16)
        ex.ob(AState(), 'pool', 'table size is a page', self.ms == 4096)
        R = self.R = z3.BitVec('rsp_in', 64)
        self.stack = ex.region(Region('stack', R, -128, 8))
        self.page = ex.region(Region('parameter page', S(ex.text + base + self.ms), 0, self.ms, write=False))
        out = []
        for k in range(self.ms // self.ts):
            st = self.entry(ex, 'trampoline_code_table', rsp=R)
            st.ip = base + k * self.ts
            st.ghost['slot'] = k
            ex.ob(AState(), 'pool', 'every slot starts with an instruction', st.ip in ex.p.code)
            out.append(st)
        return out
    def at(self, ex, st, i):
        k = st.ghost['slot']; b = ex.p.syms['trampoline_code_table']
        if not (b + k * self.ts <= i.addr and i.next <= b + (k + 1) * self.ts): ex.ob(st, 'pool', 'a slot\'s code stays inside the slot', False)
    def call(self, ex, st, tgt, i): raise Fail('call in a trampoline')
    def ret(self, ex, st, t): raise Fail('return in a trampoline')
    def jump_out(self, ex, st, t):
        k = st.ghost['slot']
        w = lambda o: cat([self.page.f(k * self.ts + o + j) for j in range(8)])
        ex.rets += 1
        ex.ob(st, 'pool', 'jumps to the target in its own parameter block', t == w(8))
        ex.ob(st, 'pool', 'data of its own parameter block is handed over on the stack', z3.And(st.r['rsp'] == self.R - 16, cat([ex.byte(st, self.stack, -8 + j) for j in range(8)]) == w(0)))
        ex.ob(st, 'pool', 'every other register is unchanged', z3.And(*[st.r[r] == self.in_[r] for r in R64 if r not in ('rsp', 'r10')], *[st.x['xmm%d' % i] == self.xin['xmm%d' % i] for i in range(16)]))
        ex.ob(st, 'pool', 'x87 stack and stack contents are unchanged', len(st.st) == 0 and not any(o >= 0 for o in st.wrote.get('stack', ())))
        raise Stop()
    def jump_any(self): pass

# ---------------------------------------------------------------- Windows
class CallWin64(Glue):
    """ffi_call_win64 (stack, frame, r10), System V entry"""
    def setup(self, ex):
        self.T = T = ffi_types()
        A, F = z3.BitVec('stack_block', 64), z3.BitVec('frame', 64)
        self.A, self.F, self.chain = A, F, z3.BitVec('chain', 64)
        self.RET = z3.BitVec('return_address', 64); S0 = z3.BitVec('rsp_in', 64)
        self.fn, self.raddr, self.code = z3.BitVec('fn', 64), z3.BitVec('raddr', 64), z3.BitVec('flags', 64)
        def fb(o):
            for p, v in ((16, self.fn), (24, self.code), (32, self.raddr)):
                if p <= o < p + 8: return S(z3.Extract(8*(o-p)+7, 8*(o-p), v))
            return z3.BitVec('frame[%d]' % o, 8)
        self.args = ex.region(Region('args', A, 0, 1 << 20))
        self.frame = ex.region(Region('frame', F, -128, 40, init=fb))
        self.stack = ex.region(Region('stack', S0, -256, 8, init=lambda o: S(z3.Extract(8*o+7, 8*o, self.RET)) if 0 <= o < 8 else z3.BitVec('stack[%d]' % o, 8)))
        self.rv = ex.region(Region('the result buffer', self.raddr, 0, 64, limit=bv(0)))
        out = []
        L = {'VOID': 0, 'INT': 8, 'FLOAT': 4, 'DOUBLE': 8, 'UINT8': 8, 'SINT8': 8, 'UINT16': 8, 'SINT16': 8, 'UINT32': 8, 'SINT32': 8, 'UINT64': 8, 'SINT64': 8,
             'STRUCT': 0, 'POINTER': 8, 'SMALL_STRUCT_1B': 1, 'SMALL_STRUCT_2B': 2, 'SMALL_STRUCT_4B': 4}
        for c, n in L.items():
            st = self.entry(ex, 'ffi_call_win64', rdi=A, rsi=F, rdx=self.chain, rsp=S0)
            st.pc += [self.code == T[c], A & 15 == 0, F & 7 == 0, z3.UGE(F, A + 32), z3.ULE(F - A, bv(1 << 32)), z3.ULT(A, bv(1 << 47)), z3.UGE(A, S0 + 8), S0 & 15 == 8, z3.ULT(S0, bv(1 << 47))]
            st.ghost['code'] = c; st.ghost['lim'] = bv(n)
            out.append(st)
        return out
    def at(self, ex, st, i):
        self.rv.limit = st.ghost['lim']; Glue.at(self, ex, st, i)
    def call(self, ex, st, tgt, i):
        st.ghost['calls'] += 1
        w = lambda o: cat([self.args.f(o + k) for k in range(8)])
        ex.ob(st, 'wargs', 'the target is entered', (tgt == self.fn) if not isinstance(tgt, str) else False)
        for k, r in enumerate(('rcx', 'rdx', 'r8', 'r9')):
            ex.ob(st, 'wargs', 'the first four slots are in the integer registers', st.r[r] == w(8 * k))
            ex.ob(st, 'wargs', 'the first four slots are in the vector registers', lo(st.x['xmm%d' % k], 64) == w(8 * k))
        ex.ob(st, 'go', 'static chain register holds the closure', st.r['r10'] == self.chain)
        ex.ob(st, 'wargs', 'slots and shadow space start at the stack pointer', st.r['rsp'] == self.A)
        ex.ob(st, 'wargs', 'stack arguments are not modified', not any(o >= 32 for o in st.wrote.get('args', ())))
        self.args.lo = -8
        self.at_call(ex, st)
        self.args.lo = 0
        self.havoc_call(ex, st, WSAVED, range(6, 16))
        st.ghost['ret'] = (st.r['rax'], st.x['xmm0'])
        st.dead.add('args'); ex.havoc(st, 'frame', below=0); ex.havoc(st, 'stack')
        return st
    def ret(self, ex, st, t):
        ex.ob(st, 'state', 'returns to its caller', t == self.RET)
        ex.ob(st, 'state', 'stack pointer on return lies in the block ffi_call allocated', z3.And(z3.UGT(st.r['rsp'], self.in_['rsp']), z3.ULE(st.r['rsp'], self.F + 40), st.r['rsp'] & 7 == 0))
        self.saved_ok(ex, st, None)
        ex.ob(st, 'wcall', 'the target is called exactly once', st.ghost['calls'] == 1)
        if st.ghost['calls'] != 1: return
        c = st.ghost['code']; rax, x0 = st.ghost['ret']
        def same(v, n):
            w = st.wrote.get(self.rv.name, set())
            for k in range(n): ex.ob(st, 'wreturn', 'result byte %d is what the callee returned' % k, (ex.byte(st, self.rv, k) == z3.Extract(8*k+7, 8*k, v)) if k in w else False)
        if c == 'FLOAT': same(x0, 4)
        elif c == 'DOUBLE': same(x0, 8)
        elif c in ('VOID', 'STRUCT'): pass
        elif c.startswith('SMALL'): same(rax, int(c[-2]))
        else:
            w, s = {'INT': (32, 1), **INTK}.get(c, (64, 0))
            same(S(ext(lo(rax, w), w, s)) if w < 64 else rax, 8)

class ClosureWin64(Glue):
    """ffi_closure_win64[_alt], ffi_go_closure_win64: entered with the Microsoft convention"""
    saved = WSAVED; wsse = tuple(range(6, 16))
    def __init__(self, name): self.name = name
    def setup(self, ex):
        K = sysv.abi_consts()
        go, alt = 'go_' in self.name, self.name.endswith('_alt')
        R, C = z3.BitVec('rsp_in', 64), z3.BitVec('closure', 64)
        self.R, self.C, self.RET = R, C, z3.BitVec('return_address', 64)
        def rb(o):
            if 0 <= o < 8: return S(z3.Extract(8*o+7, 8*o, self.RET))
            if alt and -8 <= o < 0: return S(z3.Extract(8*(o+8)+7, 8*(o+8), C))
            return z3.BitVec('stack[%d]' % o, 8)
        self.stack = ex.region(Region('stack', R, -1024, 1 << 20, init=rb))
        base = 8 if go else K['FFI_TRAMPOLINE_SIZE']
        self.clo = ex.region(Region('closure', C, 0, base + (16 if go else 24), write=False))
        f = lambda o: cat([self.clo.f(o + k) for k in range(8)])
        self.cif, self.fun, self.ud = f(base), f(base + 8), (C if go else f(base + 16))
        st = self.entry(ex, self.name, rsp=S(R - 16) if alt else R, **({} if alt else {'r10': C}))
        self.in_['rsp'] = R
        st.pc += [R & 15 == 8, z3.UGT(R, bv(1 << 16)), z3.ULT(R, bv(1 << 47))]
        return [st]
    def call(self, ex, st, tgt, i):
        if not isinstance(tgt, str) or tgt != 'ffi_closure_win64_inner': raise Fail('unexpected call to %s' % tgt)
        st.ghost['calls'] += 1
        r = st.r
        ex.ob(st, 'wclosure', 'cif, function and user data come from the closure', z3.And(r['rcx'] == self.cif, r['rdx'] == self.fun, r['r8'] == self.ud))
        off = const(S(r['r9'] - self.R)); sp = const(S(r['rsp'] - self.R))
        if off is None or sp is None: raise Fail('frame is not in the stack')
        off, sp = off - (1 << 64), sp - (1 << 64)
        # struct win64_closure_frame: rvalue[2] at 0, fargs[4] at 16, retaddr at 48, args at 56
        ex.ob(st, 'wclosure', 'the frame ends at the return address', off + 48 == 0)
        ex.ob(st, 'wclosure', 'frame and shadow space are inside the allocated stack', sp + 32 <= off)
        img = lambda o, n: cat([ex.byte(st, self.stack, o + k) for k in range(n)])
        for k, g in enumerate(('rcx', 'rdx', 'r8', 'r9')):
            ex.ob(st, 'wclosure', 'register arguments are spilled to their shadow slots', img(8 + 8 * k, 8) == self.in_[g])
            ex.ob(st, 'wclosure', 'vector arguments are saved in the frame', img(off + 16 + 8 * k, 8) == lo(self.xin['xmm%d' % k], 64))
        ex.ob(st, 'state', 'return address and stack arguments are not touched', not any(0 <= o < 8 or o >= 40 for o in st.wrote.get('stack', ())))
        self.at_call(ex, st)
        self.havoc_call(ex, st, WSAVED, range(6, 16))
        ex.havoc(st, 'stack', below=sp + 32)
        self.V = [z3.BitVec('V[%d]' % k, 8) for k in range(8)]
        for k in range(16): st.mem['stack'][off + k] = self.V[k] if k < 8 else z3.BitVec('V2[%d]' % k, 8)
        return st
    def ret(self, ex, st, t):
        ex.ob(st, 'state', 'returns to its caller', t == self.RET)
        ex.ob(st, 'state', 'stack pointer is restored', st.r['rsp'] == self.R + 8)
        self.saved_ok(ex, st, None)
        ex.ob(st, 'wclosure', 'the C part runs exactly once', st.ghost['calls'] == 1)
        if st.ghost['calls'] != 1: return
        ex.ob(st, 'state', 'x87 stack is empty on return', len(st.st) == 0)
        ex.ob(st, 'wclosure return', 'rax holds the result', st.r['rax'] == cat(self.V))
        ex.ob(st, 'wclosure return', 'xmm0 holds the result', lo(st.x['xmm0'], 64) == cat(self.V))

_ft = None
def ffi_types():
    """FFI_TYPE_* numbers from the headers"""
    global _ft
    if _ft: return _ft
    import os
    from .. import build
    names = ['VOID', 'INT', 'FLOAT', 'DOUBLE', 'LONGDOUBLE', 'UINT8', 'SINT8', 'UINT16', 'SINT16', 'UINT32', 'SINT32', 'UINT64', 'SINT64', 'STRUCT', 'POINTER', 'COMPLEX',
             'SMALL_STRUCT_1B', 'SMALL_STRUCT_2B', 'SMALL_STRUCT_4B']
    c = os.path.join(build.scratch(), 'ft%d.c' % os.getpid())
    open(c, 'w').write('#include <stdio.h>\n#include <ffi.h>\nint main(void){\n' + ''.join('printf("%s %%d\\n",(int)FFI_TYPE_%s);\n' % (n, n) for n in names) + '}\n')
    build.run(['gcc'] + build.cflags() + [c, '-o', c + '.x'])
    _ft = {k: int(v) for k, v in (l.split() for l in build.run([c + '.x']).split('\n') if l)}
    return _ft
