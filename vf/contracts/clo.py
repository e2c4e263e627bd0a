"""Preparation of closures: ffi_prep_closure_loc and its relatives (ffi64.c, ffiw64.c, prep_cif.c).

What a prepared closure does when its code address is entered is settled here, by
executing the trampoline bytes the function wrote, together with the contracts of the
assembly entries (unit asm:*) and of the static trampoline table (unit asm_tramp)."""
import os
from ..sym import *
from .. import build, asm
from ..asm import AState, R64, AExec
from . import glue
from .glue import Glue, cat
from .sysv import abi_consts, macros

class DynTramp(Glue):
    """the trampoline bytes written into a closure: code address in r10, on to the destination stored behind them"""
    def __init__(self, n): self.n = n
    def setup(self, ex):
        R = self.R = z3.BitVec('rsp_in', 64)
        self.stack = ex.region(asm.Region('stack', R, -128, 8))
        self.tail_ = ex.region(asm.Region('destination', S(ex.text + self.n), 0, 8, write=False))
        st = self.entry(ex, 'tramp', rsp=R); st.ghost['nocfi'] = 1
        return [st]
    def at(self, ex, st, i): pass
    def call(self, ex, st, tgt, i): raise Fail('call in a trampoline')
    def ret(self, ex, st, t): raise Fail('return in a trampoline')
    def jump_out(self, ex, st, t):
        ex.rets += 1
        ex.ob(st, 'bind', 'trampoline jumps to the destination stored in the closure', t == cat([self.tail_.f(j) for j in range(8)]))
        ex.ob(st, 'bind', 'trampoline hands over its own address', st.r['r10'] == S(ex.text + ex.p.syms['tramp']))
        ex.ob(st, 'bind', 'trampoline leaves every other register alone', z3.And(*[st.r[r] == self.in_[r] for r in R64 if r not in ('r10', 'r11')], *[st.x['xmm%d' % i] == self.xin['xmm%d' % i] for i in range(16)]))
        ex.ob(st, 'bind', 'trampoline leaves stack and x87 alone', len(st.st) == 0 and not st.wrote.get('stack'))
        raise Stop()

_tr = {}
def run_tramp(bs, deadline):
    """execute the 8-byte-destination trampoline with these code bytes -> AExec"""
    if bs in _tr: return _tr[bs]
    s = os.path.join(build.scratch(), 'tramp%d_%d.S' % (os.getpid(), len(_tr)))
    open(s, 'w').write('.text\n.globl tramp\ntramp:\n .byte %s\n .skip 8\n' % ', '.join('0x%02x' % b for b in bs))
    build.run(['gcc', '-c', s, '-o', s + '.o'])
    ex = AExec(asm.Program(None, s + '.o'), DynTramp(len(bs)), deadline=deadline)
    ex.run()
    _tr[bs] = ex
    return ex

FFI_TRAMP = lambda: abi_consts()['FFI_TRAMPOLINE_SIZE']

class PrepClosure(Contract):
    """ffi_prep_closure_loc (closure, cif, fun, user_data, codeloc) and its Windows-ABI counterpart"""
    merge = False
    def __init__(self, win=False): self.win = win
    def setup(self, ex):
        K = self.K = abi_consts(); self.T = K['FFI_TRAMPOLINE_SIZE']
        if self.T < 32: raise Fail('trampoline area is too small')
        st = State()
        self.abi, self.flags = z3.BitVec('abi', 32), z3.BitVec('flags', 32)
        self.FUN, self.UD = z3.BitVec('fun', 64), z3.BitVec('user_data', 64)
        self.cif = ex.reg(CellRegion('cif', 32, readonly=True))
        for o, v in ((0, self.abi), (28, self.flags)): self.cif.init(st, o, 4, v)
        self.clo = ex.reg(CellRegion('closure', self.T + 24))
        self.w0 = [z3.BitVec('closure[%d]' % k, 64) for k in range((self.T + 24) // 8)]
        for k, w in enumerate(self.w0): self.clo.init(st, 8 * k, 8, w)
        self.fun = FnRegion('fun', base=self.FUN); self.ud = FnRegion('user data', base=self.UD)
        self.code = FnRegion('code address', base=z3.BitVec('codeloc', 64), frame_tag='memory')
        for r in (self.fun, self.ud, self.code): ex.reg(r)
        return [(st, [Ptr(self.clo, 0), Ptr(self.cif, 0), Ptr(self.fun, 0), Ptr(self.ud, 0), Ptr(self.code, 0)])]
    def word(self, ex, st, o): return self.clo.load1(ex, st, o, 8, False)
    def call(self, ex, st, name, args, ins):
        if name == 'ffi_tramp_is_present':
            ex.ob(st, 'bind', 'asks about this closure', ex.num(args[0]) == self.clo.base)
            if 'present' in st.ghost: return [(st, bv(int(st.ghost['present']), 32))]
            out = []
            for p in (False, True):
                s = st.fork(); s.ghost['present'] = p; v = fresh('present', 32)
                s.pc.append((v != 0) if p else (v == 0)); out.append((s, v))
            return out
        if name == 'ffi_tramp_set_parms':
            st.ghost['parms'] = st.ghost.get('parms', 0) + 1
            ex.ob(st, 'bind', 'only a closure with a static trampoline has its parameters set', bool(st.ghost.get('present')))
            ex.ob(st, 'bind', "the parameters are those of this closure's own trampoline", ex.num(args[0]) == self.w0[0])
            ex.ob(st, 'bind', 'the trampoline hands over this closure', ex.num(args[2]) == self.clo.base)
            self.dest(ex, st, ex.num(args[1]), True)
            return [(st, None)]
        if name == 'ffi_prep_closure_loc_efi64' and not self.win:
            ex.ob(st, 'bind', 'the Windows variant prepares the same closure', z3.And(*[ex.num(a) == b for a, b in zip(args, (self.clo.base, self.cif.base, self.FUN, self.UD, self.code.base))]))
            st.ghost['deleg'] = 1
            return [(st, z3.BitVec('win_status', 32))]
    def dest(self, ex, st, v, alt):
        e = lambda n: z3.BitVec('&' + n, 64)
        a = '_alt' if alt else ''
        if self.win: ok = v == e('ffi_closure_win64' + a)
        else:
            sse = self.flags & macros('internal64.h')['UNIX64_FLAG_XMM_ARGS'] != 0
            ok = z3.Or(v == e('ffi_closure_unix64_sse' + a), z3.And(z3.Not(sse), v == e('ffi_closure_unix64' + a)))
        ex.ob(st, 'bind', 'destination is the entry that fits call interface and trampoline', ok)
    def on_ret(self, ex, st, v):
        K, T = self.K, self.T
        win = z3.Or(self.abi == K['FFI_WIN64'], self.abi == K['FFI_GNUW64'])
        untouched = z3.And(*[self.word(ex, st, 8 * k) == w for k, w in enumerate(self.w0)])
        if st.ghost.get('deleg'):
            ex.ob(st, 'bind', 'the Windows variant decides for Windows ABIs', z3.And(win, v == z3.BitVec('win_status', 32)))
            ex.ob(st, 'bind', 'the closure is left to the Windows variant', untouched); return
        mine = win if self.win else self.abi == K['FFI_UNIX64']
        ex.ob(st, 'bind', 'accepted iff the ABI is one of this entry, bad ABI otherwise', v == z3.If(mine, bv(K['FFI_OK'], 32), bv(K['FFI_BAD_ABI'], 32)), assume=False)
        if not ex.feasible(st, v == K['FFI_OK']):
            ex.ob(st, 'reject', 'a rejected closure is not modified', untouched)
            ex.ob(st, 'reject', 'a rejected closure keeps its trampoline parameters', not st.ghost.get('parms')); return
        for o, w, n in ((T, self.cif.base, 'call interface'), (T + 8, self.FUN, 'function'), (T + 16, self.UD, 'user data')):
            ex.ob(st, 'bind', 'closure holds its own %s' % n, self.word(ex, st, o) == w)
        if st.ghost.get('present'):
            ex.ob(st, 'bind', 'static trampoline is bound exactly once', st.ghost.get('parms') == 1)
            ex.ob(st, 'bind', 'closure keeps its trampoline', self.word(ex, st, 0) == self.w0[0])
        elif 'present' in st.ghost:
            bs = [const(self.clo.byte1(ex, st, i)) for i in range(T - 8)]
            ex.ob(st, 'bind', 'trampoline code is fixed', all(b is not None for b in bs))
            if any(b is None for b in bs): return
            self.dest(ex, st, self.word(ex, st, T - 8), False)
            t = run_tramp(tuple(bs), ex.deadline)
            ex.ob(st, 'bind', 'trampoline reaches its destination', t.rets == 1)
            for o in t.obs:
                ex.obs.append(o)
                if o.status != 'proved': ex.failed.append(o)
        else: ex.ob(st, 'bind', 'kind of trampoline is looked up', False)

class PrepGo(Contract):
    """ffi_prep_go_closure (closure, cif, fun)"""
    merge = False
    def __init__(self, win=False): self.win = win
    def setup(self, ex):
        self.K = abi_consts(); st = State()
        self.abi, self.flags = z3.BitVec('abi', 32), z3.BitVec('flags', 32)
        self.FUN = z3.BitVec('fun', 64)
        self.cif = ex.reg(CellRegion('cif', 32, readonly=True))
        for o, v in ((0, self.abi), (28, self.flags)): self.cif.init(st, o, 4, v)
        self.clo = ex.reg(CellRegion('go closure', 24))
        self.w0 = [z3.BitVec('closure[%d]' % k, 64) for k in range(3)]
        for k, w in enumerate(self.w0): self.clo.init(st, 8 * k, 8, w)
        self.fun = ex.reg(FnRegion('fun', base=self.FUN))
        return [(st, [Ptr(self.clo, 0), Ptr(self.cif, 0), Ptr(self.fun, 0)])]
    def word(self, ex, st, o): return self.clo.load1(ex, st, o, 8, False)
    def call(self, ex, st, name, args, ins):
        if name == 'ffi_prep_go_closure_efi64' and not self.win:
            ex.ob(st, 'go', 'the Windows variant prepares the same closure', z3.And(*[ex.num(a) == b for a, b in zip(args, (self.clo.base, self.cif.base, self.FUN))]))
            st.ghost['deleg'] = 1
            return [(st, z3.BitVec('win_status', 32))]
    def on_ret(self, ex, st, v):
        K = self.K; e = lambda n: z3.BitVec('&' + n, 64)
        win = z3.Or(self.abi == K['FFI_WIN64'], self.abi == K['FFI_GNUW64'])
        untouched = z3.And(*[self.word(ex, st, 8 * k) == w for k, w in enumerate(self.w0)])
        if st.ghost.get('deleg'):
            ex.ob(st, 'go', 'the Windows variant decides for Windows ABIs', z3.And(win, v == z3.BitVec('win_status', 32), untouched)); return
        mine = win if self.win else self.abi == K['FFI_UNIX64']
        ex.ob(st, 'go', 'accepted iff the ABI is one of this entry, bad ABI otherwise', v == z3.If(mine, bv(K['FFI_OK'], 32), bv(K['FFI_BAD_ABI'], 32)), assume=False)
        if not ex.feasible(st, v == K['FFI_OK']): ex.ob(st, 'reject', 'a rejected closure is not modified', untouched); return
        t = self.word(ex, st, 0)
        if self.win: ok = t == e('ffi_go_closure_win64')
        else:
            sse = self.flags & macros('internal64.h')['UNIX64_FLAG_XMM_ARGS'] != 0
            ok = z3.Or(t == e('ffi_go_closure_unix64_sse'), z3.And(z3.Not(sse), t == e('ffi_go_closure_unix64')))
        ex.ob(st, 'go', 'closure code is the entry that fits the call interface', ok)
        ex.ob(st, 'go', 'closure holds its own call interface', self.word(ex, st, 8) == self.cif.base)
        ex.ob(st, 'go', 'closure holds its own function', self.word(ex, st, 16) == self.FUN)

class PrepClosurePlain(Contract):
    """ffi_prep_closure: code and data address are the same"""
    def setup(self, ex):
        st = State()
        self.a = [ex.reg(FnRegion(n, base=z3.BitVec('p_' + n, 64), frame_tag='bind')) for n in ('closure', 'cif', 'fun', 'user_data')]
        return [(st, [Ptr(r, 0) for r in self.a])]
    def call(self, ex, st, name, args, ins):
        if name != 'ffi_prep_closure_loc': return None
        st.ghost['n'] = st.ghost.get('n', 0) + 1
        ex.ob(st, 'bind', 'prepares the given closure at its own address', z3.And(*[ex.num(x) == r.base for x, r in zip(args, self.a + self.a[:1])]))
        return [(st, z3.BitVec('status', 32))]
    def on_ret(self, ex, st, v):
        ex.ob(st, 'bind', 'verdict of the preparation', z3.And(z3.BoolVal(st.ghost.get('n') == 1), v == z3.BitVec('status', 32)))

class TrampArch(Contract):
    """ffi_tramp_arch (size_t *tramp_size, size_t *map_size)"""
    def setup(self, ex):
        st = State()
        self.a, self.b = ex.reg(CellRegion('tramp_size', 8)), ex.reg(CellRegion('map_size', 8))
        return [(st, [Ptr(self.a, 0), Ptr(self.b, 0)])]
    def glob(self, ex, st, name): return Region('@' + name, z3.BitVec('&' + name, 64))
    def on_ret(self, ex, st, v):
        M = macros('internal64.h')
        ex.ob(st, 'pool', 'the code table is the one in unix64.S', ex.num(v) == z3.BitVec('&trampoline_code_table', 64))
        ex.ob(st, 'pool', 'size of a trampoline and of the table are those of the code table', z3.And(self.a.load1(ex, st, 0, 8, False) == M['UNIX64_TRAMP_SIZE'], self.b.load1(ex, st, 0, 8, False) == M['UNIX64_TRAMP_MAP_SIZE']))
