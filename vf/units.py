"""Registry of verification units: one function (or assembly entry) under contract.

name -> dict(src, keep, fn, make, cases)
  src    file under /repo/src the function's IR is extracted from
  keep   functions that have contracts of their own (called through them)
  make   builds the Contract object
"""
from .contracts import classify, sysv, glue, win, prep, types, clo, raw, tramp, pool

KEEP64 = ('classify_argument', 'examine_argument')
UNITS = {}
def ll(name, src, fn, make, keep=(), cases=1, trusts=()):
    UNITS[name] = dict(kind='ll', src=src, fn=fn, make=make, keep=tuple(keep), cases=cases, trusts=list(trusts))

ll('classify', 'x86/ffi64.c', 'classify_argument', classify.Classify, KEEP64, 5)
ll('examine', 'x86/ffi64.c', 'examine_argument', classify.Examine, KEEP64, 1)
ll('machdep', 'x86/ffi64.c', 'ffi_prep_cif_machdep', sysv.Machdep, KEEP64, 2)
ll('call', 'x86/ffi64.c', 'ffi_call', lambda: sysv.Call(), KEEP64, 5)
ll('callgo', 'x86/ffi64.c', 'ffi_call_go', lambda: sysv.Call(True), KEEP64, 6)

ll('inner', 'x86/ffi64.c', 'ffi_closure_unix64_inner', lambda: sysv.Inner(), KEEP64, 4)

ll('wmachdep', 'x86/ffiw64.c', 'ffi_prep_cif_machdep_efi64', win.MachdepWin)
ll('wcall', 'x86/ffiw64.c', 'ffi_call_efi64', win.CallWin, cases=12)
ll('wcallgo', 'x86/ffiw64.c', 'ffi_call_go_efi64', lambda: win.CallWin(True), cases=12)
ll('winner', 'x86/ffiw64.c', 'ffi_closure_win64_inner', win.InnerWin, cases=2)

KEEPP = ('initialize_aggregate', 'ffi_prep_cif_core')
ll('initagg', 'prep_cif.c', 'initialize_aggregate', prep.InitAgg, KEEPP, 4)
ll('offsets', 'prep_cif.c', 'ffi_get_struct_offsets', prep.StructOffsets, KEEPP)
ll('core', 'prep_cif.c', 'ffi_prep_cif_core', prep.Core, KEEPP)
ll('prepcif', 'prep_cif.c', 'ffi_prep_cif', lambda: prep.Prep(False), KEEPP)
ll('prepvar', 'prep_cif.c', 'ffi_prep_cif_var', lambda: prep.Prep(True), KEEPP)

ll('pclo', 'x86/ffi64.c', 'ffi_prep_closure_loc', clo.PrepClosure, KEEP64)
ll('pclow', 'x86/ffiw64.c', 'ffi_prep_closure_loc_efi64', lambda: clo.PrepClosure(True))
ll('pgo', 'x86/ffi64.c', 'ffi_prep_go_closure', clo.PrepGo, KEEP64)
ll('pgow', 'x86/ffiw64.c', 'ffi_prep_go_closure_efi64', lambda: clo.PrepGo(True))
ll('pclo0', 'prep_cif.c', 'ffi_prep_closure', clo.PrepClosurePlain, KEEPP)
ll('arch', 'x86/ffi64.c', 'ffi_tramp_arch', clo.TrampArch, KEEP64)

KEEPT = ('tramp_table_alloc', 'ffi_tramp_init')
ll('tralloc', 'tramp.c', 'ffi_tramp_alloc', tramp.Alloc, KEEPT)
ll('trfree', 'tramp.c', 'ffi_tramp_free', tramp.Free, KEEPT)
ll('trset', 'tramp.c', 'ffi_tramp_set_parms', lambda: tramp.Access(True), KEEPT)
ll('traddr', 'tramp.c', 'ffi_tramp_get_addr', lambda: tramp.Access(False), KEEPT)
ll('trsup', 'tramp.c', 'ffi_tramp_is_supported', tramp.Supported, KEEPT)
ll('trtable', 'tramp.c', 'tramp_table_alloc', tramp.TableAlloc, KEEPT)
ll('trinit', 'tramp.c', 'ffi_tramp_init', tramp.Init, KEEPT)

KEEPC = ('dlmalloc', 'dlfree', 'segment_holding', 'segment_holding_code', 'init_mparams', 'dlmmap', 'dlmunmap', 'dlmmap_locked', 'allocate_space', 'open_temp_exec_file')
ll('clalloc', 'closures.c', 'ffi_closure_alloc', pool.ClosureAlloc, KEEPC, 2)
ll('clfree', 'closures.c', 'ffi_closure_free', pool.ClosureFree, KEEPC)
ll('cldata', 'closures.c', 'ffi_data_to_code_pointer', lambda: pool.DataToCode(False), KEEPC)
ll('clpres', 'closures.c', 'ffi_tramp_is_present', lambda: pool.DataToCode(True), KEEPC)
ll('clinit', 'closures.c', 'init_mparams', pool.InitParams, KEEPC)
ll('clseg', 'closures.c', 'segment_holding', pool.SegmentHolding, KEEPC)
ll('clmmap', 'closures.c', 'dlmmap', pool.Dlmmap, KEEPC)
ll('clfile', 'closures.c', 'dlmmap_locked', pool.DlmmapLocked, KEEPC, 2)
ll('clunmap', 'closures.c', 'dlmunmap', pool.Dlmunmap, KEEPC)
ll('clspace', 'closures.c', 'allocate_space', pool.AllocateSpace, KEEPC)
ll('cltemp', 'closures.c', 'open_temp_exec_file', pool.OpenTemp, KEEPC)
KEEPO = KEEPC + tuple('open_temp_exec_file_' + x for x in ('memfd', 'name', 'dir', 'env', 'mnt'))
for x, c in (('memfd', pool.OpenMemfd), ('name', pool.OpenName), ('dir', pool.OpenDir), ('env', pool.OpenEnv), ('mnt', pool.OpenMnt)):
    ll('clo' + x, 'closures.c', 'open_temp_exec_file_' + x, c, KEEPO, 10 if x == 'mnt' else 1)

for j in (False, True):
    f, p = ('java_raw_api.c', 'j') if j else ('raw_api.c', '')
    w = 'java_' if j else ''
    KR = ('ffi_%sraw_size' % w, 'ffi_%sraw_to_ptrarray' % w, 'ffi_%sptrarray_to_raw' % w, 'ffi_%stranslate_args' % w)
    ll(p + 'rawsize', f, KR[0], lambda j=j: raw.RawSize(j), KR)
    ll(p + 'toptr', f, KR[1], lambda j=j: raw.ToPtr(j), KR)
    ll(p + 'toraw', f, KR[2], lambda j=j: raw.ToRaw(j), KR)
    ll(p + 'rawcall', f, 'ffi_%sraw_call' % w, lambda j=j: raw.RawCall(j), KR, 4)
    ll(p + 'translate', f, KR[3], lambda j=j: raw.Translate(j), KR, 2)
    ll(p + 'prepraw', f, 'ffi_prep_%sraw_closure_loc' % w, lambda j=j: raw.PrepRaw(j), KR)
    ll(p + 'prepraw0', f, 'ffi_prep_%sraw_closure' % w, lambda j=j: raw.PrepRaw(j, True), KR)

UNITS['types'] = dict(kind='run', src='types.c', fn='ffi_type_* (static initialisers of types.c)', run=types.run, make=None, keep=(), cases=1, trusts=[])

def asm(name, src, fn, make, trusts=()):
    UNITS[name] = dict(kind='asm', src=src, fn=fn, make=make, keep=(), cases=1, cost=30 if name.startswith('asm_call') else 1, trusts=['disassembly by objdump; instruction semantics in /verif/vf/asm.py'] + list(trusts))
asm('asm_call', 'x86/unix64.S', 'ffi_call_unix64', glue.CallUnix64)
asm('asm_tramp', 'x86/unix64.S', 'trampoline_code_table', glue.TrampTable)
CLO64 = ['ffi_closure_unix64', 'ffi_closure_unix64_sse', 'ffi_closure_unix64_alt', 'ffi_closure_unix64_sse_alt']
GO64 = ['ffi_go_closure_unix64', 'ffi_go_closure_unix64_sse']
for n in CLO64 + GO64: asm('asm:' + n, 'x86/unix64.S', n, lambda n=n: glue.ClosureUnix64(n))
asm('asm_callwin', 'x86/win64.S', 'ffi_call_win64', glue.CallWin64)
CLOW, GOW = ['ffi_closure_win64', 'ffi_closure_win64_alt'], ['ffi_go_closure_win64']
for n in CLOW + GOW: asm('asm:' + n, 'x86/win64.S', n, lambda n=n: glue.ClosureWin64(n))

def prewarm():
    """compiler-evaluated constants, computed once before the workers fork"""
    sysv.abi_consts(); glue.ffi_types()

COST = {'tralloc': 50, 'trfree': 16, 'trtable': 14, 'toraw': 31, 'jtoraw': 23, 'clspace': 9, 'clmmap': 6, ('callgo', 2): 130, ('callgo', 1): 70, 'callgo': 45, ('call', 2): 100, 'call': 45, 'wcallgo': 50, 'wcall': 50, ('wcall', 11): 90, ('wcallgo', 11): 90, ('wcallgo', 9): 85, ('wcallgo', 8): 80, ('wcall', 9): 85, ('wcall', 8): 80, ('initagg', 3): 26}
def cost(name, case):
    """expected seconds, so that long tasks start first"""
    return COST.get((name, case), COST.get(name, UNITS[name].get('cost', 1)))
