"""Which units (functions under contract) and which obligation tags decide each property."""
CLASSIFY = ['classify', 'examine']
ALWAYS = {'memory', 'lemma', 'invariant', 'noabort', 'structure'}
from .units import CLO64, GO64, CLOW, GOW
A = lambda l: ['asm:' + n for n in l]
PROPS = {
 'C05': dict(units=CLASSIFY + ['machdep'], tags={'classify', 'prep', 'return'}, native=['sysv'],
   note='classify_argument, examine_argument, ffi_prep_cif_machdep proved for all type trees (natural layout, alignment <= 16, total stack < 2^30).'),
 'C06': dict(units=CLASSIFY + ['machdep', 'call', 'asm_call'], tags={'classify', 'prep', 'call', 'args'}, native=['sysv'],
   note='C marshalling and the assembly glue of ffi_call proved for all signatures and values.'),
 'C07': dict(units=CLASSIFY + ['machdep', 'call', 'asm_call'], tags={'classify', 'return'}, native=['sysv'],
   note='return plan, scratch handling and the store table of the glue proved for all return types.'),
 'C09': dict(units=CLASSIFY + ['machdep', 'inner', 'pclo', 'asm_tramp'] + A(CLO64), tags={'classify', 'prep', 'closure', 'closure args', 'bind'}, native=['sysv', 'bind'],
   note='closure glue and ffi_closure_unix64_inner proved for all signatures.'),
 'C10': dict(units=CLASSIFY + ['machdep', 'inner', 'pclo'] + A(CLO64), tags={'classify', 'return', 'closure return', 'bind'}, native=['sysv', 'bind'],
   note='closure return path (C part and load table) proved for all return types.'),
 'C11': dict(units=['asm_call', 'asm_callwin'] + A(CLO64 + GO64 + CLOW + GOW), tags={'state'}, native=['sysv', 'win'],
   note='every path of the assembly glue: callee-saved registers, stack pointer and alignment, direction flag, x87 depth, red zone.'),
}
PROPS['C18'] = dict(units=['pclo', 'pclow', 'pclo0', 'arch', 'asm_tramp', 'inner', 'winner'] + A(CLO64 + CLOW), tags={'bind', 'reject', 'pool', 'closure', 'wclosure'}, native=['bind'],
   note='closure preparation (the code it writes is executed symbolically), the static trampoline code, the closure entries and their C parts proved for all interfaces, functions and user data.')
PROPS['C08'] = dict(units=['call', 'wcall'], tags={'callerdata'}, native=['sysv', 'win'],
   note='frame conditions of ffi_call: argument vector, argument values, call interface and types are read-only objects in the proof.')
PROPS['C21'] = dict(units=CLASSIFY + ['callgo', 'pgo', 'pgow'] + A(GO64 + GOW) + ['asm_call', 'asm_callwin', 'wcallgo', 'wmachdep'], tags={'go', 'reject', 'wcall', 'wargs', 'wreturn', 'wprep', 'prep', 'args', 'call', 'return', 'closure', 'closure args', 'closure return', 'wclosure', 'wclosure return'}, native=['sysv', 'bind'],
   note='ffi_call_go, the chain register in the glue and the Go closure entry points proved for all signatures.')
PROPS['C23'] = dict(units=['asm_call', 'asm_callwin'] + A(CLO64 + GO64 + CLOW + GOW), tags={'unwind'}, native=[],
   note='the CFI row of every instruction of the glue recovers the caller frame and every callee-saved register.')
PROPS['C12'] = dict(units=['wmachdep', 'wcall', 'asm_callwin'], tags={'wprep', 'wcall', 'wargs', 'wreturn'}, native=['win'],
   note='preparation, slot filling, private copies, result scratch and the glue of Windows-ABI calls proved for all signatures.')
PROPS['C13'] = dict(units=['wmachdep', 'winner', 'pclow'] + A(CLOW), tags={'wprep', 'wclosure', 'wclosure args', 'wclosure return', 'wreturn', 'bind'}, native=['win', 'bind'],
   note='Windows closure entries and ffi_closure_win64_inner proved for all signatures.')
PROPS['C01'] = dict(units=['initagg', 'offsets', 'core'], tags={'layout', 'untouched', 'laid'}, native=['prep'],
   note='initialize_aggregate and its callers proved for all type trees (acyclic, below 2^48 bytes).')
PROPS['C02'] = dict(units=['initagg', 'offsets', 'core', 'prepcif', 'prepvar', 'machdep', 'wmachdep'], tags={'verdict', 'prep', 'wprep'}, native=['prep'],
   note='verdict of every preparation entry point proved for all ABIs, signatures and histories (a rejected type stays without layout).')
PROPS['C03'] = dict(units=['initagg', 'core', 'prepcif', 'prepvar', 'machdep', 'wmachdep'], tags={'recorded', 'untouched', 'laid', 'prep', 'wprep', 'layout'}, native=['prep'],
   note='ffi_prep_cif_core, its entry points and the machine-dependent part proved for all signatures.')
PROPS['C04'] = dict(units=['prepvar', 'core'], tags={'variadic', 'verdict', 'recorded'}, native=['prep'],
   note='ffi_prep_cif_var proved for all signatures and splits between fixed and variable arguments.')
PROPS['C22'] = dict(units=['types'], tags={'types'}, native=['types'],
   note='ground obligations on the compiled initialisers of types.c against the compiler itself.')
PROPS['C14'] = dict(units=['rawsize', 'toptr', 'toraw'], tags={'raw'}, native=['raw'],
   note='ffi_raw_size, ffi_raw_to_ptrarray and ffi_ptrarray_to_raw proved for all signatures and values.')
PROPS['C15'] = dict(units=['rawcall', 'translate', 'prepraw', 'prepraw0', 'toptr', 'toraw', 'rawsize', 'pclo', 'pclow'], tags={'raw', 'bind', 'reject'}, native=['raw'],
   note='ffi_raw_call, the raw translator and the preparation of raw closures proved for all signatures.')
PROPS['C16'] = dict(units=['jrawsize', 'jtoptr', 'jtoraw', 'jrawcall', 'jtranslate', 'jprepraw', 'jprepraw0'], tags={'java', 'reject'}, native=['jraw'],
   note='the Java raw API proved for all signatures over the Java types.')
TR = ['tralloc', 'trfree', 'trset', 'traddr', 'trsup', 'trtable', 'trinit']
CLO = ['clo' + x for x in ('memfd', 'name', 'dir', 'env', 'mnt')]
CL = ['clalloc', 'clfree', 'cldata', 'clpres', 'clinit', 'clseg', 'clmmap', 'clfile', 'clunmap', 'clspace', 'cltemp'] + CLO
HEAP = 'dlmalloc and dlfree (dlmalloc.c): '
PROPS['C17'] = dict(units=['tralloc', 'trfree', 'trtable', 'trinit', 'traddr', 'trsup', 'arch', 'clalloc', 'clfree', 'cldata', 'clseg', 'clmmap', 'clfile', 'clunmap'], tags={'pool'}, native=['pool', 'heap'],
   bounded=[('heap', HEAP + 'storage is fresh, keeps its contents, and its code address is that of the mapping it lies in; 75 histories over sizes to 3 MB and five layouts of the mappings'), ('pool', HEAP + 'released storage is used again; 80 histories of up to 900 closures')],
   note='the trampoline tables (lists and slots as ghost state) and the mapping layer of the closure heap proved for all histories; the contract of dlmalloc and dlfree is assumed (bounded stand-in).')
PROPS['C18']['units'] += ['trset', 'traddr', 'tralloc', 'trfree', 'trtable', 'trinit', 'clalloc', 'cldata', 'clpres', 'clmmap', 'clfile']
PROPS['C18']['native'] = ['bind', 'pool']
PROPS['C19'] = dict(units=['tralloc', 'trfree', 'trtable', 'trinit', 'trsup', 'clalloc', 'clmmap', 'clfile', 'clunmap', 'clspace', 'cltemp', 'clinit', 'pclo', 'pclow', 'pgo', 'pgow', 'prepraw', 'jprepraw'] + CLO, tags={'fault', 'reject'}, native=['fault', 'raw', 'jraw', 'bind'],
   bounded=[('fault', HEAP + 'what they do when memory is refused; about 1500 histories with refused requests')],
   note='every path on which a system call or allocation fails, in tramp.c and closures.c.')
PROPS['C20'] = dict(units=TR + CL, tags={'lock'}, native=['lock', 'fault'],
   note='every access to shared state happens under its lock, locks are released on every path, and taken in one order.')
NOT_APPLICABLE = {}
