"""writes properties.jsonl (kept as a script so that the texts stay readable)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe))))
F64, FW, PC = 'src/x86/ffi64.c', 'src/x86/ffiw64.c', 'src/prep_cif.c'
p('C01', 'Aggregates get the layout the C compiler gives them',
  'After a call interface is prepared, or member offsets are queried, every aggregate involved has exactly the size, alignment and member offsets of the natural C layout of its members: each member at the next multiple of its alignment, alignment the largest member alignment, size rounded up to it. Only the offsets array the caller supplied and the size and alignment of the aggregates are written.',
  ['inputs'], 'every finite tree of member types, any number and nesting of members, with or without an offsets array',
  'The tests prepare a few dozen fixed structs; layout must hold for every member list.',
  [PC], [('initialize_aggregate computes offset, size, alignment', PC), ('ffi_get_struct_offsets', PC)],
  [('ffi_type.size/alignment', 'the computed layout; 0 means not yet computed', 'include/ffi.h.in')], ['ffi_prep_cif', 'ffi_get_struct_offsets'])
p('C02', 'Malformed types and unknown ABIs are rejected, well-formed ones accepted',
  'Preparing a call interface reports a bad ABI for every ABI number the platform does not define and a bad type for every signature containing an aggregate without members, with an invalid member, or with no size. The verdict does not depend on earlier attempts with the same types, and every well-formed signature is accepted.',
  ['inputs', 'histories'], 'all ABI numbers, all type trees, all sequences of attempts on the same type objects',
  'Tests cover one invalid struct and one bad ABI, once each.',
  [PC, F64, FW], [('argument checks in ffi_prep_cif_core', PC), ('initialize_aggregate error path', PC), ('ABI switch in ffi_prep_cif_machdep', F64)], (), ['ffi_prep_cif', 'ffi_prep_cif_var', 'ffi_get_struct_offsets'])
p('C03', 'A prepared call interface records exactly the signature it was given',
  'On success the call interface holds the given ABI, argument count, argument type list and return type; every aggregate in the signature that had no layout yet has been laid out, and types that already had a layout are left untouched.',
  ['inputs'], 'all signatures', 'Tests never inspect the interface object and always pass fresh types.',
  [PC], [('ffi_prep_cif_core', PC)], [('ffi_cif', 'the signature and the derived stack size and flags', 'include/ffi.h.in')], ['ffi_cif'])
p('C04', 'Variadic preparation rejects exactly the unpromoted argument types',
  'Preparing a variadic call fails with a bad-argument-type report exactly when some argument after the fixed ones is a float or a non-aggregate narrower than an int, and with a bad-type report for malformed signatures; otherwise the call interface is prepared exactly as for a non-variadic call with the same types.',
  ['inputs'], 'all splits into fixed and variadic arguments, all argument types', 'Two tests cover float and char in one position.',
  [PC], [('ffi_prep_cif_var loop', PC)], (), ['ffi_prep_cif_var'])
p('C05', 'Signatures are classified as the System V x86-64 psABI prescribes',
  'For every signature, the placement plan made at preparation time agrees with the psABI: each argument and the return value is split into eightbytes of the right class, the number of integer and vector registers, the amount of stack, the in-memory return decision and the return conversion all follow the standard algorithm.',
  ['inputs'], 'every type tree with natural layout up to 16-byte alignment, every argument list',
  'Tests try a fixed set of struct shapes; classification depends on every member offset and nesting.',
  [F64], [('classify_argument', F64), ('examine_argument', F64), ('ffi_prep_cif_machdep', F64)], [('cif.flags/bytes', 'return conversion code, in-memory bit, vector bit; stack bytes', F64)], ['ffi_prep_cif', 'ffi_call'])
p('C06', 'ffi_call delivers every argument where the callee expects it (System V)',
  'For every prepared System V signature and every argument value, the called function is entered exactly once with each byte of each argument in the register or stack slot the psABI assigns to it, narrow integers sign- or zero-extended to 64 bits, and the vector-register count in al.',
  ['inputs'], 'every signature (any count and mix of types), every argument value',
  'Tests call some hundred fixed prototypes; register exhaustion and mixed aggregates make the space unbounded.',
  [F64, 'src/x86/unix64.S'], [('ffi_call_int marshalling loop', F64), ('ffi_call_unix64 register loads', 'src/x86/unix64.S')], (), ['callee entry'])
p('C07', 'ffi_call delivers the return value and writes nothing else (System V)',
  'After a call returns, the result buffer holds exactly the callee\'s return value (integers narrower than a register widened to a full word) and no byte beyond it is written: an aggregate of n bytes writes exactly n. With a null result buffer the value is dropped and nothing is written.',
  ['inputs'], 'every return type, every value, with and without a result buffer',
  'Tests check a fixed set of return types and seldom look past the end of the buffer.',
  [F64, 'src/x86/unix64.S'], [('return flags in ffi_prep_cif_machdep', F64), ('store table', 'src/x86/unix64.S')], [('flags byte and size field', 'index in the store table, byte count to copy', 'src/x86/internal64.h')], ['rvalue buffer'])
p('C08', 'A call leaves the caller\'s arguments and the call interface unchanged',
  'Making a call changes neither the argument pointer array, nor the argument values, nor the call interface, nor the types: the same prepared objects can be reused, nested and shared by concurrent threads with the same result each time.',
  ['inputs', 'histories', 'schedules'], 'every signature, any number of calls, any interleaving of threads sharing the objects',
  'Tests use each argument array once and never from two threads.',
  [F64, FW], [('copies made by ffi_call_int', F64)], [('argument array, values, cif', 'owned by the caller, read-only during the call', 'include/ffi.h.in')], ['caller memory'])
p('C09', 'A closure receives exactly the arguments its caller passed (System V)',
  'Whenever a closure\'s code address is called with some arguments, the user function runs exactly once and each of its argument pointers refers to memory holding every byte of the corresponding argument, whatever registers or stack it travelled in; it also gets the right call interface and user data.',
  ['inputs'], 'every signature and every argument value', 'Tests cover some fixed callback prototypes.',
  [F64, 'src/x86/unix64.S'], [('ffi_closure_unix64_inner', F64), ('ffi_closure_unix64 register saves', 'src/x86/unix64.S')], (), ['user function'])
p('C10', 'A closure\'s caller gets exactly what the user function returned (System V)',
  'After the user function stores its result, the caller of the closure finds it where the psABI puts a value of that type: widened integer in rax, vector registers, x87 stack, register pairs, or the caller-supplied memory with its address in rax.',
  ['inputs'], 'every return type and value', 'Tests cover some return types only.',
  [F64, 'src/x86/unix64.S'], [('load table', 'src/x86/unix64.S'), ('in-memory return in ffi_closure_unix64_inner', F64)], (), ['closure caller'])
p('C11', 'Calls and closures keep the machine state the ABI requires',
  'Around every call and closure invocation callee-saved registers, stack pointer, direction flag and x87 stack depth are as the ABI requires at each boundary, the stack is 16-byte aligned when foreign code is entered, and stack memory below the red zone is never relied upon.',
  ['inputs'], 'every signature, every register content', 'A test notices only if the compiler happened to keep a live value in the clobbered register.',
  ['src/x86/unix64.S', 'src/x86/win64.S'], [('hand-written glue', 'src/x86/unix64.S'), ('hand-written glue', 'src/x86/win64.S')], (), ['registers at call boundaries'])
p('C12', 'Windows-ABI calls follow the Microsoft x64 convention',
  'For every signature prepared with a Windows ABI, the callee is entered once with each argument in its positional register or stack slot (by value when its size is 1, 2, 4 or 8, otherwise through a pointer to a private copy), with shadow space, and the return value is delivered exactly, writing nothing beyond it.',
  ['inputs'], 'every signature and value', 'The test suite on this host runs only a few prototypes under the Windows ABI.',
  [FW, 'src/x86/win64.S'], [('ffi_call_int', FW), ('ffi_call_win64', 'src/x86/win64.S')], (), ['callee entry', 'rvalue buffer'])
p('C13', 'Windows-ABI closures deliver arguments and results',
  'A closure prepared with a Windows ABI hands its user function a pointer to every argument as passed under the Microsoft x64 convention, and returns the stored result (or the hidden result address) to its caller.',
  ['inputs'], 'every signature and value', 'Few closure tests run with this ABI here.',
  [FW, 'src/x86/win64.S'], [('ffi_closure_win64_inner', FW), ('ffi_closure_win64', 'src/x86/win64.S')], (), ['user function', 'closure caller'])
p('C14', 'Raw argument conversion is lossless in both directions',
  'Converting argument pointers to the raw format and back preserves every argument value, uses exactly the number of bytes the size query reports, and writes nothing outside the raw area.',
  ['inputs'], 'every argument list and value', 'Raw conversion is hardly tested.',
  ['src/raw_api.c'], [('ffi_raw_to_ptrarray, ffi_ptrarray_to_raw, ffi_raw_size', 'src/raw_api.c')], (), ['raw buffers'])
p('C15', 'Raw calls and raw closures behave like plain ones',
  'A call through the raw interface passes the same arguments and result as the plain call with those values; a raw closure hands its user function the raw image of the arguments it was called with, together with its own call interface and user data.',
  ['inputs'], 'every signature the raw interface accepts', 'Raw closures are hardly tested.',
  ['src/raw_api.c'], [('ffi_raw_call, ffi_translate_args, ffi_prep_raw_closure_loc', 'src/raw_api.c')], (), ['user function'])
p('C16', 'The Java raw interface converts arguments and results faithfully',
  'For the argument and result types Java has (integers of 8 to 64 bits, pointers, float, double), the Java flavour of the raw interface uses its slot layout consistently in both directions, preserves every value, widens narrow results to the Java stack size, and never touches memory outside the raw area and the result.',
  ['inputs'], 'every signature over the types Java has (integers of 8 to 64 bits, pointers, float and double)', 'No test exercises it.',
  ['src/java_raw_api.c'], [('ffi_java_raw_to_ptrarray, ffi_java_ptrarray_to_raw, ffi_java_raw_size, ffi_java_raw_call', 'src/java_raw_api.c')], (), ['raw buffers'])
p('C17', 'Live closures never share a code address or storage',
  'At every moment all closures that have been allocated and not freed have pairwise distinct code addresses and disjoint storage, and freeing one neither disturbs another nor leaks its slot: it can be allocated again.',
  ['histories', 'schedules'], 'all sequences of allocations and frees, any number of pages, any thread interleaving', 'Tests allocate a handful of closures at a time, fewer than fill one page.',
  ['src/tramp.c', 'src/closures.c'], [('ffi_tramp_alloc / ffi_tramp_free lists', 'src/tramp.c'), ('ffi_closure_alloc', 'src/closures.c')],
  [('free and allocated trampoline table lists', 'tables with free slots first', 'src/tramp.c')], ['ffi_closure_alloc', 'ffi_closure_free'])
p('C18', 'A prepared closure runs its own function with its own data',
  'Calling the code address of a closure prepared with some call interface, function and user data enters exactly that function with exactly that interface and user data, for as long as the closure lives and whichever other closures are created, prepared or freed.',
  ['inputs', 'histories'], 'all closures and all histories of other closures', 'Tests keep at most a few closures alive.',
  [F64, FW, 'src/tramp.c', 'src/x86/unix64.S'], [('ffi_prep_closure_loc', F64), ('ffi_tramp_set_parms', 'src/tramp.c'), ('trampoline_code_table', 'src/x86/unix64.S')],
  [('trampoline parameter page', 'per-slot target and data', 'src/tramp.c')], ['user function'])
p('C19', 'Failed allocations and preparations leave nothing behind',
  'When a closure allocation or a preparation fails at any point, it reports the failure, releases whatever it had acquired, and leaves existing closures and later requests unaffected.',
  ['fault_sequences', 'crash_points'], 'every point at which the system can refuse memory, a mapping or a file', 'No test makes an allocation fail.',
  ['src/tramp.c', 'src/closures.c'], [('error paths of tramp_table_alloc, ffi_tramp_alloc', 'src/tramp.c'), ('ffi_closure_alloc', 'src/closures.c')], (), ['return codes', 'memory accounting'])
p('C20', 'Shared allocator state is only touched under its lock',
  'Every access to the shared closure bookkeeping happens while its lock is held, the lock is released on every path, and no path acquires it twice.',
  ['schedules'], 'all thread interleavings of allocation, preparation and freeing', 'Single-threaded tests cannot see a missing or doubled lock.',
  ['src/tramp.c', 'src/closures.c'], [('ffi_tramp_lock/unlock', 'src/tramp.c'), ('ffi_closure_alloc, ffi_closure_free, segment_holding', 'src/closures.c')], [('tramp_globals', 'shared table lists', 'src/tramp.c'), ('_gm_', 'the closure heap and its segments', 'src/closures.c')], ['lock operations'])
p('C21', 'Go-style calls and closures carry the static chain',
  'A Go-style call enters the callee with the given closure pointer in the static chain register and otherwise exactly like a plain call; a Go-style closure hands its user function its own address as user data, and the arguments and result as a plain closure would.',
  ['inputs'], 'every signature and value', 'Two tests use Go closures with one prototype each.',
  [F64, FW, 'src/x86/unix64.S', 'src/x86/win64.S'], [('ffi_call_go', F64), ('ffi_go_closure_unix64', 'src/x86/unix64.S')], (), ['callee entry', 'user function'])
p('C22', 'Predefined types describe the C types they stand for',
  'Each predefined type has the size, alignment and kind of the C type it stands for, and complex types describe their element type.',
  ['configurations'], 'all predefined types', 'Tests use most types but compare no descriptor with the compiler.',
  ['src/types.c'], [('FFI_TYPEDEF', 'src/types.c')], (), ['ffi_type objects'])
p('C23', 'Unwinding passes through calls and closures',
  'An exception or stack unwind that starts in a called function or in a closure handler passes through the library to the code that made the call: at every point where foreign code can be running, and at every instruction of the glue, the unwind information recovers the caller frame and its callee-saved registers.',
  ['inputs'], 'every frame of the assembly glue, every instruction and argument-area size', 'A few C++ tests throw through one prototype.',
  ['src/x86/unix64.S', 'src/x86/win64.S'], [('CFI directives', 'src/x86/unix64.S'), ('CFI directives', 'src/x86/win64.S')], (), ['exception propagation'])
open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
