"""Turns /repo's *current* sources into what the verifier consumes.

Every check calls this afresh.  Nothing is read from /repo/_build and nothing
is written inside /repo: all products live in a private scratch directory.

 * ffi.h is instantiated from /repo/include/ffi.h.in (the autoconf @...@
   substitutions are the only edit), ffitarget.h is /repo/src/x86/ffitarget.h,
   fficonfig.h is the committed copy of the configure result in /verif/cfg.
 * ir_module(): clang -S -emit-llvm of one real source file, then a fixed list
   of semantics-preserving LLVM passes.  The only change made to the text is
   the inlining attribute: functions carrying a contract are kept out of line,
   every other static function is inlined into its callers.
 * asm_object(): the real .S file through the assembler, for objdump.
 * native_lib(): the whole library, for replaying counterexamples.
"""
import os, re, subprocess, tempfile, shutil, atexit, sys

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
def _tool(n):
    for c in (n + '-18', '/usr/lib/llvm-18/bin/' + n, n):
        if shutil.which(c): return c
    return n
OPT = _tool('opt')

class BuildError(Exception):
    pass

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vffi.')
        pid = os.getpid()
        def clean(d=_scratch):
            if os.getpid() == pid: shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _scratch

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), r.stderr[-4000:]))
    return r.stdout

_inc = None
def incdir():
    global _inc
    if _inc: return _inc
    d = os.path.join(scratch(), 'inc'); os.makedirs(d, exist_ok=True)
    s = open(REPO + '/include/ffi.h.in').read()
    for k, v in (('VERSION', '3.4.8'), ('TARGET', 'X86_64'), ('HAVE_LONG_DOUBLE', '1'),
                 ('HAVE_LONG_DOUBLE_VARIANT', '0'), ('FFI_EXEC_TRAMPOLINE_TABLE', '0')):
        s = s.replace('@%s@' % k, v)
    open(d + '/ffi.h', 'w').write(s)
    shutil.copy(REPO + '/src/x86/ffitarget.h', d)
    shutil.copy(HERE + '/cfg/fficonfig.h', d)
    _inc = d
    return d

def cflags():
    return ['-DHAVE_CONFIG_H', '-I' + incdir(), '-I' + REPO + '/include', '-I' + REPO + '/src',
            '-I' + REPO, '-w']

CSRC = ['prep_cif.c', 'types.c', 'raw_api.c', 'java_raw_api.c', 'closures.c', 'tramp.c',
        'x86/ffi64.c', 'x86/ffiw64.c']
SSRC = ['x86/unix64.S', 'x86/win64.S']

PASSES = ('always-inline,globaldce,function(sroa<modify-cfg>,early-cse,simplifycfg<no-switch-to-lookup;'
          'no-switch-range-to-icmp;no-hoist-common-insts;no-sink-common-insts>,instsimplify,sroa<modify-cfg>,'
          'early-cse,adce,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp>,loop-simplify)')

def pure_functions(raw, base):
    """static functions that touch no memory, call nothing and do not loop:
    they are summarised exactly (vf.sym.Exec.summary) instead of inlined"""
    open(base + '.p.ll', 'w').write(raw)
    t = run([OPT, '-S', '-passes=function(sroa<modify-cfg>,simplifycfg<no-switch-to-lookup>)', base + '.p.ll', '-o', '-'])
    out = set()
    for m in re.finditer(r'^define internal [^@\n]*@([\w.$]+)\(([^\n]*)\{\n(.*?)^\}', t, re.S | re.M):
        body = m.group(3)
        if re.search(r'\b(load|store|call|alloca|invoke|fence|cmpxchg|atomicrmw|getelementptr)\b', body): continue
        if 'ptr' in m.group(2) or body.count('\n') < 12: continue
        out.add(m.group(1))
    return out

def ir_text(src, contracts=(), extra=()):
    """LLVM IR of /repo/src/<src>; `contracts` = functions kept out of line."""
    base = os.path.join(scratch(), src.replace('/', '_') + '.%d' % (abs(hash(tuple(sorted(contracts)))) % 10**8))
    raw = run([CLANG] + cflags() + list(extra) +
              ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-fcf-protection=full',
               '-fno-strict-aliasing', '-g0', '-S', '-emit-llvm', REPO + '/src/' + src, '-o', '-'])
    contracts = set(contracts) | pure_functions(raw, base)
    out = []
    for line in raw.split('\n'):
        m = re.match(r'define (.*)@([\w.$]+)\((.*)\)([^)]*)\{$', line)
        if m:
            name = m.group(2)
            tail = re.sub(r'#\d+', '#9001' if (name in contracts or 'internal' not in m.group(1)) else '#9000', m.group(4))
            line = 'define %s@%s(%s)%s{' % (m.group(1), name, m.group(3), tail)
        out.append(line)
    out.append('attributes #9000 = { alwaysinline nounwind }')
    out.append('attributes #9001 = { noinline nounwind }')
    open(base + '.0.ll', 'w').write('\n'.join(out))
    run([OPT, '-S', '-passes=' + PASSES, base + '.0.ll', '-o', base + '.ll'])
    return open(base + '.ll').read()

def asm_object(src):
    o = os.path.join(scratch(), src.replace('/', '_') + '.o')
    run(['gcc'] + cflags() + ['-c', REPO + '/src/' + src, '-o', o])
    return o

_lib = {}
def native_lib(extra=(), shared=False):
    key = (tuple(extra), shared)
    if key in _lib: return _lib[key]
    d = os.path.join(scratch(), 'nat%d' % len(_lib)); os.makedirs(d)
    procs, objs = [], []
    for s in CSRC + SSRC:
        o = os.path.join(d, s.replace('/', '_') + '.o'); objs.append(o)
        cmd = ['gcc'] + cflags() + ['-O2', '-g', '-fexceptions', '-fPIC'] + list(extra) + ['-c', REPO + '/src/' + s, '-o', o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    for cmd, p in procs:
        _, e = p.communicate()
        if p.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), e[-3000:]))
    if shared:
        lib = d + '/libffi.so'
        run(['gcc', '-shared', '-o', lib] + objs + ['-lpthread'])
    else:
        lib = d + '/libffi.a'
        run(['ar', 'rcs', lib] + objs)
    _lib[key] = lib
    return lib
