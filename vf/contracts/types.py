"""Predefined type descriptors (types.c): the static initialisers, as compiled, are what the
compiler says about the C types they stand for.  Ground obligations: there is no input."""
import os
from .. import build, ir
SCALARS = [('unsigned char', 'uchar', 'UINT8'), ('signed char', 'schar', 'SINT8'), ('unsigned short', 'ushort', 'UINT16'), ('short', 'sshort', 'SINT16'),
    ('unsigned int', 'uint', 'UINT32'), ('int', 'sint', 'SINT32'), ('unsigned long', 'ulong', 'UINT64'), ('long', 'slong', 'SINT64'),
    ('uint8_t', 'uint8', 'UINT8'), ('int8_t', 'sint8', 'SINT8'), ('uint16_t', 'uint16', 'UINT16'), ('int16_t', 'sint16', 'SINT16'),
    ('uint32_t', 'uint32', 'UINT32'), ('int32_t', 'sint32', 'SINT32'), ('uint64_t', 'uint64', 'UINT64'), ('int64_t', 'sint64', 'SINT64'),
    ('void *', 'pointer', 'POINTER'), ('float', 'float', 'FLOAT'), ('double', 'double', 'DOUBLE'), ('long double', 'longdouble', 'LONGDOUBLE')]
COMPLEX = [('_Complex float', 'complex_float', 'float'), ('_Complex double', 'complex_double', 'double'), ('_Complex long double', 'complex_longdouble', 'longdouble')]

def probe():
    c = os.path.join(build.scratch(), 'probe%d.c' % os.getpid())
    t = '#include <stdio.h>\n#include <stdint.h>\n#include <ffi.h>\n#define S(x) #x\n#define N(x) S(x)\nint main(void){\n'
    for ct, n, k in SCALARS: t += 'printf("%s %%s %%d %%d %%d -\\n", N(ffi_type_%s), (int)sizeof(%s), (int)_Alignof(%s), (int)FFI_TYPE_%s);\n' % (n, n, ct, ct, k)
    for ct, n, e in COMPLEX: t += 'printf("%s %%s %%d %%d %%d %%s\\n", N(ffi_type_%s), (int)sizeof(%s), (int)_Alignof(%s), (int)FFI_TYPE_COMPLEX, N(ffi_type_%s));\n' % (n, n, ct, ct, e)
    t += 'printf("void %s 1 1 %d -\\n", N(ffi_type_void), (int)FFI_TYPE_VOID);\n}\n'
    open(c, 'w').write(t)
    build.run(['gcc'] + build.cflags() + [c, '-o', c + '.x'])
    return [l.split() for l in build.run([c + '.x']).split('\n') if l]

def fields(m, name):
    if name not in m.globals: return None
    t, v, const = m.global_init(name)
    if v is None: return None
    if v[0] == 'zero': return [0, 0, 0, None]
    if v[0] != 'agg': return None
    num = lambda x: x[1] if x[0] == 'int' else 0 if x[0] == 'zero' else '?'
    vs = [e for _, e in v[1]]
    ptr = None if vs[3][0] in ('null', 'zero') else vs[3][1] if vs[3][0] == 'glob' else '?'
    return [num(vs[0]), num(vs[1]) & 0xffff if num(vs[1]) != '?' else '?', num(vs[2]) & 0xffff if num(vs[2]) != '?' else '?', ptr]

def run(out, case, tier, deadline):
    m = ir.Module(build.ir_text('types.c'))
    def ob(nm, ok): out['obs'].append(('types', nm, 'proved' if ok else 'refuted', [], None, 0.0))
    for n, sym, size, al, kind, el in probe():
        f = fields(m, sym)
        ob('ffi_type_%s is defined with a constant initialiser' % n, f is not None)
        if f is None: continue
        ob('ffi_type_%s: size' % n, f[0] == int(size)); ob('ffi_type_%s: alignment' % n, f[1] == int(al)); ob('ffi_type_%s: kind' % n, f[2] == int(kind))
        if el == '-': ob('ffi_type_%s: no members' % n, f[3] is None)
        else:
            ok = False
            if f[3] in m.globals:
                t, v, c = m.global_init(f[3])
                ok = v[0] == 'agg' and len(v[1]) == 2 and v[1][0][1] == ('glob', el) and v[1][1][1][0] in ('null', 'zero')
            ob('ffi_type_%s: describes its element type' % n, ok)
    out['rets'] = 1; out['backend'] = {'ground': len(out['obs'])}
