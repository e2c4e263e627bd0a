"""Looks for a concrete failing run of the real library (gcc's own code
generation is the ABI oracle).  Used to turn a failed obligation into a failing
input; it never decides a property by itself."""
import os, random, subprocess, time, shutil, hashlib, sys
from . import build
from concurrent.futures import ThreadPoolExecutor

RUNTIME = r'''
#include <ffi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
static const char *cur = "start"; static int fails;
static void fail (const char *what, int i) { printf ("FAIL %s: %s (%d)\n", cur, what, i); fflush (stdout); fails++; if (fails > 20) _exit (1); }
static void onsig (int s) { printf ("FAIL %s: signal %d\n", cur, s); fflush (stdout); _exit (1); }
static unsigned rng;
static unsigned rnd (void) { rng = rng * 1103515245u + 12345u; return rng >> 8; }
static void fillb (void *p, size_t n) { unsigned char *c = p; while (n--) *c++ = rnd (); }
#define ELEMS(t) ((t)->elements)
/* leaf compare by type tree: padding is not compared */
static int cmpt (ffi_type *t, const char *a, const char *b)
{
  switch (t->type) {
  case FFI_TYPE_STRUCT: { size_t o = 0; for (int i = 0; t->elements[i]; i++) { ffi_type *e = t->elements[i];
      o = (o + e->alignment - 1) & -(size_t) e->alignment; if (cmpt (e, a + o, b + o)) return 1; o += e->size; } return 0; }
  case FFI_TYPE_LONGDOUBLE: return memcmp (a, b, 10) != 0;
  case FFI_TYPE_COMPLEX: return cmpt (t->elements[0], a, b) || cmpt (t->elements[0], a + t->elements[0]->size, b + t->elements[0]->size);
  case FFI_TYPE_VOID: return 0;
  default: return memcmp (a, b, t->size) != 0; }
}
static void fillt (ffi_type *t, char *a)
{
  switch (t->type) {
  case FFI_TYPE_STRUCT: { size_t o = 0; fillb (a, t->size); for (int i = 0; t->elements[i]; i++) { ffi_type *e = t->elements[i];
      o = (o + e->alignment - 1) & -(size_t) e->alignment; fillt (e, a + o); o += e->size; } break; }
  case FFI_TYPE_FLOAT: { float f = (float) (int) rnd () / 7; memcpy (a, &f, 4); break; }
  case FFI_TYPE_DOUBLE: { double f = (double) (int) rnd () / 7; memcpy (a, &f, 8); break; }
  case FFI_TYPE_LONGDOUBLE: { long double f = (long double) (int) rnd () / 7; fillb (a, 16); memcpy (a, &f, 10); break; }
  case FFI_TYPE_COMPLEX: fillt (t->elements[0], a); fillt (t->elements[0], a + t->elements[0]->size); break;
  default: fillb (a, t->size); }
}
struct regs { unsigned long before[6], after[6], fsw, sp0, sp1, al, r10, spc, mx0, mx1, cw0, cw1; } R;
/* guarded call: vcall (fn, a0..a3) calls fn with callee-saved registers loaded with marks and records what comes back */
void vcall (void *fn, void *a, void *b, void *c, void *d, void *e);
void vprobe (void), clstub (void); void *vtarget; unsigned long clsave[5]; /* return address, rdi, rcx, rax, target */
#ifndef NOASM
__asm__ (".text\n.globl vcall\nvcall:\n push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n sub $8,%rsp\n"
" mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%rcx\n mov %r9,%r8\n"
" lea R(%rip),%r11\n mov 0(%r11),%rbx\n mov 8(%r11),%rbp\n mov 16(%r11),%r12\n mov 24(%r11),%r13\n mov 32(%r11),%r14\n mov 40(%r11),%r15\n mov %rsp,104(%r11)\n"
" movl $0,136(%r11)\n stmxcsr 136(%r11)\n fnstcw 152(%r11)\n"
" call *%rax\n"
" lea R(%rip),%r11\n mov %rbx,48(%r11)\n mov %rbp,56(%r11)\n mov %r12,64(%r11)\n mov %r13,72(%r11)\n mov %r14,80(%r11)\n mov %r15,88(%r11)\n mov %rsp,112(%r11)\n"
" stmxcsr 144(%r11)\n fnstcw 160(%r11)\n fnstsw %ax\n movzwl %ax,%eax\n mov %rax,96(%r11)\n"
" mov 104(%r11),%rsp\n add $8,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n"
".globl vprobe\nvprobe:\n lea R(%rip),%r11\n mov %rax,120(%r11)\n mov %r10,128(%r11)\n mov %rsp,168(%r11)\n jmp *vtarget(%rip)\n"
".globl clstub\nclstub:\n lea clsave(%rip),%r11\n popq (%r11)\n mov %rdi,8(%r11)\n mov %rcx,16(%r11)\n call *32(%r11)\n lea clsave(%rip),%r11\n mov %rax,24(%r11)\n jmp *(%r11)\n");
#endif
static struct { unsigned long before[6], after[6], fsw, sp0, sp1, al, r10, mx0, mx1, cw0, cw1, spc; } *RR = (void *) &R;
static void vprep (void) { memset (RR, 0, sizeof *RR); for (int i = 0; i < 6; i++) RR->before[i] = 0x1111111111111111ul * (i + 1) + rnd (); }
static void vcheck (void)
{
  for (int i = 0; i < 6; i++) if (RR->before[i] != RR->after[i]) fail ("STATE callee-saved register not preserved", i);
  if (RR->sp0 != RR->sp1) fail ("STATE stack pointer not preserved", 0);
  if ((RR->fsw >> 11) & 7) fail ("STATE x87 stack not empty", (RR->fsw >> 11) & 7);
  if ((RR->mx0 & 0xffc0) != (RR->mx1 & 0xffc0)) fail ("STATE mxcsr control changed", 0);
  if ((RR->cw0 & 0xffff) != (RR->cw1 & 0xffff)) fail ("STATE x87 control changed", 0);
}
#define BSZ 9216
static char abuf[64][BSZ] __attribute__ ((aligned (64))), acopy[64][BSZ], rbuf[BSZ + 512] __attribute__ ((aligned (64))), rexp[BSZ + 512] __attribute__ ((aligned (64)));
static void *av[64], *avc[64];
static int nhandler, ncallee;
static void *huser;
/* closure handler: arguments must be the expected ones; gives the expected result */
static void hcheck (ffi_cif *cif, void *ret, void **args, void *user)
{
  nhandler++;
  if (user != huser) fail ("BIND closure got another closure's user data", 0);
  for (unsigned i = 0; i < cif->nargs; i++)
    if (cmpt (cif->arg_types[i], args[i], abuf[i])) fail ("CARG closure argument", i);
  ffi_type *t = cif->rtype;
  if (t->type == FFI_TYPE_VOID) return;
  switch (t->type) {
  case FFI_TYPE_UINT8: *(ffi_arg *) ret = *(uint8_t *) rexp; break; case FFI_TYPE_SINT8: *(ffi_sarg *) ret = *(int8_t *) rexp; break;
  case FFI_TYPE_UINT16: *(ffi_arg *) ret = *(uint16_t *) rexp; break; case FFI_TYPE_SINT16: *(ffi_sarg *) ret = *(int16_t *) rexp; break;
  case FFI_TYPE_UINT32: *(ffi_arg *) ret = *(uint32_t *) rexp; break; case FFI_TYPE_SINT32: *(ffi_sarg *) ret = *(int32_t *) rexp; break;
  case FFI_TYPE_INT: *(ffi_sarg *) ret = *(int32_t *) rexp; break;
  default: memcpy (ret, rexp, t->size); }
}
/* rvalue buffer after a call: the value, widened if narrow, and nothing beyond */
static void rcheck (ffi_cif *cif, int wide)
{
  ffi_type *t = cif->rtype; size_t n = t->size; unsigned long v = 0;
  if (t->type == FFI_TYPE_VOID) n = 0;
  else if (t->type != FFI_TYPE_STRUCT && t->type != FFI_TYPE_COMPLEX && t->type != FFI_TYPE_FLOAT && n < 8) {
    memcpy (&v, rexp, n);
    if (t->type == FFI_TYPE_SINT8) v = (long) (int8_t) v; else if (t->type == FFI_TYPE_SINT16) v = (long) (int16_t) v;
    else if (t->type == FFI_TYPE_SINT32 || t->type == FFI_TYPE_INT) v = (long) (int32_t) v;
    if (memcmp (&v, rbuf, wide ? 8 : n)) fail ("RET narrow return value", 0);
    n = 8;
  } else if (cmpt (t, rbuf, rexp)) fail ("RET return value", 0);
  for (size_t i = n; i < n + 64; i++) if (rbuf[i] != (char) 0xA5) { fail ("ROVER bytes beyond the return value written", (int) (i - n)); break; }
}
static void callerdata (ffi_cif *cif)
{
  for (unsigned i = 0; i < cif->nargs; i++) {
    if (av[i] != avc[i]) fail ("MOD argument pointer changed", i);
    if (memcmp (abuf[i], acopy[i], cif->arg_types[i]->size + 64)) fail ("MOD argument value changed", i);
  }
}
static void setup (ffi_cif *cif)
{
  for (unsigned i = 0; i < cif->nargs; i++) { size_t z = cif->arg_types[i]->size + 64; fillb (abuf[i], z); fillt (cif->arg_types[i], abuf[i]); memcpy (acopy[i], abuf[i], z); av[i] = avc[i] = abuf[i]; }
  fillb (rexp, cif->rtype->size + 16); if (cif->rtype->type != FFI_TYPE_VOID) fillt (cif->rtype, rexp);
  memset (rbuf, 0xA5, sizeof rbuf);
}
#define PREP(A_, N_, R_, T_) do { memset (&cif, 0, sizeof cif); int st_ = ffi_prep_cif (&cif, A_, N_, R_, T_); if (st_ != FFI_OK) { fail ("PREP valid signature rejected", st_); return; } \
  if (cif.abi != A_ || cif.nargs != N_ || cif.rtype != R_ || cif.arg_types != T_) fail ("PREP signature not recorded", 0); } while (0)
#define LAY(T, C) do { if ((T).type == FFI_TYPE_STRUCT) ffi_get_struct_offsets (FFI_DEFAULT_ABI, &(T), 0); if ((T).size != sizeof (C)) fail ("LAYOUT size", (int) (T).size); if ((T).alignment != _Alignof (C)) fail ("LAYOUT alignment", (T).alignment); } while (0)
#define OFFS(T, i, O_, C) do { size_t o_[64]; if (ffi_get_struct_offsets (FFI_DEFAULT_ABI, &(T), o_) != FFI_OK) fail ("LAYOUT offsets rejected", i); else if (o_[i] != O_) fail ("LAYOUT field offset", i); } while (0)
'''
SC = [('uint8_t', 'ffi_type_uint8'), ('int8_t', 'ffi_type_sint8'), ('uint16_t', 'ffi_type_uint16'), ('int16_t', 'ffi_type_sint16'),
      ('uint32_t', 'ffi_type_uint32'), ('int32_t', 'ffi_type_sint32'), ('uint64_t', 'ffi_type_uint64'), ('int64_t', 'ffi_type_sint64'),
      ('voidp', 'ffi_type_pointer'), ('float', 'ffi_type_float'), ('double', 'ffi_type_double'), ('ldouble', 'ffi_type_longdouble')]
CX = [('_Complex float', 'ffi_type_complex_float'), ('_Complex double', 'ffi_type_complex_double'), ('cldouble', 'ffi_type_complex_longdouble')]
INTCX = [('_Complex signed char', 'ffi_type_sint8', 'i8'), ('_Complex int', 'ffi_type_sint32', 'i32'), ('_Complex short', 'ffi_type_sint16', 'i16'), ('_Complex long', 'ffi_type_sint64', 'i64')]

class Gen:
    def __init__(self, seed, win=False):
        self.r = random.Random(seed); self.win = win
        self.decl = []; self.n = 0; self.lay = []
    def scalar(self):
        r = self.r
        x = r.random()
        if x < .10: return r.choice(CX)
        if x < .25: return r.choice(SC[9:])
        return r.choice(SC)
    def blob(self):
        r = self.r; self.n += 1; my = self.n
        c0, f0 = r.choice([SC[0], SC[0], SC[0], SC[2], SC[9], SC[10], SC[4], SC[7]]); sz = {SC[0][0]: 1, SC[2][0]: 2, SC[10][0]: 8, SC[7][0]: 8}.get(c0, 4)
        k = max(1, r.choice([r.randrange(1, 34), r.randrange(1, 34), r.randrange(9, 17), r.choice([100, 255, 256, 2000, 4095, 4096, 4097, 9000])]) // sz)
        c = 'struct s%d' % my; f = 't%d' % my
        self.decl.append('%s { %s m0[%d]; };' % (c, c0, k))
        self.decl.append('static ffi_type *%s_e[] = { [0 ... %d] = &%s, NULL }; static ffi_type %s = { 0, 0, FFI_TYPE_STRUCT, %s_e };' % (f, k - 1, f0, f, f))
        self.lay.append((c, f, 0))
        return (c, f)
    def struct(self, depth=0):
        r = self.r
        if not depth and r.random() < .3: return self.blob()
        self.n += 1; my = self.n
        k = r.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 8, 17] if depth else [1, 1, 2, 2, 3, 3, 4, 5, 6, 9])
        els = []
        style = r.choice(['any', 'any', 'fp', 'int', 'small', 'mix'])
        for _ in range(k):
            if r.random() < .2 and depth < 3: els.append(self.struct(depth + 1)); continue
            if style == 'fp': els.append(r.choice([SC[9], SC[9], SC[10]]))
            elif style == 'int': els.append(r.choice(SC[:9]))
            elif style == 'small': els.append(r.choice(SC[:6] + [SC[9]]))
            elif style == 'mix': els.append(r.choice([SC[0], SC[4], SC[9], SC[10], SC[6]]))
            else: els.append(self.scalar())
        c = 'struct s%d' % my; f = 't%d' % my
        self.decl.append('%s { %s };' % (c, ' '.join('%s m%d;' % (e[0], i) for i, e in enumerate(els))))
        self.decl.append('static ffi_type *%s_e[] = { %s, NULL }; static ffi_type %s = { 0, 0, FFI_TYPE_STRUCT, %s_e };' % (f, ', '.join('&' + e[1] for e in els), f, f))
        self.lay.append((c, f, len(els)))
        return (c, f)
    def type(self, void=False):
        r = self.r
        if void and r.random() < .05: return ('void', 'ffi_type_void')
        if r.random() < .04:
            c, e, nm = r.choice(INTCX); self.n += 1; f = 'ci%d' % self.n
            self.decl.append('static ffi_type *%s_e[] = { &%s, NULL }; static ffi_type %s = { 2 * sizeof (%s) / 2, _Alignof (%s), FFI_TYPE_COMPLEX, %s_e };' % (f, e, f, c, c, f))
            return (c, f)
        return self.struct() if r.random() < .45 else self.scalar()

def gen(seed, count=24, what=('call', 'closure', 'go'), win=False):
    g = Gen(seed, win); r = g.r
    body, names = [], []
    for i in range(count):
        nd = len(g.decl); nl = len(g.lay)
        style = r.random()
        if style < .2:
            n = r.choice([7, 9, 12, 20]); pool = [g.type() for _ in range(2)] + [SC[10], SC[9], SC[6]]; args = [r.choice(pool) for _ in range(n)]
        else: n = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 10, 14]); args = [g.type() for _ in range(n)]
        rt = g.type(True)
        abi = r.choice(['FFI_GNUW64', 'FFI_WIN64', 'FFI_EFI64'] if win else ['FFI_UNIX64'])
        at = '__attribute__ ((ms_abi)) ' if win else ''
        b = []
        b += g.decl[nd:]
        params = ', '.join('%s a%d' % (a[0], k) for k, a in enumerate(args)) or 'void'
        ret = '%s' % rt[0]
        b.append('static ffi_cif cif%d; static ffi_type *at%d[] = { %s };' % (i, i, ', '.join(['&' + a[1] for a in args] + ['NULL'])))
        b.append('static %s %sf%d (%s) { ncallee++;' % (ret, at, i, params))
        for k, a in enumerate(args): b.append('  if (cmpt (&%s, (char *) &a%d, abuf[%d])) fail ("ARG argument", %d);' % (a[1], k, k, k))
        b.append('  {char loc[16] __attribute__((aligned(16))); (void) loc;}')
        if ret != 'void': b.append('  return *(%s *) rexp;' % ret)
        b.append('}')
        b.append('typedef %s (%s*F%d) (%s);' % (ret, at, i, params))
        b.append('static void *code%d; static void cl%d (void) {' % (i, i))
        callx = '((F%d) code%d) (%s)' % (i, i, ', '.join('*(%s *) abuf[%d]' % (a[0], k) for k, a in enumerate(args)))
        b.append('  %s;' % callx if ret == 'void' else '  %s x = %s; if (cmpt (&%s, (char *) &x, rexp)) fail ("CRET closure return value", 0);' % (ret, callx, rt[1]))
        b.append('}')
        b.append('static void test%d (void) { static ffi_cif cif; int n0;' % i)
        b.append('  cur = "test%d %s (%s)"; rng = %d;' % (i, ret, params.replace('"', ''), r.randrange(1 << 30)))
        b.append('  PREP (%s, %d, &%s, at%d);' % (abi, len(args), rt[1], i))
        for c, f, ne in g.lay[nl:]:
            for k in range(ne): b.append('  OFFS (%s, %d, offsetof (%s, m%d), %s);' % (f, k, c, k, c))
            b.append('  LAY (%s, %s);' % (f, c))
        b.append('  for (int rep = 0; rep < 3; rep++) { setup (&cif); n0 = ncallee; vprep (); vtarget = (void *) f%d;' % i)
        go = ' if (rep == 2) { vcall (ffi_call_go, &cif, %s, rbuf, av, (void *) 0x1234567812345678); if (RR->r10 != 0x1234567812345678ul) fail ("GO static chain", 0); } else'
        direct = '(void *) vprobe'
        b.append('   ' + (go % direct if go else '') + ' vcall (ffi_call, &cif, %s, rbuf, av, 0);' % direct)
        b.append('    vcheck (); if (ncallee != n0 + 1) fail ("CALL not called exactly once", ncallee - n0); rcheck (&cif, %d); callerdata (&cif);' % (0 if win else 1))
        b.append('    memset (rbuf, 0xA5, sizeof rbuf); n0 = ncallee; vprep (); vcall (ffi_call, &cif, %s, 0, av, 0); vcheck (); if (ncallee != n0 + 1) fail ("CALL not called exactly once with null rvalue", 0); callerdata (&cif);' % direct)
        b.append('    if (RR->spc % 16 != 8) fail ("STATE stack not aligned at call", (int) (RR->spc % 16));' + ('' if win else ' if (RR->al > 8) fail ("ARG al", (int) RR->al);'))
        b.append('  }')
        b.append('  { void *code, *c2; ffi_closure *c = ffi_closure_alloc (sizeof *c, &code), *d = ffi_closure_alloc (sizeof *d, &c2);')
        b.append('    if (!c || !d) { fail ("POOL closure allocation", 0); return; } if (c == d || code == c2) fail ("POOL same closure twice", 0);')
        b.append('    static ffi_cif vc; ffi_prep_cif (&vc, FFI_DEFAULT_ABI, 0, &ffi_type_void, 0);')
        b.append('    if (ffi_prep_closure_loc (c, &cif, hcheck, (void *) &cif, code) != FFI_OK) fail ("PREP closure rejected", 0);')
        b.append('    if (ffi_prep_closure_loc (d, &vc, hcheck, (void *) &vc, c2) != FFI_OK) fail ("PREP closure rejected", 1);')
        b.append('    for (int rep = 0; rep < 3; rep++) { setup (&cif); huser = &cif; clsave[4] = (unsigned long) code; code%d = (void *) clstub; n0 = nhandler; vprep (); vcall (cl%d, 0, 0, 0, 0, 0); vcheck (); if (nhandler != n0 + 1) fail ("CLOS handler not run exactly once", 0); %s }' % (i, i, 'ffi_type *q = cif.rtype; int k = q->type; size_t z = q->size; if ((k == FFI_TYPE_STRUCT || k == FFI_TYPE_COMPLEX || k == FFI_TYPE_LONGDOUBLE) && z != 1 && z != 2 && z != 4 && z != 8 && clsave[3] != clsave[2]) fail ("CRET result address not in rax", 0);' if win else 'if (cif.rtype->type == FFI_TYPE_STRUCT && cif.rtype->size > 16 && clsave[3] != clsave[1]) fail ("CRET result address not in rax", 0);'))
        b.append('    ffi_closure_free (d); setup (&cif); vprep (); vcall (cl%d, 0, 0, 0, 0, 0); vcheck (); ffi_closure_free (c); }' % i)
        if 1:
            b.append('  { static ffi_go_closure gc; if (ffi_prep_go_closure (&gc, &cif, hcheck) != FFI_OK) fail ("GO prep", 0); vtarget = gc.tramp; code%d = (void *) gostub; gochain = &gc;' % i)
            b.append('    setup (&cif); huser = &gc; n0 = nhandler; vprep (); vcall (cl%d, 0, 0, 0, 0, 0); vcheck (); if (nhandler != n0 + 1) fail ("GO closure handler not run exactly once", 0); }' % i)
        b.append('}')
        body.append('\n'.join(b)); names.append('test%d' % i)
    src = '#include <complex.h>\ntypedef void *voidp; typedef long double ldouble; typedef _Complex long double cldouble;\n' + RUNTIME
    src += 'void *gochain; void gostub (void);\n__asm__ (".text\\ngostub:\\n mov gochain(%rip),%r10\\n jmp *vtarget(%rip)\\n");\n'
    src += '\n'.join(body)
    src += '\nint main (int argc, char **argv) { signal (SIGSEGV, onsig); signal (SIGBUS, onsig); signal (SIGILL, onsig); signal (SIGABRT, onsig); signal (SIGALRM, onsig); signal (SIGFPE, onsig); signal (SIGTRAP, onsig); alarm (60);\n static char stk[1 << 16]; stack_t ss = { .ss_sp = stk, .ss_size = sizeof stk }; (void) ss;\n'
    for n in names: src += '  %s ();\n' % n
    src += '  printf ("%d failures\\n", fails); return fails != 0; }\n'
    return src

def compile_run(lib, src, name, d, timeout=120, cc=('gcc', '-O1'), link=(), env=None):
    c = os.path.join(d, name + '.c'); x = os.path.join(d, name + '.x')
    open(c, 'w').write(src)
    r = subprocess.run(list(cc) + ['-w', '-Wno-psabi'] + build.cflags() + [c, lib, '-o', x, '-lpthread', '-lm'] + list(link), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return ('error', '\n'.join(l for l in r.stdout.split('\n') if 'error' in l or 'multiple' in l)[:1500])
    try: r = subprocess.run([x], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired: return ('fail', 'FAIL time-out')
    os.unlink(x)
    return ('fail' if r.returncode else 'ok', r.stdout[-3000:])

FILES, EXTRA = {}, {}
def search(drv, pid, seed, tier, budget, info):
    """-> dict describing a failing run, or None"""
    t0 = time.time()
    X = EXTRA.get(drv, {})
    lib = build.native_lib(X.get('lib', ()))
    d = os.path.join(build.scratch(), 'drv-' + drv); os.makedirs(d, exist_ok=True)
    jobs = []
    if drv in ('sysv', 'win'):
        k = 0
        def jobs_it():
            i = 0
            while True: yield ('%s%d' % (drv, i), gen((seed * 7919 + i) * 2 + (drv == 'win'), win=(drv == 'win'))); i += 1
        it = jobs_it(); limit = 32 if tier == 'quick' else 120
    else:
        L = FILES[drv](seed); it = iter(L); limit = len(L)
    n = 0
    with ThreadPoolExecutor(8) as ex:
        while n < limit and time.time() - t0 < budget:
            batch = []
            for _ in range(8):
                if n >= limit: break
                try: nm, src = next(it)[:2]
                except StopIteration: limit = n; break
                batch.append((nm, src)); n += 1
            for (nm, src), (st, out) in zip(batch, ex.map(lambda b: compile_run(lib, b[1], b[0], d, **{k: v for k, v in X.items() if k in ('cc', 'link')}), batch)):
                if st == 'fail':
                    info.append('%s: failing run found after %d programs' % (drv, n))
                    return dict(driver=drv, program=src, output=out[-2000:], what=next((l for l in out.split('\n') if l.startswith('FAIL')), next((l for l in out.split('\n') if 'ThreadSanitizer' in l), out[-300:])))
                if st == 'error': info.append('%s: %s' % (nm, out[:300]))
    info.append('%s: %d generated programs run against the real library, no failing run' % (drv, n))
    return None
def load():
    from . import drivers
if __name__ == "__main__":
    inf = []
    from vf import native, drivers
    f = native.search(sys.argv[1], 'X', int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else 'quick', 300, inf)
    print(inf[:5])
    if f: open('/tmp/w/fail.c', 'w').write(f['program']); print(f['output'][:1500])
