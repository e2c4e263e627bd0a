"""Native drivers (counterexample search) for the machine-independent parts.  Like
native.py they only turn a failed obligation into a failing run of the real library."""
import random
from . import native

HEAD = '#define _GNU_SOURCE\n#include <complex.h>\n#include <wchar.h>\ntypedef void *voidp; typedef long double ldouble; typedef _Complex float cfloat; typedef _Complex double cdouble; typedef _Complex long double cldouble;\n'
MAIN = '''
int main (int argc, char **argv) { signal (SIGSEGV, onsig); signal (SIGBUS, onsig); signal (SIGILL, onsig); signal (SIGABRT, onsig); signal (SIGALRM, onsig); signal (SIGFPE, onsig); signal (SIGTRAP, onsig); alarm (60);
%s
  printf ("%%d failures\\n", fails); return fails != 0; }
'''
LEAF = [('uint8_t', 'uint8'), ('int8_t', 'sint8'), ('uint16_t', 'uint16'), ('int16_t', 'sint16'), ('uint32_t', 'uint32'), ('int32_t', 'sint32'),
        ('uint64_t', 'uint64'), ('int64_t', 'sint64'), ('voidp', 'pointer'), ('float', 'float'), ('double', 'double'), ('ldouble', 'longdouble'),
        ('cfloat', 'complex_float'), ('cdouble', 'complex_double'), ('cldouble', 'complex_longdouble')]

def prep_prog(seed):
    R = random.Random(seed)
    b, main, n = [], [], 0
    structs = []
    for i in range(60):
        k = R.choice([1, 1, 2, 3, 3, 4, 5, 8, 13, 40] if i % 10 == 9 else [1, 2, 3, 4, 5])
        mem = []
        for j in range(k):
            if structs and R.random() < .3: s = R.choice(structs[-6:]); mem.append(('struct S%d' % s, 'T%d' % s))
            else: c, f = R.choice(LEAF); mem.append((c, 'ffi_type_%s' % f))
        b.append('struct S%d { %s };' % (i, ' '.join('%s m%d;' % (c, j) for j, (c, _) in enumerate(mem))))
        b.append('static ffi_type *E%d[] = { %s, 0 }; static ffi_type T%d = { 0, 0, FFI_TYPE_STRUCT, E%d };' % (i, ', '.join('&' + f for _, f in mem), i, i))
        b.append('static void lay%d (const char *how) { cur = how; if (T%d.size != sizeof (struct S%d)) fail ("LAYOUT size of S%d", (int) T%d.size); if (T%d.alignment != _Alignof (struct S%d)) fail ("LAYOUT alignment of S%d", T%d.alignment); if (T%d.type != FFI_TYPE_STRUCT || T%d.elements != E%d) fail ("LAYOUT descriptor changed", %d); }' % ((i,) * 13))
        b.append('static void off%d (void) { size_t o[%d]; memset (o, 0xA5, sizeof o); cur = "get_struct_offsets"; if (ffi_get_struct_offsets (FFI_DEFAULT_ABI, &T%d, o) != FFI_OK) fail ("OFFSETS rejected", %d);' % (i, k + 1, i, i)
                 + ' '.join('if (o[%d] != offsetof (struct S%d, m%d)) fail ("OFFSETS member of S%d", %d);' % (j, i, j, i, j) for j in range(k)) + ' if (o[%d] != 0xA5A5A5A5A5A5A5A5ul) fail ("OFFSETS written past the end", %d); lay%d ("get_struct_offsets"); }' % (k, i, i))
        structs.append(i)
    used = lambda i: i
    # one program state, three orders: offsets first, as argument, as return type, then again
    for i in structs:
        how = R.choice(['off', 'arg', 'ret', 'null'])
        if how == 'off': main.append('  off%d ();' % i)
        if how == 'null': main.append('  if (ffi_get_struct_offsets (FFI_DEFAULT_ABI, &T%d, 0) != FFI_OK) fail ("OFFSETS rejected", %d); lay%d ("offsets null");' % (i, i, i))
        if how in ('arg', 'ret'):
            j = R.choice(structs[:i + 1])
            main.append('  { ffi_cif c; memset (&c, 0x5a, sizeof c); static ffi_type *a[] = { &ffi_type_sint32, &T%d, &T%d, &ffi_type_double }; ffi_type sv = ffi_type_double; cur = "prep_cif"; if (ffi_prep_cif (&c, FFI_DEFAULT_ABI, 4, &T%d, a) != FFI_OK) fail ("PREP well-formed rejected", %d); lay%d ("prep"); lay%d ("prep");' % (i, j, R.choice([i, j]), i, i, j)
                        + ' if (c.abi != FFI_DEFAULT_ABI || c.nargs != 4 || c.arg_types != a || a[1] != &T%d || a[2] != &T%d) fail ("RECORD signature", %d); if (memcmp (&sv, &ffi_type_double, sizeof sv)) fail ("FRAME predefined type changed", 0); }' % (i, j, i))
    main.append('  for (int r = 0; r < 2; r++) {')
    for i in structs: main.append('   off%d (); { ffi_cif c; ffi_type *a[] = { &T%d }; ffi_type s = T%d; cur = "prep again"; if (ffi_prep_cif (&c, FFI_DEFAULT_ABI, 1, &ffi_type_void, a) != FFI_OK) fail ("PREP laid out type rejected", %d); if (memcmp (&s, &T%d, sizeof s)) fail ("FRAME laid out type changed", %d); if (c.rtype != &ffi_type_void) fail ("RECORD return type", 0); }' % (i, i, i, i, i, i))
    main.append('  }')
    return HEAD + native.RUNTIME + '\n'.join(b) + MAIN % '\n'.join(main)

BAD = r'''
#define ST(n, ...) ffi_type *n##e[] = { __VA_ARGS__ }; ffi_type n = { 0, 0, FFI_TYPE_STRUCT, n##e }
static void verdict (int abi, ffi_type *r, int n, ffi_type **a, int want, const char *w)
{ cur = w;
  for (int k = 0; k < 4; k++) { ffi_cif c; int g = ffi_prep_cif (&c, abi, n, r, a); if (g != want) fail ("VERDICT prep_cif", k * 100 + g);
    if (n) { g = ffi_prep_cif_var (&c, abi, 1, n, r, a); if (g != want && !(want == FFI_OK && g == FFI_BAD_ARGTYPE)) fail ("VERDICT prep_cif_var", k * 100 + g); } } }
static void bad (ffi_type *t, const char *w, int want)
{ int V = FFI_DEFAULT_ABI;
  size_t o[8];
  for (int k = 0; k < 3; k++) if (t->type == FFI_TYPE_STRUCT) { cur = w; int g = ffi_get_struct_offsets (V, t, k & 1 ? o : 0); if (g != want) fail ("VERDICT get_struct_offsets", k * 100 + g); }
  ffi_type *a1[] = { t }, *a3[] = { &ffi_type_sint, &ffi_type_double, t }, *a2[] = { t, &ffi_type_sint }, *a4[] = { t, t };
  verdict (V, &ffi_type_void, 1, a1, want, w); verdict (V, &ffi_type_sint, 3, a3, want, w); verdict (V, &ffi_type_sint, 2, a2, want, w); verdict (V, &ffi_type_void, 2, a4, want, w);
  verdict (V, t, 0, 0, want, w); ffi_type *g3[] = { &ffi_type_sint, &ffi_type_pointer, &ffi_type_double }; verdict (V, t, 3, g3, want, w); verdict (V, t, 2, a2, want, w);
  ST (in1, t, 0); ST (in2, &ffi_type_sint, t, 0); ST (in3, t, &ffi_type_uint8, 0); ST (in4, &in2, &ffi_type_uint8, 0); ST (in5, &ffi_type_uint8, &in1, &in3, 0);
  ffi_type *l[] = { &in1, &in2, &in3, &in4, &in5 };
  for (int r = 0; r < 2; r++) for (int i = 0; i < 5; i++) { ffi_type *x[] = { l[i] }; verdict (V, &ffi_type_void, 1, x, want, w); verdict (V, l[i], 0, 0, want, w);
    if (ffi_get_struct_offsets (V, l[i], o) != want) fail ("VERDICT nested offsets", i); }
}
static void malformed (void)
{
  { ST (e, 0); bad (&e, "empty struct", FFI_BAD_TYPEDEF); }
  { ffi_type n = { 0, 0, FFI_TYPE_STRUCT, 0 }; bad (&n, "no member list", FFI_BAD_TYPEDEF); }
  { ffi_type n = { 0, 0, FFI_TYPE_COMPLEX, 0 }; bad (&n, "complex without element", FFI_BAD_TYPEDEF); }
  { ffi_type n = { 0, 4, FFI_TYPE_SINT32, 0 }; bad (&n, "scalar without size", FFI_BAD_TYPEDEF); }
  { ST (e, 0); ST (f, &e, 0); bad (&f, "struct of empty struct", FFI_BAD_TYPEDEF); }
  { ST (e, 0); ST (f, &ffi_type_sint, &e, 0); ST (g, &ffi_type_double, &f, 0); bad (&g, "deep", FFI_BAD_TYPEDEF); bad (&f, "deep", FFI_BAD_TYPEDEF); bad (&e, "deep", FFI_BAD_TYPEDEF); }
  { ST (e, &ffi_type_sint, 0); bad (&e, "fine", FFI_OK); }
  { ST (e, &ffi_type_sint, 0); ST (f, &e, &e, 0); ST (g, &f, &e, &ffi_type_double, 0); bad (&g, "fine nested", FFI_OK); }
  { ffi_type n = { 24, 8, FFI_TYPE_STRUCT, 0 }; ffi_type *els[] = { &ffi_type_double, &ffi_type_double, &ffi_type_double, 0 }; n.elements = els; bad (&n, "laid out by hand", FFI_OK); }
  /* an alignment of its own */
  { ffi_type n = { 32, 16, FFI_TYPE_STRUCT, 0 }; ffi_type *els[] = { &ffi_type_double, &ffi_type_double, &ffi_type_double, 0 }; n.elements = els; ffi_type s = n; ST (in, &n, 0); ffi_type *a[] = { &in, &n }; verdict (FFI_DEFAULT_ABI, &n, 2, a, FFI_OK, "hand-made"); if (memcmp (&s, &n, sizeof n)) fail ("FRAME laid out type changed", 0); if (in.size != 32 || in.alignment != 16) fail ("LAYOUT around a laid out member", 0); }
}
static ffi_type *scal[] = { &ffi_type_uint8, &ffi_type_sint8, &ffi_type_uint16, &ffi_type_sint16, &ffi_type_uint32, &ffi_type_sint32, &ffi_type_uint64, &ffi_type_sint64, &ffi_type_pointer, &ffi_type_double, &ffi_type_longdouble, &ffi_type_float,
  &ffi_type_complex_float, &ffi_type_complex_double, &ffi_type_complex_longdouble };
/* members with sizes and alignments of their own, up to 2^40 bytes and 2^15 */
static void big (void)
{
  static const unsigned long SZ[] = { 1, 3, 24, 200, 255, 256, 257, 65535, 65536, 1ul << 31, 0xfffffff9ul, 1ul << 32, 0x100000008ul, (1ul << 33) + 5, 1ul << 39 };
  cur = "hand-made members";
  for (int r = 0; r < 4000; r++) {
    static ffi_type m[8]; static ffi_type *me[2] = { &ffi_type_uint8, 0 }, *e[9]; int n = 1 + rnd () % 8; size_t end = 0, off[9]; unsigned al = 0;
    for (int i = 0; i < n; i++) { e[i] = &m[i]; if (rnd () % 3 == 0) { e[i] = scal[rnd () % 15]; } else { m[i].alignment = 1u << rnd () % 16; m[i].size = SZ[rnd () % 15]; m[i].type = FFI_TYPE_STRUCT; m[i].elements = me; }
      size_t a = e[i]->alignment; end = (end + a - 1) & -a; off[i] = end; end += e[i]->size; if (a > al) al = a; }
    e[n] = 0; end = (end + al - 1) & -(size_t) al;
    ffi_type t = { 0, 0, FFI_TYPE_STRUCT, e }, u = t; size_t o[9]; memset (o, 0x5a, sizeof o);
    if (ffi_get_struct_offsets (FFI_DEFAULT_ABI, &t, o) != FFI_OK) fail ("LAYOUT rejected", n);
    if (t.size != end) fail ("LAYOUT size of an aggregate with large members", n); if (t.alignment != al) fail ("LAYOUT alignment", t.alignment);
    for (int i = 0; i < n; i++) if (o[i] != off[i]) fail ("LAYOUT offset", i); if (o[n] != 0x5a5a5a5a5a5a5a5aul) fail ("OFFSETS written past the end", n);
    if (end < 1u << 20 && al <= 16) { ffi_cif c; ffi_type *a[] = { &u }; if (ffi_prep_cif (&c, FFI_DEFAULT_ABI, 1, &ffi_type_void, a) != FFI_OK || u.size != end || u.alignment != al) fail ("LAYOUT while preparing", n); } }
}
static void abis (void)
{
  static const unsigned odd[] = { 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100, 0x10002, 1000000 };
  for (int i = -3; i < 70; i++) { unsigned v = i < 64 ? (unsigned) i : odd[i - 64]; int known = v == FFI_UNIX64 || v == FFI_WIN64 || v == FFI_GNUW64;
    ffi_type *a[] = { &ffi_type_sint, &ffi_type_double }; ST (s, &ffi_type_sint, 0); ST (e, 0); size_t o[2]; ffi_cif c;
    verdict (v, &ffi_type_sint, 2, a, known ? FFI_OK : FFI_BAD_ABI, "abi");
    verdict (v, &e, 2, a, known ? FFI_BAD_TYPEDEF : FFI_BAD_ABI, "abi");
    if (ffi_get_struct_offsets (v, &s, o) != (known ? FFI_OK : FFI_BAD_ABI)) fail ("VERDICT abi of get_struct_offsets", i);
    if (ffi_get_struct_offsets (v, &ffi_type_double, o) != (known ? FFI_BAD_TYPEDEF : FFI_BAD_ABI)) fail ("VERDICT abi of get_struct_offsets", i);
    if (ffi_get_struct_offsets (v, &ffi_type_complex_double, o) != (known ? FFI_BAD_TYPEDEF : FFI_BAD_ABI)) fail ("VERDICT non-struct", i);
    if (ffi_prep_cif_var (&c, v, 1, 2, &ffi_type_sint, a) != (known ? FFI_OK : FFI_BAD_ABI)) fail ("VERDICT abi of prep_cif_var", i); }
}
static void variadic (void)
{
  static ffi_type *b1[] = { &ffi_type_uint8, 0 }, *b2[] = { &ffi_type_float, 0 }; ffi_type s1 = { 0, 0, FFI_TYPE_STRUCT, b1 }, s2 = { 0, 0, FFI_TYPE_STRUCT, b2 };
  static ffi_type *ce[] = { &ffi_type_sint8, 0 }; ffi_type c1 = { 2, 1, FFI_TYPE_COMPLEX, ce };
  ffi_type *all[18]; int na = 0; for (int i = 0; i < 15; i++) all[na++] = scal[i]; all[na++] = &s1; all[na++] = &s2; all[na++] = &c1;
  cur = "variadic";
  for (int abi = 0; abi < 3; abi++) for (int n = 1; n <= 9; n++) for (int nf = 1; nf <= n; nf++) for (int r = 0; r < 60; r++) {
    static const int AB[] = { FFI_UNIX64, FFI_WIN64, FFI_GNUW64 }; static ffi_type *a[9]; int want = FFI_OK;
    for (int i = 0; i < n; i++) { a[i] = all[i < nf || rnd () % 8 == 0 ? rnd () % na : 4 + rnd () % 7]; if (i == n - 1 && r < na) a[i] = all[r];
      ffi_type *t = a[i]; if (i >= nf && (t == &ffi_type_float || (t->type != FFI_TYPE_STRUCT && t->type != FFI_TYPE_COMPLEX && t->size < 4))) want = FFI_BAD_ARGTYPE; }
    ffi_cif c, d; memset (&c, 0x11, sizeof c); memset (&d, 0x11, sizeof d);
    ffi_type *rt = all[rnd () % na];
    int g = ffi_prep_cif_var (&c, AB[abi], nf, n, rt, a);
    if (g != want) fail ("VARIADIC verdict", want * 1000 + g * 100 + n * 10 + nf);
    if (ffi_prep_cif (&d, AB[abi], n, rt, a) != FFI_OK) fail ("VERDICT plain", n);
    if (g == FFI_OK && memcmp (&c, &d, sizeof c)) fail ("VARIADIC interface differs from the plain one", n);
    if (d.abi != AB[abi] || d.nargs != n || d.arg_types != a || d.rtype != rt) fail ("RECORD signature", n); }
  /* malformed after a bad variable argument: malformed wins */
  { ST (e, 0); ffi_type *a[] = { &ffi_type_sint, &ffi_type_float, &e }; ffi_cif c; if (ffi_prep_cif_var (&c, FFI_DEFAULT_ABI, 1, 3, &ffi_type_void, a) != FFI_BAD_TYPEDEF) fail ("VARIADIC malformed", 0); }
}
'''
def native_types():
    """every predefined type against the compiler's own view of the C type"""
    T = [('unsigned char', 'uchar', 'UINT8'), ('signed char', 'schar', 'SINT8'), ('unsigned short', 'ushort', 'UINT16'), ('short', 'sshort', 'SINT16'), ('unsigned', 'uint', 'UINT32'), ('int', 'sint', 'SINT32'),
         ('unsigned long', 'ulong', 'UINT64'), ('long', 'slong', 'SINT64'), ('uint8_t', 'uint8', 'UINT8'), ('int8_t', 'sint8', 'SINT8'), ('uint16_t', 'uint16', 'UINT16'), ('int16_t', 'sint16', 'SINT16'),
         ('uint32_t', 'uint32', 'UINT32'), ('int32_t', 'sint32', 'SINT32'), ('uint64_t', 'uint64', 'UINT64'), ('int64_t', 'sint64', 'SINT64'), ('void *', 'pointer', 'POINTER'), ('float', 'float', 'FLOAT'), ('double', 'double', 'DOUBLE'), ('long double', 'longdouble', 'LONGDOUBLE')]
    out = []
    for c, n, k in T: out.append('  cur = "ffi_type_%s"; if (ffi_type_%s.size != sizeof (%s)) fail ("TYPES size", (int) ffi_type_%s.size); if (ffi_type_%s.alignment != _Alignof (%s)) fail ("TYPES alignment", ffi_type_%s.alignment); if (ffi_type_%s.type != FFI_TYPE_%s) fail ("TYPES kind", ffi_type_%s.type); if (ffi_type_%s.elements) fail ("TYPES members", 0);' % (n, n, c, n, n, c, n, n, k, n, n))
    for c in ('float', 'double', 'long double'):
        n = c.replace(' ', '')
        out.append('  cur = "ffi_type_complex_%s"; { ffi_type *t = &ffi_type_complex_%s; if (t->size != sizeof (_Complex %s)) fail ("TYPES size", (int) t->size); if (t->alignment != _Alignof (_Complex %s)) fail ("TYPES alignment", t->alignment); if (t->type != FFI_TYPE_COMPLEX) fail ("TYPES kind", t->type); if (!t->elements || t->elements[0] != &ffi_type_%s || t->elements[1]) fail ("TYPES element", 0); }' % (n, n, c, c, n))
    out.append('  cur = "ffi_type_void"; if (ffi_type_void.size != 1 || ffi_type_void.alignment != 1 || ffi_type_void.type != FFI_TYPE_VOID || ffi_type_void.elements) fail ("TYPES void", 0);')
    return '\n'.join(out)

def prep_files(seed):
    for i in range(3): yield ('prepbad%d' % i, HEAD + native.RUNTIME + BAD + MAIN % ('  rng = %d; malformed (); big (); abis (); variadic ();\n' % (seed * 100 + i) + native_types()))
    for i in range(9): yield ('prep%d' % i, prep_prog(seed * 1000 + i))
native.FILES['prep'] = lambda seed: list(prep_files(seed))
native.FILES['types'] = lambda seed: [('types', HEAD + native.RUNTIME + MAIN % native_types())]

BIND = r'''
#include <sys/mman.h>
#include <sys/syscall.h>
#define MS __attribute__ ((ms_abi))
typedef struct { long a, b, c; } S3; typedef struct { double d; long l; } SM;
static ffi_type *s3e[] = { &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, 0 }, *sme[] = { &ffi_type_double, &ffi_type_slong, 0 };
static ffi_type s3 = { 0, 0, FFI_TYPE_STRUCT, s3e }, sm = { 0, 0, FFI_TYPE_STRUCT, sme };
/* signatures: every one has a cif per ABI */
enum { KI, KD, KS, KM, KV, NK }; static const int ABIS[] = { FFI_UNIX64, FFI_WIN64, FFI_GNUW64 };
static ffi_cif cifs[NK][3][2]; /* two different but equal interfaces each */
static ffi_type *ai[] = { &ffi_type_sint, &ffi_type_slong }, *ad[] = { &ffi_type_double, &ffi_type_double }, *as[] = { &s3, &ffi_type_sint }, *am[] = { &sm };
static ffi_type **AT[] = { ai, ad, as, am, 0 }; static ffi_type *RT[] = { &ffi_type_slong, &ffi_type_double, &ffi_type_slong, &sm, &ffi_type_void }; static const int NA[] = { 2, 2, 2, 1, 0 };
typedef struct { int alive, k, abi, w, h; ffi_closure *c; void *code; long user[2]; ffi_cif *cif; void *uptr; } cell;
#define N 3000
static cell cells[N]; static cell *expect; static int ran, want_h;
static void got (int h, ffi_cif *cif, void *ret, void **args, void *user)
{
  ran++; cell *e = expect;
  if (h != e->h) fail ("BIND another function ran", h); if (cif != e->cif) fail ("BIND another call interface", e->k); if (user != e->uptr) fail ("BIND another user data", e->k);
  switch (e->k) {
  case KI: *(ffi_sarg *) ret = *(int *) args[0] + *(long *) args[1]; break;
  case KD: *(double *) ret = *(double *) args[0] - *(double *) args[1]; break;
  case KS: *(ffi_sarg *) ret = ((S3 *) args[0])->a + ((S3 *) args[0])->c * *(int *) args[1]; break;
  case KM: { SM *x = args[0], *r = ret; r->d = x->d * 2; r->l = x->l + 1; } }
}
#define H(i) static void h##i (ffi_cif *c, void *r, void **a, void *u) { got (i, c, r, a, u); }
H(0) H(1) H(2) H(3) H(4)
static void (*HS[]) (ffi_cif *, void *, void **, void *) = { h0, h1, h2, h3, h4 };
void *gochain, *gotgt; void gostub (void);
__asm__ (".text\ngostub:\n mov gochain(%rip),%r10\n jmp *gotgt(%rip)\n");
static void invoke (cell *e)
{
  void *f = e->code; int w = e->abi != 0; expect = e; int n0 = ran;
  int x = rnd (); long y = rnd (); double p = x / 3.0, q = y / 7.0; S3 s = { y, x, y ^ x }; SM m = { p, y };
  switch (e->k) {
  case KI: { long r = w ? ((MS long (*) (int, long)) f) (x, y) : ((long (*) (int, long)) f) (x, y); if (r != x + y) fail ("BIND result", e->k); break; }
  case KD: { double r = w ? ((MS double (*) (double, double)) f) (p, q) : ((double (*) (double, double)) f) (p, q); if (r != p - q) fail ("BIND result", e->k); break; }
  case KS: { long r = w ? ((MS long (*) (S3, int)) f) (s, x) : ((long (*) (S3, int)) f) (s, x); if (r != s.a + s.c * x) fail ("BIND result", e->k); break; }
  case KM: { SM r = w ? ((MS SM (*) (SM)) f) (m) : ((SM (*) (SM)) f) (m); if (r.d != m.d * 2 || r.l != m.l + 1) fail ("BIND result", e->k); break; }
  case KV: if (w) ((MS void (*) (void)) f) (); else ((void (*) (void)) f) (); }
  if (ran != n0 + 1) fail ("BIND function not run exactly once", ran - n0);
}
static void cifprep (void)
{ for (int k = 0; k < NK; k++) for (int a = 0; a < 3; a++) for (int w = 0; w < 2; w++) if (ffi_prep_cif (&cifs[k][a][w], ABIS[a], NA[k], RT[k], AT[k]) != FFI_OK) fail ("PREP", k); }
static void choose (cell *e) { e->k = rnd () % NK; e->abi = rnd () % 3; e->w = rnd () % 2; e->h = rnd () % 5; e->uptr = rnd () % 9 ? (void *) &e->user[rnd () % 2] : (void *) 0; e->cif = &cifs[e->k][e->abi][e->w]; }
static void prepare (cell *e, int plain)
{
  choose (e);
  if ((plain ? ffi_prep_closure (e->c, e->cif, HS[e->h], e->uptr) : ffi_prep_closure_loc (e->c, e->cif, HS[e->h], e->uptr, e->code)) != FFI_OK) fail ("BIND preparation rejected", e->k);
  if (e->c->cif != e->cif || e->c->fun != HS[e->h] || e->c->user_data != e->uptr) fail ("BIND not recorded", e->k);
  e->alive = 1;
}
static void badabi (cell *e)
{
  static ffi_cif b; memcpy (&b, &cifs[0][0][0], sizeof b); static const int V[] = { 0, 1, 5, 6, 99, -1 }; b.abi = V[rnd () % 6]; ffi_closure s; memcpy (&s, e->c, sizeof s);
  if (ffi_prep_closure_loc (e->c, &b, h0, e, e->code) != FFI_BAD_ABI) fail ("BIND unknown ABI accepted", b.abi);
  if (memcmp (&s, e->c, sizeof s)) fail ("BIND rejected preparation changed the closure", b.abi);
  if (e->alive) invoke (e);
}
static void all (int n) { for (int i = 0; i < n; i++) if (cells[i].alive) invoke (&cells[i]); }
static void pool (int n)
{
  cur = "closures from ffi_closure_alloc";
  for (int r = 0; r < 3; r++) {
    for (int i = 0; i < n; i++) { cell *e = &cells[i];
      if (e->alive && rnd () % 3) { if (rnd () % 2) prepare (e, 0); else { ffi_closure_free (e->c); e->alive = 0; continue; } }
      else if (!e->alive) { e->c = ffi_closure_alloc (sizeof (ffi_closure) + rnd () % 3 * 8, &e->code); if (!e->c) { fail ("POOL allocation", i); return; } prepare (e, 0); }
      invoke (e); if (rnd () % 50 == 0) badabi (e); if (i && cells[i - 1].alive) invoke (&cells[i - 1]); }
    all (n); }
  for (int i = 0; i < n; i++) if (cells[i].alive) { ffi_closure_free (cells[i].c); cells[i].alive = 0; if (rnd () % 100 == 0) all (n); }
}
/* closures in memory of the caller: the code is written into the closure */
static void own (int n, int alias)
{
  size_t sz = (size_t) n * 80; char *w, *x; cur = alias ? "closures in a second mapping" : "closures in the caller's memory";
  if (alias) { int fd = syscall (SYS_memfd_create, "c", 0); if (fd < 0 || ftruncate (fd, sz)) return; w = mmap (0, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); x = mmap (0, sz, PROT_READ | PROT_EXEC, MAP_SHARED, fd, 0); }
  else x = w = mmap (0, sz, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (w == MAP_FAILED || x == MAP_FAILED) return;
  memset (cells, 0, sizeof cells); fillb (w, sz);
  for (int r = 0; r < 3; r++) { for (int i = 0; i < n; i++) { cell *e = &cells[i]; if (e->alive && rnd () % 2) { invoke (e); continue; } size_t o = (size_t) i * 80; e->c = (void *) (w + o); e->code = x + o; char after[80 - sizeof (ffi_closure) + 1]; memcpy (after, w + o + sizeof (ffi_closure), 80 - sizeof (ffi_closure));
      prepare (e, !alias && rnd () % 2); if (memcmp (after, w + o + sizeof (ffi_closure), 80 - sizeof (ffi_closure))) fail ("BIND bytes beyond the closure written", i);
      invoke (e); if (rnd () % 20 == 0) badabi (e); } all (n); }
  memset (cells, 0, sizeof cells);
}
static void goclo (void)
{
  cur = "Go closures"; static ffi_go_closure g[200]; static cell e[200];
  for (int r = 0; r < 3; r++) for (int i = 0; i < 200; i++) { choose (&e[i]); static int kk; ffi_go_closure s; fillb (&g[i], sizeof g[i]); s = g[i];
      ffi_cif b = *e[i].cif; b.abi = i % 3 ? 99 : 0; if (ffi_prep_go_closure (&g[i], &b, h0) != FFI_BAD_ABI) fail ("GO unknown ABI accepted", b.abi); if (memcmp (&s, &g[i], sizeof s)) fail ("GO rejected preparation changed the closure", i);
      if (ffi_prep_go_closure (&g[i], e[i].cif, HS[e[i].h]) != FFI_OK) fail ("GO rejected", i); if (g[i].cif != e[i].cif || g[i].fun != HS[e[i].h]) fail ("GO not recorded", i);
      e[i].uptr = &g[i]; e[i].code = (void *) gostub;
      int j = rnd () % (i + 1); gochain = &g[j]; gotgt = g[j].tramp; invoke (&e[j]); gochain = &g[i]; gotgt = g[i].tramp; invoke (&e[i]); }
}
'''
def bind_files(seed):
    for i in range(6):
        yield ('bind%d' % i, HEAD + native.RUNTIME + BIND + MAIN % ('  rng = %d; cifprep (); pool (%d); goclo (); own (%d, 0); own (%d, 1); pool (%d);' % (seed * 100 + i, [300, 1000, 3000][i % 3], [20, 200, 600][i % 3], [20, 200, 600][i % 3], [40, 700, 1500][i % 3])))
native.FILES['bind'] = lambda seed: list(bind_files(seed))

RAWD = r'''
#define G 64
static ffi_type *se1[] = { &ffi_type_sint8, &ffi_type_double, 0 }, *se2[] = { &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, 0 }, *se3[] = { &ffi_type_float, &ffi_type_float, &ffi_type_float, 0 }, *se4[] = { &ffi_type_uint8, &ffi_type_uint8, &ffi_type_uint8, 0 };
static ffi_type st1 = { 0, 0, FFI_TYPE_STRUCT, se1 }, st2 = { 0, 0, FFI_TYPE_STRUCT, se2 }, st3 = { 0, 0, FFI_TYPE_STRUCT, se3 }, st4 = { 0, 0, FFI_TYPE_STRUCT, se4 };
static ffi_type *P[] = { &ffi_type_uint8, &ffi_type_sint8, &ffi_type_uint16, &ffi_type_sint16, &ffi_type_uint32, &ffi_type_sint32, &ffi_type_uint64, &ffi_type_sint64, &ffi_type_pointer, &ffi_type_float, &ffi_type_double,
  &ffi_type_longdouble, &ffi_type_complex_float, &ffi_type_complex_double, &ffi_type_complex_longdouble, &st1, &st2, &st3, &st4 };
static int J; /* Java flavour */
static int nP (void) { return J ? 11 : 19; }
static size_t words (ffi_type *t) { if (J) return t->type == FFI_TYPE_UINT64 || t->type == FFI_TYPE_SINT64 || t->type == FFI_TYPE_DOUBLE ? 2 : 1;
  return t->type == FFI_TYPE_STRUCT || t->type == FFI_TYPE_COMPLEX ? 1 : (t->size + 7) / 8; }
static int ag (ffi_type *t) { return t->type == FFI_TYPE_STRUCT || t->type == FFI_TYPE_COMPLEX; }
static size_t Xsize (ffi_cif *c) { return J ? ffi_java_raw_size (c) : ffi_raw_size (c); }
static void Xtoptr (ffi_cif *c, void *r, void **a) { J ? ffi_java_raw_to_ptrarray (c, r, a) : ffi_raw_to_ptrarray (c, r, a); }
static void Xtoraw (ffi_cif *c, void **a, void *r) { J ? ffi_java_ptrarray_to_raw (c, a, r) : ffi_ptrarray_to_raw (c, a, r); }
/* r is the raw image of the argument values in abuf, passed by value or by the pointers p */
static void image (ffi_cif *c, char *r, int ptrs, const char *w)
{
  for (unsigned i = 0; i < c->nargs; i++) { ffi_type *t = c->arg_types[i];
    if (ag (t)) { char *p = *(char **) r; if (ptrs && p != abuf[i]) fail (w, i); if (cmpt (t, p, abuf[i])) fail (w, i); }
    else { if (cmpt (t, r, abuf[i])) fail (w, i);
      if (t->size < 8 && t->type != FFI_TYPE_FLOAT) { long v = 0, x = *(long *) r; memcpy (&v, abuf[i], t->size); int k = 64 - 8 * t->size, s = t->type == FFI_TYPE_SINT8 || t->type == FFI_TYPE_SINT16 || t->type == FFI_TYPE_SINT32; if (s) v = (long) ((unsigned long) v << k) >> k; if (x != v) fail ("RAW narrow integer not widened", i); } }
    r += 8 * words (t); }
}
static void rawh (ffi_cif *cif, void *ret, ffi_raw *raw, void *user)
{ nhandler++; if (user != huser) fail ("RAW user data", 0); image (cif, (char *) raw, 0, "RAW closure argument");
  void *a[64]; for (unsigned i = 0; i < cif->nargs; i++) a[i] = abuf[i]; ncallee--; hcheck (cif, ret, a, user); nhandler--; }
static void one (ffi_type *rt, int n, ffi_type **a, int abi)
{
  static ffi_cif cif; if (ffi_prep_cif (&cif, abi, n, rt, a) != FFI_OK) { fail ("PREP", n); return; }
  static char area[1 << 13] __attribute__ ((aligned (16))), before[1 << 13]; void *out[65];
  size_t sz = 0; for (int i = 0; i < n; i++) sz += 8 * words (a[i]);
  if (Xsize (&cif) != sz) fail ("RAW size", (int) Xsize (&cif) - (int) sz);
  setup (&cif); fillb (area, sizeof area); memcpy (before, area, sizeof area);
  Xtoraw (&cif, av, area + G);
  if (memcmp (area, before, G)) fail ("RAW bytes before the area written", n); if (memcmp (area + G + sz, before + G + sz, 256)) fail ("RAW bytes after the area written", n);
  callerdata (&cif); image (&cif, area + G, 1, "RAW image");
  for (int i = 0; i < 65; i++) out[i] = (void *) 0x55; memcpy (before, area, sizeof area);
  Xtoptr (&cif, (void *) (area + G), out);
  if (memcmp (area, before, sizeof area)) fail ("RAW conversion wrote to the area", n); if (out[n] != (void *) 0x55) fail ("RAW pointer past the end", n);
  char *r = area + G; for (int i = 0; i < n; i++) { if (ag (a[i]) ? out[i] != *(void **) r : out[i] != (void *) r) fail ("RAW pointer", i); else if (cmpt (a[i], out[i], abuf[i])) fail ("RAW round trip", i); r += 8 * words (a[i]); }
  /* a raw call of a plain closure */
  void *code, *c2; ffi_closure *c = ffi_closure_alloc (sizeof *c, &code); ffi_raw_closure *d = ffi_closure_alloc (sizeof *d, &c2); if (!c || !d) { fail ("POOL", 0); return; }
  if (ffi_prep_closure_loc (c, &cif, hcheck, c, code) != FFI_OK) fail ("PREP closure", 0);
  huser = c; int n0 = nhandler;
  J ? ffi_java_raw_call (&cif, (void (*) (void)) code, rbuf, (void *) (area + G)) : ffi_raw_call (&cif, (void (*) (void)) code, rbuf, (void *) (area + G));
  if (nhandler != n0 + 1) fail ("RAW call: function not run exactly once", nhandler - n0); rcheck (&cif, abi == FFI_UNIX64);
  J ? ffi_java_raw_call (&cif, (void (*) (void)) code, 0, (void *) (area + G)) : ffi_raw_call (&cif, (void (*) (void)) code, 0, (void *) (area + G));
  if (nhandler != n0 + 2) fail ("RAW call: function not run exactly once", nhandler - n0);
  if (memcmp (area, before, sizeof area)) fail ("RAW call wrote to the area", n);
  /* a raw closure, called plainly */
  ffi_cif b = cif; b.abi = 99; char s[sizeof *d]; memcpy (s, d, sizeof s);
  if ((J ? ffi_prep_java_raw_closure_loc ((void *) d, &b, (void *) rawh, d, c2) : ffi_prep_raw_closure_loc (d, &b, rawh, d, c2)) != FFI_BAD_ABI) fail ("RAW closure with unknown ABI", 0); if (memcmp (s, d, sizeof s)) fail ("RAW rejected closure changed", 0);
  if ((J ? ffi_prep_java_raw_closure_loc ((void *) d, &cif, (void *) rawh, &huser, c2) : ffi_prep_raw_closure_loc (d, &cif, rawh, &huser, c2)) != FFI_OK) fail ("PREP raw closure", 0);
  for (int k = 0; k < 2; k++) { setup (&cif); huser = &huser; n0 = nhandler; ffi_call (&cif, (void (*) (void)) c2, rbuf, av); if (nhandler != n0 + 1) fail ("RAW closure: function not run exactly once", nhandler - n0); rcheck (&cif, abi == FFI_UNIX64); callerdata (&cif); }
  ffi_closure_free (c); ffi_closure_free (d);
}
/* very long signatures: a value and its type follow from the position */
static ffi_type *wt (unsigned i) { return P[(i * 7 + i / 5) % 11]; }
static void wv (unsigned i, char *p) { long v = (long) i * 2654435761u + i; float f = i; double d = i * 0.5; switch (wt (i)->type) { case FFI_TYPE_FLOAT: memcpy (p, &f, 4); break; case FFI_TYPE_DOUBLE: memcpy (p, &d, 8); break; default: memcpy (p, &v, wt (i)->size); } }
static int wok (unsigned i, void *p) { char b[16]; wv (i, b); return !memcmp (b, p, wt (i)->size); }
static unsigned wn; static int wran;
static void wraw (ffi_cif *c, void *r, ffi_raw *raw, void *u) { char *q = (char *) raw; wran++; for (unsigned i = 0; i < wn; i++) { if (!wok (i, q)) { fail ("RAW closure argument", i); break; } q += 8 * words (wt (i)); } }
static void wplain (ffi_cif *c, void *r, void **a, void *u) { wran++; for (unsigned i = 0; i < wn; i++) if (!wok (i, a[i])) { fail ("RAW call argument", i); break; } }
static void wide (unsigned n)
{
  ffi_type **a = malloc (n * sizeof *a); char (*v)[16] = malloc (n * 16); void **p = malloc (n * sizeof *p), **q = malloc ((n + 1) * sizeof *q); size_t sz = 0; ffi_cif c; void *code, *c2; wn = n;
  for (unsigned i = 0; i < n; i++) { a[i] = wt (i); wv (i, v[i]); p[i] = v[i]; sz += 8 * words (a[i]); }
  if (ffi_prep_cif (&c, FFI_UNIX64, n, &ffi_type_void, a) != FFI_OK) { fail ("PREP", n); return; }
  if (Xsize (&c) != sz) fail ("RAW size", n);
  char *r = malloc (sz + 64); memset (r, 0x5a, sz + 64); Xtoraw (&c, p, r); for (int i = 0; i < 64; i++) if (r[sz + i] != 0x5a) { fail ("RAW bytes after the area written", n); break; }
  q[n] = q; Xtoptr (&c, (void *) r, q); if (q[n] != (void *) q) fail ("RAW pointer past the end", n); for (unsigned i = 0; i < n; i++) if (!wok (i, q[i])) { fail ("RAW round trip", i); break; }
  ffi_closure *cl = ffi_closure_alloc (sizeof *cl, &code); ffi_raw_closure *d = ffi_closure_alloc (sizeof *d, &c2);
  if (ffi_prep_closure_loc (cl, &c, wplain, 0, code) != FFI_OK) fail ("PREP closure", n);
  if ((J ? ffi_prep_java_raw_closure_loc ((void *) d, &c, (void *) wraw, 0, c2) : ffi_prep_raw_closure_loc (d, &c, wraw, 0, c2)) != FFI_OK) fail ("PREP raw closure", n);
  wran = 0; J ? ffi_java_raw_call (&c, (void (*) (void)) code, 0, (void *) r) : ffi_raw_call (&c, (void (*) (void)) code, 0, (void *) r); if (wran != 1) fail ("RAW call: function not run exactly once", wran);
  wran = 0; ffi_call (&c, (void (*) (void)) c2, 0, p); if (wran != 1) fail ("RAW closure: function not run exactly once", wran);
  ffi_closure_free (cl); ffi_closure_free (d);
}
static void rawtests (int reps)
{
  static const int AB[] = { FFI_UNIX64, FFI_UNIX64, FFI_WIN64, FFI_GNUW64 }; static ffi_type *a[64];
  static const char *names[] = { "plain", "Java" };
  for (J = 0; J < 2; J++) { if (ONLY >= 0 && J != ONLY) continue; cur = names[J];
  for (int i = 0; i < nP (); i++) for (int k = 0; k < 4; k++) { a[0] = P[i]; one (P[i], 1, a, AB[k]); a[1] = P[i]; a[2] = &ffi_type_uint16; one (&ffi_type_void, 3, a, AB[k]); a[0] = &ffi_type_sint8; one (P[i], 2, a, AB[k]); }
  for (int r = 0; r < reps; r++) { int n = rnd () % 10; if (rnd () % 10 == 0) n = rnd () % 64; for (int i = 0; i < n; i++) a[i] = P[rnd () % nP ()]; one (rnd () % 9 ? P[rnd () % nP ()] : &ffi_type_void, n, a, AB[rnd () % 4]); }
  one (&ffi_type_void, 0, 0, FFI_UNIX64); static const int WN[] = { 100, 127, 128, 255, 256, 257, 300, 511, 513, 1000, 4097, 8200, 9000, 33000, 66000 }; for (int i = 0; i < 15; i++) wide (WN[i]); }
}
'''
def raw_files(seed, only):
    for i in range(4): yield ('raw%d' % i, HEAD + native.RUNTIME.replace('unsigned long before', 'unsigned long before') + '#pragma GCC diagnostic ignored "-Wdeprecated-declarations"\n#define ONLY %d\n' % only + RAWD + MAIN % ('  rng = %d; rawtests (%d);' % (seed * 100 + i, 3000)))
native.FILES['raw'] = lambda seed: list(raw_files(seed, 0))
native.FILES['jraw'] = lambda seed: list(raw_files(seed, 1))

# ---------------------------------------------------------------- closure pool, faults, locks
WRAP = ['malloc', 'calloc', 'realloc', 'free', 'mmap', 'munmap', 'open', 'open64', 'close', 'write', 'fopen', 'fopen64', 'fclose', 'memfd_create', 'mkostemp', 'mkostemp64', 'mkstemp', 'ftruncate', 'ftruncate64', 'setmntent', 'endmntent', 'mmap64',
        'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock']
WRAPC = r'''
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <mntent.h>
/* every request of the library to the system goes through here */
enum { F_ALL = 1, F_FROM = 2 };
static __thread int inlib; /* inside a call of the library */
static long seq, failat = -1, failn = 1, failmask; /* requests number failat .. failat + failn - 1 of the kinds in failmask fail */
enum { K_MEM = 1, K_MAP = 2, K_FILE = 4, K_WRITE = 8, K_RWX = 16, K_SHORT = 32, K_RX = 64, K_MAPS = 128, K_LIB = 256, K_TMP = 512, K_FIX = 1024, K_SHW = 2048, K_SHX = 4096 };
static long blocks, mapped, fds, files, mounts; static long denymask; static __thread int locks; static long lockops;
static int refuse (int kind) { if (denymask & kind) return 1; if (!inlib || !(kind & failmask)) return 0; long n = seq++; return failat >= 0 && n >= failat && n < failat + failn; }
#ifndef NOWRAP
void *__real_malloc (size_t); void *__wrap_malloc (size_t n) { if (refuse (K_MEM)) { errno = ENOMEM; return 0; } void *p = __real_malloc (n); if (p && inlib) { __sync_fetch_and_add (&blocks, 1); memset (p, 0xA5, n); } return p; }
void *__real_calloc (size_t, size_t); void *__wrap_calloc (size_t a, size_t b) { if (refuse (K_MEM)) { errno = ENOMEM; return 0; } void *p = __real_calloc (a, b); if (p && inlib) __sync_fetch_and_add (&blocks, 1); return p; }
void *__real_realloc (void *, size_t); void *__wrap_realloc (void *q, size_t n) { if (refuse (K_MEM)) { errno = ENOMEM; return 0; } void *p = __real_realloc (q, n); if (p && !q && inlib) __sync_fetch_and_add (&blocks, 1); return p; }
void __real_free (void *); void __wrap_free (void *p) { if (p && inlib) __sync_fetch_and_sub (&blocks, 1); __real_free (p); }
void *__real_mmap (void *, size_t, int, int, int, off_t);
/* where the system puts a mapping is its choice: below, writable and executable mappings are laid out side by side, upwards or downwards, the two sides at a distance that changes now and then */
static int arena; static char *aw, *ax; static long adist; static unsigned arng = 1;
static void *place (size_t n, int pr)
{
  if (!aw) { aw = __real_mmap (0, 1L << 33, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ax = __real_mmap (0, 1L << 33, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (aw == MAP_FAILED || ax == MAP_FAILED) { arena = 0; return 0; } aw += 1L << 32; ax += 1L << 32; if (arena == 2) aw += 1L << 31, ax += 1L << 31; }
  n = (n + 4095) & -4096L; arng = arng * 1103515245u + 12345u;
  if (arena == 4) { /* several runs of mappings, each side by side */
    static long c[4]; static int k; if (!(pr & PROT_EXEC) || (pr & PROT_WRITE)) { char *r = aw + ((long) k << 30) + c[k]; c[k] += n; k = (arng >> 16) % 3; return r; } return ax + ((long) k << 30) + c[k]; }
  if (pr & PROT_EXEC && !(pr & PROT_WRITE)) { if (arena != 3 ? (arng >> 16) % 5 == 0 : (arng >> 16) % 2) { if (arena == 2) ax -= 4096 * (1 + (arng >> 20) % 3); else ax += 4096 * (1 + (arng >> 20) % 3); } if (arena == 2) return ax -= n; ax += n; return ax - n; }
  if ((arng >> 16) % 16 == 0) { if (arena == 2) aw -= 4096; else aw += 4096; }
  if (arena == 2) return aw -= n; aw += n; return aw - n;
}
void *__wrap_mmap (void *a, size_t n, int pr, int fl, int fd, off_t o)
{
  if (inlib) { if (refuse (K_MAP) || ((fl & MAP_FIXED) && (denymask & K_FIX)) || ((fl & MAP_SHARED) && (((pr & PROT_WRITE) && (denymask & K_SHW)) || ((pr & PROT_EXEC) && (denymask & K_SHX)))) || ((pr & PROT_EXEC) && (pr & PROT_WRITE) && refuse (K_RWX)) || ((pr & PROT_EXEC) && !(pr & PROT_WRITE) && (denymask & K_RX))) { errno = (denymask & K_RWX) ? EPERM : ENOMEM; return MAP_FAILED; } }
  if (inlib && arena && !a && !(fl & MAP_FIXED)) { void *q = place (n, pr); if (q) { a = q; fl |= MAP_FIXED; void *p = __real_mmap (a, n, pr, fl, fd, o); if (p != MAP_FAILED) __sync_fetch_and_add (&mapped, n); return p; } }
  void *p = __real_mmap (a, n, pr, fl, fd, o); if (p != MAP_FAILED && inlib && !(fl & MAP_FIXED)) __sync_fetch_and_add (&mapped, n); return p; }
void *__wrap_mmap64 (void *a, size_t n, int pr, int fl, int fd, off_t o) { return __wrap_mmap (a, n, pr, fl, fd, o); }
int __real_munmap (void *, size_t); int __wrap_munmap (void *a, size_t n) { int r = __real_munmap (a, n); if (!r && inlib) __sync_fetch_and_sub (&mapped, n); return r; }
static int opened (int fd) { if (fd >= 0 && inlib) __sync_fetch_and_add (&fds, 1); return fd; }
int __real_open (const char *, int, ...); int __wrap_open (const char *f, int fl, int m) { if (inlib && (refuse (K_FILE) || ((denymask & K_LIB) && fl == O_RDONLY) || ((denymask & K_TMP) && fl != O_RDONLY))) { errno = EMFILE; return -1; } return opened (__real_open (f, fl, m)); }
int __wrap_open64 (const char *f, int fl, int m) { return __wrap_open (f, fl, m); }
int __real_close (int); int __wrap_close (int fd) { int r = __real_close (fd); if (inlib) { if (r && fd != -1) fail ("FAULT closes a descriptor that is not open", fd); if (!r) __sync_fetch_and_sub (&fds, 1); } return r; }
ssize_t __real_write (int, const void *, size_t); ssize_t __wrap_write (int fd, const void *b, size_t n) { if (inlib) { if (refuse (K_WRITE)) { errno = ENOSPC; return -1; } if (refuse (K_SHORT)) return __real_write (fd, b, n / 2); } return __real_write (fd, b, n); }
FILE *__real_fopen (const char *, const char *); FILE *__wrap_fopen (const char *f, const char *m) { if (inlib && (refuse (K_FILE) || (denymask & K_MAPS))) { errno = EMFILE; return 0; } FILE *r = __real_fopen (f, m); if (r && inlib) __sync_fetch_and_add (&files, 1); return r; }
FILE *__wrap_fopen64 (const char *f, const char *m) { return __wrap_fopen (f, m); }
int __real_fclose (FILE *); int __wrap_fclose (FILE *f) { if (inlib) __sync_fetch_and_sub (&files, 1); return __real_fclose (f); }
int __real_memfd_create (const char *, unsigned); int __wrap_memfd_create (const char *n, unsigned f) { if (inlib && (refuse (K_FILE) || (denymask & K_TMP))) { errno = EMFILE; return -1; } return opened (__real_memfd_create (n, f)); }
int __real_mkostemp (char *, int); int __wrap_mkostemp (char *t, int f) { if (inlib && (refuse (K_FILE) || (denymask & K_TMP))) { errno = EMFILE; return -1; } return opened (__real_mkostemp (t, f)); }
int __wrap_mkostemp64 (char *t, int f) { return __wrap_mkostemp (t, f); }
int __wrap_mkstemp (char *t) { return __wrap_mkostemp (t, 0); }
int __real_ftruncate (int, off_t); int __wrap_ftruncate (int fd, off_t n) { if (inlib && refuse (K_WRITE)) { errno = EIO; return -1; } return __real_ftruncate (fd, n); }
int __wrap_ftruncate64 (int fd, off_t n) { return __wrap_ftruncate (fd, n); }
FILE *__real_setmntent (const char *, const char *); FILE *__wrap_setmntent (const char *f, const char *m) { if (inlib && (denymask & K_TMP)) return 0; FILE *r = __real_setmntent (f, m); if (r && inlib && __sync_add_and_fetch (&mounts, 1) > 1) fail ("FAULT mount table left open", (int) mounts); return r; }
int __real_endmntent (FILE *); int __wrap_endmntent (FILE *f) { if (inlib && f) __sync_fetch_and_sub (&mounts, 1); return __real_endmntent (f); }
/* locks: the set held by this thread */
static __thread void *held[8];
int __real_pthread_mutex_lock (pthread_mutex_t *); int __wrap_pthread_mutex_lock (pthread_mutex_t *m)
{ if (inlib) { __sync_fetch_and_add (&lockops, 1); for (int i = 0; i < locks && i < 8; i++) if (held[i] == m) { fail ("LOCK taken twice by one thread", locks); _exit (1); } if (locks < 8) held[locks] = m; locks++; } return __real_pthread_mutex_lock (m); }
int __real_pthread_mutex_trylock (pthread_mutex_t *); int __wrap_pthread_mutex_trylock (pthread_mutex_t *m)
{ int r = __real_pthread_mutex_trylock (m); if (!r && inlib) { if (locks < 8) held[locks] = m; locks++; } return r; }
int __real_pthread_mutex_unlock (pthread_mutex_t *); int __wrap_pthread_mutex_unlock (pthread_mutex_t *m)
{ if (inlib) { int i; for (i = 0; i < locks; i++) if (held[i] == m) break; if (i >= locks) fail ("LOCK released but not held", locks); else { held[i] = held[locks - 1]; locks--; } } return __real_pthread_mutex_unlock (m); }
#endif
static void enter (void) { inlib = 1; locks = 0; }
static void leave (const char *w) { if (locks) fail (w, locks); inlib = 0; }
static ffi_closure *xalloc (size_t n, void **code) { enter (); ffi_closure *c = ffi_closure_alloc (n, code); leave ("LOCK still held after ffi_closure_alloc"); return c; }
static void xfree (void *c) { enter (); ffi_closure_free (c); leave ("LOCK still held after ffi_closure_free"); }
static int xprep (ffi_closure *c, ffi_cif *cif, void (*f) (ffi_cif *, void *, void **, void *), void *u, void *code) { enter (); int r = ffi_prep_closure_loc (c, cif, f, u, code); leave ("LOCK still held after ffi_prep_closure_loc"); return r; }
static ffi_cif vc; static ffi_type *va[] = { &ffi_type_sint, &ffi_type_pointer };
typedef struct { unsigned char *p; size_t n; void *code; unsigned seed; int fn, bound; } slot;
static void h0 (ffi_cif *c, void *r, void **a, void *u) { if (c != &vc || *(void **) a[1] != u) fail ("POOL another closure ran", 0); *(ffi_arg *) r = *(int *) a[0] + ((slot *) u)->seed; }
static void h1 (ffi_cif *c, void *r, void **a, void *u) { if (c != &vc || *(void **) a[1] != u) fail ("POOL another closure ran", 1); *(ffi_arg *) r = *(int *) a[0] - ((slot *) u)->seed; }
static void (*HS[]) (ffi_cif *, void *, void **, void *) = { h0, h1 };
static void invoke (slot *s) { if (!s->bound) return; int x = 17; unsigned r = ((unsigned (*) (int, void *)) s->code) (x, s); if (r != (s->fn ? x - s->seed : x + s->seed)) fail ("POOL wrong closure ran", s->fn); }
static unsigned char pat (slot *s, size_t i) { return s->seed * 31 + i * 7 + (i >> 8); }
static void paint (slot *s) { for (size_t i = sizeof (ffi_closure); i < s->n; i++) s->p[i] = pat (s, i); }
static void check (slot *s) { for (size_t i = sizeof (ffi_closure); i < s->n; i++) if (s->p[i] != pat (s, i)) { fail ("POOL storage of a live closure changed", (int) i); return; } invoke (s); }
static void bindit (slot *s) { s->fn = rnd () % 2; if (xprep ((void *) s->p, &vc, HS[s->fn], s, s->code) != FFI_OK) fail ("PREP closure", 0); s->bound = 1; }
static void prepvc (void) { ffi_prep_cif (&vc, FFI_UNIX64, 2, &ffi_type_uint, va); }
static const size_t SZ[] = { sizeof (ffi_closure), sizeof (ffi_closure) + 8, 72, 100, 128, 256, 1000, 4096, 20000, 300000 };
static slot *S; static int nS;
static void distinct (slot *s) { for (int i = 0; i < nS; i++) { slot *t = &S[i]; if (t == s || !t->p) continue; if (t->code == s->code) fail ("POOL two live closures share a code address", i); if (s->p < t->p + t->n && t->p < s->p + s->n) fail ("POOL storage of two live closures overlaps", i); } }
static int get (slot *s, int maxk) { s->n = SZ[rnd () % 8 ? 0 : rnd () % maxk]; s->seed = rnd (); s->bound = 0; s->p = (void *) xalloc (s->n, &s->code); if (!s->p) return 0; distinct (s); paint (s); bindit (s); return 1; }
static void put (slot *s) { check (s); xfree (s->p); s->p = 0; }
'''
POOL = r'''
static void everyone (void) { for (int i = 0; i < nS; i++) if (S[i].p) check (&S[i]); }
static void history (int n, int ops, int maxk)
{
  nS = n; S = calloc (n, sizeof *S);
  for (int o = 0; o < ops; o++) {
    int i = rnd () % n, lean = (o / (2 * n)) % 2; slot *s = &S[i];
    if (s->p) { if (lean || rnd () % 4 == 0) put (s); else if (rnd () % 3) invoke (s); else bindit (s); }
    else if (!lean || rnd () % 4 == 0) { if (!get (s, maxk)) fail ("POOL allocation refused", i); }
    if (o % (ops / 4 + 1) == 0) everyone (); }
  everyone (); for (int i = 0; i < n; i++) if (S[i].p) put (&S[i]);
}
/* storage and slots are used again: the address space does not grow */
static void steady (int n, int order)
{
  long m = 0, b = 0; nS = n; S = calloc (n, sizeof *S);
  for (int r = 0; r < 40; r++) {
    for (int i = 0; i < n; i++) if (!S[i].p && !get (&S[i], 1)) fail ("POOL allocation refused", i);
    for (int i = 0; i < n; i++) { int j = order == 0 ? i : order == 1 ? n - 1 - i : (int) ((i * 7919L + r) % n); if (order == 3 && (i + r) % 5 == 0) continue; if (S[j].p) put (&S[j]); }
    if (r == 9) m = mapped, b = blocks; if (r > 9 && (mapped > m + 2 * n * 128L || blocks > b + 6 + n / 50)) { fail ("POOL freed closures are not used again", r); break; } }
  for (int i = 0; i < n; i++) if (S[i].p) put (&S[i]);
  { long m1 = mapped, b1 = blocks; slot t[3]; nS = 0; for (int i = 0; i < 3000; i++) { for (int k = 0; k < 3; k++) get (&t[k], 1); for (int k = 0; k < 3; k++) put (&t[k]); }
    if (mapped > m1 + 300000 || blocks > b1 + 8) fail ("POOL freed closures are not used again", -1); }
}
static void child (int mode, int what)
{
  static const long D[] = { 0, K_MAPS, K_LIB, K_MAPS | K_LIB | K_TMP, -1, -2 }; denymask = D[mode]; cur = mode == 0 ? "pool" : mode < 3 ? "pool, trampolines in a temporary file" : mode == 3 ? "pool, no static trampolines" : "pool, executable file mapping";
  if (mode >= 4) { /* no trampolines, no writable executable memory: the two mappings of a temporary file */
    denymask = K_MAPS | K_TMP | (mode == 4 ? K_RWX : K_RWX); void *c; ffi_closure *x; enter (); ffi_tramp_is_supported (); inlib = 0; denymask = K_RWX; }
  static const int n[] = { 1, 7, 101, 102, 103, 210, 400, 900 };
  if (what < 8) history (n[what], 6000 + 4 * n[what], what == 5 ? 10 : 8); else steady (n[what - 8], what % 4);
}
int ffi_tramp_is_supported (void);
static void pool (int job, int jobs)
{
  for (int mode = 0; mode < 5; mode++) for (int what = 0; what < 16; what++) { if ((mode * 16 + what) % jobs != job) continue; if (mode > 2 && what >= 8 && what < 10) {}
    rng += 77; fflush (stdout); pid_t p = fork (); if (!p) { alarm (40); child (mode, what); fflush (stdout); _exit (fails != 0); } int st; waitpid (p, &st, 0); if (st) { if (!WIFEXITED (st)) fail ("killed", st); fails++; } }
}
'''
HEAP = r'''
/* the heap behind the closures: storage of all sizes, grown and given back in several orders, over mappings laid out in several ways */
static int getn (slot *s, size_t n) { s->n = n; s->seed = rnd (); s->bound = 0; s->p = (void *) xalloc (s->n, &s->code); if (!s->p) return 0; distinct (s); paint (s); bindit (s); return 1; }
static size_t size (int kind)
{
  unsigned r = rnd ();
  switch (kind % 5) { case 0: return 56 + r % 200; case 1: return 56 + 8 * (r % 120); case 2: return 56 + r % 6000; case 3: return r % 8 ? 56 + r % 900 : 4096 + r % 300000; default: return r % 30 ? 240 + 16 * (r % 12) : 56 + r % 3000000; }
}
static void rounds (int n, int kind)
{
  nS = n; S = calloc (n, sizeof *S);
  for (int r = 0; r < 7; r++) {
    int k = kind + (r > 3 ? r : 0);
    for (int i = 0; i < n; i++) if (!S[i].p && !getn (&S[i], size (k))) fail ("POOL allocation refused", i);
    for (int o = 0; o < 3 * n; o++) { slot *s = &S[rnd () % n]; if (s->p) { if (rnd () % 2) put (s); else invoke (s); } else if (!getn (s, size (k))) fail ("POOL allocation refused", o); }
    for (int i = 0; i < n; i++) if (S[i].p) check (&S[i]);
    for (int i = 0; i < n; i++) { int j = r % 3 == 0 ? i : r % 3 == 1 ? n - 1 - i : (int) ((i * 7919L + r) % n); if (S[j].p && !(r % 2 && j % 17 == 3)) put (&S[j]); }
    for (int i = 0; i < n; i++) if (S[i].p) check (&S[i]); }
  for (int i = 0; i < n; i++) if (S[i].p) put (&S[i]);
}
int ffi_tramp_is_supported (void);
static void heapchild (int mode, int where, int kind)
{
  static const long D[] = { 0, K_MAPS | K_LIB | K_TMP, 0 }; static char w[100]; arena = 0; denymask = D[mode]; sprintf (w, "heap, %s, %s, sizes %d", mode == 0 ? "trampolines" : mode == 1 ? "no trampolines" : "executable file mapping", (char *[]) { "system layout", "adjacent mappings upwards", "adjacent mappings downwards", "mappings at changing distances", "three runs of adjacent mappings" }[where], kind); cur = w;
  if (mode == 2) { denymask = K_MAPS | K_TMP | K_RWX; enter (); ffi_tramp_is_supported (); inlib = 0; denymask = K_RWX; }
  arena = where; arng = rng; rounds (kind == 4 || kind == 3 ? 60 : 230, kind);
}
static void heap (int job, int jobs)
{
  for (int mode = 0; mode < 3; mode++) for (int where = 0; where < 5; where++) for (int kind = 0; kind < 5; kind++) { if (((mode * 5 + where) * 5 + kind) % jobs != job) continue;
    rng += 77; fflush (stdout); pid_t p = fork (); if (!p) { alarm (60); heapchild (mode, where, kind); fflush (stdout); _exit (fails != 0); } int st; waitpid (p, &st, 0); if (st) { if (!WIFEXITED (st)) fail ("killed", st); fails++; } }
}
'''
FAULT = r'''
int ffi_tramp_is_supported (void);
/* existing closures work, nothing is held, a later request succeeds */
static void alive (int n) { for (int i = 0; i < n; i++) if (S[i].p) check (&S[i]); }
static void probe (int have, int k, int n, int mask, int early)
{
  nS = 600; S = calloc (nS, sizeof *S); prepvc (); int made = 0;
  for (int i = 0; i < have; i++) { if (!get (&S[i], 4)) fail ("FAULT allocation refused before the fault", i); made++; }
  long b = blocks, f = fds, fl = files, m = mapped; seq = 0; failat = k; failn = n; failmask = mask; int refused = 0, d = have;
  for (int r = 0; r < 230; r++) { long b0 = blocks, m0 = mapped, f0 = fds, l0 = files; void *code = (void *) 0x55; int k1 = rnd () % 4;
    if (get (&S[d], 8)) { d++; continue; }
    refused++; if (files != l0) fail ("FAULT stream left open", (int) (files - l0)); if (blocks > b0 + (have == 0 && refused == 1 ? 2 /* the first table, kept */ : 0)) fail ("FAULT memory left allocated", (int) (blocks - b0)); alive (d);
    if (refused > 3 && (mapped - m0 > 1 << 20 || fds != f0)) fail ("FAULT mapping or descriptor left behind", (int) (fds - f0)); }
  failat = -1; alive (d);
  if (files != fl) fail ("FAULT stream left open", (int) (files - fl)); if (fds > f + 2) fail ("FAULT descriptors left open", (int) (fds - f));
  for (int i = d; i < nS && i < d + 300; i++) if (!get (&S[i], 4)) { fail ("FAULT later request refused", i); break; } alive (nS);
  for (int i = 0; i < nS; i++) if (S[i].p) put (&S[i]);
}
/* a lasting refusal: repeated failures acquire nothing */
static void lasting (int have, int mask, int deny)
{
  nS = 700; S = calloc (nS, sizeof *S); prepvc (); int d = 0; for (; d < have; d++) if (!get (&S[d], 4)) fail ("FAULT allocation refused before the fault", d);
  seq = 0; failat = 0; failn = 1L << 40; failmask = mask; denymask = deny; int ref = 0; long b = 0, m = 0, f = 0, l = 0; slot big[40]; int nb = 0;
  for (int r = 0; r < 400; r++) { slot t; t.n = 3000; t.seed = rnd (); t.bound = 0; if (d < 600) { if (get (&S[d], 4)) { d++; continue; } }
    ref++; if (ref == 20) { b = blocks; m = mapped; f = fds; l = files; } if (ref > 20 && (blocks != b || mapped != m || fds != f || files != l)) { fail ("FAULT repeated failures accumulate", (int) (mapped - m)); break; } }
  failat = -1; denymask = 0; alive (d); for (int i = d; i < nS; i++) if (!get (&S[i], 4)) { fail ("FAULT later request refused", i); break; } alive (nS); for (int i = 0; i < nS; i++) if (S[i].p) put (&S[i]);
}
static void job (void (*f) (int *), int *a) { fflush (stdout); pid_t p = fork (); if (!p) { alarm (30); f (a); fflush (stdout); _exit (fails != 0); } int st; waitpid (p, &st, 0); if (st) { if (!WIFEXITED (st)) fail ("killed", st); fails++; } }
static void fprobe (int *a) { static char w[100]; sprintf (w, "after %d closures, requests %d..%d of kinds %x refused", a[0], a[1], a[1] + a[2] - 1, a[3]); cur = w; probe (a[0], a[1], a[2], a[3], 0); }
static void flasting (int *a) { static char w[100]; sprintf (w, "after %d closures, all requests of kinds %x refused", a[0], a[1]); cur = w; lasting (a[0], a[1], a[2]); }
static void fplast (int *a) { denymask = K_MAPS | K_TMP; enter (); ffi_tramp_is_supported (); inlib = 0; denymask = K_RWX; flasting (a); }
static void fpre (int *a) { denymask = a[4]; enter (); ffi_tramp_is_supported (); inlib = 0; denymask = a[5]; fprobe (a); }
static void faults (int me, int jobs)
{
  int n = 0; static const int have[] = { 0, 0, 1, 100, 101, 102, 203 }, masks[] = { K_MEM, K_MAP, K_FILE, K_WRITE, K_SHORT, K_MEM | K_MAP | K_FILE | K_WRITE };
  for (int h = 0; h < 7; h++) for (int m = 0; m < 6; m++) for (int c = 1; c < 9; c *= 2) for (int k = 0; k < (h ? 9 : 16); k++) { if (n++ % jobs != me) continue; int a[] = { have[h], k, c, masks[m] }; rng += 3; job (fprobe, a); if (fails > 3) return; }
  for (int h = 0; h < 7; h++) for (int m = 0; m < 6; m++) { if (n++ % jobs != me) continue; int a[] = { have[h], masks[m], 0 }; job (flasting, a); }
  for (int h = 0; h < 7; h++) { if (n++ % jobs != me) continue; int a[] = { have[h], 0, K_FIX }; job (flasting, a); }
  for (int h = 0; h < 7; h++) for (int m = 0; m < 3; m++) { if (n++ % jobs != me) continue; int a[] = { have[h], 0, m == 0 ? K_RWX | K_SHW : m == 1 ? K_RWX | K_SHX : K_MAP }; job (fplast, a); }
  for (int m = 0; m < 6; m++) for (int c = 1; c < 3; c++) for (int k = 0; k < 14; k++) for (int h = 0; h < 2; h++) { if (n++ % jobs != me) continue; int a[] = { h * 60, k, c, masks[m], K_MAPS | K_TMP, K_RWX }; job (fpre, a); if (fails > 3) return; }
}
'''
LOCK = r'''
int ffi_tramp_is_supported (void); int ffi_tramp_is_present (void *); void *ffi_data_to_code_pointer (void *);
static int go;
static void *worker (void *arg)
{
  unsigned r = (unsigned) (long) arg * 2654435761u + 7; slot t[140]; memset (t, 0, sizeof t);
#define RN (r = r * 1103515245u + 12345u, r >> 9)
  while (!__atomic_load_n (&go, __ATOMIC_ACQUIRE));
  for (int o = 0; o < OPS; o++) { slot *s = &t[RN % 140];
    if (!s->p) { s->n = SZ[RN % 8]; s->seed = RN; s->fn = RN % 2; s->bound = 0; s->p = (void *) ffi_closure_alloc (s->n, &s->code); if (!s->p) { fail ("LOCK allocation refused", 0); continue; }
      for (int i = 0; i < 140; i++) if (&t[i] != s && t[i].p && t[i].code == s->code) fail ("POOL two live closures share a code address", i); paint (s);
      if (ffi_prep_closure_loc ((void *) s->p, &vc, HS[s->fn], s, s->code) != FFI_OK) fail ("PREP", 0); s->bound = 1; if (!ffi_tramp_is_present (s->p)) fail ("LOCK trampoline lost", 0); if (ffi_data_to_code_pointer (s->p) != s->code) fail ("LOCK code address", 0); }
    else if (RN % 3) { check (s); if (ffi_data_to_code_pointer (s->p) != s->code) fail ("LOCK code address", 0); }
    else { check (s); ffi_closure_free (s->p); s->p = 0; } }
  for (int i = 0; i < 140; i++) if (t[i].p) { check (&t[i]); ffi_closure_free (t[i].p); }
  return 0;
}
static void threads (int n) { cur = "threads"; pthread_t th[16]; prepvc (); go = 0; for (long i = 0; i < n; i++) pthread_create (&th[i], 0, worker, (void *) (i + rng)); __atomic_store_n (&go, 1, __ATOMIC_RELEASE); for (int i = 0; i < n; i++) pthread_join (th[i], 0); }
'''
EXTRA = native.EXTRA
EXTRA['pool'] = EXTRA['heap'] = EXTRA['fault'] = dict(link=['-Wl,--wrap=' + w for w in WRAP])
EXTRA['lock'] = dict(lib=['-fsanitize=thread'], cc=('gcc', '-O1', '-g', '-fsanitize=thread'))
W = HEAD + native.RUNTIME + WRAPC
native.FILES['pool'] = lambda seed: [('pool%d' % i, W + POOL + MAIN % ('  rng = %d; alarm (0); prepvc (); pool (%d, 8);' % (seed * 100 + i, i))) for i in range(8)]
native.FILES['heap'] = lambda seed: [('heap%d' % i, W + HEAP + MAIN % ('  rng = %d; alarm (0); prepvc (); heap (%d, 8);' % (seed * 100 + i, i))) for i in range(8)]
native.FILES['fault'] = lambda seed: [('fault%d' % i, W + FAULT + MAIN % ('  rng = %d; alarm (0); faults (%d, 8);' % (seed * 100 + i, i))) for i in range(8)]
native.FILES['lock'] = lambda seed: [('lock%d' % i, HEAD + native.RUNTIME + '#define NOWRAP\n#define OPS %d\n' % (6000 if i < 3 else 2500) + WRAPC + LOCK + MAIN % ('  rng = %d; alarm (100); threads (%d);' % (seed * 100 + i, [2, 3, 6, 8][i]))) for i in range(4)] + [n for n in native.FILES['pool'](seed + 5)[:0]]
