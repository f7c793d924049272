"""C25: formatted output (printf family), native and WebAssembly."""
import itertools
from vlib import core, libx

COMMON = r'''
#include <stdio.h>
#include <stdarg.h>
#include <stdint.h>
static unsigned long long H; static int Hn;
static void hinit(void) { H = 1469598103934665603ULL; Hn = 0; }
static void hadd(const char *p, int n) { for (int i = 0; i < n; ++i) H = (H ^ (unsigned char)p[i]) * 1099511628211ULL; H = (H ^ 0x100u ^ (unsigned)n) * 1099511628211ULL; ++Hn; }
static char fmt[64], out[2048];
static const char FL[] = "-+ #0";
static const char *WI[] = { %(wi)s };
static const char *PR[] = { %(pr)s };
#define NW ((int)(sizeof(WI) / sizeof(*WI)))
#define NP ((int)(sizeof(PR) / sizeof(*PR)))
static void mkfmt(int flags, int rot, const char *w, const char *p, const char *l, char c) {
  char *q = fmt; *q++ = '%%';
  for (int i = 0; i < 5; ++i) { int k = (i + rot) %% 5; if (flags >> k & 1) *q++ = FL[k]; }
  for (; *w; ++w) *q++ = *w == 'N' ? '*' : *w;
  for (; *p; ++p) *q++ = *p == 'N' ? '*' : *p;
  while (*l) *q++ = *l++;
  *q++ = c; *q = 0;
}
// 'N' marks a negative '*' argument, '*' a positive one
#define STARW(w) (*(w) == '*' ? 7 : -9)
#define STARP(p) ((p)[1] == '*' ? 4 : -3)
#define CALL(v) do { int n; memset(out, '~', 32); int sw = *w == '*' || *w == 'N', sp = p[0] && (p[1] == '*' || p[1] == 'N'); \
    n = sw && sp ? snprintf(out, sizeof out, fmt, STARW(w), STARP(p), v) : sw ? snprintf(out, sizeof out, fmt, STARW(w), v) : sp ? snprintf(out, sizeof out, fmt, STARP(p), v) : snprintf(out, sizeof out, fmt, v); \
    hadd(out, n < 0 || n > 2047 ? 1 : n + 1); hadd((char*)&n, 4); } while (0)
#define EACH(FLAGMASK, rot, len, c, v) for (int fl = 0; fl < 32; ++fl) { if (fl & ~(FLAGMASK)) continue; hinit(); \
    for (int wi = 0; wi < NW; ++wi) for (int pi = 0; pi < NP; ++pi) { const char *w = WI[wi], *p = PR[pi]; mkfmt(fl, rot, w, p, len, c); CALL(v); } \
    o_s(tag); o_c(' '); o_s(len); o_c(c); o_c(' '); o_s(vn); o_s(" flags="); for (int k = 0; k < 5; ++k) if (fl >> k & 1) o_c(FL[k]); o_c('\t'); o_i(Hn); o_c(' '); o_x(H, 16); o_c('\n'); }
'''
WI = ['', '1', '5', '12', '*', 'N']
PR = ['', '.', '.0', '.1', '.3', '.10', '.*', '.N']
WI2 = ['', '1', '9', '40', '*', 'N']
PR2 = ['', '.', '.0', '.1', '.2', '.3', '.5', '.6', '.15', '.16', '.17', '.30', '.*', '.N']

SV = ['0', '1', '-1', '7', '8', '-8', '10', '99', '-100', '12345', '127', '128', '255', '256', '32767', '32768', '65535', '-129', '-32769', '2147483647', '-2147483647-1', '1000000000', '1234567890']
SV64 = ['0x7fffffffffffffffLL', '-0x7fffffffffffffffLL-1', '4294967295LL', '4294967296LL', '-4294967297LL', '1000000000000000000LL', '0x123456789abcdefLL', '01777777777777777777777LL']

def quote(l): return ', '.join('"%s"' % s for s in l)
def common(wi, pr): return COMMON % dict(wi=quote(wi), pr=quote(pr))

def ints(native):
    o = [common(WI, PR), 'static const char *tag = "int";\n']
    fns, rot = [], 0
    # (length, signed type, unsigned type, values)
    LENS = [('hh', 'int', 'unsigned', SV), ('h', 'int', 'unsigned', SV), ('', 'int', 'unsigned', SV), ('ll', 'long long', 'unsigned long long', SV + SV64), ('j', 'intmax_t', 'uintmax_t', SV + SV64)]
    if native: LENS = [('l', 'long', 'unsigned long', SV + SV64), ('z', 'long', 'size_t', SV + SV64), ('t', 'ptrdiff_t', 'size_t', SV + SV64)]
    else: LENS += [(l, 'long', 'unsigned long', [v for v in SV if v[0] != '-']) for l in 'lzt']
    if not native: SIGNED32 = [(l, 'long') for l in 'lzt']
    for ln, st, ut, vals in LENS:
        for c in 'diuoxX':
            ty = st if c in 'di' else ut
            mask = {'d': 0b10111, 'i': 0b10111, 'u': 0b10111}.get(c, 0b11111)
            rot = (rot + 1) % 5
            name = 'f%d' % len(fns)
            o.append('static void %s(void) { static const %s V[] = { %s }; static const char *VN[] = { %s }; for (int i = 0; i < %d; ++i) { const char *vn = VN[i]; EACH(%d, %d, "%s", \'%c\', V[i]) } }' % (name, ty, ', '.join('(%s)(%s)' % (ty, v) for v in vals), quote(vals), len(vals), mask, rot, ln, c))
            fns.append(name)
    if not native:
        for ln in 'lzt':
            for c in 'di':
                vals = [v for v in SV if v[0] == '-']
                name = 'f%d' % len(fns)
                o.append('static void %s(void) { static const long V[] = { %s }; static const char *VN[] = { %s }; for (int i = 0; i < %d; ++i) { const char *vn = VN[i]; EACH(23, 0, "%s", \'%c\', V[i]) } }' % (name, ', '.join(vals), quote(vals), len(vals), ln, c))
                fns.append(name)
    o.append('int main(void) { %s o_flush(); return 0; }' % ' '.join(f + '();' for f in fns))
    return '\n'.join(o)

def strs():
    o = [common(WI, PR), r'''
static const char *tag = "str"; 
int main(void) {
  static const char *S[] = { "", "a", "ab", "abc", "abcd", "hello world", "\x80\xff", "%d", "0123456789ABCDEF" };
  static const char *SN[] = { "empty", "1", "2", "3", "4", "11", "hi", "pct", "16" };
  for (int i = 0; i < 9; ++i) { const char *vn = SN[i]; EACH(1, 0, "", 's', S[i]) }
  // arrays without terminator, read no further than the precision
  for (int n = 0; n <= 16; ++n) { char *m = malloc(n ? n : 1); memset(m, 'a' + n, n); char f2[16] = "[%9.*s]"; int r = snprintf(out, sizeof out, f2, n, m); o_s("nonul "); o_i(n); o_c('\t'); o_i(r); o_str(out); o_c('\n'); free(m); }
  for (int c = 0; c < 256; ++c) { const char *vn = "c"; hinit(); const char *w, *p = ""; for (int fl = 0; fl < 2; ++fl) for (int wi = 0; wi < NW; ++wi) { w = WI[wi]; mkfmt(fl, 0, w, p, "", 'c'); CALL(c); CALL(c - 256); CALL(c + 512); } o_s("chr "); o_i(c); o_c('\t'); o_x(H, 16); o_c('\n'); (void)vn; }
  static const uintptr_t P[] = { 1, 0xf, 0x10, 0x1234, 0xffff, 0x7fffffff, 0xffffffffu };
  for (int i = 0; i < 7; ++i) { for (int fl = 0; fl < 2; ++fl) for (int wi = 0; wi < NW; ++wi) { const char *w = WI[wi], *p = ""; hinit(); mkfmt(fl, 0, w, "", "", 'p'); CALL((void*)P[i]); o_s("ptr "); o_i(i); o_c(' '); o_s(fmt); o_c(w[0] == 'N' ? 'N' : ' '); o_c('\t'); o_str(out); o_c('\n'); } }
  { int n = snprintf(out, sizeof out, "%%"); o_s("pct\t"); o_i(n); o_str(out); o_c('\n'); }
  { int n = snprintf(out, sizeof out, "a%%b%%%%c"); o_s("pct2\t"); o_i(n); o_str(out); o_c('\n'); }
  { int n = snprintf(out, sizeof out, ""); o_s("empty\t"); o_i(n); o_str(out); o_c('\n'); }
  o_flush(); return 0;
}
''']
    return '\n'.join(o)

def fvals():
    v = ['0.0', '-0.0', '1.0', '-1.0', '0.1', '0.5', '1.5', '2.5', '3.5', '-2.5', '0.25', '0.125', '0.375', '0.05', '0.15', '0.45', '0.95', '9.5', '9.95', '9.9995', '99.5', '999.5', '999999.0', '999999.5', '9999995.0', '99999.95', '1e5', '1e6', '123456.0', '1234567.0',
         '1e-4', '9.9999e-5', '9.99999e-5', '9.999995e-5', '9.9999951e-5', '0.00099999999', '1e-5', '123456789.125', '1e15', '1e16', '9007199254740993.0', '1e17', '1e19', '18446744073709551616.0', '1e20', '1e22', '1e23', '1e100', '1.7976931348623157e308', '2.2250738585072014e-308',
         '4.9406564584124654e-324', '2.2250738585072009e-308', '3.14159265358979', '2.718281828459045e-10', '0.3333333333333333', '6.02214076e23', '1.0/0.0', '-1.0/0.0', '5e-1', '1.0000005', '1.0000015', '100.0', '1000.0', '10.0', '12345.678', '0.000123456789']
    return v

def floats(part, nparts):
    vals = fvals()[part::nparts]
    o = [common(WI2, PR2), 'static const char *tag = "flt";\nstatic const double V[] = { %s }; static const char *VN[] = { %s };' % (', '.join(vals), quote(vals))]
    o.append('int main(void) { for (int i = 0; i < %d; ++i) { const char *vn = VN[i];' % len(vals))
    for j, c in enumerate('fFeEgG'):
        # glibc drops a digit of "%#.2g" when rounding 99.5 up to 1.0e+02: not a usable reference there
        mask = '31' if c not in 'gG' else '(V[i] == 99.5 || V[i] == 999.5 || V[i] == 99999.95 || V[i] == 999999.5 ? 23 : 31)'
        o.append('EACH(%s, %d, "", \'%c\', V[i])' % (mask, j % 5, c))
    o.append('EACH(31, 0, "l", \'f\', V[i])')
    o.append('{ const char *tag = "ldbl"; EACH(0, 0, "L", \'g\', (long double)V[i]) EACH(0, 0, "L", \'e\', (long double)V[i]) EACH(2, 0, "L", \'f\', (long double)V[i]) }')
    o.append('} o_flush(); return 0; }')
    return '\n'.join(o)

def pow2():
    # every power of two of the type and its neighbours, printed exactly and in shortest-style precisions
    step = 1 if core.THOROUGH else 5
    return common(WI, PR) + r'''
static double mk(unsigned long long u) { double d; unsigned char *p = (unsigned char*)&d, *q = (unsigned char*)&u; for (int i = 0; i < 8; ++i) p[i] = q[i]; return d; }
int main(void) {
  static const char *F[] = { "%.17g", "%g", "%.0f", "%.20e", "%e", "%.3f", "%.1074f", "%.767e" };
  for (int e = 0; e < 2047 + 52; e += STEP) {
    unsigned long long b = e < 52 ? 1ULL << e : (unsigned long long)(e - 51) << 52;
    if (b >= 0x7ff0000000000000ULL) break;
    for (int d = -1; d <= 1; ++d) { double x = mk(b + d);
      o_s("pow "); o_i(e); o_c(' '); o_i(d); o_c('\t');
      for (int f = 0; f < 8; ++f) { hinit(); int n = snprintf(out, sizeof out, F[f], x); hadd(out, n + 1); o_i(n); o_c(':'); o_x(H & 0xffffffff, 8); o_c(' '); }
      o_c('\n'); }
  }
  o_flush(); return 0;
}
'''.replace('STEP', str(step))

def seqs():
    # all sequences of three conversions, and one long argument list: argument consumption
    C = [('%d', '-11', 0), ('%lld', '-5000000000LL', 0), ('%s', '"str"', 0), ('%c', "'q'", 0), ('%f', '2.75', 0), ('%%', None, 0), ('%*d', '6, 42', 0), ('%.*s', '2, "wxyz"', 0), ('%g', '1e30', 0), ('%hhx', '0x1ff', 0), ('lit', None, 0), ('%-*.*f|', '9, 2, 3.14159', 0)]
    o = ['#include <stdio.h>\n#include <stdarg.h>\nstatic char out[512]; static void show(int k, int n) { o_s("seq "); o_i(k); o_c(\'\\t\'); o_i(n); o_str(out); o_c(\'\\n\'); }\nstatic int vs(char *o, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, n, f, ap); va_end(ap); return r; }\nstatic int vp(char *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(o, f, ap); va_end(ap); return r; }\n']
    body, k = [], 0
    for t in itertools.product(C, repeat=3):
        f = ''.join(x[0] for x in t); a = ''.join(', ' + x[1] for x in t if x[1])
        call = ['snprintf(out, sizeof out, "%s"%s)', 'sprintf(out, "%s"%s)', 'vs(out, sizeof out, "%s"%s)', 'vp(out, "%s"%s)'][k % 4]
        body.append('show(%d, %s);' % (k, call % (f, a))); k += 1
    fs = []
    for i in range(0, len(body), 200):
        o.append('static void g%d(void) { %s }' % (i, '\n'.join(body[i:i + 200]))); fs.append('g%d();' % i)
    o.append(r'''static void lng(void) {
  show(-1, snprintf(out, sizeof out, "%d %f %d %f %d %f %d %f %d %f %d %f %d %f %d %f %d %f %d %f", 1, 1.5, 2, 2.5, 3, 3.5, 4, 4.5, 5, 5.5, 6, 6.5, 7, 7.5, 8, 8.5, 9, 9.5, 10, 10.5));
  show(-2, vs(out, sizeof out, "%s%d%lld%c%s%u%f%d%lld%s%f%f%f%f%f%f%f%f%f%d", "a", 1, 2LL, 'c', "d", 5u, 6.0, 7, 8LL, "e", 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 77)); }''')
    o.append('int main(void) { %s lng(); o_flush(); return 0; }' % ' '.join(fs))
    return '\n'.join(o)

TRUNC = r'''
#include <stdio.h>
#include <stdarg.h>
static int vs(char *o, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, n, f, ap); va_end(ap); return r; }
#define T(name, ...) do { int len = snprintf(NULL, 0, __VA_ARGS__); o_s("len " name "\t"); o_i(len); o_c('\n'); \
  for (int n = 0; n <= len + 3; ++n) { for (int v = 0; v < 2; ++v) { char *b = malloc(len + 16); memset(b, 0x7e, len + 16); int r = v ? vs(b, n, __VA_ARGS__) : snprintf(b, n, __VA_ARGS__); \
    o_s("trunc " name " "); o_i(n); o_c(' '); o_i(v); o_c('\t'); o_i(r); o_c(' '); o_hex(b, len + 16); o_c('\n'); free(b); } } } while (0)
int main(void) {
  T("lit", "hello, world");
  T("empty", "%s", "");
  T("d", "%d", -12345);
  T("wide", "%20d|", 7);
  T("left", "%-20d|", 7);
  T("zero", "%020d|", -7);
  T("str", "<%s>%c%s", "abc", 'x', "defgh");
  T("hex", "%#x %#o %X", 0xbeef, 0755, 0xcafe);
  T("flt", "%f %e %g", 1.25, -3e10, 0.001);
  T("mix", "%5s%-5s|%05d%%", "ab", "cd", 42);
  o_flush(); return 0;
}
'''
# every destination function gives the same characters and count: printf, vprintf, fprintf, vfprintf, sprintf, vsprintf, fmemopen and open_memstream streams
DEST = r'''
#include <stdio.h>
#include <stdarg.h>
static int v1(const char *f, ...) { va_list ap; va_start(ap, f); int r = vprintf(f, ap); va_end(ap); return r; }
static int v2(FILE *fp, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(fp, f, ap); va_end(ap); return r; }
static int v3(char *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(o, f, ap); va_end(ap); return r; }
static int R[64], N;
#define D(...) do { char b[300]; R[N++] = printf(__VA_ARGS__); R[N++] = v1(__VA_ARGS__); R[N++] = fprintf(stdout, __VA_ARGS__); R[N++] = v2(stdout, __VA_ARGS__); R[N++] = sprintf(b, __VA_ARGS__); fputs(b, stdout); R[N++] = v3(b, __VA_ARGS__); fputs(b, stdout); } while (0)
int main(void) {
  printf("dest\t");
  D("%d,", 5); D("%s|%8.3f|%-6x|", "text", 3.14159, 0xabc); D("%%"); D("%c%c", 'a', 'b'); D("%200s", "far"); D("plain");
  printf("\n"); 
  for (int i = 0; i < N; ++i) printf("ret %d\t%d\n", i, R[i]);
  { FILE *fp = fopen("o.txt", "w"); int t = 0; for (int i = 0; i < 3000; ++i) t += fprintf(fp, "%d:%s;", i, i % 3 ? "abc" : ""); fclose(fp); printf("file\t%d", t);
    fp = fopen("o.txt", "r"); unsigned h = 0; int c, n = 0; while ((c = fgetc(fp)) != EOF) { h = h * 31 + c; ++n; } fclose(fp); printf(" %d %u\n", n, h); }
  return 0;
}
'''

def run():
    rep = core.Report('C25')
    b = core.Build(wcc=True)
    L = libx.LibRunner(rep, b)
    NF = 8
    jobs = [('ints', ints(False), ('x', 'w')), ('longs', ints(True), ('x',)), ('strs', strs(), ('x', 'w')), ('pow2', pow2(), ('x', 'w')), ('seqs', seqs(), ('x', 'w')), ('trunc', TRUNC, ('x', 'w')), ('dest', DEST, ('x', 'w'))]
    jobs += [('flt%d' % i, floats(i, NF), ('x', 'w')) for i in range(NF)]
    rep.rule = 'all subsets of the 5 flags (in rotated orders) x widths x precisions (absent, literal, *, negative *) x lengths x conversions d i u o x X c s p f F e E g G x boundary values (one line per conversion, value and flag set, hashing the calls for every width and precision); every 2^k and its neighbours as %%.0f %%e %%g %%.17g %%.1074f %%.767e; all sequences of 3 of 12 conversions (argument consumption); every buffer size 0..len+3 for snprintf/vsnprintf with guard bytes; all eight destinations. Reference glibc. Native and WebAssembly.'
    core.pmap(lambda j: L.check(j[0], j[1], targets=j[2], timeout=600), jobs)
    rep.counts.update(states=L.lines, transitions=L.lines, traces_validated_against_impl=L.lines)
    rep.sample(seqs()[-400:-300]); rep.sample(fvals()[3])
    return rep
