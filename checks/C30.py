"""C30: the mathematical functions. Exact functions must equal the platform library bit for bit, the others within a stated
accuracy and with the right kind of result (NaN, infinity, sign), for every value of a grid of doubles that has every
exponent, both signs and boundary mantissas; the same for pairs of values. Native and WebAssembly."""
import math, os, struct
from vlib import core, libx

COMMON = r'''
#include <math.h>
typedef unsigned long long u64;
static double mk(u64 u) { double d; unsigned char *p = (unsigned char*)&d, *q = (unsigned char*)&u; for (int i = 0; i < 8; ++i) p[i] = q[i]; return d; }
static u64 h_; static void H0(void) { h_ = 1469598103934665603ULL; } static void H(u64 v) { for (int i = 0; i < 8; ++i) { h_ = (h_ ^ (v & 255)) * 1099511628211ULL; v >>= 8; } }
static const u64 MAN[] = { 0, 1, 0x8000000000000ULL, 0x7ffffffffffffULL, 0xfffffffffffffULL, 0x5555555555555ULL, 0x921fb54442d18ULL, 0x4000000000001ULL, %(man)s };
#define NM ((int)(sizeof(MAN) / sizeof(*MAN)))
#if defined(__GNUC__)
#define SG(x) (signbit(x) != 0)
static int CL(double x) { switch (fpclassify(x)) { case FP_NAN: return 0; case FP_INFINITE: return 1; case FP_ZERO: return 2; case FP_SUBNORMAL: return 3; case FP_NORMAL: return 4; } return 9; }
#else
#define SG(x) (signbit(x) != 0)
static int CL(double x) { int c = fpclassify(x); return c == FP_NAN ? 0 : c == FP_INFINITE ? 1 : c == FP_ZERO ? 2 : c == FP_SUBNORMAL ? 3 : c == FP_NORMAL ? 4 : 9; }
#endif
static const char *NAME[] = { "floor", "ceil", "round", "fabs", "sqrt", "modf", "modf-int", "frexp", "frexp-exp", "class", "tests" };
static u64 ex(int f, double x) {
  double t; int e;
  switch (f) {
  case 0: return o_bits(floor(x));
  case 1: return o_bits(ceil(x));
  case 2: return o_bits(round(x));
  case 3: return o_bits(fabs(x));
  case 4: return o_bits(sqrt(x));
  case 5: return o_bits(modf(x, &t));
  case 6: modf(x, &t); return o_bits(t);
  case 7: return o_bits(frexp(x, &e));
  case 8: if (x != x || x - x != 0) return 0; frexp(x, &e); return (u64)e;
  case 9: return CL(x) * 2 + (x == x ? SG(x) : 0);
  case 10: return (isnan(x) != 0) + 2 * (isinf(x) != 0) + 4 * (finite(x) != 0) + 8 * (isfinite(x) != 0);
  }
  return 0;
}
'''

EXACT = COMMON + r'''
int main(void) {
  for (int f = 0; f < 11; ++f) {
    for (int e = 0; e < 2048; ++e) for (int s = 0; s < 2; ++s) {
      H0(); for (int m = 0; m < NM; ++m) H(ex(f, mk((u64)s << 63 | (u64)e << 52 | MAN[m])));
      o_s(NAME[f]); o_s("/e"); o_i(e); o_c(s ? '-' : '+'); o_c('\t'); o_x(h_, 16); o_c('\n');
    }
    for (int e = 1018; e < 1080; ++e) for (int s = 0; s < 2; ++s) for (int k = 0; k < 52; ++k) {
      H0();
      for (int q = -1; q <= 1; ++q) {
        u64 b = 1ULL << k, all = 0xfffffffffffffULL;
        H(ex(f, mk((u64)s << 63 | (u64)e << 52 | ((b + q) & all)))); H(ex(f, mk((u64)s << 63 | (u64)e << 52 | ((~b + q) & all)))); H(ex(f, mk((u64)s << 63 | (u64)e << 52 | ((-b + q) & all))));
      }
      o_s(NAME[f]); o_s("/bit"); o_i(e); o_c(s ? '-' : '+'); o_i(k); o_c('\t'); o_x(h_, 16); o_c('\n');
    }
  }
  o_flush(); return 0;
}
'''

PAIRX = COMMON + r'''
static const int EXPS[] = { %(exps)s };
#define NE ((int)(sizeof(EXPS) / sizeof(*EXPS)))
static const int SH[] = { -2200, -2100, -1100, -1075, -1074, -1073, -1023, -1022, -1021, -60, -53, -52, -1, 0, 1, 52, 53, 1000, 1022, 1023, 1024, 1074, 2046, 2047, 2098, 2099, 2100, 100000, -100000 };
int main(void) {
  for (int i = 0; i < NE; ++i) for (int s = 0; s < 2; ++s) for (int m = 0; m < NM; ++m) {
    u64 a = (u64)s << 63 | (u64)EXPS[i] << 52 | MAN[m]; double x = mk(a);
    for (int j = 0; j < NE; ++j) {
      H0(); for (int t = 0; t < 2; ++t) for (int n = 0; n < NM; ++n) H(o_bits(fmod(x, mk((u64)t << 63 | (u64)EXPS[j] << 52 | MAN[n]))));
      o_s("fmod/"); o_x(a, 16); o_c('/'); o_i(EXPS[j]); o_c('\t'); o_x(h_, 16); o_c('\n');
    }
    H0(); for (int j = 0; j < NE; ++j) for (int t = 0; t < 2; ++t) H(o_bits(copysign(x, mk((u64)t << 63 | (u64)EXPS[j] << 52))));
    o_s("copysign/"); o_x(a, 16); o_c('\t'); o_x(h_, 16); o_c('\n');
  }
  for (int e = 0; e < 2048; ++e) for (int k = 0; k < (int)(sizeof(SH) / sizeof(*SH)); ++k) {
    H0(); for (int s = 0; s < 2; ++s) for (int m = 0; m < NM; ++m) H(o_bits(ldexp(mk((u64)s << 63 | (u64)e << 52 | MAN[m]), SH[k])));
    o_s("ldexp/e"); o_i(e); o_c('/'); o_i(SH[k]); o_c('\t'); o_x(h_, 16); o_c('\n');
  }
  o_flush(); return 0;
}
'''

APPROX = COMMON + r'''
int main(void) {
  for (int s = 0; s < 2; ++s) for (int e = 0; e < 2048; ++e) for (int m = 0; m < NM; ++m) {
    if (%(skip)s) continue;
    u64 a = (u64)s << 63 | (u64)e << 52 | MAN[m]; double x = mk(a);
    o_x(a, 16); o_c('\t');
    double r[16]; r[0] = sin(x); r[1] = cos(x); r[2] = tan(x); r[3] = asin(x); r[4] = acos(x); r[5] = atan(x); r[6] = sinh(x); r[7] = cosh(x);
    r[8] = tanh(x); r[9] = asinh(x); r[10] = acosh(x); r[11] = atanh(x); r[12] = exp(x); r[13] = log(x); r[14] = log10(x); r[15] = log2(x);
    for (int i = 0; i < 16; ++i) { o_x(o_bits(r[i]), 16); o_c(' '); }
    o_c('\n');
  }
  o_flush(); return 0;
}
'''
FN = 'sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp log log10 log2'.split()

PAIRA = COMMON + r'''
static const double V[] = { %(vals)s };
#define NV ((int)(sizeof(V) / sizeof(*V)))
int main(void) {
  double inf = mk(0x7ff0000000000000ULL), nan = mk(0x7ff8000000000000ULL);
  for (int i = 0; i < NV + 2; ++i) for (int s = 0; s < 2; ++s) for (int j = 0; j < NV + 2; ++j) for (int t = 0; t < 2; ++t) {
    double x = i < NV ? V[i] : i == NV ? inf : nan, y = j < NV ? V[j] : j == NV ? inf : nan;
    if (s) x = -x; if (t) y = -y;
    o_x(o_bits(x), 16); o_c(','); o_x(o_bits(y), 16); o_c('\t'); o_x(o_bits(pow(x, y)), 16); o_c(' '); o_x(o_bits(atan2(x, y)), 16); o_c('\n');
    if (j == NV + 1 && t) o_flush();
  }
  o_flush(); return 0;
}
'''

def D(h): return struct.unpack('<d', struct.pack('<Q', int(h, 16)))[0]

def close(fn, args, got, ref):
    """Within the accuracy the library aims at: 1e-7 relative to the result (or to 1e-3 for results near zero), and the right kind."""
    g, r = D(got), D(ref)
    if math.isnan(g) or math.isnan(r): return math.isnan(g) and math.isnan(r)
    if math.isinf(g) or math.isinf(r):
        if g == r: return True
        if fn in ('exp', 'sinh', 'cosh', 'pow'):     # at the very edge of the range either answer is within the accuracy
            m = min(abs(g), abs(r))
            return m > 1.7e308 and (g < 0) == (r < 0)
        return False
    floor = 1e-3
    if fn in ('exp', 'pow', 'cosh') or fn in ('sin', 'tan', 'asin', 'atan') and abs(args[0]) <= 1: floor = 1e-300     # fully relative
    elif fn in ('sin', 'cos', 'tan'): floor = 1e-1
    if abs(g - r) <= 1e-7 * (abs(r) + floor):
        # signed zeros and signs of results that are not tiny
        return r == 0 or abs(r) < 1e-8 or (g < 0) == (r < 0)
    return False

def skip(fn, args):
    if fn in ('sin', 'cos', 'tan') and math.isfinite(args[0]):
        if abs(args[0]) > 1e4: return True            # argument reduction of the tree is a single-precision-of-pi remainder
        if fn == 'tan' and abs(math.cos(args[0])) < 1e-3: return True
    return False

def exact_points(fn, args, ref):
    """Results every user relies on exactly: exp(0), integer powers of small integers, the quadrant constants' signs."""
    if fn in ('exp', 'cosh') and args[0] == 0: return True
    if fn in ('log', 'log10', 'log2') and args[0] == 1: return True
    if fn == 'pow' and all(math.isfinite(a) for a in args) and args[1] == int(args[1]) and 0 <= args[1] <= 9 and abs(args[0]) <= 10 and args[0] == int(args[0]): return True
    return False

def run():
    rep = core.Report('C30')
    b = core.Build(wcc=True)
    r = libx.LibRunner(rep, b)
    T = core.THOROUGH
    man = '0x1ULL << 20, 0x2000000000000ULL, 0xc000000000000ULL, 0x6a09e667f3bcdULL' + (''.join(', 0x%xULL' % ((0x9e3779b97f4a7 * k) & ((1 << 52) - 1)) for k in range(1, 120)) if T else '')
    exps = [0, 1, 2, 51, 52, 53, 54, 500, 970, 1000, 1021, 1022, 1023, 1024, 1025, 1030, 1053, 1054, 1055, 1056, 1074, 1075, 1076, 1077, 1086, 1087, 1500, 2000, 2045, 2046, 2047]
    if T: exps = sorted(set(exps + list(range(0, 2048, 61)) + list(range(1010, 1090))))
    vals = '0.0, 4.9406564584124654e-324, 2.2250738585072014e-308, 1e-300, 1e-17, 1e-8, 0.1, 0.3333333333333333, 0.5, 0.75, 0.9999999, 1.0, 1.0000001, 1.5, 2.0, 2.5, 2.718281828459045, 3.0, 3.141592653589793, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 11.5, 15.0, 16.0, 31.0, 53.0, 63.0, 64.0, 100.0, 127.0, 255.5, 300.0, 308.0, 500.0, 1000.0, 1023.0, 1024.0, 1074.0, 1075.0, 65536.0, 1048577.0, 1073741823.0, 1073741824.0, 2147483647.0, 2147483648.0, 4294967296.0, 9007199254740991.0, 9007199254740992.0, 1e17, 1e100, 1e300, 1.7976931348623157e308'
    sub = dict(man=man, exps=', '.join(map(str, exps)), vals=vals, skip='0')
    rep.rule = 'floor, ceil, round, fabs, sqrt, modf, frexp, classification: every exponent x sign x boundary mantissa and every single-bit mantissa pattern around the integers, bit for bit; fmod over all pairs of the exponent grid, ldexp over every exponent x shift set, copysign, bit for bit; the transcendental functions over every exponent x sign x mantissa, pow and atan2 over all pairs of the value set: within 1e-7 relative (absolute 1e-10 near zero for the hyperbolic and logarithmic functions, 1e-8 for trigonometric arguments beyond 1), and NaN/infinity/sign as the reference'
    man8 = '0x6a09e667f3bcdULL' + (''.join(', 0x%xULL' % ((0x9e3779b97f4a7 * k) & ((1 << 52) - 1)) for k in range(1, 24)) if T else '')
    jobs = [('exact', EXACT % sub), ('pairs', PAIRX % (dict(sub, man='3' + (', 0x1234567890abcULL' if T else ''))))]
    approx = [('approx', APPROX % dict(sub, man=man8), FN, 1), ('binary', PAIRA % dict(sub), ['pow', 'atan2'], 2)]
    tot = [0]
    def appr(fam, src, fns, nargs):
        src = libx.PRE + src
        exe, err = r.compile(src, 'r')
        if err: raise core.CheckError(err)
        rc, o, e = r.execute(exe, 'r')
        if rc: raise core.CheckError('reference driver failed')
        ref = r.parse(o)
        def tgt(t):
            exe, err = r.compile(src, t)
            if err: rep.violation('%s/%s/compile' % (fam, t), err, src); return
            rc, o, e = r.execute(exe, t)
            got = r.parse(o)
            if rc != 0 or len(got) != len(ref): rep.violation('%s/%s/end' % (fam, t), 'driver rc %s, %d lines of %d: %s' % (rc, len(got), len(ref), e[:200]), src)
            bad = {}
            for k, v in ref.items():
                args = [D(a) for a in k.split(',')]
                gs = got.get(k, '').split(); rs = v.split()
                for i, fn in enumerate(fns):
                    tot[0] += 1
                    if gs[i:i + 1] == rs[i:i + 1] or skip(fn, args): continue
                    if len(gs) > i and close(fn, args, gs[i], rs[i]) and not exact_points(fn, args, rs[i]): continue
                    bad[fn] = bad.get(fn, 0) + 1
                    if bad[fn] <= 50: rep.violation('%s/%s/%s/%s' % (fam, t, fn, k), '%s(%s) = %r, reference %r' % (fn, ', '.join(map(repr, args)), D(gs[i]) if len(gs) > i else None, D(rs[i])), src)
        for t in r.targets: tgt(t)
    def job(j):
        if len(j) == 2: r.check(j[0], j[1])
        else: appr(*j)
    core.pmap(job, jobs + approx)
    rep.counts.update(states=r.lines + tot[0], transitions=r.lines + tot[0], traces_validated_against_impl=r.lines + tot[0])
    rep.sample('pow(-2, 3); floor(-0x1p-1074); fmod(0x1.8p1023, 0x1p-1074)')
    return rep
