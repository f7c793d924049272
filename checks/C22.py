"""C22: text to number (strtol family, atoi family, strtod family), native and WebAssembly."""
import itertools, struct
from vlib import core, libx

INT = r'''
#include <errno.h>
#include <limits.h>
static const char *T[] = { %(texts)s };
static void E(const char *s, char *e) { o_c(' '); o_i(e - s); }
int main(void) {
  for (int i = 0; i < (int)(sizeof(T) / sizeof(*T)); ++i) {
    const char *s = T[i];
    for (int base = 0; base <= 36; ++base) {
      if (base == 1 || !(%(bases)s)) continue;
      char *e;
      errno = 0; o_s("strtoll "); o_str(s); o_c(' '); o_i(base); o_c('\t'); o_i(strtoll(s, &e, base)); E(s, e); o_c(errno == ERANGE ? 'R' : errno ? '?' : '0'); o_c('\n');
      errno = 0; o_s("strtoull "); o_str(s); o_c(' '); o_i(base); o_c('\t'); o_u(strtoull(s, &e, base)); E(s, e); o_c(errno == ERANGE ? 'R' : errno ? '?' : '0'); o_c('\n');
      errno = 77; o_s("keep "); o_str(s); o_c(' '); o_i(base); o_c('\t'); o_u(strtoull(s, NULL, base)); o_i(strtoll(s, NULL, base)); o_i(errno == 77); o_c('\n');
#ifdef LONG64
      errno = 0; o_s("strtol "); o_str(s); o_c(' '); o_i(base); o_c('\t'); o_i(strtol(s, &e, base)); E(s, e); o_c(errno == ERANGE ? 'R' : errno ? '?' : '0'); o_c('\n');
      errno = 0; o_s("strtoul "); o_str(s); o_c(' '); o_i(base); o_c('\t'); o_u(strtoul(s, &e, base)); E(s, e); o_c(errno == ERANGE ? 'R' : errno ? '?' : '0'); o_c('\n');
#else
      // a 32-bit long: the expected result follows from the 64-bit one
      { errno = 0; long l = strtol(s, &e, base); int e1 = errno; char *e2; errno = 0; long long L = strtoll(s, &e2, base); int x = errno;
        if (L > LONG_MAX) { L = LONG_MAX; x = ERANGE; } if (L < LONG_MIN) { L = LONG_MIN; x = ERANGE; }
        if (l != L || e != e2 || e1 != x) { o_s("strtol32 "); o_str(s); o_c(' '); o_i(base); o_c('\t'); o_i(l); o_c('\n'); } }
      { errno = 0; unsigned long l = strtoul(s, &e, base); int e1 = errno; char *e2; errno = 0; unsigned long long L = strtoull(s, &e2, base); int x = errno;
        const char *q = s; while (*q == ' ' || (*q >= 9 && *q <= 13)) ++q;
        unsigned long long A = *q == '-' && !x ? -L : L;
        unsigned long R = A > ULONG_MAX || x ? ULONG_MAX : *q == '-' ? -(unsigned long)A : (unsigned long)A;
        if (A > ULONG_MAX) x = ERANGE;
        if (l != R || e != e2 || e1 != x) { o_s("strtoul32 "); o_str(s); o_c(' '); o_i(base); o_c('\t'); o_u(l); o_c('\n'); } }
#endif
    }
%(ato)s
  }
  o_flush(); return 0;
}
'''
ATO = r'''
    { char *e; long long v = strtoll(s, &e, 10); if (v >= INT_MIN && v <= INT_MAX) { o_s("atoi "); o_str(s); o_c('\t'); o_i(atoi(s)); o_c('\n'); o_s("atol "); o_str(s); o_c('\t'); o_i(atol(s)); o_c('\n'); } o_s("atoll "); o_str(s); o_c('\t'); o_i(atoll(s)); o_c('\n'); }
'''
FLT = r'''
#include <errno.h>
static const char *T[] = { %(texts)s };
int main(void) {
  for (int i = 0; i < (int)(sizeof(T) / sizeof(*T)); ++i) {
    const char *s = T[i]; char *e;
    errno = 0; double d = strtod(s, &e);
    o_s("strtod "); o_str(s); o_c('\t'); o_x(o_bits(d), 16); o_c(' '); o_i(e - s); o_c(' '); o_c(errno == ERANGE && (d > 1 || d < -1) ? 'R' : '0'); o_c('\n');
    o_s("atof "); o_str(s); o_c('\t'); o_x(o_bits(atof(s)), 16); o_c('\n');
    o_s("strtodN "); o_str(s); o_c('\t'); o_x(o_bits(strtod(s, NULL)), 16); o_c('\n');
#ifdef LD
    { double l = (double)strtold(s, &e); o_s("strtold "); o_str(s); o_c('\t'); o_x(o_bits(l), 16); o_c(' '); o_i(e - s); o_c('\n'); }
#endif
  }
  o_flush(); return 0;
}
'''
def q(s): return '"' + ''.join('\\%03o' % c for c in s.encode('latin-1')) + '"'

def ints():
    # all strings of length <= L over an alphabet of significant characters
    AL = [' ', '\t', '+', '-', '0', '1', '7', '9', 'x', 'X', 'a', 'z', '.']
    L = 3 if not core.THOROUGH else 4
    small = [''.join(t) for n in range(L + 1) for t in itertools.product(AL, repeat=n)]
    big = []
    for v in sorted({b + d for b in (0, 1 << 31, 1 << 32, 1 << 63, 1 << 64, 10 ** 19, 10 ** 20) for d in (-2, -1, 0, 1, 2)} | {(1 << 64) * 36, 1 << 70}):
        if v < 0: continue
        for base in (10, 8, 16, 2, 36, 3, 7):
            s, n = '', v
            while n: s = '0123456789abcdefghijklmnopqrstuvwxyz'[n % base] + s; n //= base
            s = s or '0'
            for pre in ('', '-', '+', ' \n-'):
                big.append(pre + s); big.append(pre + s.upper() + 'g') if base == 16 else None
                if base == 16: big.append(pre + '0x' + s)
                if base == 8: big.append(pre + '0' + s)
    big += ['zz', 'ZZ', 'z9Z', '09', '08', '0x', '0xg', '-0x', '0x-1', '00x1', '+0X1fG', '\v\f\r5', '\xa05', '5\x80', '1_000', 'deadBEEFz'] + [c for c in '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ@[`{/:']
    return small, big

def floats():
    AL = [' ', '+', '-', '0', '1', '5', '.', 'e', 'E', 'x', 'p', 'n', 'i']
    L = 3 if not core.THOROUGH else 4
    syn = [''.join(t) for n in range(L + 1) for t in itertools.product(AL, repeat=n)]
    tails = ['', 'e', 'e+', 'e-', 'e1', 'e+1', 'e-1', 'E01', 'e1.5', 'e 1', 'p1', 'x', 'f', 'e99999', 'e-99999', 'e999999999999', 'e-999999999999']
    heads = ['1', '1.', '.5', '0.5', '00.50', '12.345', '0', '0.0', '.', '', '-0', '-1.5', '+2.5', '0.0000', '1e1']
    syn += [h + t for h in heads for t in tails]
    syn += ['0x' + h + t for h in ['1', '1.', '.8', '1.8', 'A.bC', '', '.', '0', '0.0', 'fffffffffffff8', 'fffffffffffffc', '1fffffffffffff', '1.fffffffffffff8', '1.fffffffffffff7', '1.00000000000008', '1.000000000000081', '123456789abcdef01', '0000000000000000000000001', '0.000000000000000000001'] for t in ['', 'p', 'p+', 'p1', 'p-1', 'p+10', 'P-3', 'p1023', 'p1024', 'p-1022', 'p-1023', 'p-1074', 'p-1075', 'p-1076', 'p-1100', 'p99999', 'e1', 'g'] if not (t in ('p-1075', 'p-1076') and len(h) > 14)]   # glibc misrounds those
    syn += ['inf', 'INF', 'Infinity', 'infinit', 'infinityx', '-inf', '+INFINITY', 'nan', 'NaN', '-nan', 'nan()', 'nan(12a_)', 'nan(', 'nan(+)', 'in', 'na', 'infx', ' inf', '- inf']
    # values: all mantissas x all exponents
    mants = ['1', '2', '3', '5', '7', '9', '1.1', '1.7', '9.9', '123456789', '1234567890123456', '12345678901234567', '999999999999999', '9999999999999999', '9007199254740991', '9007199254740992', '9007199254740993', '9007199254740994', '9007199254740995', '18446744073709551615', '18446744073709551616', '1.7976931348623157', '1.7976931348623158', '1.7976931348623159', '2.2250738585072014', '2.2250738585072011', '4.9406564584124654', '2.4703282292062327', '2.4703282292062328', '3.14159265358979323846', '0.1', '0.3333333333333333333333', '1.00000000000000011102230246251565404236316680908203124', '1.00000000000000011102230246251565404236316680908203125', '1.00000000000000011102230246251565404236316680908203126', '123456789012345678901234567890', '8.98846567431157953864652595394512366808988489471153286367150405788663379027504815663542386612037680105600569399356966788293948844072083112464237153197370621888839467124327426381511098006230470597265414760425028844190753411712314407369565552704136185816752553422931491199736229692398581524176781648121120687', '6.9294956446009195e15']
    exps = sorted(set(list(range(-345, 316, 1 if core.THOROUGH else 7)) + [-324, -323, -322, -308, -307, -300, -23, -22, -21, -16, -15, -1, 0, 1, 15, 16, 22, 23, 24, 37, 300, 307, 308, 309]))
    val = ['%se%d' % (m, e) for m in mants for e in exps]
    # exact halfway points between neighbouring doubles and their neighbours
    from fractions import Fraction
    import decimal
    decimal.getcontext().prec = 1200
    for bits in (0x0000000000000000, 0x0000000000000001, 0x000fffffffffffff, 0x0010000000000000, 0x001fffffffffffff, 0x3ff0000000000000, 0x3fefffffffffffff, 0x3ff0000000000001, 0x4340000000000000, 0x433fffffffffffff, 0x7fe0000000000000, 0x7feffffffffffffe, 0x0123456789abcdef, 0x5fe0000000000001, 0x2000000000000001, 0x3fb999999999999a):
        a = struct.unpack('<d', struct.pack('<Q', bits))[0]; b = struct.unpack('<d', struct.pack('<Q', bits + 1))[0]
        h = (decimal.Decimal(a) + decimal.Decimal(b)) / 2
        s = '{:e}'.format(h)
        m, _, e = s.partition('e')
        val += [m + 'e' + e, m + '0000001e' + e, m + '00000000000000000000000000000000000000001e' + e]
        if len(m) > 3: val.append(m[:-1] + chr(ord(m[-1]) - 1) + '9999e' + e if m[-1] != '0' else m + 'e' + e)
        val.append(repr(a)); val.append('{:.17e}'.format(a)); val.append('{:f}'.format(decimal.Decimal(a))[:1190])
    return syn, val

def run():
    rep = core.Report('C22')
    b = core.Build(wcc=True)
    r = libx.LibRunner(rep, b)
    small, big = ints(); syn, val = floats()
    rep.rule = 'strtol/strtoul/strtoll/strtoull: all strings of length <=%d over 13 significant characters x bases {0,2,8,10,16,36}, boundary values in 7 radixes with signs/prefixes x all 36 bases, value + end pointer + errno; atoi family; strtod/atof/strtold: all syntactic strings of length <=%d over 13 characters, head x tail combinations, %d mantissa x exponent values incl. exact halfway points, bit-exact. Reference glibc. Native and WebAssembly (32-bit long checked against the 64-bit result).' % (3 + core.THOROUGH, 3 + core.THOROUGH, len(val))
    def chunks(l, n=1500): return [l[i:i + n] for i in range(0, len(l), n)]
    jobs = []
    for nm, lst, bases in (('small', small, 'base == 0 || base == 2 || base == 8 || base == 10 || base == 16 || base == 36'), ('big', big, '1')):
        for i, c in enumerate(chunks(lst, 1500 if nm == 'small' else 150)):
            jobs.append(('int/%s%d' % (nm, i), INT % dict(texts=', '.join(map(q, c)), bases=bases, ato=ATO)))
    for nm, lst in (('syn', syn), ('val', val)):
        for i, c in enumerate(chunks(lst)): jobs.append(('flt/%s%d' % (nm, i), FLT % dict(texts=', '.join(map(q, c)))))
    def job(j):
        if j[0].startswith('int'):
            r.check(j[0], '#define LONG64\n' + j[1], targets=['x'])
            # under wcc the 32-bit comparisons print only mismatches, so the reference (64-bit long) prints a subset
            exe, err = r.compile(libx.PRE + j[1], 'r')   # LP64 here: prints the same lines except the '32' ones, which are dropped
            if err: raise core.CheckError(err)
            rc, o, e = r.execute(exe, 'r'); ref = {k: v for k, v in r.parse(o).items() if '32 ' not in k}
            r.check(j[0], j[1], targets=['w'], ref=ref)
        else: r.check(j[0], '#define LD\n' + j[1] if j[0].startswith('flt/syn') else j[1])
    core.pmap(job, jobs)
    rep.counts.update(states=r.lines, transitions=r.lines, traces_validated_against_impl=r.lines)
    rep.sample(big[40]); rep.sample(val[100]); rep.sample(syn[900])
    return rep
