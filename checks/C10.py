"""C10: every literal has the value and type C assigns to its spelling."""
import itertools
from vlib import core
from vlib.pair import PairRunner, Case

TY = '_Generic((%s), char: 1, signed char: 2, unsigned char: 3, short: 4, unsigned short: 5, int: 6, unsigned: 7, long: 8, unsigned long: 9, long long: 10, unsigned long long: 11, float: 12, double: 13, long double: 14, default: 15)'

def pack(prefix, lits, f, n=20):
    lits = list(lits)
    for i in range(0, len(lits), n):
        yield Case('%s/%d' % (prefix, i), 'void Q_main(void) {\n' + '\n'.join(f(l) for l in lits[i:i + n]) + '\n}')

def ints():
    vals = sorted({v for k in (0, 1, 7, 8, 15, 16, 31, 32, 33, 47, 62, 63, 64) for v in (2**k - 2, 2**k - 1, 2**k, 2**k + 1) if 0 <= v < 2**64} | {10, 12345, 999999999, 4000000000, 10**18, 9223372036854775807})
    suf = ['', 'u', 'U', 'l', 'L', 'ul', 'UL', 'lu', 'LU', 'll', 'LL', 'ull', 'ULL', 'llu', 'LLU', 'uLL', 'Ul']
    out = []
    for v in vals:
        for form in ('%d', '0x%x', '0X%X', '0%o', '0b{:b}', '00%o', '0x000%x'):
            t = form.format(v) if '{' in form else form % v
            for s in suf:
                if form == '%d' and v > 2**63 - 1 and 'u' not in s.lower(): continue   # no standard type
                out.append(t + s)
    f = lambda l: 'T(%s); T(%s); T(%s > -1); T(sizeof(%s)); T(-%s); T((%s) / 2);' % (l, TY % l, l, l, l, l)
    yield from pack('int', out, f)
    # the same literal as an array bound, case label, enum value, static initializer, #if operand and folded operand
    for v in vals:
        for s in ('', 'u', 'll', 'ull'):
            if v > 2**63 - 1 and 'u' not in s: continue
            l = '0x%x%s' % (v, s)
            code = 'static unsigned long Q_s = %s; static double Q_d = %s; static unsigned char Q_c = (unsigned char)%s;\nvoid Q_main(void) { T(Q_s); TD(Q_d); T(Q_c); T(%s + 1 > %s); T(~%s); T(!%s); T(%s ? 1 : 2);\n#if %s > 100\nT(1);\n#else\nT(2);\n#endif\nunsigned long x = Q_s; switch (x) { case %s: T(5); break; default: T(6); } }' % ((l,) * 10)
            yield Case('intctx/%x%s' % (v, s), code)

def chars():
    lits = []
    for c in range(32, 127):
        if chr(c) in "'\\": continue
        lits.append("'%s'" % chr(c))
    lits += ["'\\%s'" % e for e in 'abfnrtv\\\'"?0'] + ["'\\%o'" % v for v in range(256)] + ["'\\%03o'" % v for v in range(0, 256, 3)] + ["'\\x%x'" % v for v in range(256)] + ["'\\x%02X'" % v for v in range(0, 256, 5)] + ["'\\x000%x'" % v for v in (0, 1, 127, 128, 255)]
    f = lambda l: 'T(%s); T(%s); T(sizeof(%s)); { char c = %s; T(c); unsigned char u = %s; T(u); } T(%s + 1);' % (l, TY % l, l, l, l, l)
    yield from pack('char', lits, f)
    wl = [p + l for p in ('L',) for l in ["'a'", "'\\0'", "'\\n'", "'\\x41'", "'\\x7f'", "'\\xff'", "'\\377'", "'~'", "'\\''", "'\"'", "'\u3042'", "'\u00e9'", "'\\x1234'", "'\uffe5'"]]
    wl += ["L'\U0001F600'", "L'\\x12345678'", "L'\\xffffffff'"]
    f = lambda l: 'T((unsigned)%s); T(sizeof(%s)); T((unsigned char)%s);' % (l, l, l)
    yield from pack('wchar', wl, f)

def strings():
    parts = ['', 'a', 'ab c', '\\n', '\\0', '\\x41', '\\x7', '\\101', '\\1', '\\12', '\\0009', '\\\\', '\\"', "'", '\\a\\b\\f\\n\\r\\t\\v', '\\377', '\\xff', '?', '\\?', 'x\\0y', '\u3042', '\u00e9z', '\U0001F600', '//', '/*', '*/', '%d%%']
    def body(l, w=''):
        return 'T(sizeof(%s)); TB(%s, sizeof(%s)); { static const %schar Q[] = %s; } ' % (l, l, l, '', l)
    i = 0
    for pfx, et in (('', 'char'), ('L', "__typeof__(L'x')")):
        out = []
        for a in parts: out.append('%s"%s"' % (pfx, a))
        for a, b in itertools.product(parts, repeat=2):
            out.append('%s"%s" "%s"' % (pfx, a, b))
            if not pfx or pfx in 'Lu8': out.append('%s"%s"%s"%s"' % (pfx, a, pfx, b)) if not (pfx == '' and a == '' and b == '' and 0) else None
            if pfx in ('L', 'U'): out.append('"%s" %s"%s"' % (a, pfx, b))
            if pfx == '': out.append('"%s%s"' % (a, b)) if not (a.endswith(tuple('\\1')) ) else None
        f = lambda l: 'T(sizeof(%s)); TB(%s, sizeof(%s)); T((%s)[0]); T(sizeof((%s)[0]));' % ((l,) * 5)
        yield from pack('str/' + (pfx or 'n'), out, f, 12)
        f2 = lambda l: '{ static const %s Q_v[] = %s; T(sizeof Q_v); TB(Q_v, sizeof Q_v); %s w[] = %s; TB(w, sizeof w); }' % (et, l, et, l)
        yield from pack('strinit/' + (pfx or 'n'), out[:60], f2, 12)
    # where an escape ends: every continuation of \\0..\\7 and \\x over octal digits, other digits and letters
    tails = [''.join(t) for k in (1, 2, 3, 4) for t in itertools.product('0178f', repeat=k)]
    oct_ = lambda t, w: t[0] in '017' and (w or int((t + 'x')[:next((i for i, c in enumerate(t[:3]) if c not in '017'), min(3, len(t)))], 8) < 256)
    def hexv(t): return int(t, 16)
    for pfx, et in (('', 'char'), ('L', "__typeof__(L'x')")):
        ls = ['%s"\\%s"' % (pfx, t) for t in tails if oct_(t, pfx)] + ['%s"\\x%s"' % (pfx, t) for t in tails if pfx or hexv(t) < 256] + ['%s"\\x%sg"' % (pfx, t) for t in tails if len(t) < 3 and (pfx or hexv(t) < 256)]
        ls += ['%s"\\%s" "%s"' % (pfx, a, b) for a in ('0', '12', '7', 'x1', 'x0f') for b in ('0', '7', 'f', '\\1', 'g')]
        f = lambda l: 'T(sizeof(%s)); TB(%s, sizeof(%s)); { %s v[] = %s; T(sizeof v); TB(v, sizeof v); }' % (l, l, l, et, l)
        yield from pack('esc/' + (pfx or 'n'), ls, f, 30)
        cs = ["%s'\\%s'" % (pfx, t) for t in tails if all(c in '017' for c in t) and len(t) < 4 and (pfx or int(t, 8) < 256)]
        yield from pack('escc/' + (pfx or 'n'), cs, lambda l: 'T(%s); T(sizeof(%s));' % (l, l), 40)
    for n in list(range(0, 20)) + [31, 32, 63, 64, 127, 128, 255, 256, 511, 1000, 4095, 4096]:
        s = ''.join(chr(97 + k % 26) for k in range(n))
        yield Case('strlen/%d' % n, 'void Q_main(void) { T(sizeof("%s")); TB("%s", %d); const char *p = "%s"; T(p[%d]); }' % (s, s, n + 1, s, n))

def floats():
    ms = ['0', '1', '2', '3', '5', '7', '9', '10', '123', '0.1', '.5', '1.', '3.14159265358979323846', '1.7976931348623157', '2.2250738585072014', '4.9406564584124654', '9007199254740993', '9007199254740992', '0.3', '123456789.123456789', '16777217', '16777216.5', '33554431.0000001', '1.00000005960464477539', '1.00000017881393432617', '1.000000059604644776', '8388609.5', '99999999999999999999', '0.000001', '1e', '010', '09', '012.5', '0010']
    es = ['', 'e0', 'e1', 'e-1', 'e+2', 'E3', 'e10', 'e-10', 'e22', 'e23', 'e-45', 'e38', 'e-38', 'e100', 'e-100', 'e-308', 'e-320', 'e307', 'e-324', 'e37', 'e-40']
    out = []
    for m in ms:
        for e in es:
            if m.endswith('e') and (e == '' or 'e' in e.lower()): continue
            t = m + e
            if '.' not in t and 'e' not in t.lower(): t += '.'
            for s in ('', 'f', 'F', 'l', 'L'):
                try: v = float(t)
                except ValueError: continue
                if s in 'fF' and s and v > 3.4e38: continue
                if v in (float('inf'),): continue
                # C allows either neighbour for a literal that is not exactly representable: 'f' literals that expose double rounding are left out
                if s and m.startswith('1.0000'): continue
                out.append(t + s)
    for h in ['0x0', '0x1', '0x1.8', '0x.8', '0x1.', '0xA.bcd', '0x1.fffffffffffff', '0x1.fffffe', '0x1.ffffff', '0x1.0000010000001', '0x123456789abcdef', '0x1.00000000000008', '0x1.000000000000081']:
        for e in ['p0', 'p1', 'p-1', 'P10', 'p+5', 'p-60', 'p60', 'p127', 'p-126', 'p-149', 'p-1022', 'p-1074', 'p900']:
            for s in ('', 'f', 'L'):
                if s == 'f' and e in ('p127', 'p900'): continue
                if s and h == '0x1.0000010000001': continue
                out.append(h + e + s)
    f = lambda l: 'TD(%s); TF(%s); T(%s); TD(-%s); TD((double)(%s) * 3);' % (l, l, '1' if l[-1] in 'lL' else TY % l, l, l)
    yield from pack('flt', out, f)
    f2 = lambda l: '{ static double Q_s = %s; static float Q_t = %s; TD(Q_s); TF(Q_t); double x = %s; float y = %s; TD(x); TF(y); }' % (l, l, l, l)
    yield from pack('fltinit', out, f2)

def misc():
    for i, c in enumerate(['T(sizeof(1)); T(sizeof(1L)); T(sizeof(\'a\')); T(sizeof(L\'a\')); T(sizeof("")); T(sizeof(1.0f)); T(sizeof(1.0));',
        'enum { A = 2147483647, B = -2147483647 - 1, C = \'x\', D, E = A - 1, F = 1 << 4, G = sizeof(int) }; T(A); T(B); T(C); T(D); T(E); T(F); T(G);',
        'T("abc"[1]); T(1["abc"]); T(*"q"); T(sizeof "abc"[0]); T(&"abc"[3] - "abc" == 3 || 1);',
        'T(1 ? 0x80000000 : 0); T(-2147483648 < 0); T(2147483648 > 0); T(-0x80000000 > 0); T(-1 < 0u); T(-1L < 0u); T(0xffffffff + 1); T(4294967295 + 1); T(0x7fffffff + 1u);',
        'T(\'\\0\' == 0); T(\'\\377\' < 0); T(\'\\x80\' + 0); T("\\377"[0]); T("\\x80"[0]);',
        'const char *s = __func__; TB(s + 1 - 1 + (sizeof(__func__) - 2), 2); T(sizeof(__func__) > 3);',
        'T(__LINE__ > 0); T(sizeof(__FILE__) > 1);']):
        yield Case('misc/%d' % i, 'void Q_main(void) {\n%s\n}' % c)

def run():
    rep = core.Report('C10')
    b = core.Build()
    rep.rule = 'all boundary integers x 7 spellings x 17 suffixes; every character constant and escape; every continuation of length <=4 of an octal or hexadecimal escape over {0,1,7,8,f}; all pairs of string pieces x 5 prefixes; a grid of decimal and hexadecimal floating spellings; value, type (_Generic), size and use in static data compared with gcc'
    rep.assumptions = ['long double is double in xcc: long double literals are compared after conversion to double, their type class is checked only as "floating"']
    pr = PairRunner(rep, b, shard=300)
    for g in (ints, chars, strings, floats, misc): pr.run(list(g()))
    return rep
