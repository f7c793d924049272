"""C05: calls follow the platform ABI (xcc <-> gcc in both directions) and xcc's own code agrees with itself."""
import itertools, re
from vlib import core
from vlib.pair import PairRunner, Case

SC = {'i8': 'T', 'u8': 'T', 'i16': 'T', 'u16': 'T', 'i32': 'T', 'u32': 'T', 'i64': 'T', 'u64': 'T', '_Bool': 'T', 'float': 'TF', 'double': 'TD', 'char *': 'TP'}
PRE = '''
#include <stdarg.h>
#define TP(p) T((ill)(p))
extern void GA(void); extern ull GV(int n, va_list ap);
extern i8 GR_i8(ull v); extern u8 GR_u8(ull v); extern i16 GR_i16(ull v); extern u16 GR_u16(ull v); extern int GR_i32(ull v); extern u32 GR_u32(ull v); extern i64 GR_i64(ull v); extern u64 GR_u64(ull v); extern _Bool GR_b(ull v);
extern float GR_f(ull v); extern double GR_d(ull v);
'''
EXTRA = r'''
#include <stdarg.h>
__asm__(".globl GA\nGA: lea 8(%rsp), %rdi\n and $15, %rdi\n sub $8, %rsp\n call T\n add $8, %rsp\n ret\n");
__asm__(".globl GR_i8,GR_u8,GR_i16,GR_u16,GR_i32,GR_u32,GR_i64,GR_u64,GR_b\nGR_i8:GR_u8:GR_i16:GR_u16:GR_i32:GR_u32:GR_i64:GR_u64:\n mov %rdi, %rax\n ret\nGR_b:\n mov %rdi, %rax\n and $1, %al\n ret\n.globl GR_f,GR_d\nGR_f:\n movq %rdi, %xmm0\n ret\nGR_d:\n movq %rdi, %xmm0\n ret\n");
ull GV(int n, va_list ap) { ull s = 0; for (int i = 0; i < n; ++i) { if (i & 1) { double d = va_arg(ap, double); TD(d); } else { long v = va_arg(ap, long); T(v); s += v; } } return s; }
'''
def val(t, i):
    if t == 'float': return '(float)(%d.25f + a)' % (i + 1)
    if t == 'double': return '(double)(%d.125 - a)' % (i + 1)
    if t == 'char *': return '(char*)(a + %d)' % (i + 1)
    if t == '_Bool': return '(_Bool)((a >> %d) & 1)' % (i & 1)
    return '(%s)(a * %d + %s)' % (t, i + 3, ['0x123456789abcdefL', '-1', '0x80', '0x8000', '77'][i % 5])

VALS = [0, 1, 0xffffffffffffffff, 0x7f, 0x80]

def sig_case(id, params, ret='i32', pre='', xonly=False):
    """params: list of (type, value expr, tracer statement for variable name v)."""
    pl = ', '.join('%s p%d' % (t, i) for i, (t, v, tr) in enumerate(params)) or 'void'
    tr = ' '.join(tr % {'v': 'p%d' % i} for i, (t, v, tr) in enumerate(params))
    args = ', '.join(v for t, v, tr in params)
    if ret in SC:
        rstmt, use = ('return (%s)(%s);' % (ret, re.sub(r'\ba\b', 'Q_ga', val(ret, 7))), '%s(%%s);' % SC[ret])
    elif ret == 'void': rstmt, use = '', '%s;'
    else: rstmt, use = 'return Q_gs;', None
    def caller(target):
        if use: return use % ('%s(%s)' % (target, args))
        return '%s r = %s(%s); TB(&r, sizeof r); T(((unsigned char*)&r)[0] + ((unsigned char*)&r)[sizeof r - 1]);' % (ret, target, args)
    g = 'static ull Q_ga = 5; '
    if use is None: g += 'static %s Q_gs; ' % ret
    init = '' if use else ' for (int i = 0; i < (int)sizeof(%s); ++i) ((char*)&Q_gs)[i] = (char)(i * 7 + 3);' % ret
    proto = '%s X_k(%s); %s R_k(%s); ' % (ret, pl, ret, pl)
    code = pre + g + proto + '%s Q_k(%s) { GA(); %s%s %s } ' % (ret, pl, tr, init, rstmt)
    code += 'void Q_cX(ull a) { %s } void Q_cR(ull a) { %s } void X_cX(ull a); void X_cR(ull a); void R_cX(ull a); void R_cR(ull a); ' % (caller('X_k'), caller('R_k'))
    if xonly:
        code += 'ull Q_f(ull a, ull b) { MB_c(a); return 0; }'
    else:
        code += 'ull Q_f(ull a, ull b) { Q_cR(a); T(111); MA_c(a); T(222); MB_c(a); return 0; }'
    return Case(id, code, VALS)

def sc(t, i): return (t, val(t, i), SC[t] + '(%(v)s);')

def scalar_cases():
    yield sig_case('void', [])
    for r in list(SC) + ['void']:
        yield sig_case('ret/' + r, [sc('i32', 0)], r)
    ts = list(SC)
    for n in (1, 2):
        for p in itertools.product(ts, repeat=n):
            yield sig_case('s%d/%s' % (n, ','.join(p)), [sc(t, i) for i, t in enumerate(p)])
    small = ['i8', 'i32', 'i64', 'float', 'double']
    for n in (3, 4) if core.THOROUGH else (3,):
        for p in itertools.product(small, repeat=n):
            yield sig_case('s%d/%s' % (n, ','.join(p)), [sc(t, i) for i, t in enumerate(p)])
    for n in range(4, 21):
        for t in ts:
            yield sig_case('n%d/%s' % (n, t), [sc(t, i) for i in range(n)], 'i64' if n & 1 else 'double')
        for pat in (['i32', 'double'], ['double', 'i64'], ['float', 'i8', 'double'], ['i64', 'i64', 'float'], ['u8', 'double', 'double']):
            yield sig_case('p%d/%s' % (n, ','.join(pat)), [sc(pat[i % len(pat)], i) for i in range(n)])
    for base in ('i64', 'double', 'i32'):
        for n in (7, 10, 14):
            for pos in range(n):
                for t in ('i8', 'u16', '_Bool', 'float', 'double', 'i64'):
                    yield sig_case('pos/%s/%d/%d/%s' % (base, n, pos, t), [sc(t if i == pos else base, i) for i in range(n)])

def struct_members():
    S = {}
    for n in list(range(1, 17)): S['c%d' % n] = ('char c[%d];' % n, n)
    S.update({'i': ('int a;', 4), 'l': ('long a;', 8), 'f': ('float a;', 4), 'd': ('double a;', 8), 'ii': ('int a, b;', 8), 'if': ('int a; float b;', 8), 'fi': ('float a; int b;', 8), 'ff': ('float a, b;', 8), 'fff': ('float a, b, c;', 12), 'ld': ('long a; double b;', 16), 'dl': ('double a; long b;', 16), 'dd': ('double a, b;', 16), 'll': ('long a, b;', 16), 'cl': ('char a; long b;', 16), 'sc': ('short a; char b;', 4), 'nest': ('struct { char a; short b; } n; int c;', 8), 'un': ('union { int a; float b; char c[3]; } n; int c;', 8), 'p': ('void *p; int n;', 16), 'arr': ('int a[3];', 12)})
    return S
BIG = {'b17': 'char c[17];', 'b20': 'int a[5];', 'b24': 'long a[3];', 'bd': 'double a, b, c;', 'bm': 'char a; double b; float c; short d;', 'b40': 'long a[5];', 'b33': 'char c[33];', 'b64': 'long l[8];', 'b100': 'char c[100];', 'b130': 'short s[65];', 'b300': 'char c[300];', 'bn': 'struct { int x; double y; } n[2]; char z;'}
FILL = 'static struct Q_s Q_mk(ull a) { struct Q_s s; unsigned char *p = (unsigned char*)&s; for (int i = 0; i < (int)sizeof s; ++i) p[i] = (unsigned char)(i * 5 + a); return s; } '
# structs with padding are traced member by member
PADDED = {'cl': ['a', 'b'], 'sc': ['a', 'b'], 'nest': ['n.a', 'n.b', 'c'], 'un': ['n', 'c'], 'p': ['p', 'n'], 'bm': ['a', 'b', 'c', 'd'], 'bn': ['n[0].x', 'n[0].y', 'n[1].x', 'n[1].y', 'z']}
def struct_cases():
    for c in _struct_cases():
        k = c.id.split('/')[1]
        if k in PADDED:
            c.code = re.sub(r'TB\(&(\w+), sizeof \1\);', lambda m: ' '.join('TB(&%s.%s, sizeof %s.%s);' % (m.group(1), f, m.group(1), f) for f in PADDED[k]), c.code)
            c.code = re.sub(r'TB\(arr, sizeof arr\);', ' '.join('TB(&arr[%d].%s, sizeof arr[0].%s);' % (i, f, f) for i in range(3) for f in PADDED[k]), c.code)
            c.code = re.sub(r'T\(\(\(unsigned char\*\)&r\)\[0\] \+ .*?\);', '', c.code)
        yield c
def _struct_cases():
    def st(m, k=0): return ('struct Q_s', 'Q_mk(a + %d)' % k, 'TB(&%(v)s, sizeof %(v)s);')
    def stv(k=0): return ('struct Q_s', 'v%d' % k, 'TB(&%(v)s, sizeof %(v)s);')
    allm = [(k, v, False) for k, v in BIG.items()] + [(k, v[0], True) for k, v in struct_members().items()]
    for k, m, xonly in allm:
        pre = 'struct Q_s { %s }; ' % m + FILL
        lists = {'1': [st(m)], 'is': [sc('i32', 0), st(m)], 'si': [st(m), sc('i32', 1)], 'ss': [st(m), st(m, 3)], 'ids': [sc('i32', 0), sc('double', 1), st(m)], 'sdi': [st(m), sc('double', 0), sc('i32', 1)], 'isids': [sc('i64', 0), st(m), sc('i32', 1), sc('float', 2), st(m, 9)],
                 'full': [sc('i64', i) for i in range(6)] + [st(m)] + [sc('i64', 7)], 'over': [sc('i64', i) for i in range(7)] + [st(m), sc('i8', 3), st(m, 2), sc('double', 1)], 'fover': [sc('double', i) for i in range(9)] + [st(m), sc('float', 2), sc('i32', 1)], 'mid': [sc('i32', 0), sc('i32', 1), sc('i32', 2), st(m), sc('i32', 3), sc('i32', 4), sc('i32', 5), sc('i32', 6)], 'sss': [st(m), st(m, 1), st(m, 2)]}
        for ln, l in lists.items():
            for r in ('i32', 'double', 'void', 'struct Q_s'):
                yield sig_case('st/%s/%s/%s' % (k, ln, r), l, r, pre, xonly)
        for n in (0, 1, 5, 6, 8):
            yield sig_case('sret/%s/i%d' % (k, n), [sc('i64', i) for i in range(n)], 'struct Q_s', pre, xonly)
            yield sig_case('sret/%s/d%d' % (k, n), [sc('double', i) for i in range(n)], 'struct Q_s', pre, xonly)
        # by-value semantics: the callee modifies its copy, member access on the returned value, chains, pointers to functions
        mem = '((unsigned char*)&s)[0]'
        code = pre + 'static struct Q_s Q_inc(struct Q_s s, int k) { %s += k; return s; } ' % mem + 'static struct Q_s Q_two(struct Q_s a, struct Q_s b) { TB(&a, sizeof a); TB(&b, sizeof b); return ((unsigned char*)&a)[0] & 1 ? a : b; } ' + 'ull Q_f(ull a, ull b) { struct Q_s s = Q_mk(a), t, arr[3], *p = arr; t = Q_inc(s, 3); TB(&s, sizeof s); TB(&t, sizeof t); t = Q_inc(Q_inc(Q_inc(s, 1), 2), 3); TB(&t, sizeof t); arr[0] = s; arr[1] = Q_inc(arr[0], 5); *(p + 2) = Q_two(arr[0], arr[1]); TB(arr, sizeof arr); struct Q_s (*fp)(struct Q_s, int) = Q_inc; t = fp(Q_two(Q_mk(1), Q_mk(2)), 9); TB(&t, sizeof t); s = t = arr[1]; TB(&s, sizeof s); t = b ? s : arr[2]; TB(&t, sizeof t); s = (T(1), Q_mk(b)); TB(&s, sizeof s); for (int i = 0; i < 3; ++i) s = Q_inc(s, i); TB(&s, sizeof s); return sizeof s; }'
        yield Case('sval/' + k, code, VALS, [0, 1])

def vararg_cases():
    va = {'i': ('int', 'T((int)va_arg(ap, int));', lambda i: '(int)(a * 3 + %d)' % i), 'l': ('long', 'T(va_arg(ap, long));', lambda i: '(long)(a * 0x100000001 + %d)' % i), 'd': ('double', 'TD(va_arg(ap, double));', lambda i: '(a + %d.5)' % i), 'p': ('char *', 'TP(va_arg(ap, char*));', lambda i: '(char*)(a + %d)' % i), 'u': ('unsigned', 'T(va_arg(ap, unsigned));', lambda i: '(unsigned)(a - %d)' % i),
          'f': ('double', 'TD(va_arg(ap, double));', lambda i: '(float)(a + %d.25f)' % i), 'c': ('int', 'T(va_arg(ap, int));', lambda i: '(char)(a + %d)' % i), 'h': ('int', 'T(va_arg(ap, int));', lambda i: '(unsigned short)(a - %d)' % i), 's': ('struct Q_b', '{ struct Q_b s = va_arg(ap, struct Q_b); T(s.l[0]); T(s.l[3]); T(s.c); }', lambda i: 'Q_mk(a + %d)' % i)}
    pre = 'struct Q_b { long l[4]; char c; }; static struct Q_b Q_mk(ull a) { struct Q_b s = {{a, a + 1, a + 2, a + 3}, (char)a}; return s; } '
    def vc(id, fixed, seq, xonly=False, copy=False):
        fl = ', '.join('%s f%d' % (t, i) for i, t in enumerate(fixed))
        fa = ', '.join(val(t, i) for i, t in enumerate(fixed))
        body = ' '.join('%s(f%d);' % (SC[t], i) for i, t in enumerate(fixed)) + ' va_list ap; va_start(ap, f%d); GA(); ' % (len(fixed) - 1)
        if copy:
            h = len(seq) // 2
            body += ' '.join(va[c][1] for c in seq[:h]) + ' va_list cp; va_copy(cp, ap); ' + ' '.join(va[c][1] for c in seq[h:]) + ' T(555); ' + ' '.join(va[c][1].replace('ap,', 'cp,') for c in seq[h:]) + ' va_end(cp);'
        else: body += ' '.join(va[c][1] for c in seq)
        args = ', '.join([fa] + [va[c][2](i + 1) for i, c in enumerate(seq)])
        code = pre + 'int X_k(%s, ...); int R_k(%s, ...); int Q_k(%s, ...) { %s va_end(ap); return 9; } ' % (fl, fl, fl, body)
        code += 'void Q_cX(ull a) { T(X_k(%s)); } void Q_cR(ull a) { T(R_k(%s)); } void X_cX(ull a); void R_cX(ull a); void R_cR(ull a); ' % (args, args)
        code += 'ull Q_f(ull a, ull b) { Q_cR(a); T(111); MA_c(a); T(222); MB_c(a); return 0; }'
        return Case(id, code, VALS[:3])
    for n in range(0, 7):
        for s in itertools.product('id', repeat=n):
            yield vc('va/%s' % ''.join(s), ['i32'], s)
    for n in (1, 2, 3):
        for s in itertools.product('ilpdcfhus', repeat=n) if n < 3 else itertools.product('lds', repeat=3):
            yield vc('vb/%s' % ''.join(s), ['char *'], s)
    for nf in range(1, 10):
        for ft in ('i32', 'double', 'i8', 'float'):
            for s in ('', 'i', 'd', 'idid', 'iiiiiiii', 'dddddddddd', 'lsdsl'):
                fixed = [ft] * nf
                if ft in ('i8', 'float'): fixed[-1] = 'i32'   # the last named parameter must not be subject to promotion
                yield vc('vf/%s/%d/%s' % (ft, nf, s), fixed, s)
    for ni in range(0, 11):
        for nd in range(0, 12):
            yield vc('vn/%d/%d' % (ni, nd), ['i32'], 'i' * ni + 'd' * nd, copy=(ni + nd) % 2 == 0)
            if core.THOROUGH: yield vc('vm/%d/%d' % (ni, nd), ['i32', 'double'], ('id' * 12)[:ni] + 'd' * nd + 'l', copy=True)
    # va_list handed to another function (by xcc code to gcc code and vice versa)
    for n in range(0, 14):
        args = ''.join(', ' + ('(long)(a + %d)' % i if i % 2 == 0 else '(a + %d.5)' % i) for i in range(n))
        code = 'ull X_k(int n, ...); ull R_k(int n, ...); ull X_w(int n, va_list ap); ull R_w(int n, va_list ap); ull Q_w(int n, va_list ap) { ull s = 0; for (int i = 0; i < n; ++i) { if (i %% 2) { TD(va_arg(ap, double)); } else { long v = va_arg(ap, long); T(v); s += v; } } return s; } ull Q_k(int n, ...) { va_list ap; va_start(ap, n); ull r = Q_w(n, ap); va_end(ap); va_start(ap, n); r += Q_w(n, ap); va_end(ap); return r; } void Q_cX(ull a) { T(X_k(%d%s)); } void Q_cR(ull a) { T(R_k(%d%s)); } void X_cX(ull a); void R_cX(ull a); void R_cR(ull a); ull Q_f(ull a, ull b) { Q_cR(a); MA_c(a); MB_c(a); ull (*fp)(int, ...) = R_k; return fp(%d%s); }' % ((n, args) * 3)
        yield Case('vlist/%d' % n, code, VALS[:3])

def misc_cases():
    for t in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f', 'd'):
        tr = {'f': 'TF', 'd': 'TD'}.get(t, 'T')
        ty = {'b': '_Bool', 'f': 'float', 'd': 'double'}.get(t, t)
        yield Case('garbage/' + t, 'ull Q_f(ull a, ull b) { %s(GR_%s(a)); if (GR_%s(a)) T(1); else T(2); %s v = GR_%s(a); %s(v); %s(v + 1); TD(GR_%s(a)); long l = GR_%s(a) * 3; T(l); return GR_%s(a) > 3; }' % (tr, t, t, ty, t, tr, tr, t, t, t) if t not in 'fd' else 'ull Q_f(ull a, ull b) { %s(GR_%s(a)); %s v = GR_%s(a); %s(v + 1); return v > 3; }' % (tr, t, ty, t, tr), [0, 1, 0x7f, 0x80, 0xff, 0x1234567800000080, 0xffffffff00007fff, 0x12345678ffff8000, 0xdeadbeef80000000, 0xabcdef0000000000, 2**64 - 1] if t not in 'fd' else [0x3f800000, 0x4010000000000000, 0xdeadbeef40490fdb])
    # recursion and mutual recursion, nested calls as arguments, calls through tables, stack depth
    yield Case('rec/fact', 'static ull Q_k(ull n) { return n < 2 ? 1 : n * Q_k(n - 1); } static ull Q_fib(int n) { return n < 2 ? n : Q_fib(n - 1) + Q_fib(n - 2); } ull Q_f(ull a, ull b) { T(Q_k(a)); return Q_fib((int)a); }', range(15))
    yield Case('rec/ack', 'static int Q_k(int m, int n) { if (m == 0) return n + 1; if (n == 0) return Q_k(m - 1, 1); return Q_k(m - 1, Q_k(m, n - 1)); } ull Q_f(ull a, ull b) { return Q_k((int)a, (int)b); }', range(3), range(5))
    yield Case('rec/mut', 'static int Q_o(int n); static int Q_e(int n) { GA(); return n == 0 ? 1 : Q_o(n - 1); } static int Q_o(int n) { char pad[7]; pad[n % 7] = 1; GA(); return n == 0 ? 0 : Q_e(n - 1) + pad[n % 7] - 1; } ull Q_f(ull a, ull b) { return Q_e((int)a) * 2 + Q_o((int)a); }', range(12))
    yield Case('rec/hanoi', 'static int Q_k(int n, int f, int t, int v) { if (n == 0) return 0; int c = Q_k(n - 1, f, v, t); T(f * 10 + t); return c + 1 + Q_k(n - 1, v, t, f); } ull Q_f(ull a, ull b) { return Q_k((int)a, 1, 2, 3); }', range(7))
    yield Case('rec/deep', 'static long Q_k(int n, double d) { char b[100]; b[n % 100] = (char)n; if (n == 0) return (long)d; return Q_k(n - 1, d + 0.5) + b[n % 100] - (char)n; } ull Q_f(ull a, ull b) { return Q_k((int)a, 1.5); }', [0, 1, 10, 1000, 20000])
    for n in range(1, 10):
        # nested calls in every argument position
        for m in range(n):
            args = ['%d' % (i + 1) for i in range(n)]
            inner = 'Q_k(%s)' % ', '.join('a + %d' % i for i in range(n))
            args[m] = inner
            pl = ', '.join('ull p%d' % i for i in range(n)); ex = ' + '.join('p%d * %d' % (i, 3 ** i) for i in range(n))
            yield Case('nest/%d/%d' % (n, m), 'static ull Q_k(%s) { GA(); return %s; } ull Q_f(ull a, ull b) { ull (*t[2])(%s) = {Q_k, Q_k}; T(Q_k(%s)); return t[b](%s) + Q_k(%s); }' % (pl, ex, pl, ', '.join(args), ', '.join(args), ', '.join(reversed(args))), VALS, [0, 1])
            dl = ', '.join('double p%d' % i for i in range(n)); ex = ' + '.join('p%d * %d' % (i, i + 1) for i in range(n))
            args[m] = 'Q_k(%s)' % ', '.join('(long)a + %d' % i for i in range(n))
            yield Case('nestd/%d/%d' % (n, m), 'static double Q_k(%s) { GA(); return %s; } ull Q_f(ull a, ull b) { TD(Q_k(%s)); TD(Q_k(%s) + Q_k(%s)); return 0; }' % (dl, ex, ', '.join(args), ', '.join(reversed(args)), ', '.join(args)), VALS)
    # alignment of the frame for every local size and call with stack arguments, alloca-like blocks
    for n in range(1, 40):
        yield Case('frame/%d' % n, 'static ull Q_k(char *p, ull b, ull c, ull d, ull e, ull f, ull g) { GA(); for (int i = 0; i < %d; ++i) p[i] += (char)g; return b + c + d + e + f + g; } ull Q_f(ull a, ull b) { char buf[%d]; for (int i = 0; i < %d; ++i) buf[i] = (char)(a + i); GA(); T(Q_k(buf, 1, 2, 3, 4, 5, a)); TB(buf, %d); { long x[%d]; x[%d] = a; GA(); T(x[%d]); } return 0; }' % (n, n, n, n, n, n - 1, n - 1), VALS[:3])
    yield Case('alloca', '#include <alloca.h>\n#ifndef Q_AL\n#define Q_AL 15\n#endif\null Q_f(ull a, ull b) { char *p[4]; for (int i = 0; i < 4; ++i) { p[i] = alloca((int)b * (i + 1) + 1); for (int j = 0; j <= (int)b * (i + 1); ++j) p[i][j] = (char)(i * 16 + j); T((ull)p[i] & Q_AL); GA(); } for (int i = 0; i < 4; ++i) for (int j = 0; j <= (int)b * (i + 1); ++j) T(p[i][j]); return 0; }', [0], range(0, 30))

# parameter lists mixing structures of different size and alignment with scalars, variadic tails, structure results and nested calls
MS = {'A': 'char c[3];', 'B': 'int i;', 'C': 'double d; char c;', 'D': 'long long l, m, n;', 'E': 'char c[17];'}
MT = {'A': 'TB(&%s, 3);', 'B': 'T(%s.i);', 'C': 'TD(%s.d); T(%s.c);', 'D': 'T(%s.l); T(%s.n);', 'E': 'TB(&%s, 17);', 'i': 'T(%s);', 'd': 'TD(%s);'}
def mix_cases():
    pre = ''.join('struct Q_%s { %s }; static struct Q_%s Q_m%s(int k) { struct Q_%s s; %s return s; } ' % (k, m, k, k, k, {'A': 's.c[0] = (char)k; s.c[1] = (char)(k + 1); s.c[2] = 7;', 'B': 's.i = k * 3;', 'C': 's.d = k + 0.5; s.c = (char)k;', 'D': 's.l = k; s.m = k * 2; s.n = ~k;', 'E': 'for (int q = 0; q < 17; ++q) s.c[q] = (char)(k * q + 1);'}[k]) for k, m in MS.items())
    ty = lambda c: 'struct Q_%s' % c if c in MS else {'i': 'int', 'd': 'double'}[c]
    mk = lambda c, k: 'Q_m%s((int)a + %d)' % (c, k) if c in MS else '((int)a + %d)' % k if c == 'i' else '((int)a + %d.25)' % k
    trc = lambda c, v: MT[c].replace('%s', v)
    tails = [None, '', 'i', 'd', 'E', 'iE', 'Ai', 'dCi', 'BdDi']
    for n in (1, 2, 3):
        for sq in itertools.product('ABCDEid', repeat=n):
            if n == 3 and not core.THOROUGH and sum(c in MS for c in sq) < 2: continue
            if not any(c in MS for c in sq): continue
            for ti, tl in enumerate(tails if n < 3 else [None, ['', 'i', 'dE', 'A'][sum(map(ord, sq)) % 4]]):
                for ret in ('i', 'D') if n < 3 or core.THOROUGH else ('iD'[ord(sq[1]) & 1],):
                    pl = ', '.join('%s p%d' % (ty(c), i) for i, c in enumerate(sq))
                    body = ' '.join(trc(c, 'p%d' % i) for i, c in enumerate(sq))
                    args = ', '.join(mk(c, i) for i, c in enumerate(sq))
                    if tl is not None:
                        pl += ', int n, ...'; args += ', 77' + ''.join(', ' + mk(c, i + 10) for i, c in enumerate(tl))
                        body += ' T(n); va_list ap; va_start(ap, n); %s va_end(ap);' % ' '.join('{ %s v = va_arg(ap, %s); %s }' % (ty(c), ty(c), trc(c, 'v')) for c in tl)
                    rs = 'return Q_mD(p%s);' % ('0.i' if sq[0] == 'B' else '0.c[1]' if sq[0] in 'AE' else '0.c' if sq[0] == 'C' else '0.l' if sq[0] == 'D' else '0') if ret == 'D' else 'return 5;'
                    call = 'Q_k(%s)' % args
                    use = 'T(%s);' % call if ret == 'i' else '{ struct Q_D r = %s; T(r.l); T(r.m); T(r.n); T(%s.m); }' % (call, call)
                    nest = ''
                    if sq[-1] == 'i' and ret == 'i': nest = 'T(Q_k(%s));' % re.sub(r'\(\(int\)a \+ %d\)' % (n - 1), lambda m: call, args, count=1)
                    if sq[-1] == 'D' and ret == 'D': nest = 'T(Q_k(%s).l);' % re.sub(r'Q_mD\(\(int\)a \+ %d\)' % (n - 1), lambda m: call, args, count=1)
                    yield Case('mix/%s/%s/%s' % (''.join(sq), tl, ret), pre + 'static %s Q_k(%s) { %s %s } static %s (*Q_fp)(%s) = Q_k; ull Q_f(ull a, ull b) { %s %s %s return 0; }' % (ty(ret), pl, body, rs, ty(ret), pl, use, nest, use.replace('Q_k(', 'Q_fp(')), [0, 5, 250])

def run():
    rep = core.Report('C05')
    b = core.Build(libs=False)
    rep.rule = 'all scalar signatures of length <=2 over 12 types, <=3 over 5, arity sweeps to 20, position sweeps; 12 structs >16 bytes in 12 parameter lists x 4 results (both directions with gcc), 35 small structs xcc-to-xcc; variadic: all int/double sequences <=6, counts 0..10 x 0..11, named-parameter sweeps, va_copy, va_list passing; nested calls; frame sizes 1..39; all parameter lists of length <=3 over 5 structures and 2 scalars with variadic tails and structure results; callee-saved registers and stack alignment monitored on every call'
    rep.assumptions = ['gcc implements the System V x86-64 ABI', 'structs of at most 16 bytes are passed in memory by xcc by design and are only required to agree within xcc', 'a va_list object is private to the compiler that created it (xcc lays out the register save area with 8-byte floating slots)', '_Bool is 4 bytes in xcc']
    cs = list(scalar_cases()) + list(struct_cases()) + list(vararg_cases()) + list(misc_cases()) + list(mix_cases())
    PairRunner(rep, b, prelude=PRE, shard=500, driver_extra=EXTRA, rflags=['-mno-red-zone']).run(cs)
    return rep
