"""C02: floating-point expressions and conversions are IEEE-754 exact, at run time and when folded."""
import struct
from vlib import core
from vlib.pair import PairRunner, Case
from vlib.ctypes_ import *

PRE = '''
static double UD(ull a) { union { ull u; double d; } v; v.u = a; return v.d; }
static float UF(ull a) { union { u32 u; float f; } v; v.u = (u32)a; return v.f; }
'''
def dbits(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def fbits(x): return struct.unpack('<I', struct.pack('<f', x))[0]
inf = float('inf'); nan = float('nan')
BASE = [0.0, 1.0, 0.5, 1.5, 2.0, 2.5, 3.0, 0.1, 1 / 3, 100.0, 127.0, 128.0, 255.0, 256.0, 32767.0, 32768.0, 65535.0, 65536.0, 65535.99, 0.99, 2147483647.0, 2147483648.0,
        4294967295.0, 4294967296.0, 2147483647.5, 16777215.0, 16777216.0, 16777218.0, 16777217.0, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 9223372036854774784.0, 9223372036854775808.0,
        1.8446744073709549568e19, 1.8446744073709551616e19, 9223372036854777856.0, 1.2e19, 1e10, 1e20, 3.4028234663852886e38, 3.5e38, 1.17549435e-38, 1e-40, 1e-45, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, 3.141592653589793, 2.718281828459045, 1e-5, 123456789.125]
DV = []
for v in BASE:
    for s in (v, -v): DV.append(s)
DV += [inf, -inf, nan]
FV = []
for v in DV:
    try: b = fbits(v)
    except OverflowError: continue
    if b not in FV: FV.append(b)
DVB = [dbits(v) for v in DV]
OPS = ['+', '-', '*', '/']
CMP = ['<', '<=', '>', '>=', '==', '!=']
NM = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'ne'}
FT = {'double': ('UD', DVB, 'TD'), 'float': ('UF', FV, 'TF')}
def flit(v, t):
    if v != v: return '(0.0/0.0)' if t == 'double' else '(0.0f/0.0f)'
    if v in (inf, -inf): return ('(1.0/0.0)' if v > 0 else '(-1.0/0.0)') if t == 'double' else ('(1.0f/0.0f)' if v > 0 else '(-1.0f/0.0f)')
    r = '%.17g' % abs(v)
    if '.' not in r and 'e' not in r: r += '.0'
    if t == 'float': r += 'f'
    return '(-%s)' % r if struct.pack('<d', v)[7] & 0x80 else r
CST = [0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 0.1, -3.0, 1e10, 16777217.0, 3.5e38 , 1e-40, 9223372036854775808.0, 1.7e308]
def fcst(t):
    out = []
    for v in CST:
        if t == 'float':
            try: v = struct.unpack('<f', struct.pack('<f', v))[0]
            except OverflowError: continue
        out.append(v)
    return out
INTT = NAMES + ['_Bool', 'char', 'ill', 'ull']
def ilim(t):
    return {'_Bool': (0, 1), 'char': lim('i8'), 'ill': lim('i64'), 'ull': lim('u64')}.get(t) or lim(t)
def irange(x, t):
    """C condition: truncation of floating x fits integer type t."""
    lo, hi = ilim(t)
    l = '%s > %s' % (x, flit(float(lo - 1), 'double')) if lo > -2**60 else '%s >= %s' % (x, flit(float(lo), 'double'))
    return '(%s && %s < %s)' % (l, x, flit(float(hi + 1), 'double'))
def tr(res, e):
    return '%s(%s);' % ({'float': 'TF', 'double': 'TD'}.get(res, 'T'), e)
def comm(a, b): return 'double' if 'double' in (a, b) else 'float'

def cases():
    for op in OPS + CMP:
        n = NM[op]
        for a in FT:
            for b in FT:
                ra = FT[a]; rb = FT[b]
                res = comm(a, b) if op in OPS else 'int'
                post = 'T((ill)(x %s y));' % op if op in CMP else ''
                conds = ''.join(' if (x %s y) k |= 1; if (!(x %s y)) k |= 2; k |= (x %s y) ? 4 : 8; if ((x %s y) && b != 5) k |= 16; if ((x %s y) || b == 5) k |= 32; while (x %s y) { k |= 64; break; } for (; !(x %s y);) { k |= 128; break; }' % ((op,) * 7)) if op in CMP else ''
                yield Case('bin/%s/%s/%s/vv' % (n, a, b), 'ull Q_f(ull a, ull b) { %s x = %s(a); %s y = %s(b); int k = 0; %s %s return k | sizeof(x %s y) << 10; }' % (
                    a, ra[0], b, rb[0], tr(res, 'x %s y' % op), conds, op), ra[1], rb[1])
                body = ''.join('%s %s ' % (tr(res, 'x %s %s' % (op, flit(v, b))), 'if (x %s %s) T(%d);' % (op, flit(v, b), i) if op in CMP else '') for i, v in enumerate(fcst(b)))
                yield Case('bin/%s/%s/%s/vc' % (n, a, b), 'ull Q_f(ull a, ull b) { %s x = %s(a); %s return 0; }' % (a, ra[0], body), ra[1])
                body = ''.join('%s %s ' % (tr(res, '%s %s y' % (flit(v, a), op)), 'if (%s %s y) T(%d);' % (flit(v, a), op, i) if op in CMP else '') for i, v in enumerate(fcst(a)))
                yield Case('bin/%s/%s/%s/cv' % (n, a, b), 'ull Q_f(ull a, ull b) { %s y = %s(a); %s return 0; }' % (b, rb[0], body), rb[1])
                prs = [(u, v) for u in fcst(a) for v in fcst(b)]
                ty = res if op in OPS else 'ill'
                yield Case('bin/%s/%s/%s/cc' % (n, a, b), 'static const %s Q_t[] = {%s}; void Q_main(void) { for (int i = 0; i < %d; ++i) %s %s }' % (
                    ty, ', '.join('%s %s %s' % (flit(u, a), op, flit(v, b)) for u, v in prs), len(prs), tr(res, 'Q_t[i]'), ' '.join(tr(res, '%s %s %s' % (flit(u, a), op, flit(v, b))) + 'T(sizeof(%s %s %s));' % (flit(u, a), op, flit(v, b)) for u, v in prs)))
                if op in OPS:
                    yield Case('casg/%s/%s/%s' % (n, a, b), 'struct Q_s { char c; %s m; char d; }; %s Q_g; ull Q_f(ull a, ull b) { %s x = %s(a); %s y = %s(b); struct Q_s s = {1, x, 2}, *p = &s; %s arr[3] = {1, x, 3}; Q_g = x; %s %s %s %s %s T(s.c + s.d); %s x %s= y; %s return 0; }' % (
                        a, a, a, ra[0], b, rb[0], a, tr(a, 'Q_g %s= y' % op), tr(a, 'Q_g'), tr(a, 'p->m %s= y' % op), tr(a, 's.m'), tr(a, 'arr[1] %s= y' % op), tr(a, 'arr[0] + arr[2]'), op, tr(a, 'x')), ra[1], rb[1])
    for a in FT:
        ra = FT[a]
        # mixed integer/floating operands
        for t in NAMES:
            for op in OPS + CMP:
                res = a if op in OPS else 'int'
                yield Case('mix/%s/%s/%s' % (NM[op], a, t), 'ull Q_f(ull a, ull b) { %s x = %s(a); %s y = (%s)b; %s %s %s %s return 0; }' % (
                    a, ra[0], t, t, tr(res, 'x %s y' % op), tr(res, 'y %s x' % op), tr(res, 'x %s %s' % (op, lit(lim(t)[1], t))), tr(res, '%s %s x' % (lit(lim(t)[0], t), op))), ra[1], [v & (2**64 - 1) for v in bounds(t)])
            for op in OPS:
                yield Case('mixasg/%s/%s/%s' % (NM[op], t, a), 'ull Q_f(ull a, ull b) { %s x = %s(a); %s y = (%s)b; double r = (double)(%s)(y %s x); if (!%s) return 7; %s z = y; z %s= x; T((ill)z); T((ill)(y %s= x)); return 0; }' % (
                    a, ra[0], t, t, a, op, irange('r', t), t, op, op), ra[1], [v & (2**64 - 1) for v in bounds(t)])
                yield Case('mixasg2/%s/%s/%s' % (NM[op], a, t), 'ull Q_f(ull a, ull b) { %s x = %s(a); %s y = (%s)b; x %s= y; %s return 0; }' % (a, ra[0], t, t, op, tr(a, 'x')), ra[1], [v & (2**64 - 1) for v in bounds(t)])
        # unary, inc/dec, truth value
        yield Case('un/%s' % a, '%s Q_g; struct Q_s { char c; %s m; }; ull Q_f(ull a, ull b) { %s x = %s(a); struct Q_s s, *p = &s; s.c = 3; s.m = x; Q_g = x; %s arr[3] = {x, x, x}; %s %s T(!x); T(!!x); T(x ? 3 : 4); if (x) T(1); if (!x) T(2); T(x && 1); T(x || 0); T((_Bool)x); while (x) { T(9); break; } int k = 0; for (; !x && k < 2; ++k) T(k); do { ++k; } while (x && k < 4); T(k);' % (a, a, a, ra[0], a, tr(a, '-x'), tr(a, '+x')) +
            ''.join('%s %s ' % (tr(a, e), tr(a, l)) for l in ('x', 'Q_g', 's.m', 'p->m', 'arr[1]') for e in (l + '++', l + '--', '++' + l, '--' + l)) + tr(a, '- -x') + tr(a, '-(x + x)') + tr(a, '0 - x') + ' T(s.c); return sizeof(-x); }', ra[1])
        # conversions to integers (in range), to the other floating type, from integers
        for t in INTT:
            cond = irange('(double)x', t) if t != '_Bool' else '1'
            yield Case('f2i/%s/%s' % (a, t), '%s Q_g; %s Q_r(%s v) { return v; } %s Q_p(%s v) { return v; } ull Q_f(ull a, ull b) { %s x = %s(a); if (!%s) return 9; T((ill)(%s)x); %s y = x; T((ill)y); Q_g = x; T((ill)Q_g); T((ill)Q_r(x)); T((ill)Q_p(x)); %s arr[3] = {1, x, 1}; T((ill)arr[0] + (ill)arr[2]); T((ill)arr[1]); return 0; }' % (t, t, a, t, t, a, ra[0], cond, t, t, t), ra[1])
            vs = sorted(set(v & (2**64 - 1) for v in (bounds(t) if t in INT else ALLV)) | ({(1 << k) + d & (2**64 - 1) for k in range(20, 64) for d in (-1, 0, 1)}))
            vs += [v & (2**64 - 1) for v in ((1 << 53) + 1, (1 << 54) + 2, (1 << 54) + 3, (1 << 62) + 255, (1 << 62) + 256, (1 << 62) + 257, (1 << 63) + 1024, (1 << 63) + 1025, (1 << 63) + 3072, (1 << 63) + 1, 0xfffffffffffffbff, 0xfffffffffffffc00, 0xfffffffffffffc01,
                   (1 << 63) + (1 << 39), (1 << 63) + (1 << 39) + 1, (1 << 40) + (1 << 16), (1 << 40) + (1 << 16) + 1, 0xffffff7fffffffff, 0xffffff8000000000, 0xffffff8000000001, 16777217, 33554433, 33554434, 33554435)]
            yield Case('i2f/%s/%s' % (t, a), '%s Q_g; %s Q_r(%s v) { return v; } %s Q_p(%s v) { return v; } ull Q_f(ull a, ull b) { %s x = (%s)a; %s %s y = x; %s Q_g = x; %s %s %s return 0; }' % (
                a, a, t, a, a, t, t, tr(a, '(%s)x' % a), a, tr(a, 'y'), tr(a, 'Q_g'), tr(a, 'Q_r(x)'), tr(a, 'Q_p(x)')), vs)
            # folded
            ok_ = [v for v in DV if v == v and ilim(t)[0] <= (int(v) if abs(v) < 1e30 else 10**40) <= ilim(t)[1]] if t != '_Bool' else DV
            if a == 'float':
                ok_ = [w for w in (struct.unpack('<f', struct.pack('<I', b))[0] for b in FV) if t == '_Bool' or (w == w and ilim(t)[0] <= (int(w) if abs(w) < 1e30 else 10**40) <= ilim(t)[1])]
            yield Case('f2ic/%s/%s' % (a, t), 'static %s Q_t[] = {%s}; void Q_main(void) { for (int i = 0; i < %d; ++i) T((ill)Q_t[i]); %s }' % (
                t, ', '.join(flit(v, a) for v in ok_), len(ok_), ' '.join('T((ill)(%s)%s);' % (t, flit(v, a)) for v in ok_)))
        for t in ('i32', 'u32', 'i64', 'u64'):
            vs = bounds(t) + [v for v in (16777217, 9007199254740993, 9223372036854775807, 18446744073709551615, 9223372036854776833, 16777219) if v <= lim(t)[1]]
            yield Case('i2fc/%s/%s' % (t, a), 'static %s Q_t[] = {%s}; void Q_main(void) { for (int i = 0; i < %d; ++i) %s %s }' % (
                a, ', '.join(lit(v, t) for v in vs), len(vs), tr(a, 'Q_t[i]'), ' '.join(tr(a, '(%s)%s' % (a, lit(v, t))) for v in vs)))
        # ternary with mixed types
        for b_ in list(FT) + NAMES:
            rb = FT.get(b_)
            yv = rb[0] + '(b)' if rb else '(%s)b' % b_
            r = comm(a, b_) if rb else a
            yield Case('tern/%s/%s' % (a, b_), 'ull Q_f(ull a, ull b) { %s x = %s(a); %s y = %s; int c = (int)(a & 1) ^ (int)(b & 1); %s %s %s %s return sizeof(c ? x : y) + sizeof(1 ? y : x) * 16; }' % (
                a, ra[0], b_, yv, tr(r, 'c ? x : y'), tr(r, 'c ? y : x'), tr(r, '1 ? x : y'), tr(r, '0 ? x : y')), ra[1], (rb[1] if rb else [v & (2**64 - 1) for v in bounds(b_)]))
    yield Case('f2f/fd', 'ull Q_f(ull a, ull b) { float x = UF(a); double y = x; TD(y); TD((double)x); TF((float)y); return 0; }', FV)
    yield Case('f2f/df', 'ull Q_f(ull a, ull b) { double x = UD(a); float y = x; TF(y); TF((float)x); TD((double)(float)x); y = x; TF(y); return 0; }', DVB)
    for a in FT:
        vs = [v for v in DV]
        yield Case('f2fc/%s' % a, 'void Q_main(void) { %s %s }' % (' '.join('{ float y = %s; TF(y); double z = (float)%s; TD(z); }' % (flit(v, a), flit(v, a)) for v in (vs if a == 'double' else [struct.unpack('<f', struct.pack('<I', b))[0] for b in FV])), ''))
    # expression chains of two floating operators over every operator pair and association
    for o1 in OPS:
        for o2 in OPS:
            for a in FT:
                ra = FT[a]
                yield Case('chain/%s/%s/%s' % (NM[o1], NM[o2], a), 'ull Q_f(ull a, ull b) { %s x = %s(a), y = %s(b); %s %s %s %s %s %s return 0; }' % (a, ra[0], ra[0],
                    tr(a, 'x %s y %s x' % (o1, o2)), tr(a, 'x %s (y %s x)' % (o1, o2)), tr(a, '(x %s y) %s 3.0f' % (o1, o2)), tr(a, '2.0f %s x %s 0.5f' % (o1, o2)), tr(a, 'x %s 1.0f %s 2.0f' % (o1, o2)), tr(a, 'x %s (2.0f %s 4.0f)' % (o1, o2))), ra[1], ra[1][::5])

def run():
    rep = core.Report('C02')
    b = core.Build(libs=False)
    rep.rule = 'every floating operator, comparison and conversion x float/double/integer type pairs x operand forms x all pairs of the IEEE boundary values'
    PairRunner(rep, b, prelude=PRE, shard=60).run(list(cases()))
    return rep
