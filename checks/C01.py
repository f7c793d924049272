"""C01: integer expressions evaluate exactly as C specifies, at run time and when folded at compile time."""
from vlib import core
from vlib.pair import PairRunner, Case
from vlib.ctypes_ import *

ARITH = ['+', '-', '*', '/', '%', '&', '|', '^']
SHIFT = ['<<', '>>']
CMP = ['<', '<=', '>', '>=', '==', '!=']
LOGIC = ['&&', '||']
NM = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'mod', '&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr',
      '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'ne', '&&': 'land', '||': 'lor', '~': 'not', '!': 'lnot'}

def guard(op, a, b, x, y):
    """C condition under which `x op y` is defined (x,y are C expressions of types a,b)."""
    if op in '/%':
        g = '%s != 0' % y
        c = common(a, b)
        if INT[c][1]:
            g += ' && !((%s)%s == -1 && (%s)%s == %s)' % (c, y, c, x, lit(lim(c)[0], c))
        return g
    if op in SHIFT:
        w = INT[promote(a)][0]
        return '(u64)%s < %d' % (y, w)
    return None

def ok(op, a, b, x, y):
    if op in '/%':
        c = common(a, b)
        y2, x2 = wrap(y, c), wrap(x, c)
        return y2 != 0 and not (INT[c][1] and y2 == -1 and x2 == lim(c)[0])
    if op in SHIFT:
        return 0 <= y < INT[promote(a)][0]
    return True

def shiftcounts(t):
    return [v for v in (0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 24, 31, 32, 33, 48, 62, 63)]

def vals(t, cap=None):
    return [v & (2**64 - 1) for v in bounds(t)]

def cases():
    for op in ARITH + SHIFT + CMP + LOGIC:
        for a in NAMES:
            for b in NAMES:
                n = NM[op]
                g = guard(op, a, b, 'x', 'y')
                gs = 'if (!(%s)) return 1; ' % g if g else ''
                vb = shiftcounts(b) if op in SHIFT else vals(b)
                # variable op variable, in value context, condition context, negated condition, sizeof
                yield Case('bin/%s/%s/%s/vv' % (n, a, b),
                    'ull Q_f(ull a, ull b) { %s x = (%s)a; %s y = (%s)b; %sT((ill)(x %s y)); T((x %s y) > -1); int k = 0; if (x %s y) k |= 1; if (!(x %s y)) k |= 2;'
                    ' k |= (x %s y) ? 4 : 8; while (x %s y) { k |= 16; break; } return k | sizeof(x %s y) << 8; }' % (a, a, b, b, gs, op, op, op, op, op, op, op),
                    vals(a), vb)
                # compound assignment on a local, a global, through a pointer, an array element and a member
                if op in ARITH + SHIFT:
                    yield Case('casg/%s/%s/%s' % (n, a, b),
                        'struct Q_s { char p; %s m; char q; }; %s Q_g; ull Q_f(ull a, ull b) { %s x = (%s)a; %s y = (%s)b; %s struct Q_s s = {1, x, 2}; %s arr[3] = {7, x, 9}; %s *p = &s.m; Q_g = x;'
                        ' int i = 1; T((ill)(Q_g %s= y)); T(Q_g); *p %s= y; T(s.m); T(s.p + s.q); T((ill)(arr[i] %s= y)); T(arr[0]); T(arr[1]); T(arr[2]); T((ill)(s.m %s= y)); x %s= y; return (ill)x; }'
                        % (a, a, a, a, b, b, gs.replace('return 1', 'return 1'), a, a, op, op, op, '+', op), vals(a), vb)
                # variable op constant, constant op variable
                cb = [v for v in (shiftcounts(b) if op in SHIFT else bounds(b)) if lim(b)[0] <= v <= lim(b)[1]]
                body = ''.join('{ %s { T((ill)(x %s %s)); T((x %s %s) > -1); } %s}\n' % (
                    ('if (%s)' % guard(op, a, b, 'x', lit(v, b)) if g else ''), op, lit(v, b), op, lit(v, b),
                    'if (x %s %s) T(%d); ' % (op, lit(v, b), i) if op in CMP + LOGIC else '') for i, v in enumerate(cb)
                    if ok(op, a, b, 1, v))
                yield Case('bin/%s/%s/%s/vc' % (n, a, b), 'ull Q_f(ull a, ull b) { %s x = (%s)a; %s return 0; }' % (a, a, body), vals(a), None)
                ca = bounds(a)
                body = ''.join('{ %s { T((ill)(%s %s y)); T((%s %s y) > -1); } %s}\n' % (
                    ('if (%s)' % guard(op, a, b, lit(v, a), 'y') if g else ''), lit(v, a), op, lit(v, a), op,
                    'if (%s %s y) T(%d); ' % (lit(v, a), op, i) if op in CMP + LOGIC else '') for i, v in enumerate(ca))
                yield Case('bin/%s/%s/%s/cv' % (n, a, b), 'ull Q_f(ull a, ull b) { %s y = (%s)a; %s return 0; }' % (b, b, body), vb, None)
                # constant op constant (folded), at run time and as a static initializer
                ca, cb2 = bounds(a), (cb if op in SHIFT else bounds(b))
                if not core.THOROUGH:
                    ca = ca[:9] + ca[9::3]; cb2 = cb2 if op in SHIFT else cb2[:9] + cb2[9::3]
                prs = [(u, v) for u in ca for v in cb2 if ok(op, a, b, u, v)]
                yield Case('bin/%s/%s/%s/cc' % (n, a, b),
                    'static const ill Q_t[] = {%s}; void Q_main(void) { for (int i = 0; i < %d; ++i) T(Q_t[i]); %s }' % (
                    ', '.join('(ill)(%s %s %s)' % (lit(u, a), op, lit(v, b)) for u, v in prs), len(prs),
                    ' '.join('T((ill)(%s %s %s)); T((%s %s %s) > -1); T(sizeof(%s %s %s));' % ((lit(u, a), op, lit(v, b)) * 3) for u, v in prs[::3])))
    XT = NAMES + ['_Bool', 'char', 'ill', 'ull', 'enum Q_e']
    pre = 'enum Q_e { Q_E0 = -5, Q_E1, Q_E2 = 100000 };'
    # conversions between every ordered pair of types in every implicit/explicit context
    for a in XT:
        for b in XT:
            if 'enum' in a and 'enum' in b: continue
            yield Case('conv/%s/%s' % (a.replace(' ', '_'), b.replace(' ', '_')), pre +
                '%s Q_g; %s Q_id(%s v) { return v; } %s Q_ret(%s v) { return v; } ull Q_f(ull a, ull b) { %s x = (%s)a; %s y = x; T((ill)y); T((ill)(%s)x); %s z; z = x; T((ill)z);'
                ' Q_g = x; T((ill)Q_g); T((ill)Q_id(x)); T((ill)Q_ret(x)); %s arr[2]; arr[1] = x; arr[0] = (%s)x; T((ill)(arr[0] == arr[1])); T((ill)(b ? x : y)); T((b ? x : y) > -1); %s *p = &z; *p = x; T((ill)z); T((ill)(%s)(%s)x); return (ill)z; }'
                % (b, b, b, b, a, a, a, b, b, b, b, b, b, a, b), ALLV, [0, 1])
    # constants converted to every type (folding)
    for b in XT:
        body = ' '.join('T((ill)(%s)%s); { %s v = %s; T((ill)v); }' % (b, lit(v, a), b, lit(v, a)) for a in ('i32', 'u32', 'i64', 'u64') for v in bounds(a))
        yield Case('convc/%s' % b.replace(' ', '_'), pre + 'void Q_main(void) { %s }' % body)
    # unary operators, increments
    for a in NAMES + ['char', 'ill', 'ull']:
        for op in ('-', '~', '!', '+', '- -', '~~', '!!', '-~', '~-'):
            yield Case('un/%s/%s' % (op.replace(' ', '').replace('~', 'not').replace('!', 'lnot').replace('-', 'neg').replace('+', 'pos'), a),
                'ull Q_f(ull a, ull b) { %s x = (%s)a; T((ill)(%s x)); T((ill)(%s)(%s x)); if (%s x) T(1); else T(2); return sizeof(%s x); }' % (a, a, op, a, op, op, op), ALLV)
        for pre_, post in (('++', ''), ('--', ''), ('', '++'), ('', '--')):
            e = lambda l: '%s%s%s' % (pre_, l, post)
            yield Case('inc/%s/%s' % ({'++': 'preinc', '--': 'predec'}.get(pre_) or {'++': 'postinc', '--': 'postdec'}[post], a),
                'struct Q_s { char c; %s m; char d; }; %s Q_g; static %s Q_st[3]; ull Q_f(ull a, ull b) { %s x = (%s)a; static %s sl; struct Q_s s = {1, x, 2}, *ps = &s; %s arr[3] = {5, x, 6}; %s *p = &arr[1]; Q_g = x; sl = x; Q_st[1] = x;'
                % (a, a, a, a, a, a, a, a) +
                ''.join(' T((ill)(%s)); T((ill)(%s));' % (e(l), l) for l in ('x', 'Q_g', 's.m', 'ps->m', 'arr[1]', '(*p)', 'sl', 'Q_st[1]')) +
                ' T(s.c + s.d); T(arr[0] + arr[2]); T(Q_st[0] + Q_st[2]); return (ill)x; }', ALLV)
    for a in NAMES:
        lits = bounds(a)
        body = ' '.join('T((ill)(%s%s)); T((ill)sizeof(%s%s)); T((%s%s) > -1);' % ((op, lit(v, a)) * 3) for op in ('-', '~', '!', '+') for v in lits)
        yield Case('unc/%s' % a, 'void Q_main(void) { %s }' % body)
    # conditional operator: every pair of branch types
    for a in NAMES:
        for b in NAMES:
            yield Case('tern/%s/%s' % (a, b), 'ull Q_f(ull a, ull b) { %s x = (%s)a; %s y = (%s)b; T((ill)(a > b ? x : y)); T((ill)(x < y ? x : y)); T((ill)(x ? x : y)); T((ill)((a & 1) ? %s : y)); T((ill)((a & 1) ? x : %s)); T((ill)(1 ? x : y)); T((ill)(0 ? x : y)); T((a > b ? x : y) > -1); T((1 ? %s : %s) > -1); T(sizeof(0 ? %s : %s)); return sizeof(1 ? x : y); }'
                % (a, a, b, b, lit(lim(a)[0], a), lit(lim(b)[1], b), lit(lim(a)[0], a), lit(lim(b)[1], b), lit(lim(a)[0], a), lit(lim(b)[1], b)), vals(a), vals(b))
    # multiplication, division and modulo by every small constant and by every power of two and its neighbours
    consts = list(range(-20, 33)) + [100, 127, 128, 255, 256, 257, 1000, 10000, 65535, 65536, 1 << 20, (1 << 31) - 1, -128, -129, -1000]
    for a in NAMES:
        for op in '*/%':
            b = 'i32' if INT[a][0] < 64 else 'i64'
            body = ''
            for v in consts:
                if v == 0 and op != '*': continue
                body += '{ %s T((ill)(x %s %s)); }\n' % ('if (%s)' % guard(op, a, 'i32', 'x', '(%d)' % v) if op != '*' and v == -1 else '', op, '(%d)' % v)
            yield Case('kmul/%s/%s' % (NM[op], a), 'ull Q_f(ull a, ull b) { %s x = (%s)a; %s return 0; }' % (a, a, body), ALLV)
    # pointer arithmetic and comparison for every element size
    for sz in list(range(1, 18)) + [24, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 1000]:
        yield Case('ptr/%d' % sz,
            'struct Q_s { char c[%d]; }; ull Q_f(ull a, ull b) { static struct Q_s arr[40]; struct Q_s *p = arr + 16; int i = (int)a; long l = (long)a; signed char c = (signed char)a; unsigned char uc = b; short h = a;'
            ' T((char*)(p + i) - (char*)arr); T((char*)(p - i) - (char*)arr); T((char*)(l + p) - (char*)arr); T((char*)&p[c] - (char*)arr); T((char*)&p[uc] - (char*)arr); T((char*)(p - h) - (char*)arr); T((p + i) - arr); T(arr - (p + l));'
            ' struct Q_s *q = p; T((char*)q++ - (char*)arr); T((char*)++q - (char*)arr); T((char*)q-- - (char*)arr); T((char*)--q - (char*)arr); q += i; T((char*)q - (char*)arr); q -= c; T((char*)q - (char*)arr);'
            ' T(q < p); T(q <= p); T(q > p); T(q >= p); T(q == p); T(q != p); T(!q); T(q && p); T((char*)&arr[3] - (char*)&arr[1]); return &p[i] - &p[c]; }' % sz,
            [v & (2**64 - 1) for v in range(-16, 16)], [0, 1, 2, 15])
    # operations that C leaves undefined and that are never reached: they must still compile
    for t in NAMES:
        for op in '/%':
            mn, m1, z = lit(lim(t)[0], t), lit(wrap(-1, t), t), lit(0, t)
            yield Case('unreached/%s/%s' % (t, op), ('ull Q_f(ull a, ull b) { %s k = %s, m = %s, z = %s; if (a == 99) { T((ill)(k OP m)); T((ill)(k OP z)); k OP= m; T(k); } if (a == 98) T((ill)(%s OP %s)); return a == 97 ? (ull)(k OP m) : a == 96 ? (ull)(%s OP %s) : 5; }'
                    % (t, mn, m1, z, mn, m1, mn, m1)).replace('OP', op), [0, 1], [0])
    for t in ('i32', 'u32', 'i64', 'u64'):
        for op in ('<<', '>>'):
            for n in (-1, 31, 32, 33, 63, 64, 65, 1000):
                yield Case('unreached/%s/%s/%d' % (t, op, n), 'ull Q_f(ull a, ull b) { %s k = 1; int n = %d; if (a == 99) { T((ill)(k %s n)); k %s= n; T(k); } if (a == 98) T((ill)(k %s %d)); return 5; }' % (t, n, op, op, op, n), [0, 1], [0])
    # full 8-bit x 8-bit space for every operator (all 65536 operand pairs)
    full = list(range(256))
    for op in ARITH + SHIFT + CMP:
        for a in ('i8', 'u8'):
            for b in ('i8', 'u8'):
                g = guard(op, a, b, 'x', 'y')
                yield Case('full8/%s/%s/%s' % (NM[op], a, b), 'ull Q_f(ull a, ull b) { %s x = (%s)a; %s y = (%s)b; %s %s z = x; z %s y; return (ull)(ill)(x %s y) * 3 + (ull)(ill)z; }' % (
                    a, a, b, b, 'if (!(%s)) return 1;' % g if g else '', a, op + '=' if op not in CMP else '=', op), full, full)

def run():
    rep = core.Report('C01')
    b = core.Build(libs=False)
    rep.rule = 'every operator x every ordered operand-type pair x every operand form (variable/constant/both) x every boundary value pair; all 2^16 pairs at 8 bits'
    cs = list(cases())
    PairRunner(rep, b, shard=200).run(cs)
    return rep
