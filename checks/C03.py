"""C03: statements transfer control exactly as C specifies."""
import itertools
from vlib import core
from vlib.pair import PairRunner, Case
from vlib.ctypes_ import *

# ---- 1. every statement tree up to a bound --------------------------------------------------------
CONDS = ['a', '!b', 'a < b', 'i++ < 2', 'a && b', '(a || i)']
LEAVES = ['T(%d);', 'break;', 'continue;', 'return %d;', '{ a ^= b; b += 1; }', 'goto L0;', 'goto L1;', ';']
UN = ['if (%s) { %s }', 'while (F && %s) { %s }', 'do { %s } while (F && %s);', 'for (i = 0; F && %s; ++i) { %s }', 'for (int j = 0; F && j < 3; T(j), j++) { if (%s) { %s } }',
      'switch (a & 3) { case 0: T(90); case 1: %(c)s; %(s)s default: T(91); break; case 3: T(92); }', '{ int a = b + 1; T(a); if (%s) { %s } }', 'M: if (%s) { %s if (F) goto M; }']
BIN = ['if (%s) { %s } else { %s }', '%s %s', 'switch (b) { case 0: %s break; case 2: if (%s) T(3); default: %s }', 'while (F) { if (%s) { %s } else { break; } %s }', 'for (;F;) { %s if (%s) continue; %s break; }']

def inst(tpl_kind, k, c, parts):
    if tpl_kind == 'U':
        t = UN[k]
        if k == 2: return t % (parts[0], c)
        if k == 5: return t % {'c': c, 's': parts[0]}
        return t % (c, parts[0])
    t = BIN[k]
    if k == 1: return t % (parts[0], parts[1])
    if k == 2: return t % (parts[0], c, parts[1])
    if k == 4: return t % (parts[0], c, parts[1])
    return t % (c, parts[0], parts[1])

# contexts: which of break/continue are legal in each child
U_LOOP = {0: (0, 0), 1: (1, 1), 2: (1, 1), 3: (1, 1), 4: (1, 1), 5: (1, 0), 6: (0, 0), 7: (0, 0)}
B_LOOP = {0: (0, 0), 1: (0, 0), 2: (1, 0), 3: (1, 1), 4: (1, 1)}

def trees(size, brk, cont, conds, ctr):
    """All statement trees with exactly `size` compound nodes; yields source text."""
    if size == 0:
        for l in LEAVES:
            if l == 'break;' and not brk: continue
            if l == 'continue;' and not cont: continue
            yield l
        return
    for k in range(len(UN)):
        b, c = U_LOOP[k]
        for cnd in (conds if k != 5 else conds[:1]):
            for ch in trees(size - 1, brk or b, cont or c, conds, ctr):
                yield inst('U', k, cnd, [ch])
    for k in range(len(BIN)):
        b, c = B_LOOP[k]
        for cnd in (conds if k != 1 else conds[:1]):
            for s1 in range(size):
                for x in trees(s1, brk or b, cont or c, conds, ctr):
                    for y in trees(size - 1 - s1, brk or b, cont or c, conds, ctr):
                        yield inst('B', k, cnd, [x, y])

def fixlabels(s):
    """Rename nested 'M:' labels properly using a stack on braces."""
    out, stack, n, i, depth = '', [], 0, 0, 0
    while i < len(s):
        if s.startswith('M: ', i):
            stack.append((n, depth)); out += 'M%d: ' % n; n += 1; i += 3; continue
        if s.startswith('goto M;', i):
            k, d = stack.pop(); out += 'goto M%d;' % k; i += 7; continue
        out += s[i]; i += 1
    return out

def num2(src):
    n = [10]
    def rep():
        n[0] += 1
        return str(n[0])
    parts = src.split('%d')
    s = parts[0]
    for p in parts[1:]: s += rep() + p
    return fixlabels(s)

def tree_cases():
    vals = [0, 1, 2, 3]
    def mk(id, t):
        return Case(id, 'ull Q_f(ull a_, ull b_) { int a = (int)a_, b = (int)b_, i = 0, fuel = 0;\n#define F (fuel++ < 12)\n L0: if (!F) return 99; T(1);\n %s\n L1: T(a); T(b); T(i); return 7; }' % num2(t), vals, vals)
    n = 0
    for t in trees(0, 0, 0, CONDS, None): yield mk('tree/0/%d' % n, t); n += 1
    n = 0
    for t in trees(1, 0, 0, CONDS, None): yield mk('tree/1/%d' % n, t); n += 1
    n = 0
    conds2 = ['i++ < 2', 'a < b'] if not core.THOROUGH else ['i++ < 2', 'a < b', 'a && b', '!b']
    step = 1 if core.THOROUGH else 1
    for t in trees(2, 0, 0, conds2[:1] if not core.THOROUGH else conds2, None):
        yield mk('tree/2/%d' % n, t); n += 1

# ---- 2. switch: every label set over small universes x every switch type --------------------------
SWT = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'char', 'enum Q_e']
def sw_case(id, ty, labels, probes, default=None, fall=(), extra=''):
    body = ''
    for k, l in enumerate(labels):
        if default == k: body += 'default: T(1000); %s ' % ('break;' if k not in fall else '')
        body += 'case %s: T(%d); %s ' % (l, k, '' if k in fall else 'break;')
    if default == len(labels): body += 'default: T(1000);'
    pre = 'enum Q_e { Q_E0 = -3, Q_E1, Q_E2 = 100 };' if 'enum' in ty else ''
    return Case(id, pre + 'ull Q_f(ull a, ull b) { %s v = (%s)a; switch (v) { %s } switch (v) { %s } T(5); return 3; }' % (ty, ty, body, extra or 'default: T(77);'), [p & (2**64 - 1) for p in probes])

def switch_cases():
    # all subsets of 0..6 with default absent/first/middle/last
    for mask in range(1, 128):
        labels = [i for i in range(7) if mask >> i & 1]
        for d in (None, 0, len(labels) // 2, len(labels)):
            yield sw_case('sw/sub/%d/%s' % (mask, d), 'i32', labels, list(range(-2, 9)) + [100, -100, 2**31 - 1, -2**31], d)
    # label universes with negatives, gaps and the extremes of each type
    for ty in SWT:
        t = {'char': 'i8', 'enum Q_e': 'i32'}.get(ty, ty)
        lo, hi = lim(t)
        unis = {
            'lowdense': [lo + i for i in range(6)], 'highdense': [hi - i for i in range(6)], 'zero': [v for v in range(-3, 4) if lo <= v <= hi] + [4, 5],
            'ends': [lo, hi], 'ends3': [lo, 0, hi], 'ends5': [lo, lo + 1, hi - 1, hi, 5], 'gap': [lo // 2, 0, 1, 2, 3, hi // 2], 'pow': [1 << k for k in range(0, 62, 5) if 1 << k <= hi],
            'wide': [lo, lo // 2, 1, 7, hi // 3, hi // 2, hi // 2 + 1, hi // 2 + 2, hi - hi // 4, hi - 9, hi], 'wide4': [hi // 4 * k + k for k in range(4)] + [hi],
            'mid': [hi // 2 - 2 + i for i in range(6)], 'around': sorted(set([hi // 2 + 1 + i for i in range(-3, 4)])), 'rev': [6, 5, 4, 3, 2, 1, 0], 'shuf': [3, 0, 5, 1, 4, 2], 'sparse': [v for v in (1, 10, 20, 30, 40, 50, 60, 70, 100)],
        }
        for un, ls in unis.items():
            ls2 = []
            for v in ls:
                if lo <= v <= hi and v not in ls2: ls2.append(v)
            probes = sorted(set(v + d for v in ls2 for d in (-1, 0, 1)) | set(bounds(t)))
            for d in (None, 0, len(ls2)):
                yield sw_case('sw/%s/%s/%s' % (un, ty.replace(' ', '_'), d), ty, [lit(v, t) if INT[t][0] >= 32 else str(v) for v in ls2], probes, d)
        # labels outside the range of the (unpromoted) controlling type: compare after promotion
        if INT[t][0] < 32:
            outs = [hi + 1, hi + 2, lo - 1, (hi + 1) * 2 + 1]
            yield sw_case('sw/out/%s' % ty, ty, [str(v) for v in outs + [1]], bounds(t), 5)
    # number of labels 1..40: dense, stride 2, stride 3, stride 7, clustered; fallthrough subsets
    for n in range(1, 41):
        for st in (1, 2, 3, 7):
            ls = [i * st - 5 for i in range(n)]
            yield sw_case('sw/n/%d/%d' % (n, st), 'i32', ls, range(-12, n * st + 3), n // 2 if n % 3 else None, fall=set(range(0, n, 3)))
        ls = [i for i in range(n // 2)] + [1000 + i for i in range(n - n // 2)]
        yield sw_case('sw/clu/%d' % n, 'i64', ls, list(range(-2, n + 3)) + list(range(998, 1003 + n)), n, fall={1})
        ls = [(1 << 40) + i for i in range(n)]
        yield sw_case('sw/big/%d' % n, 'i64', ['%dL' % v for v in ls], [(1 << 40) + i for i in range(-2, n + 2)] + list(range(-2, n + 2)) + [1 << 41, 2**63], None)
    # constant controlling expression, nested switches, switch in loops, cases inside nested statements
    for v in range(-1, 5):
        yield Case('sw/const/%d' % v, 'void Q_main(void) { switch (%d) { case 0: T(0); case 1: T(1); break; default: T(2); case 3: T(3); } switch (%d) { case 2: T(9); } switch (%d) { default: T(8); } switch (%d) {} switch (%d) T(1); switch (%d) case 1: T(4); T(5); }' % ((v,) * 6))
    yield Case('sw/nest', 'ull Q_f(ull a, ull b) { switch (a) { case 0: switch (b) { case 0: T(1); break; case 1: T(2); default: T(3); } case 1: T(4); break; case 2: for (int i = 0; i < 3; ++i) { switch (i) { case 1: continue; case 2: goto out; } T(10 + i); } default: T(5); } T(6); out: T(7); return 0; }', range(5), range(4))
    yield Case('sw/duff', 'ull Q_f(ull a, ull b) { int n = (int)a; if (n <= 0) return 0; int k = (n + 3) / 4; switch (n % 4) { case 0: do { T(0); case 3: T(3); case 2: T(2); case 1: T(1); } while (--k > 0); } return 1; }', range(12))
    yield Case('sw/into', 'ull Q_f(ull a, ull b) { int x = 5; switch (a) { x = 9; case 0: if (b) { case 1: T(1); } else { case 2: T(2); } case 3: while (x-- > 3) { case 4: T(x); } } return x; }', range(6), range(2))
    yield Case('sw/expr', 'ull Q_f(ull a, ull b) { int n = 0; switch (n++, (int)(a + b)) { case 1: T(1); break; case 2 + 3: T(5); break; case (1 << 2): T(4); break; case \'a\' - 90: T(7); break; case sizeof(int) + 5: T(9); } T(n); switch (a < b) { case 0: T(0); break; case 1: T(1); } switch (!a) { case 1: T(11); } switch ((unsigned char)(a - b)) { case 255: T(255); break; case 254: T(254); } return n; }', range(8), range(6))

# ---- 3. boolean trees: every &&/||/!/?: tree over three effectful leaves in every context ---------
def btrees(n, start=0):
    if n == 1:
        yield 'E(%d)' % start, 1
        return
    for l in range(1, n):
        for x, _ in btrees(l, start):
            for y, _ in btrees(n - l, start + l):
                for op in ('&&', '||'):
                    yield '(%s %s %s)' % (x, op, y), n
                yield '(%s, %s)' % (x, y), n
    for l in range(1, n - 1):
        for m in range(1, n - l):
            for x, _ in btrees(l, start):
                for y, _ in btrees(m, start + l):
                    for z, _ in btrees(n - l - m, start + l + m):
                        yield '(%s ? %s : %s)' % (x, y, z), n

BPRE = '''
static int E_bits;
static int E(int k) { T(100 + k); return E_bits >> k & 1; }
'''
def bool_cases():
    n = 0
    for size in (1, 2, 3, 4):
        for t, _ in btrees(size):
            for neg in ('', '!'):
                e = neg + t
                yield Case('bool/%d/%d%s' % (size, n, 'n' if neg else ''), 'ull Q_f(ull a, ull b) { E_bits = (int)a; int k = 0; if (%s) k |= 1; else k |= 2; int v = %s; T(v); while (%s) { k |= 4; E_bits = 0; if (k & 32) break; k |= 32; } E_bits = (int)a; k |= (%s) ? 8 : 16; for (; %s;) { T(55); break; } do { if (k & 64) break; k |= 64; } while (%s); %s; return k; }' % ((e,) * 7), range(1 << size))
            n += 1
    # comparisons mixed with logic on register and memory operands
    cmps = ['a < b', 'a == b', 'a != 0', '!a', 'a', '(a & 1)', 'g > a', '*p']
    for i, x in enumerate(cmps):
        for j, y in enumerate(cmps):
            for op in ('&&', '||'):
                for neg in ('', '!'):
                    yield Case('blog/%d/%d/%s%s' % (i, j, 'and' if op == '&&' else 'or', neg and 'n'), 'static int Q_g; ull Q_f(ull a_, ull b_) { int a = (int)a_, b = (int)b_, *p = &Q_g, k = 0; Q_g = b - 1; if (%s) k |= 1; if (%s) { k |= 2; } else { k |= 4; } int v = %s; while (%s) { k |= 8; break; } return k * 2 + v; }'.replace('g > a', 'Q_g > a') % ((('%s(%s %s %s)' % (neg, x, op, y)).replace('g > a', 'Q_g > a'),) * 4), range(3), range(3))

# ---- 4. branch distance sweep: bodies of every length around the short/long displacement threshold -
def span_cases():
    for n in list(range(0, 48)) + [64, 100, 128, 200, 400, 1000, 3000]:
        body = ' '.join('k += a + %d;' % i for i in range(n))
        yield Case('span/%d' % n, 'ull Q_f(ull a_, ull b_) { int a = (int)a_, b = (int)b_, k = 0; if (a < b) { %s } else { k = 5; } T(k); while (b-- > 0) { %s if (k == 77) continue; if (k > 1000000) break; } T(k); do { %s } while (a-- > 2); for (int i = 0; i < 2; ++i) { if (a && b) { %s } } switch (a_) { case 0: %s case 1: T(1); break; default: ; %s } T(k); goto end; %s end: return k; }' % ((body,) * 7), [0, 1, 2, 5], [0, 1, 3])
        yield Case('spanb/%d' % n, 'ull Q_f(ull a_, ull b_) { volatile int *p; int s = 0, k = (int)a_; p = &s; top: %s if (k-- > 0) goto top; return s; }' % ' '.join('*p += k;' for i in range(n)), [0, 1, 4])

# ---- 5. miscellany: labels, gotos, scopes, nested loops with every break/continue placement -------
def misc_cases():
    loops = ['while (F) {', 'for (int q = 0; q < 3 && F; ++q) {', 'do {']
    ends = ['}', '}', '} while (F);']
    for i, j in itertools.product(range(3), repeat=2):
        for s1 in ('', 'break;', 'continue;'):
            for s2 in ('', 'break;', 'continue;'):
                for s3 in ('', 'break;', 'continue;', 'goto out;'):
                    yield Case('loop2/%d/%d/%s%s%s' % (i, j, s1[:1], s2[:1], s3[:1]), 'ull Q_f(ull a, ull b) { int fuel = 0, n = 0;\n#define F (fuel++ < 9)\n %s T(1); if (n++ == (int)a) { %s } %s T(2); if (n == (int)b) { %s } T(3); %s if (n & 1) { T(4); %s } T(5); %s out: T(n); return fuel; }' % (loops[i], s1, loops[j], s2, ends[j], s3, ends[i]), range(4), range(4))
    for perm in itertools.permutations(range(4)):
        labs = ''.join('L%d: T(%d); if (n++ < 6) goto L%d; ' % (k, k, perm[k]) for k in range(4))
        yield Case('goto/%s' % ''.join(map(str, perm)), 'ull Q_f(ull a, ull b) { int n = 0; switch (a) { case 0: goto L0; case 1: goto L1; case 2: goto L2; default: goto L3; } %s return n; }' % labs, range(4))
    yield Case('goto/into', 'ull Q_f(ull a, ull b) { int i = 0; if (a) goto in; while (i < 3) { T(i); in: i++; if (i == 2) goto out; { int z; z = i; T(z); } } out: T(i); if (i < 5) { i = 7; goto in2; } for (i = 0; i < 2; ++i) { in2: T(i); } return i; }', range(2))
    yield Case('dead', 'ull Q_f(ull a, ull b) { if (0) { T(1); L: T(2); } if (1) T(3); else T(4); while (0) T(5); do T(6); while (0); for (;0;) T(7); if (a) { a = 0; goto L; } return 8; T(9); { T(10); } }', range(2))
    yield Case('dead2', 'ull Q_f(ull a, ull b) { for (;;) { if (a > 3) return a; if (a == 2) break; a++; continue; T(1); } T(2); for (;;) { a += 2; switch (a) { case 4: continue; case 6: return 66; } T(a); } }', range(6))
    for n in range(1, 12):
        o, c = '', ''
        for k in range(n):
            o += 'for (int i%d = 0; i%d < 2; ++i%d) { ' % (k, k, k); c += '} '
        yield Case('nestfor/%d' % n, 'ull Q_f(ull a, ull b) { int s = 0; %s s = s * 3 + %s; if (s %% 7 == (int)a) break; %s return s; }' % (o, ' + '.join('i%d' % k for k in range(n)), c), range(3))
        o = ' '.join('if (a == %d) { T(%d); } else' % (k, k) for k in range(n))
        yield Case('elseif/%d' % n, 'ull Q_f(ull a, ull b) { %s { T(99); } return 0; }' % o, range(n + 2))
        o = ''.join('if (a > %d) ' % k for k in range(n))
        yield Case('dangle/%d' % n, 'ull Q_f(ull a, ull b) { %s T(1); %s T(9); return 0; }' % (o, ''.join('else T(%d); ' % (20 + k) for k in range(n))), range(n + 2))

# ---- 6. jumps out of statement expressions at every position of an expression -----------------------------
JPRE = '''
static int J_j;
static int S9(int a, int b, int c, int d, int e, int f, int g, int h, int i) { return a + 2 * b + 3 * c + 4 * d + 5 * e + 6 * f + 7 * g + 8 * h + 9 * i; }
static double SD(double x, int y) { return x * y; }
static int SV(int n, ...) { return n; }
typedef struct { int x, y, z, w, v; } J_S;
static J_S SS(int x) { J_S s = {x, x + 1, x + 2, x + 3, x + 4}; return s; }
static int ST(J_S s, int t) { return s.z * 7 + t; }
static inline int INL(int v) { for (;;) { if (v > 3) return v; if (v == J_j) break; ++v; } return -v; }
static inline int INL2(int v) { if (v == J_j) { T(v); return 9; } do { if (v & 4) return v; } while (v++ < 2); return -v; }
'''
JPOS = ['%s', '1 + %s', '%s - k', 'k * %s', '-(%s)', '!%s', '(unsigned char)%s', '(k & 1 ? %s : 5)', '(k & 1 ? 5 : %s)', '(k & 1 ? (k & 2 ? %s : 6) : 5)', '(k && %s)', '(%s || k)', '(k == 2 || %s)', '(T(1), %s)', '(%s, k + 1)',
        'S9(1, k, 3, 4, 5, 6, 7, 8, %s)', 'S9(%s, 2, k, 4, 5, 6, 7, 8, 9)', 'S9(1, 2, 3, 4, 5, 6, 7, %s, 9)', '(int)SD(1.5, %s)', 'SV(2, k, %s)', 'SS(%s).z', 'ST(SS(k), %s)', 'ar[%s & 3]', '(ar[k & 3] += %s)', '(ar[%s & 3] = k)', '(int)(1.5 * %s)', '(k < %s)',
        '({ int z = %s; z + 1; })', '({ int z = 0; for (int q = 0; q < 2; ++q) z += %s; z; })', '({ int z = k; if (z & 1) z = %s; else z = 4; z; })']
JHOLE = [('brk', '({ T(k); if (k == J_j) break; k * 3; })'), ('cont', '({ T(k); if (k == J_j) continue; k * 3; })'), ('ret', '({ T(k); if (k == J_j) return 77; k * 3; })'), ('goto', '({ T(k); if (k == J_j) goto out; k * 3; })'), ('inl', 'INL(k)'), ('inl2', 'INL2(k)')]
JCTX = [('for', 'for (k = 0; k < 5; ++k) { r += %s; T(r); }'), ('while', 'while (k++ < 5) { int y = %s; r += y; T(r); }'), ('do', 'do { ++k; r = r * 3 + %s; T(r); } while (k < 5);'), ('sw', 'for (; k < 6; ++k) { switch (k & 3) { case 0: r += %s; break; case 1: T(9); default: r -= %s; T(5); } T(r); }'),
        ('if', 'for (k = 0; k < 5; ++k) { if (%s > 3) { T(2); } else T(3); }'), ('nest', 'for (int q = 0; q < 3; ++q) { for (k = 0; k < 4; ++k) { r += %s; T(r); } T(q); if (k > 3) r ^= 1; }'), ('expr', 'for (k = 0; k < 5; ++k) { %s; T(6); }'), ('retv', 'for (k = 0; k < 5; ++k) { if (k == 3) return %s; T(k); }')]
def jump_cases():
    pairs = [(i, None) for i in range(len(JPOS))] + list(itertools.product(range(1, len(JPOS)), repeat=2))
    for i, j in pairs:
        if 'ar[' in JPOS[i] and '=' in JPOS[i] and j is not None and 'ar[' in JPOS[j] and '=' in JPOS[j]: continue   # two unsequenced stores
        for hn, h in JHOLE:
            for cn, ctx in (JCTX if j is None else [JCTX[(i + j) % 4], JCTX[4 + (i * 3 + j) % 4]] if hn != 'goto' else [JCTX[(i + j) % 8]]):
                e = JPOS[i] % h if j is None else JPOS[i] % (JPOS[j] % h)
                yield Case('jump/%s/%s/%s/%s' % (i, '-' if j is None else j, hn, cn), 'ull Q_f(ull a, ull b) { int k = 0, r = 0; static int ar[4]; J_j = (int)a; ar[0] = 5; ar[1] = ar[2] = 1; ar[3] = 7; %s T(ar[0]); T(ar[1] * 100 + ar[2] * 10 + ar[3]); %s return (ull)(r * 10 + k); }' % (ctx.replace('%s', e), 'out: T(44);' if hn == 'goto' else ''), range(6))

def run():
    rep = core.Report('C03')
    b = core.Build(libs=False)
    rep.rule = 'every statement tree with <=2 compound nodes over 13 constructs/8 leaves, every boolean tree with <=4 leaves, jumps (break, continue, return, goto, inlined calls) out of statement expressions at every position of depth <=2 of 30 expression forms in 8 statement contexts, every switch label subset of 7 plus per-type universes, branch spans'
    rep.assumptions = ['gcc -O0 gives the C abstract machine for these (UB-free) programs']
    cs = list(tree_cases()) + list(switch_cases()) + list(span_cases()) + list(misc_cases())
    PairRunner(rep, b, shard=700).run(cs)
    PairRunner(rep, b, prelude=BPRE, shard=300).run(list(bool_cases()))
    PairRunner(rep, b, prelude=JPRE, shard=300).run(list(jump_cases()))
    return rep
