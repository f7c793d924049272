"""C04: composing expressions, temporaries, inlining and optimisation never changes the meaning of a program."""
import itertools, re
from vlib import core
from vlib.pair import PairRunner, Case
from vlib.ctypes_ import *

PRE = '''
extern ull G0(ull a); extern double GD(double a);
static int S_id(int k) { T(k); return k; }
static ull S_acc; static void TC(ull v) { S_acc += v * v * 31 + v * 7 + 1; }   /* order-insensitive observation */
static int S_c(int k) { TC(k); return k; }
static int *S_pi(int *p, int k) { T(k); return p; }
static double S_d(double k) { TC((ull)(long)(k * 64)); return k * 0.5; }
static inline int I_add(int a, int b) { return a + b; }
static inline int I_if(int a, int b) { if (a < b) return a * 2; else if (a == b) return 7; TC(a); return b; }
static inline int I_loop(int n) { int s = 0; for (int i = 0; i < n; ++i) { if (i == 3) continue; if (i > 6) break; s += i; } return s; }
static inline void I_void(int *p, int v) { *p += v; }
static inline int I_sw(int k) { switch (k & 3) { case 0: return 10; case 1: k += 5; break; case 2: k *= 3; default: k -= 1; } return k; }
static inline int I_nest(int a, int b) { int t = I_add(a, b); { int t = I_add(b, 1); a += t; } return I_add(t, a); }
struct S4 { int x, y; char c; long z; };
static inline struct S4 I_st(int a) { struct S4 s = { a, a + 1, (char)a, a * 3L }; return s; }
'''
V2 = [0, 1, 2, 3, 7, 0xffffffffffffffff, 0x80000000, 0x7fffffff]

# ---- 1. all expression trees with n binary operators, every leaf a distinct value ------------------
def shapes(n):
    if n == 0: yield None; return
    for l in range(n):
        for a in shapes(l):
            for b in shapes(n - 1 - l): yield (a, b)
def fill(shape, ops, leaves):
    oi, li = iter(ops), iter(leaves)
    def go(s):
        if s is None: return next(li)
        a = go(s[0]); o = next(oi); b = go(s[1])
        if o in ('<<', '>>'): b = '(%s & 7)' % b
        if o in ('/', '%'): b = '(%s | 1)' % b
        return '(%s %s %s)' % (a, o, b)
    return go(shape)
LEAF = {'local': ['a', 'b', 'c', 'd', 'e'], 'mem': ['Q_g', 'p[1]', 's.y', 'q->x', 'Q_arr[a & 3]'], 'call': ['S_c(a)', 'S_c(b)', 'S_c(3)', '(int)G0(a)', 'S_c(c)'], 'mix': ['a', 'Q_g', 'S_c(b)', '5', 'p[a & 1]'], 'inl': ['I_add(a, b)', 'I_if(a, b)', 'I_loop(b)', 'I_sw(a)', 'I_nest(a, c)'],
        'narrow': ['h', 'uc', 'us', 'sc', 'l'], 'u': ['ua', 'ub', 'uc', 'ul', 'us'], 'mod': ['(c = a)', 'b', '(d += b)', 'a', '(e ^= 3)']}
def wrap(e, form=0):
    pre = 'static int Q_g = 11, Q_arr[4] = {3, 5, 7, 9}; struct Q_s { int x, y; }; '
    body = {0: 'S_acc = 0; int r = %s; T(r); T(S_acc); return r;', 1: 'S_acc = 0; if (%s) T(1); else T(2); int r = %s; T(S_acc); return r + a + c;', 2: 'int x[3] = {1, 2, 3}; x[(%s) & 1] += 5; TB(x, 12); long w = %s; return w;'}[form]
    e = e.replace('%', '%%') if False else e
    n = body.count('%s')
    body = body % ((e,) * n)
    return pre + 'ull Q_f(ull a_, ull b_) { int a = (int)a_, b = (int)b_, c = 3, d = a ^ 5, e = b + 1; i8 sc = (i8)a_; u8 uc = (u8)b_; u16 us = (u16)a_; i16 h = (i16)b_; i64 l = a_ * 3; u32 ua = (u32)a_, ub = (u32)b_; u64 ul = b_ + 9; int p[2] = {a, b}; struct Q_s s = {b, a}, *q = &s; ' + body + ' }'

def tree_cases():
    allops = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '==', '&&', '||']
    for lk, lv in LEAF.items():
        for o in allops:
            yield Case('x1/%s/%s' % (lk, o), wrap(fill((None, None), [o], lv)), V2, V2)
        for si, s in enumerate(shapes(2)):
            for o in itertools.product(allops, repeat=2):
                yield Case('x2/%s/%d/%s' % (lk, si, ','.join(o)), wrap(fill(s, o, lv), form=1 if lk != 'mod' else 0), V2[:6], V2[:5])
        o3 = ['+', '-', '*', '/', '<<', '<', '&&'] if core.THOROUGH else ['-', '/', '<<', '<'] 
        for si, s in enumerate(shapes(3)):
            for o in itertools.product(o3, repeat=3):
                yield Case('x3/%s/%d/%s' % (lk, si, ','.join(o)), wrap(fill(s, o, lv), form=0), V2[:5], V2[:4])
        if core.THOROUGH:
            for si, s in enumerate(shapes(4)):
                for o in itertools.product(['-', '/', '<<', '<'], repeat=4):
                    yield Case('x4/%s/%d/%s' % (lk, si, ','.join(o)), wrap(fill(s, o, lv), form=0), V2[:4], V2[:3])

# ---- 2. register pressure: n simultaneously live values --------------------------------------------
def pressure_cases():
    for n in list(range(1, 34)) + [40, 60, 100]:
        for ty, cv in (('int', 'T'), ('long', 'T'), ('double', 'TD'), ('float', 'TF'), ('unsigned char', 'T')):
            fl = ty in ('double', 'float')
            decl = ' '.join('%s v%d = (%s)(a * %d + b);' % (ty, i, ty, i + 1) for i in range(n))
            s = ' + '.join('v%d * %d' % (i, i % 5 + 1) for i in range(n))
            use = ' '.join('%s(v%d);' % (cv, i) for i in range(n))
            pre = 'ull Q_f(ull a_, ull b_) { int a = (int)a_ %% 1000, b = (int)b_ %% 1000; '
            pre = pre.replace('%%', '%')
            yield Case('press/plain/%s/%d' % (ty, n), pre + decl + ' %s r = %s; %s %s(r); return 0; }' % (ty, s, use, cv), V2[:4], V2[:3])
            yield Case('press/call/%s/%d' % (ty, n), pre + decl + ' G0(a); v0 = v0 + 1; GD(1.5); %s %s r = %s; %s(r); return 0; }' % (use, ty, s, cv), V2[:3], V2[:3])
            yield Case('press/loop/%s/%d' % (ty, n), pre + decl + ' for (int i = 0; i < 3; ++i) { %s if (i == b) G0(i); } %s return 0; }' % (' '.join('v%d = v%d + v%d;' % (i, (i + 1) % n, (i * 7 + 3) % n) for i in range(n)), use), V2[:3], V2[:3])
            if not fl:
                yield Case('press/div/%s/%d' % (ty, n), pre + decl + ' %s r = 0; %s %s %s(r); return 0; }' % (ty, ' '.join('r += v%d / (v%d | 1) + v%d %% ((v%d & 7) + 1) + (v%d << (v%d & 3)) + (v%d >> (v%d & 7));' % (i, (i + 1) % n, i, (i + 2) % n, i, (i + 3) % n, (i + 1) % n, i) for i in range(n)), use, cv), V2[:3], V2[:3])
                yield Case('press/ptr/%s/%d' % (ty, n), pre + decl + ' %s *pp[%d]; %s for (int i = 0; i < %d; ++i) *pp[i] += i; %s return 0; }' % (ty, n, ' '.join('pp[%d] = &v%d;' % (i, i) for i in range(n)), n, use), V2[:3], V2[:2])
        # mixed int and floating live across calls and conversions
        decl = ' '.join('int i%d = a + %d; double d%d = b * %d; float f%d = a + %d;' % ((k,) * 6) for k in range(n))
        use = ' '.join('T(i%d); TD(d%d); TF(f%d);' % (k, k, k) for k in range(n))
        yield Case('press/mixed/%d' % n, 'ull Q_f(ull a_, ull b_) { int a = (int)a_ % 1000, b = (int)b_ % 1000; ' + decl + ' GD(d0); ' + ' '.join('d%d += i%d; f%d *= d%d; i%d += (int)f%d;' % (k, (k + 1) % n, k, (k + 2) % n, k, k) for k in range(n)) + use + ' return 0; }', V2[:3], V2[:3])
        # nested to the left, to the right and balanced
        right = '0'
        for k in range(n): right = '(a * %d - %s)' % (k + 1, right)
        left = '0'
        for k in range(n): left = '(%s - b * %d)' % (left, k + 1)
        rc = '0'
        for k in range(n): rc = '(S_c(%d) - %s)' % (k, rc)
        dr = '0.5'
        for k in range(n): dr = '(a * %d.25 - %s)' % (k, dr)
        dc = '0.5'
        for k in range(n): dc = '(a + S_d(%d - %s))' % (k, dc) if k % 3 == 0 else '(%d.5 * a - %s)' % (k, dc)
        yield Case('deep/%d' % n, ('ull Q_f(ull a_, ull b_) { int a = (int)a_ %% 1000, b = (int)b_ %% 1000; T(%s); T(%s); S_acc = 0; T(%s); TD(%s); TD(%s); T(S_acc); return %s; }' % (right, left, rc, dr, dc, right)), V2[:4], V2[:3])
        def bal(lo, hi):
            if hi - lo == 1: return 'p[%d]' % (lo % 8)
            m = (lo + hi) // 2
            return '(%s %s %s)' % (bal(lo, m), '-+*'[(lo + hi) % 3], bal(m, hi))
        yield Case('bal/%d' % n, 'ull Q_f(ull a_, ull b_) { int a = (int)a_, b = (int)b_, p[8] = {a, b, 1, 2, 3, a + b, a - b, 9}; return %s; }' % bal(0, n), V2[:6], V2[:5])

# ---- 3. all straight-line programs over three variables inside loop/branch skeletons ---------------
STM = ['x = y;', 'y = z;', 'z = x;', 'x = x + 1;', 'y = x - y;', 'z = z * 2 + x;', 'if (x > y) z = x;', 't = x; x = y; y = t;', 'G0(x);', 'x = 5;', 'y = 5;', 'if (y & 1) { x = z; } else { z = 1; }', '*p = y;', 'y = *p;', 'y = y++ + 0 * x, y;', 'z = x ? y : 3;']
STM = [s for s in STM if 'y = y++' not in s]
SK = {'line': '%s', 'loop': 'for (int i = 0; i < 3; ++i) { %s }', 'while': 'while (n-- > 0) { %s }', 'br': 'if (a & 1) { %s } else { y = 2; } T(x); if (b & 1) { x += z; }', 'do': 'do { if (n == 2) { x = z; continue; } %s } while (n-- > 0);'}
def slp_cases():
    for k in (1, 2, 3):
        sk = list(SK.items())
        if k == 3 and not core.THOROUGH: sk = [kv for kv in sk if kv[0] in ('loop', 'do')]
        for name, s in sk:
            for seq in itertools.product(range(len(STM)), repeat=k):
                if k == 3 and not core.THOROUGH and (len(set(seq)) < 3): continue
                body = s % ' '.join(STM[i] for i in seq)
                yield Case('slp/%s/%s' % (name, '.'.join(map(str, seq))), 'ull Q_f(ull a, ull b) { int x = (int)a, y = (int)b, z = 3, t = 0, n = 3, w = 9, *p = &w; %s T(x); T(y); T(z); T(w); T(t); return n; }' % body, [0, 1, 5], [0, 2, 5])

# ---- 4. loop-carried rotations/permutations (lost copy and swap problems) --------------------------
def perm_cases():
    for n in (2, 3, 4, 5):
        for p in itertools.product(range(n), repeat=n) if n <= 3 else itertools.permutations(range(n)):
            asg = ' '.join('int t%d = v%d;' % (i, p[i]) for i in range(n)) + ' '.join(' v%d = t%d;' % (i, i) for i in range(n))
            yield Case('rot/%d/%s' % (n, ''.join(map(str, p))), 'ull Q_f(ull a, ull b) { int %s; for (int i = 0; i < (int)a; ++i) { %s if (i == (int)b) v0 += 100; } %s return v0; }' % (', '.join('v%d = %d' % (i, i * 10) for i in range(n)), asg, ' '.join('T(v%d);' % i for i in range(n))), range(6), [0, 2])
            yield Case('rotd/%d/%s' % (n, ''.join(map(str, p))), 'ull Q_f(ull a, ull b) { double %s; for (int i = 0; i < (int)a; ++i) { %s } %s return 0; }' % (', '.join('v%d = %d.5' % (i, i * 10) for i in range(n)), asg.replace('int', 'double'), ' '.join('TD(v%d);' % i for i in range(n))), range(6))

# ---- 5. lvalue forms: nested member/index/dereference chains read, written and address-taken -------
def lv_cases():
    pre = 'struct Q_n { int v; short h[3]; struct Q_n *next; struct { char c; long l; int m[2][3]; } in; union { int u; unsigned char b[4]; } un; }; static struct Q_n Q_t[3]; static int Q_mat[3][4]; static int *Q_pp[2]; static char Q_s[8] = "abcdefg"; static double Q_d[3] = {1.5, 2.5, 3.5}; static int *Q_fp(int k) { T(k); return &Q_mat[k & 1][k & 3]; } static struct Q_n *Q_fn(int k) { T(k + 50); return &Q_t[k % 3]; } static int Q_idx(int k) { T(k); return k; } '
    lvs = ['Q_t[i].v', 'Q_t[i].h[j]', 'p->v', 'p->h[i]', 'p->next->v', 'p->next->next->in.l', 'Q_t[i].in.m[j & 1][i]', 'p->in.c', '(*p).in.m[1][j]', 'Q_t[i].un.b[j]', 'Q_t[j].un.u', 'Q_mat[i][j]', '*(*(Q_mat + i) + j)', '*Q_pp[i & 1]', 'Q_pp[j & 1][1]', '*(Q_s + i)', 'Q_s[i + j]', 'i[Q_s]', '*Q_fp(i)', 'Q_fp(i)[1]', 'Q_fn(j)->v', 'Q_fn(i)->next->h[1]', 'Q_mat[Q_idx(i)][Q_idx(j)]', '*&loc', 'la[i]', '*(la + j)', 'ls.in.l', 'ls.h[j]', '(&ls)->v', 'lm[i][j]', '(la)[(i + 1) & 1]', '*(i & 1 ? &loc : &la[1])', '(&Q_t[1])[-1].v', '(p + 1)->v', 'p[1].h[2]', '*(int*)&ls.in.m[1]', '((short*)p->h)[1]', '(*&p)->v', '**&pl', 'Q_d[i]']
    uses = ['%s = 7;', '%s += 3;', '%s++;', '--%s;', 'T((long)(%s++));', 'T((long)(%s = 300));', 'T((long)(%s -= 2));', 'T((long)-%s);', 'if (%s) T(1); else T(2);', 'T((char*)&%s != (char*)0);', 'T((long)sizeof(%s));', 'T((long)(%s ? 3 : 4)); T(!%s);', 'int v = (int)%s; T(v * 3 + v);', 'T(%s > 2 && %s < 9);', '%s = %s + 1;', 'T(5 + (int)%s * 2 - (int)%s);']
    for i, l in enumerate(lvs):
        for j, u in enumerate(uses):
            if 'Q_fp(i)' in l or 'Q_f' in l or 'Q_idx' in l:
                if u.count('%s') > 1 and j not in (11, 13): continue
            if l == 'Q_d[i]' and j in (): continue
            s = u.replace('%s', '(%s)' % l if l.startswith('*') or j else l)
            yield Case('lv/%d/%d' % (i, j), pre + 'ull Q_f(ull a_, ull b_) { int i = (int)a_, j = (int)b_, loc = 4, la[3] = {5, 6}, lm[3][3] = {{1, 2, 3}, {4, 5, 6}}, *pl = &la[1]; struct Q_n ls = {8, {1, 2, 3}, &ls, {1, 2, {{1, 2, 3}, {4, 5, 6}}}}, *p = &Q_t[0]; for (int k = 0; k < 3; ++k) { Q_t[k].v = k; Q_t[k].next = &Q_t[(k + 1) % 3]; for (int m = 0; m < 3; ++m) { Q_t[k].h[m] = (short)(k * 10 + m); Q_t[k].in.m[0][m] = k; Q_t[k].in.m[1][m] = m; } Q_t[k].in.l = k * 7; Q_t[k].in.c = (char)k; Q_t[k].un.u = 0x01020304 * (k + 1); Q_d[k] = k + 0.5; for (int m = 0; m < 4; ++m) Q_mat[k][m] = k * 4 + m; } for (int m = 0; m < 7; ++m) Q_s[m] = (char)(97 + m); Q_pp[0] = Q_mat[1]; Q_pp[1] = Q_mat[2]; ' + s + ' T(loc); TB(la, sizeof la); TB(lm, sizeof lm); T(ls.v); TB(ls.h, 6); T(ls.in.l); TB(ls.in.m, 24); for (int k = 0; k < 3; ++k) { T(Q_t[k].v); TB(Q_t[k].h, 6); T(Q_t[k].in.c); T(Q_t[k].in.l); TB(Q_t[k].in.m, 24); T(Q_t[k].un.u); TD(Q_d[k]); } TB(Q_mat, sizeof Q_mat); TB(Q_s, 8); return 0; }', range(3), range(3))

# ---- 6. inlining: every inline body x argument form x call context --------------------------------
def inline_cases():
    bodies = ['return x;', 'return x + y;', 'x += 1; return x * y;', 'if (x) return y; return x;', 'int t = x; x = y; y = t; return x - y;', 'for (int i = 0; i < 3; ++i) { if (i == x) return i; y += i; } return y;', 'switch (x) { case 0: return 1; case 1: y++; case 2: y++; break; default: return y; } return y + 100;', 'static int cnt; cnt += x; return cnt;', 'int *p = &x; *p += y; return x;', 'goto l; x = 9; l: return x;', '{ int x = y; y = x + 1; } return x + y;', 'int a[3] = {x, y, 7}; return a[x & 1] + a[2];', 'return x ? y : x + 1;', 'TC(x); TC(y * 5 + 1); return x;', 'do { if (x > 3) break; x++; } while (x < 9); return x;', 'while (x-- > 0) { if (y == x) continue; TC(x); } return y;', 'return x > y && y > 0 || x == 2;', 'struct { int a, b; } s = {x, y}, t = s; t.a++; return t.a * 10 + s.b;', 'double d = x; d /= 2; return (int)(d * y);', 'return (x = y, x + 1);', 'L: if (x > 10) return x; x += (y & 7) + 1; goto L;', 'return sizeof(x) + y;', 'char c = (char)x; return c + y;', 'if (x == 0) goto e; TC(1); e: return 5;', '(void)y; return -x;']
    args = [('a', 'b'), ('a', 'a'), ('1', '2'), ('a + b', 'a - b'), ('S_c(a)', 'S_c(b)'), ('a', 'Q_h(b, 1)'), ('Q_h(a, b)', 'Q_h(b, a)'), ('*&a', 'b'), ('a++', 'b--'), ('(char)a', '(short)b')]
    ctx = ['T(%s);', 'int r = %s; T(r);', 'if (%s) T(1); else T(2);', 'for (int i = 0; i < 2; ++i) { T(%s); }', '%s;', 'return %s;', 'T(%s + %s);', 'while (%s > 1000000) ;', 'int x = 100, y = 200, t = 3; t += %s; T(x); T(y); T(t);', 'T(S_c(%s) ? 3 : 4);', 'switch (%s) { case 0: T(9); break; case 1: T(8); default: T(7); }', 'T(a && %s);']
    for i, b in enumerate(bodies):
        for j, (x, y) in enumerate(args):
            for k, c in enumerate(ctx):
                if 'static' in b and j in (5, 6): continue   # order of the inner calls would be visible
                call = 'Q_h(%s, %s)' % (x, y)
                yield Case('inl/%d/%d/%d' % (i, j, k), 'static inline int Q_h(int x, int y) { %s } ull Q_f(ull a_, ull b_) { int a = (int)a_, b = (int)b_; S_acc = 0; %s T(a); T(b); T(S_acc); return 0; }' % (b, c.replace('%s', call) if c.count('%s') == 1 or j not in (8,) else c.replace('%s', 'Q_h(a, b)')), [0, 1, 2, 5, 2**64 - 1], [0, 1, 3])

# ---- 7. operand sequencing that C does define ------------------------------------------------------
def seq_cases():
    srcs = ['T((S_id(1), S_id(2)));', 'int r = S_id(a) && S_id(b) ? S_id(3) : S_id(4); T(r);', 'int x = a; x = (x++, x + 1); T(x);', 'int x = a; int y = x++ && x--; T(x); T(y);', 'a ? S_id(1) : (void)0, S_id(2);', 'int i = 0; for (S_id(7); S_id(i) < a; S_id(8), ++i) S_id(9);', '(void)S_id(a); (a); b; 0;', 'int x, y, z; x = y = z = S_id(a); T(x + y + z);', 'i8 c; int x = c = (i8)a_; T(x); float f; double d = f = 0.1; TD(d);', 'int x = 1; { int x = 2; T(x); { int x = x; x = 3; T(x); } T(x); } T(x);', 'int x[2] = {a, b}, *p = x; T(*p++); T(*p); p = x; T((*p)++); T(x[0]); T(++*p); T(*++p);', 'char s[] = "hello", *p = s; while (*p) { T(*p++); } T(p - s);', 'T(!a == !b); T(-a < ~b); T(- -a); T(!!a); T(~~b); T(+a); T(-(-(-a)));', 'T(sizeof(a++)); T(a); T(sizeof(int[3])); T(sizeof "abc"); T(sizeof(struct { char c; long l; }));', 'struct S4 s = I_st(a), t; t = s; T(t.x + t.y + t.c + t.z); T(I_st(b).z); T((s = I_st(5)).y); T((t = s).z); struct S4 *p = &t; *p = I_st(9); T(t.c); T((a ? s : t).x);', 'int (*f)(int) = S_id; T(f(1)); T((*f)(2)); T((**f)(3)); T((a ? S_id : f)(4)); f = &S_id; T(f == S_id); int (*t[2])(int) = {S_id, f}; T(t[b & 1](5));']
    for i, s in enumerate(srcs):
        yield Case('seq/%d' % i, 'ull Q_f(ull a_, ull b_) { int a = (int)a_, b = (int)b_; %s return 0; }' % s, [0, 1, 2, 200], [0, 1, 3])
    args = ['a', 'S_c(b)', 'a + 1', '3', 'Q_k(b, 2, 3, 4, 5, 6, 7, 8)', '(i8)a', 'a ? b : 2', '-a', 'b * 2L', "'x'"]
    for p in range(8):
        for k, e in enumerate(args):
            al = ['%d' % (i + 1) for i in range(8)]; al[p] = e
            yield Case('args/%d/%d' % (p, k), 'static int Q_k(int a, int b, int c, int d, int e, int f, int g, int h) { return a + b * 3 + c * 9 + d * 27 + e * 81 + f * 243 + g * 729 + h * 2187; } ull Q_f(ull a_, ull b_) { int a = (int)a_, b = (int)b_; return Q_k(%s) - Q_k(%s); }' % (', '.join(al), ', '.join(reversed(al))), [0, 1, 2, 300], [0, 1, 3])

# ---- 8. operands that the compiler reduces to constants during code generation ---------------------
def const_cases():
    ck = ['(b * 0)', '(k = 5)', '(S_id(1), 3)', '(d = 300)', '(f = 1.5f)', '(c = 200)', '(u = -1)', '(ul = -2)', '(b & 0)', '(0 ? b : 7)', '(1 ? -9 : b)', '(b ^ b)', '(b - b)', '(d = 1.25)', '(f = 16777217)', '(l = 1L << 40)', '(bb = 5)', '(b ? 4 : 4)', '(b, 2.5)', '(a = 0)', '(b | -1)', '(b % 1)', '(b * 1)', '(b + 0)', '(b >> 0)']
    use = ['T((long)%s);', 'TD(%s);', 'TF(%s);', 'T((u8)%s);', 'T((i16)%s);', 'T(%s < 2);', 'T(2 >= %s);', 'T(%s == %s);', 'T(%s > b);', 'TD(%s * 2.5);', 'T((long)(%s + 1));', 'T(-(long)%s);', 'T(!%s);', 'T(%s && b);', 'T(b || %s);', 'T(%s ? b : 9);', 'if (%s) T(1); else T(2);', 'switch ((int)%s) { case 0: T(0); break; case 5: T(5); break; default: T(9); }', 'double e = %s; e += b; TD(e);', 'float g = %s; g += b; TF(g);', 'long m = %s; m += b; T(m);', 'T(arr[(int)%s & 3]);', 'T((long)S_id((int)%s));', 'TD(S_d(%s));', 'arr[1] = %s; T(arr[1]);', 'Q_gd = %s; TD(Q_gd);', 'k += %s; T(k);', 'd *= %s; TD(d);', 'T((long)(%s + %s * 3));', 'while (%s > 1e30) {}', 'T((long)(unsigned)(int)%s);', '_Bool z = %s; T(z);', 'return (long)%s;', 'T((int)%s << 2); T((int)%s >> 1); T(3 << ((int)%s & 7));', 'T((int)%s / 3); T(100 % ((int)%s | 1));', 'T(~(int)%s);', 'TF((float)%s); TD((float)%s); TD((double)(long)%s);', 'T((unsigned)(int)%s < 10u); T((unsigned)(int)%s > 4000000000u);', 'T((ull)(long)%s > 4000000000ull);', 'G0((ull)(long)%s); GD(%s);', '*&k = %s; T(k); p->y = %s; TD(p->y);']
    for i, c in enumerate(ck):
        for j, u in enumerate(use):
            if (i, j) in ((3, 3), (14, 3), (14, 4), (7, 23)): continue   # out-of-range floating to integer conversion
            if ' = ' in c and ('%s == %s' in u or '%s + %s' in u or u.split()[0] == c[1:].split()[0]): continue   # unsequenced modifications
            yield Case('const/%d/%d' % (i, j), 'static double Q_gd; struct Q_s { int x; double y; }; ull Q_f(ull a_, ull b_) { int a = (int)a_ % 1000, b = (int)b_, k = 1, arr[4] = {1, 2, 3, 4}; double d = 2; float f = 3; i8 c = 4; u32 u = 5; u64 ul = 6; long l = 7; _Bool bb = 0; struct Q_s ss, *p = &ss; ' + u.replace('%s', c) + ' T(a); T(k); TD(d); TF(f); T(c); T(u); T(ul); T(l); T(bb); return 0; }', [0, 3], [0, 1, 7])

# ---- 9. calls with stack arguments while registers are live and the frame holds memory objects ------
def frame_cases():
    pre = ('struct Q_b { long a, b, c; }; int Q_g(%s) { return %s; } double Q_h(%s) { return %s; } static long Q_s(struct Q_b x, int k, struct Q_b y) { return x.a + x.c * 3 + k * 5 + y.b * 7; } static struct Q_b Q_r(int k, %s) { struct Q_b r = {k, p5, p8}; return r; } '
           % (', '.join('int p%d' % i for i in range(9)), ' + '.join('p%d * %d' % (i, i + 1) for i in range(9)), ', '.join('double p%d' % i for i in range(11)), ' + '.join('p%d * %d' % (i, i + 1) for i in range(11)), ', '.join('long p%d' % i for i in range(9))))
    pre += 'int Q_v(int n, ...); '
    calls = {'i': 'T(Q_g(%s));' % ', '.join('a + %d' % i for i in range(9)), 'd': 'TD(Q_h(%s));' % ', '.join('a + %d.5' % i for i in range(11)), 's': 'struct Q_b y = {1, a, 3}; T(Q_s(y, b, y));', 'r': 'struct Q_b z = Q_r(%s); T(z.a); T(z.b); T(z.c);' % ', '.join('a + %d' % i for i in range(10)), 'n': 'T(Q_g(%s, Q_g(%s)));' % (', '.join('a' for i in range(8)), ', '.join('b' for i in range(9))), 'm': 'TD(Q_h(%s, Q_h(%s))); T(Q_g(%s));' % (', '.join('a' for i in range(10)), ', '.join('b' for i in range(11)), ', '.join('%d' % i for i in range(9)))}
    mems = {'0': ('', ''), 'a': ('volatile int m[3]; m[0] = 11; m[1] = b; m[2] = 33;', 'T(m[0]); T(m[1]); T(m[2]);'), 's': ('struct Q_b m = {a, b, 9}; struct Q_b *mp = &m;', 'T(mp->a); T(mp->b); T(m.c);'), 'c': ('char m[5]; for (int q = 0; q < 5; ++q) m[q] = (char)(q + a); char n = 7, *np = &n;', 'TB(m, 5); T(*np);')}
    for ni in (0, 1, 3, 5, 6, 7, 8, 10, 14):
        for nd in (0, 1, 2, 5, 8, 9, 14, 17):
            for cn, call in calls.items():
                for mn, (md, mu) in mems.items():
                    if not core.THOROUGH and mn == 'c' and (ni + nd) % 2: continue
                    decl = ' '.join('int i%d = a * %d + b;' % (k, k + 1) for k in range(ni)) + ' '.join('double d%d = a * %d.5 + b;' % (k, k) for k in range(nd))
                    use = ' '.join('T(i%d);' % k for k in range(ni)) + ' '.join('TD(d%d);' % k for k in range(nd))
                    yield Case('frame/%d/%d/%s/%s' % (ni, nd, cn, mn), pre + 'ull Q_f(ull a_, ull b_) { int a = (int)a_, b = (int)b_; %s %s { %s } %s %s return a + b; }' % (md, decl, call, use, mu), [1, 7], [2])

# ---- 10. the end of a function: every shape of last statement, with and without reaching the end --------------
def end_bodies():
    B = ['return R;', 'T(3);', ';']
    con = [lambda x, y: 'if (a) %s' % x, lambda x, y: 'if (a) %s else %s' % (x, y), lambda x, y: '{ %s %s }' % (x, y), lambda x, y: 'L%%d: %s' % x, lambda x, y: 'do { %s } while (0);' % x,
           lambda x, y: 'while (b) { %s break; }' % x, lambda x, y: 'if (1) %s else %s' % (x, y), lambda x, y: 'if (0) %s else %s' % (x, y), lambda x, y: 'for (;;) { %s if (++k > 2) break; }' % x,
           lambda x, y: 'switch (a & 3) { case 0: %s default: %s }' % (x, y), lambda x, y: 'switch (b & 3) { case 0: %s break; case 1: %s }' % (x, y), lambda x, y: 'while (1) { %s if (++k > 2) %s }' % (x, y), lambda x, y: 'if (k + 1.5) %s else %s' % (x, y), lambda x, y: 'for (; k < 2; ++k) %s' % x]
    def fix(t):
        n = 0
        while '%d' in t: t = t.replace('%d', str(n), 1); n += 1
        return t
    def inf(t): return 'while (1)' in t and re.search(r'if \(\+\+k > 2\) (T\(3\)|;|L\d: (T|;))', t)
    one = list(dict.fromkeys(c(x, y) for c in con for x in B for y in B))
    yield from ((0, b) for b in [''] + B)
    yield from ((1, fix(b)) for b in one if 'while (1)' not in b or 'return R;' in b.split('k > 2)')[1])
    one = [b for b in one if 'while (1)' not in b and 'L%d' not in b]
    for c in con[:-3]:
        for x in one:
            for y in B[:2]:
                yield 2, fix(c(x, y))
                if c(x, y) != c(y, x): yield 2, fix(c(y, x))
def end_cases():
    ty = [('int', 'a + k * 5 + 1', 'T(%s);'), ('i64', 'b * 3L - k', 'T(%s);'), ('float', 'a * 0.5f + k', 'TF(%s);'), ('double', 'a * 0.25 + b', 'TD(%s);'), ('u8', 'a + 250', 'T(%s);'), ('struct S4', '(struct S4){a, b, 3, k}', '{ struct S4 t = %s; T(t.x); T(t.y); T(t.c); T(t.z); }'), ('void', '', '%s;')]
    for n, (lv, b) in enumerate(dict.fromkeys(end_bodies())):
        for i, (t, v, use) in enumerate(ty):
            for j, lk in enumerate(('static inline', 'static', 'inl2')):
                if lv == 2 and not core.THOROUGH and (i, j) not in ((0, 1), (3, 0), (5, 2)): continue
                if lv == 2 and (i * 3 + j + n) % 3 and not core.THOROUGH: continue
                bb = b.replace('return R;', 'return (Q_r = 1, %s);' % v if v else '{ Q_r = 1; return; }')
                h = '%s %s Q_h(int a, int b) { int k = 0; %s }' % ('static inline' if j == 2 else lk, t, bb)
                if j == 2:   # the function is inlined into one of another type
                    h += ' static inline double Q_m(int a, int b) { Q_r = 0; Q_h(a, b); if (Q_r) { %s return 1.5; } else return a; }' % (use % 'Q_h(a, b)')
                    body = 'TD(Q_m(a, b));'
                else:
                    body = 'Q_h(a, b); int r = Q_r; T(r); if (r) %s' % (use % 'Q_h(a, b)')
                yield Case('end/%d/%d/%d' % (n, i, j), 'static int Q_r; %s ull Q_f(ull a_, ull b_) { int a = (int)a_, b = (int)b_; Q_r = 0; %s return Q_r; }' % (h, body), [0, 1, 2, 5], [0, 1, 2])

# ---- 11. expressions with a side effect whose value is used: every form x lvalue x place -----------------------
def value_cases():
    lvs = ['x', '(*p)', 's.m', 'q->m', 'arr[i]', 'Q_gl', 'st', 's.bf', 'q->ub', 'vol', 'c', 'us', 'q->c', 'l', 'd', '(*Q_fp(1))', 'Q_ga[i].c', 'lx', 'pp[0]->m']
    forms = ['L = k', 'L = 300', 'L += k', 'L -= 3', 'L++', '++L', 'L--', '--L', 'y = L = k', 'L = y = k', '(L = k, y + 1)', '(y = 5, L)', 'L = Q_in(k)', 'L = S_c(k)', 'L += Q_in(2)', 'k ? L = 7 : 9', 'k ? L++ : y', '(L = k) && y', '(L = k) || y', '!(L = k)', '(L = k) > 1', '-(L = k) * 2', 'Q_in(L = k)', 'S_c(L += 3)', 'Q_lp(L = k & 3)', '(L = 0) + (y = 1)', '(double)(L = k)', '(u8)(L = k + 260)', '(L = k) ? y = 3 : 4', '({ L = k; L + 1; })', '*&L = k' , 'L *= 2', 'L = L + 1', 'L = -L']
    pos = ['int r = %s; T(r);', 'long r = %s; T(r);', 'double r = %s; TD(r);', 'u8 r = %s; T(r);', '_Bool r = %s; T(r);', 'int r[3] = {1, %s, 2}; TB(r, 12);', 'struct Q_t r = {.c = 3, .l = %s}; T(r.l); T(r.c);', 'int r; r = %s; T(r);', 'z += %s; T(z);', 'T((long)S_c(%s));', 'TD(S_d(%s));', 'if (%s) T(1); else T(2);', 'if (!(%s)) T(1);', 'while (%s) { T(n); if (++n > 2) break; }', 'for (int r = %s; n < 2; ++n) T(r);', 'for (; n < 2; ++n, %s) T(n);', 'for (; %s; ) { if (++n > 2) break; T(n); }', 'do { T(n); } while (++n < 3 && (%s));', 'switch ((int)(%s)) { case 0: T(1); break; case 5: T(5); break; case 7: T(7); default: T(9); }', 'T(z ? (long)(%s) : 2);', 'T(n && (%s)); T(z && (%s2));', 'T(marr[(int)(%s) & 3]);', 'T(Q_in(%s));', 'T((struct Q_t){1, %s}.l);', '%s;', '(void)(%s);', 'T(z + (long)(%s) * 3);', 'ret = %s;', 'marr[(int)(%s) & 3] = 77;', 'marr[1] = %s;', 'marr[(int)(%s) & 3];', '(&t2)[(int)(%s) & 0].m = 5;', '(&t2)[(int)(%s) & 0].bf++;', 'marr[(int)(%s) & 3] += 2;', 'struct Q_t *v; (v = (%s) ? &s : &t)->m = 6;', 'T(((%s) ? &s : &t)->m);', '*((%s) ? &arr[1] : marr) = 5;', '*(p = (%s) ? &arr[1] : marr) += 5; p = 0;', 'struct Q_t v = (%s) ? s : t; Q_ts(&v);', 'float r = %s; TF(r);', 'int w = 1, r = %s, v = w; T(r + v);', 'static int r; r = %s; T(r);', 'Q_gd = %s; TD(Q_gd);', '{ int r = %s; { int r2 = r; T(r2); } }', 'T(sizeof(%s)); T(n);', 'int r = Q_in(z) + (%s); T(r);', 'return Q_tr(%s);']
    for i, l in enumerate(lvs):
        for j, f in enumerate(forms):
            if f == '*&L = k' and l in ('s.bf', 'q->ub', 'd'): continue
            for m, u in enumerate(pos):
                if not core.THOROUGH and (i + j + m) % 3 and not (i in (0, 2, 4, 5)): continue
                if l == 'd' and ('y = L' in f): continue
                if l == 'd' and (u.startswith('u8') or '(u8)' in f): continue                 # out-of-range conversion
                if l == 'q->ub' and f == '-(L = k) * 2': continue            # promoted type of an assigned bit-field: compilers differ
                if u == 'int r = Q_in(z) + (%s); T(r);' and 'Q_' in f: continue
                if u.startswith('T(sizeof') and 'bf' in l + f or 'sizeof' in u and 'ub' in l: continue
                e = f.replace('L', l)
                uu = u.replace('%s2', '%s')
                if uu.count('%s') > 1 and f.startswith('({'): continue
                # a comma or assignment in an initializer needs parentheses only for the comma
                yield Case('val/%d/%d/%d' % (i, j, m), VPRE + 'ull Q_f(ull a_, ull b_) { int k = (int)a_, y = (int)b_, x = 3, z = 2, n = 0, arr[4] = {4, 5, 6, 7}, marr[4] = {1, 2, 3, 4}, *p = &arr[3], i = 1; static int st; st = 2; volatile int vol = 8; i8 c = 9; u16 us = 65535; long l = 1L << 33, lx = -1; double d = 2.5, ret = 0; struct Q_t s = {1, 2, 3, 4, 5, 6}, t = s, *q = &t, t2 = s, *pp[1] = {&t2}; Q_gl = 1; Q_ga[1] = s; Q_go = 6; ' + uu.replace('%s', e) + ' T(k); T(y); T(x); T(z); T(n); TB(arr, 16); TB(marr, 16); T(st); T(vol); T(c); T(us); T(l); T(lx); TD(d); TD(ret); Q_ts(&s); Q_ts(&t); Q_ts(&t2); Q_ts(&Q_ga[1]); T(Q_gl); T(Q_go); T(i); return 0; }', [0, 1, 5], [0, 6] if core.THOROUGH else [6])
VPRE = 'struct Q_t { int m; long l; i8 c; int bf : 5; unsigned ub : 7; short h; }; static int Q_gl, Q_go; static double Q_gd; static struct Q_t Q_ga[2]; static inline int Q_in(int a) { if (a > 2) return a * 2; return a - 1; } static inline int Q_lp(int a) { int s = 0; while (a-- > 0) s += a; return s; } static int *Q_fp(int a) { TC(a); return &Q_go; } static ull Q_tr(long a) { T(a); return a; } static void Q_ts(struct Q_t *p) { T(p->m); T(p->l); T(p->c); T(p->bf); T(p->ub); T(p->h); } '

def gens():
    for g in (tree_cases, pressure_cases, slp_cases, perm_cases, lv_cases, inline_cases, seq_cases, const_cases, frame_cases, end_cases, value_cases): yield from g()

EXTRA = 'ull G0(ull a) { T(a ^ 0x55); return a * 3 + 1; } double GD(double a) { TD(a); return a + 1; }'
def run():
    rep = core.Report('C04')
    b = core.Build(libs=False)
    rep.rule = 'all expression trees with <=3 binary operators over 8 leaf families; 1..100 live values x types x situations; all statement sequences of length <=3 over 15 assignments in 5 skeletons; all loop-carried value maps of <=3 variables and permutations of <=5; lvalue forms x uses; inline bodies x argument forms x contexts; side-effect expressions x lvalue kinds x places where the value is used; function bodies by their last statement (nested to depth 2) x return types x linkage; each compiled both with the default pipeline and with --apply-ssa'
    rep.assumptions = ['gcc -O0 gives the C abstract machine for these (UB-free) programs', 'argument evaluation order is left unobserved']
    cs = list(gens())
    r = PairRunner(rep, b, prelude=PRE, shard=1500, driver_extra=EXTRA)
    r.run(cs)
    ssa = [c for c in cs if c.id.split('/')[0] in ('slp', 'rot', 'rotd', 'press', 'inl', 'lv', 'seq', 'deep', 'const', 'frame', 'val')] if not core.THOROUGH else cs
    PairRunner(rep, b, prelude=PRE, shard=1500, xflags=['--apply-ssa'], tag='ssa/', driver_extra=EXTRA).run(ssa)
    return rep
