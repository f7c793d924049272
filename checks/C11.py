"""C11: declarations give every identifier the type, scope, linkage and lifetime that C defines."""
import itertools, re
from vlib import core
from vlib.pair import PairRunner, Case
from checks import C07

BASE = ['int', 'unsigned char', 'double', 'struct Q_S']
PRE = '#define NEL(a) (sizeof(a) / sizeof *(a))\n'

# ---- 1. declarators: every derivation of pointers, arrays and functions -------------------------------
def words(n):
    """Derivations from the identifier outwards: P pointer to, A array of, F function returning, G prototype with parameters."""
    def ok(w):
        for a, b in zip(w, w[1:]):
            if a in 'FG' and b in 'ABFG': return False    # function returning array or function
            if a in 'AB' and b in 'FG': return False     # array of functions
        return True
    for k in range(0, n + 1):
        for w in itertools.product('PABFG', repeat=k):
            if ok(w): yield ''.join(w)

def declarator(w, name):
    """w read from the identifier outwards."""
    s, prev = name, None
    for c in w:
        if c == 'P': s = '*' + s
        else:
            if prev == 'P': s = '(' + s + ')'
            s += {'A': '[2]', 'B': '[3]', 'F': '(void)', 'G': '(int, char *)'}[c]
        prev = c
    return s

def typedef_chain(w, base, pfx):
    """The same type built one derivation at a time; returns (declarations, type name)."""
    out = ['typedef %s %s0;' % (base, pfx)]
    for i, c in enumerate(reversed(w)):
        f = {'P': 'typedef %s *%s;', 'A': 'typedef %s %s[2];', 'B': 'typedef %s %s[3];', 'F': 'typedef %s %s(void);', 'G': 'typedef %s %s(int, char *);'}[c]
        out.append(f % ('%s%d' % (pfx, i), '%s%d' % (pfx, i + 1)))
    return ' '.join(out), '%s%d' % (pfx, len(w))

def decl_cases():
    n = 5 if core.THOROUGH else 4
    for bi, base in enumerate(BASE):
        for w in words(n if bi == 0 else 3):
            td, tn = typedef_chain(w, base, 'Q_t')
            wrong = typedef_chain(w, 'unsigned' if bi != 3 else 'struct Q_R', 'Q_w')
            isf = bool(w) and w[0] in 'FG'
            code = '%s %s %s' % (td, wrong[0], '' if isf else 'static %s %s;' % (base, declarator(w, 'Q_v')) if w else 'static %s Q_v;' % base)
            if isf: code += 'extern %s %s;' % (base, declarator(w, 'Q_v'))
            body = 'T(_Generic(&Q_v, %s *: 1, default: 2)); T(_Generic(&Q_v, %s *: 1, default: 2)); ' % (tn, wrong[1]) if not isf else 'T(_Generic((__typeof__(Q_v) *)0, %s *: 1, default: 2)); T(_Generic((__typeof__(Q_v) *)0, %s *: 1, default: 2)); ' % (tn, wrong[1])
            # abstract declarators
            ab = '%s %s' % (base, declarator(w, ''))
            pab = '%s %s' % (base, declarator('P' + w, ''))
            body += 'T(_Generic((%s)0, %s *: 1, default: 2)); ' % (pab, tn)
            if not isf: body += 'T(sizeof Q_v); T(sizeof(%s)); T(sizeof(%s)); T((char*)(&Q_v + 1) - (char*)&Q_v); T(_Alignof(%s)); ' % (ab, tn, ab)
            # every level reached by * (subscripts, dereferences and calls, unevaluated)
            e = 'Q_v'
            for i, c in enumerate(w):
                e = {'P': '(*%s)', 'A': '%s[1]', 'B': '%s[2]', 'F': '%s()', 'G': '%s(1, 0)'}[c] % e
                rest = w[i + 1:]
                if not (rest and rest[0] in 'FG'): body += 'T(sizeof(%s)); ' % e
                if not (rest and rest[0] in 'FGAB') and not (c in 'FG' and base.startswith('struct') and not rest):
                    body += 'T(_Generic(%s, __typeof__(%s): 1, default: 2)); ' % (e, e)
                e2 = '*(%s)' % e
            # as a parameter and as a member
            if not isf:
                code += ' struct Q_M { char z; %s %s; char y; }; ' % (base, declarator(w, 'm') if w else 'm')
                body += 'T(sizeof(struct Q_M)); T((char*)&((struct Q_M*)0)->y - (char*)0); T(_Generic(&((struct Q_M*)0)->m, %s *: 1, default: 2)); ' % tn
            aw = 'P' + w[1:] if w and w[0] in 'AB' else 'P' + w if isf else w
            code += ' static void Q_p(%s %s) { T(sizeof p); T(_Generic(&p, %s *: 1, default: 2)); (void)p; } ' % (base, declarator(w, 'p') if w else 'p', typedef_chain(aw, base, 'Q_u')[1])
            code = 'struct Q_S { char c[5]; short s; }; struct Q_R { char c[5]; short s; }; ' + typedef_chain(aw, base, 'Q_u')[0] + ' ' + code
            body += 'T(_Generic(Q_p, void (*)(%s %s): 1, default: 2)); Q_p(%s); ' % (base, declarator(aw, ''), '0' if isf else 'Q_v')
            yield Case('decl/%d/%s' % (bi, w or '-'), code + ' void Q_main(void) { %s }' % body)

# ---- 2. type compatibility: every ordered pair ---------------------------------------------------------
TYPES = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', '_Bool',
         'char *', 'signed char *', 'void *', 'const char *', 'char *const *', 'int *', 'unsigned *', 'const int *', 'int **', 'const int **', 'int *const *', 'volatile int *', 'struct Q_A', 'struct Q_B', 'union Q_U', 'struct Q_A *', 'const struct Q_A *', 'struct Q_I *', 'union Q_U *',
         'int (*)(void)', 'int (*)(int)', 'int (*)(int, ...)', 'void (*)(int)', 'int (*)(char)', 'int (*)(int *)', 'int (*)(const int *)', 'int (*)[3]', 'int (*)[4]', 'int (*)[3][2]', 'char (*)[3]', 'enum Q_E *', 'long (*)[3]', 'int (*(*)(void))(int)', 'int (**)(int)', 'const char *const *', 'Q_ti', 'Q_tp', 'Q_tf *', 'Q_ts', 'Q_ta *']
CHSC = {(0, 1), (1, 0), (14, 15), (15, 14), (50, 15), (15, 50)}   # char against signed char
def compat_cases():
    pre = 'struct Q_A { int a; }; struct Q_B { int a; }; union Q_U { int a; }; struct Q_I; enum Q_E { Q_E1 }; typedef int Q_ti; typedef char *Q_tp; typedef int Q_tf(int); typedef struct Q_A Q_ts; typedef int Q_ta[3]; '
    for i, t in enumerate(TYPES):
        body = ''
        for j, u in enumerate(TYPES):
            if 'enum' in u or 'enum' in t or (i, j) in CHSC: continue
            body += 'T(%d * 10 + _Generic((%s *)0, %s *: 1, default: 2)); ' % (j, ptr(t), ptr(u))
            body = body.replace('%s *' % t, '%s *' % t)
        for j in [j for (k, j) in CHSC if k == i]:
            yield Case('chsc/%d/%d' % (i, j), pre + 'void Q_main(void) { T(_Generic((%s *)0, %s *: 1, default: 2)); }' % (t, TYPES[j]))
        yield Case('compat/%d' % i, pre + ''.join('typedef %s; ' % td(x, 'Q_y%d' % k) for k, x in enumerate(TYPES)) + 'void Q_main(void) { %s }' % body)
    # function and array conversions in controlling expressions, qualifiers of values dropped
    vals = [('Q_f', 'int (*)(int)'), ('Q_a', 'int *'), ('Q_aa', 'int (*)[3]'), ('"x"', 'char *'), ('Q_ci', 'int'), ('Q_cp', 'const char *'), ('&Q_ci', 'const int *'), ('Q_s', 'struct Q_A'), ('&Q_f', 'int (*)(int)'), ('&Q_a', 'int (*)[3]'), ("'c'", 'int'), ('Q_b', '_Bool'), ('Q_b + Q_b', 'int'), ('Q_h', 'short'), ('+Q_h', 'int'), ('Q_h++', 'short'), ('Q_h = 1', 'short'), ('(Q_h, Q_d)', 'double'), ('1 ? Q_h : Q_h', 'int'), ('Q_s.a', 'int'), ('*Q_a', 'int'), ('&Q_a[1] - Q_a', 'long'), ('sizeof 1', 'unsigned long'), ('Q_cp[0]', 'char'), ('1 ? Q_cp : 0', 'const char *'), ('1 ? (void*)0 : Q_cp', 'const char *'), ('1 ? Q_vp : Q_cp', 'const void *'), ('0 ? Q_vp : Q_a', 'void *'), ('Q_aa[1]', 'int *'), ('*Q_aa', 'int *'), ('&Q_aa[0][1]', 'int *'), ('*&Q_f', 'int (*)(int)'), ('(const int)1', 'int'), ('Q_fl * 2', 'float'), ('Q_fl * 2.0', 'double'), ('Q_f(1)', 'int'), ('(char)1 << 1L', 'int'), ('-Q_b', 'int'), ('~Q_uc', 'int'), ('Q_us << 3', 'int'), ('Q_u + 1', 'unsigned'), ('Q_u + 1L', 'long'), ('Q_ul + 1LL', 'unsigned long long'), ('Q_fl', 'float'), ('Q_fl ? Q_h : Q_d', 'double'), ('!Q_d', 'int'), ('Q_d == Q_d', 'int'), ('Q_u < 3', 'int'), ('Q_u && Q_d', 'int'), ('Q_cp || Q_vp', 'int'), ('Q_cp != Q_vp', 'int')]
    gp = 'static int Q_f(int a) { return a; } static int Q_a[3], Q_aa[2][3]; static const int Q_ci = 4; static const char *Q_cp = "q"; static struct Q_A Q_s; static enum Q_E Q_e; static _Bool Q_b; static short Q_h; static double Q_d; static void *Q_vp; static float Q_fl; static unsigned char Q_uc; static unsigned short Q_us; static unsigned Q_u; static unsigned long Q_ul; '
    cand = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', '_Bool', 'char *', 'const char *', 'void *', 'const void *', 'int *', 'const int *', 'int (*)(int)', 'int (*)[3]', 'struct Q_A']
    for i, (v, t) in enumerate(vals):
        body = 'T(_Generic(%s, %s, default: 99)); ' % (v, ', '.join('%s: %d' % (c, k) for k, c in enumerate(cand)))
        # order of associations and the position of default do not matter
        body += 'T(_Generic(%s, default: 99, %s)); ' % (v, ', '.join('%s: %d' % (c, k) for k, c in reversed(list(enumerate(cand)))))
        if v.startswith('Q_') and v.count('_') == 1 and not v.startswith('Q_f('): body += '{ __auto_type z = %s; T(_Generic(&z, %s)); }' % (v, ', '.join('%s: %d' % (c + ' *', k) if '(' not in c and '*' not in c else '%s: %d' % (c.replace('(*)', '(**)') if '(*)' in c else c + '*', k) for k, c in enumerate(cand)))
        yield Case('expr/%d' % i if i < len(vals) - 6 else 'relint/%d' % (i - len(vals) + 6), pre + gp + 'void Q_main(void) { %s (void)Q_f; (void)Q_a; (void)Q_aa; (void)Q_ci; (void)Q_cp; (void)Q_s; (void)Q_e; (void)Q_b; (void)Q_h; (void)Q_d; (void)Q_vp; (void)Q_fl; (void)Q_uc; (void)Q_us; (void)Q_u; (void)Q_ul; }' % body)
    # only the selected association is evaluated
    yield Case('sel', 'static int Q_t(int v) { T(v); return v; } void Q_main(void) { int x = 3; T(_Generic(x, char: Q_t(1), int: Q_t(2), default: Q_t(3))); T(_Generic(x++, long: Q_t(1), default: Q_t(4))); T(x); T(_Generic(x, int: x, char: 5)); }')

def ptr(t): return 'Q_y%d' % TYPES.index(t) if t in TYPES else t
def td(t, name):
    if '(*)' in t: return t.replace('(*)', '(*%s)' % name, 1)
    if '(**)' in t: return t.replace('(**)', '(**%s)' % name, 1)
    if '(*(*)' in t: return t.replace('(*(*)', '(*(*%s)' % name, 1)
    return t + ' ' + name

# ---- 3. specifier lists in every order -------------------------------------------------------------------
SPECS = ['char', 'signed char', 'unsigned char', 'short', 'short int', 'signed short', 'signed short int', 'unsigned short', 'unsigned short int', 'int', 'signed', 'signed int', 'unsigned', 'unsigned int', 'long', 'long int', 'signed long', 'signed long int', 'unsigned long', 'unsigned long int',
         'long long', 'long long int', 'signed long long', 'signed long long int', 'unsigned long long', 'unsigned long long int', 'float', 'double', '_Bool', 'struct Q_S', 'enum Q_E', 'Q_td']
def spec_cases():
    pre = 'struct Q_S { short a[3]; }; enum Q_E { Q_E0, Q_E9 = 9 }; typedef unsigned short Q_td; '
    for i, s in enumerate(SPECS):
        toks = [s] if s.startswith(('struct', 'enum')) else s.split()
        for k, extra in enumerate([[], ['const'], ['volatile'], ['static'], ['const', 'static'], ['const', 'volatile'], ['typedef'], ['extern'], ['register'], ['auto']]):
            if len(toks) + len(extra) > 5 and not core.THOROUGH: continue
            seen = set()
            for n, perm in enumerate(itertools.permutations(toks + extra)):
                if perm in seen: continue
                seen.add(perm)
                sp = ' '.join(perm)
                loc = extra in (['register'], ['auto'])
                st = 'struct' in s
                probe = ('T(sizeof(%s)); T(_Alignof(__typeof__(%s)));' if s != '_Bool' else '') + ('' if st or 'enum' in s else ' T((__typeof__(%s))-1 < 0); T((__typeof__(%s))1.5 == 1.5); T((ill)(__typeof__(%s))0x80808080fefefefe);'.replace('0x80808080fefefefe', '-3.5' if s in ('float', 'double') else '0x80808080fefefefe'))
                if extra == ['typedef']:
                    code = pre + sp + ' Q_x; static Q_x Q_v; void Q_main(void) { ' + probe.replace('%s', 'Q_v') + ' }'
                elif loc:
                    code = pre + 'void Q_main(void) { %s v; ' % sp + probe.replace('%s', 'v') + ' }'
                elif 'extern' in extra:
                    code = pre + sp + ' Q_v; void Q_main(void) { ' + probe.replace('%s', 'Q_v') + ' }'
                else:
                    code = pre + sp + ' Q_v; void Q_main(void) { ' + probe.replace('%s', 'Q_v') + ' T(_Generic(&Q_v, %s *: 1, const %s *: 2, volatile %s *: 3, const volatile %s *: 4, default: 5)); }' % (s, s, s, s)
                yield Case('spec/%d/%d/%d' % (i, k, n), code)

# ---- 4. scopes: an identifier redeclared at every level ----------------------------------------------------
def scope_cases():
    D = [  # (declaration at level k, probe)
        ('', ''), ('int Q_x = %d0;', 'T(Q_x);'), ('static short Q_x = %d1;', 'T(Q_x);'), ('typedef char Q_x[%d5];', ''), ('enum { Q_x = %d3 };', 'T(Q_x);'), ('struct Q_x { char c[%d7]; };', 'T(sizeof(struct Q_x));'),
        ('enum Q_x { Q_e@ = %d };', 'T(Q_e@);'), ('extern int Q_g; long Q_x = 1 + %d;', 'T(Q_x); T(Q_g);'), ('typedef struct Q_x { char c[%d9]; } Q_x;', 'T(sizeof(struct Q_x));'), ('struct Q_x { long q; } Q_x[%d];', 'T(sizeof(struct Q_x));')]
    heads = ['{ %s }', 'for (int i = 0; i < 2; ++i) { %s }', 'if (Q_g) { %s }', 'switch (1) { default: { %s } }', 'do { %s } while (0);']
    n = len(D)
    for a, b2, c in itertools.product(range(1, n), range(n), range(n)):
        if D[a][0].startswith(('int', 'static', 'extern')) and 0: continue
        tagkinds = [k for k in (a, b2, c) if k in (5, 6, 8, 9)]
        if a in (5, 6) : continue    # the identifier must be declared at file level for sizeof(Q_x)
        h = heads[(a * 7 + b2 * 3 + c) % len(heads)]
        def d(k, lv): return D[k][0].replace('@', str(lv)) .replace('%d', str(lv))
        def p(k, lv): return 'T(sizeof(Q_x)); ' + D[k][1].replace('@', str(lv))
        inner = '%s %s' % (d(c, 3), p(c, 3))
        mid = '%s T(sizeof(Q_x)); %s %s T(sizeof(Q_x)); { T(sizeof(Q_x)); }' % (d(b2, 2), D[b2][1].replace('@', '2'), h % inner)
        if D[c][0].startswith('extern') or D[b2][0].startswith('extern') or a == 7: pass
        code = 'int Q_g = 77; %s void Q_main(void) { %s { %s } T(sizeof(Q_x)); %s }' % (d(a, 1).replace('extern int Q_g;', ''), p(a, 1), mid, p(a, 1))
        yield Case('scope/%d/%d/%d' % (a, b2, c), code)
    # the scope of a declarator begins after it; prototypes, parameters, for-init, labels, members and tags have scopes of their own
    M = ['int Q_x = 5; void Q_main(void) { T(sizeof(Q_x)); { char Q_x[sizeof Q_x + 3]; T(sizeof Q_x); } }',
         'typedef int Q_x; void Q_main(void) { Q_x Q_x = 4; T(Q_x); { T(sizeof Q_x); } }', 'typedef int Q_x; static int Q_f(Q_x Q_x) { return Q_x * 2; } void Q_main(void) { T(Q_f(4)); Q_x y = 3; T(y); }',
         'enum { Q_x = 3 }; void Q_main(void) { int a[Q_x]; enum { Q_x = Q_x + 4 }; int b[Q_x]; T(sizeof a); T(sizeof b); }',
         'struct Q_s { int a; }; void Q_main(void) { struct Q_s x = {1}; struct Q_s { char b[9]; }; struct Q_s y; T(sizeof x); T(sizeof y); T(x.a); }',
         'struct Q_s { int a; }; void Q_main(void) { struct Q_s; struct Q_h { struct Q_s *p; }; struct Q_s { char b[9]; }; T(sizeof(*((struct Q_h*)0)->p)); }',
         'int Q_i = 9; void Q_main(void) { for (int Q_i = 0; Q_i < 2; ++Q_i) { T(Q_i); int Q_i = 50; T(Q_i); Q_i = 3; } T(Q_i); }',
         'void Q_main(void) { int x = 1; { x: x += 2; goto y; } y: T(x); if (x++ < 4) goto x; T(x); }', 'int Q_a(int Q_b), Q_b = 5; int Q_a(int c) { return c + Q_b; } void Q_main(void) { T(Q_a(1)); }',
         'struct Q_s { int Q_s; }; static int Q_s(struct Q_s Q_s) { return Q_s.Q_s; } void Q_main(void) { struct Q_s v = {6}; T(Q_s(v)); }',
         'typedef struct Q_l { struct Q_l *n; int v; } Q_l; void Q_main(void) { Q_l a = {0, 1}, b = {&a, 2}; T(b.n->v); }', 'int Q_x = 1; static int Q_f(void) { extern int Q_x; return Q_x; } void Q_main(void) { int Q_x = 2; T(Q_x); { extern int Q_x; T(Q_x); Q_x = 8; } T(Q_x); T(Q_f()); }',
         'static int Q_x = 1; void Q_main(void) { { extern int Q_x; T(Q_x); } T(Q_x); }', 'static int Q_f(int a) { return a + 1; } void Q_main(void) { int Q_f(int); T(Q_f(2)); }'.replace('int Q_f(int); ', ''),
         'typedef int Q_t; struct Q_s { Q_t Q_t; Q_t *p; };'.replace('Q_t *p', 'int *p') + ' void Q_main(void) { struct Q_s s; s.Q_t = 4; T(s.Q_t); Q_t v = 5; T(v); }',
         'typedef char Q_t; void Q_main(void) { int a = sizeof(Q_t), Q_t = 7, b = sizeof(Q_t); T(a); T(b); T(Q_t); T((Q_t) + 1); T((Q_t) - 1); T((Q_t) * 2); }',
         'typedef long Q_t; void Q_main(void) { int x = 3; T(sizeof((Q_t)+x)); T(sizeof((Q_t)-x)); int *p = &x; T((Q_t)*p); T((Q_t)&*p == (long)p); T(((Q_t)(x)) + 1); }',
         'enum Q_e { Q_A, Q_B = -3, Q_C, Q_D = Q_B * 2, Q_F = 1 << 4, Q_G }; void Q_main(void) { T(Q_A); T(Q_B); T(Q_C); T(Q_D); T(Q_F); T(Q_G); enum Q_e v = Q_G; T(v); T(sizeof v); enum { Q_A = 100, Q_H }; T(Q_A); T(Q_H); }',
         'void Q_main(void) { int a = 1; { int a = 2; { int b = a, a = 3; T(b); T(a); } T(a); } T(a); }', 'int Q_v = 3; static int Q_f(int Q_v) { { int Q_v = 9; T(Q_v); } return Q_v; } void Q_main(void) { T(Q_f(4)); T(Q_v); }',
         'void Q_main(void) { int i = 7; for (int i = 0, j = 2; i < j; ++i) for (int i = 5; i < 7; ++i) T(i); T(i); }', 'static int Q_k(int (*Q_f)(int), int v) { return Q_f(v); } static int Q_f(int v) { return v * 7; } void Q_main(void) { T(Q_k(Q_f, 3)); }',
         'static struct Q_p { int x, y; } Q_mk(int a) { struct Q_p r = {a, a + 1}; return r; } void Q_main(void) { struct Q_p v = Q_mk(3); T(v.x); T(v.y); }', 'void Q_main(void) { struct { enum { Q_R = 4, Q_S } k; int a[Q_S]; } v; v.k = Q_R; T(v.k); T(sizeof v); T(Q_S); }',
         'static int Q_f(enum Q_z { Q_Z = 6 } a, int b[Q_Z]) { return a + (int)sizeof b; } void Q_main(void) { T(Q_f(1, 0)); }', 'int Q_f(), Q_f(int), Q_f(int a); int Q_f(int a) { return a; } void Q_main(void) { T(Q_f(3)); }',
         'void Q_main(void) { sizeof(struct Q_s { int a[3]; }); struct Q_s v; T(sizeof v); }', 'void Q_main(void) { int x = sizeof(enum { Q_P = 8, Q_Q }); T(x + Q_Q); }',
         'void Q_main(void) { if (sizeof(enum { Q_P = 8 }) == 4) { T(Q_P); } }', 'enum { Q_P = 1 }; void Q_main(void) { if (sizeof(enum { Q_P = 8 }) == 9) T(1); else T(Q_P); T(Q_P); }', 'enum { Q_P = 1 }; void Q_main(void) { while (sizeof(enum { Q_P = 8 }) == 9) ; T(Q_P); int i; for (i = sizeof(enum { Q_P = 3 }); i < 6; ++i) T(Q_P); T(Q_P); }']
    off = ['m', 'm[1]', 'in', 'in[1]', 'in[1].k', 'in[1].k[1]', 'in[1].k[1][2]', 'in[0].d', 'in->d', 'in->k', 'in[1].c', 'in[1].k[0][1]', 'a', 'u.p', 'u.q', 'u.q[1]']
    tys = ['struct Q_S { int a; int m[3]; struct { char c; short k[2][3]; double d; } in[2]; union { int *p; char q[5]; } u; }; static struct Q_S Q_o[3]; static volatile int Q_i = 1; ']
    for j, b in enumerate(['((struct Q_S*)0)->', '((struct Q_S*)0)[2].', '(*((struct Q_S*)0 + 1)).', '((struct Q_S*)64)->', 'Q_o[1].', '(Q_o + 1)->', 'Q_o[Q_i].', '(*(Q_o + Q_i)).', '(&Q_o[Q_i])->']):
        yield Case('off/%d' % j, tys[0] + 'void Q_main(void) { char *z = %s; (void)Q_i; (void)Q_o; %s }' % ('(char*)Q_o' if 'Q_o' in b else '0', ' '.join('T((char*)&%s%s - z); T((char*)(&%s%s + 1) - z); T(sizeof(*&%s%s)); T(_Generic(&%s%s, __typeof__(%s%s) *: 1, default: 2));' % ((b, o) * 5) for o in off)))
    for i, m in enumerate(M): yield Case('scm/%d' % i, m)

# ---- 5. linkage: every sequence of file-scope declarations --------------------------------------------------
def link_cases():
    V = ['static int Q_v;', 'extern int Q_v;', 'int Q_v;', 'static int Q_v = 3;', 'int Q_v = 4;', 'const int Q_z = 1; extern int Q_v;', 'static int Q_get@(void) { extern int Q_v; return Q_v += 2; }', 'static int Q_get@(void) { return Q_v++ * 3; }']
    n = 4
    for k in range(1, n + 1):
        for s in itertools.product(range(len(V)), repeat=k):
            if s.count(5) > 1: continue
            gets = [i for i, x in enumerate(s) if x in (6, 7)]
            code = ' '.join(V[x].replace('@', str(i)) for i, x in enumerate(s))
            defined = any(x in (0, 2, 3, 4) for x in s)
            if not defined: continue
            yield Case('var/' + ''.join(map(str, s)), code + ' void Q_main(void) { T(Q_v); %s { extern int Q_v; T(++Q_v); } T(Q_v); }' % ' '.join('T(Q_get%d());' % i for i in gets))
    F = ['static int Q_f(int);', 'int Q_f(int);', 'extern int Q_f(int);', 'int Q_f();', 'static int Q_f(int a) { return a + 3; }', 'int Q_f(int a) { return a + 4; }', 'static int Q_use@(void) { return Q_f(@); }', 'static int Q_use@(void) { extern int Q_f(int); return Q_f(@); }', 'static int Q_use@(void) { int (*p)(int) = Q_f; return p(@); }', 'static inline int Q_f(int);', 'static inline int Q_f(int a) { return a + 5; }', 'extern int Q_f(int a) { return a + 6; }']
    for k in range(1, 5 if core.THOROUGH else 4):
        for s in itertools.product(range(len(F)), repeat=k):
            defs = [x for x in s if x in (4, 5, 10, 11)]
            if len(defs) != 1: continue
            uses = [i for i, x in enumerate(s) if x in (6, 7, 8)]
            code = ' '.join(F[x].replace('@', str(i)) for i, x in enumerate(s))
            yield Case('fun/' + '.'.join(map(str, s)), code + ' void Q_main(void) { T(Q_f(1)); %s }' % ' '.join('T(Q_use%d());' % i for i in uses))
    # a prototype, once seen, converts the arguments of every later call, also when declarations without one surround it
    G = ['int Q_f();', 'int Q_f(double, long);', 'int Q_f(double a, long b) { return (int)(a * 2) + (b == -3 ? 100 : 0); }', 'static int Q_use@(void) { return Q_f(@, -3); }', 'static int Q_use@(void) { int Q_f(); return Q_f(@, -3); }', 'static int Q_use@(void) { int (*p)() = Q_f; return p(@.5, -3L); }', 'static int Q_use@(void) { extern int Q_f(double, long); return Q_f(@, -3); }']
    for k in range(1, 6):
        for s in itertools.product(range(len(G)), repeat=k):
            if s.count(2) != 1 or k == 5 and s.count(0) < 2: continue
            proto = min(i for i, x in enumerate(s) if x in (1, 2))
            if any(x in (3, 4) and i < proto or x == 5 and i == 0 for i, x in enumerate(s)): continue
            code = ' '.join(G[x].replace('@', str(i + 1)) for i, x in enumerate(s))
            yield Case('proto/' + ''.join(map(str, s)), code + ' void Q_main(void) { T(Q_f(7, -3)); %s }' % ' '.join('T(Q_use%d());' % (i + 1) for i, x in enumerate(s) if x > 2))
    A = ['extern int Q_a[];', 'extern int Q_a[3];', 'int Q_a[3];', 'int Q_a[3] = {1, 2};', 'int Q_a[] = {5, 6, 7};', 'static int Q_g@(int i) { return Q_a[i]; }', 'extern struct Q_S Q_s; struct Q_S { int x; };', 'static int *Q_p@ = &Q_a[1];']
    for k in range(1, 5):
        for s in itertools.product(range(len(A)), repeat=k):
            if s.count(6) > 0 or not any(x in (2, 3, 4) for x in s): continue
            code = ' '.join(A[x].replace('@', str(i)) for i, x in enumerate(s))
            use = ' '.join('T(Q_g%d(1));' % i if x == 5 else 'T(Q_p%d - Q_a); T(*Q_p%d);' % (i, i) if x == 7 else '' for i, x in enumerate(s))
            yield Case('arr/' + ''.join(map(str, s)), code + ' void Q_main(void) { T(sizeof Q_a); T(Q_a[0]); T(Q_a[2]); Q_a[1] = 9; %s }' % use)
    S = ['struct Q_S;', 'struct Q_S *Q_p;', 'extern struct Q_S Q_s;', 'struct Q_S { int a; struct Q_S *n; };', 'struct Q_S Q_s = {4, &Q_s};', 'typedef struct Q_S Q_T;', 'struct Q_S Q_mk(void);', 'static int Q_g@(struct Q_S *p) { return p != 0; }', 'extern Q_T Q_s;']
    for k in range(2, 5):
        for s in itertools.product(range(len(S)), repeat=k):
            if 3 not in s or s.count(3) > 1: continue
            code = ' '.join(S[x].replace('@', str(i)) for i, x in enumerate(s))
            use = ''.join('T(Q_g%d(0)); ' % i for i, x in enumerate(s) if x == 7)
            if 4 in s: use += 'T(Q_s.a); T(Q_s.n == &Q_s); T(sizeof Q_s); '
            if 1 in s: use += 'T(Q_p == 0); T(sizeof *Q_p); '
            if 5 in s: use += 'T(sizeof(Q_T)); { Q_T l = {3}; T(l.a); } '
            yield Case('inc/' + ''.join(map(str, s)), code + ' void Q_main(void) { T(sizeof(struct Q_S)); %s }' % use)

# ---- 6. lifetime of static locals; variable length arrays ------------------------------------------------------
def life_cases():
    SD = ['static int s;', 'static int s = 5;', 'static short s[2] = {1, 2};', 'static struct { int a; char b; } s = {3, 4};', 'static int s, t = 2;', 'static const int s = 6; static int u;']
    TR = ['T(++s);', 'T(s += 3);', 'T(++s[0]); T(s[1] += 2);', 'T(++s.a); T(--s.b);', 'T(++s); T(++t);', 'T(s); T(++u);']
    CTX = ['static void Q_f(int k) { %d %t if (k) Q_f(k - 1); %t }', 'static void Q_f(int k) { for (int i = 0; i < 3; ++i) { %d %t } if (k) Q_f(k - 1); }', 'static void Q_f(int k) { if (k & 1) { %d %t } else { %d %t } if (k) Q_f(k - 1); }', 'static inline void Q_i(void) { %d %t } static void Q_f(int k) { Q_i(); Q_i(); if (k) Q_f(k - 1); }',
           'static void Q_f(int k) { switch (k) { case 0: { %d %t } break; default: { %d %t } } if (k) Q_f(k - 1); }', 'static void Q_i(void) { %d %t } static void Q_f(int k) { %d %t Q_i(); if (k > 1) Q_f(k - 1); }', 'static void Q_f(int k) { %d { %d %t } %t { %t } if (k) Q_f(k - 1); }', 'static void Q_f(int k) { int n = k; again: { %d %t } if (n-- > 0) goto again; }']
    for i, (d, t) in enumerate(zip(SD, TR)):
        for j, c in enumerate(CTX):
            yield Case('life/%d/%d' % (i, j), c.replace('%d', d).replace('%t', t) + ' void Q_main(void) { Q_f(2); Q_f(0); Q_f(1); }')
    # recursion: automatic objects are one per activation
    for n in range(1, 6):
        for ty, ini in (('int', 'k * 3'), ('char', 'k'), ('double', 'k * 0.5'), ('struct { int a; char c[9]; }', '{k, {1}}')):
            acc = 'l.a' if 'struct' in ty else 'l'
            yield Case('act/%d/%s' % (n, ty.split()[0]), 'static int *Q_prev; static int Q_f(int k) { %s l = %s; %s *p = (void*)&l; int keep = k; int r = k ? Q_f(k - 1) : 0; T((ill)%s); T(keep); T(p == (void*)&l); if (k & 1) { %s m = %s; r += (int)%s; %s = 0; } return r + (int)%s; } void Q_main(void) { T(Q_f(%d)); }' % (ty, ini, 'void' , acc, ty, ini, acc.replace('l', 'm'), acc.replace('l', 'm'), acc, n))

def vla_cases():
    B = ['int a[n]; T(sizeof a); for (int i = 0; i < n; ++i) a[i] = i * 3; n += 5; T(sizeof a); for (int i = 0; i < n - 5; ++i) T(a[i]); T(sizeof a / sizeof a[0]);',
         'char a[n + 2]; T(sizeof a); for (int i = 0; i < n + 2; ++i) a[i] = i; int s = 0; for (int i = 0; i < n + 2; ++i) s += a[i]; T(s);', 'int a[n][3]; T(sizeof a); T(sizeof a[0]); for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) a[i][j] = i * 10 + j; T(a[n - 1][2]); T((char*)a[n - 1] - (char*)a);',
         'int a[3][n]; T(sizeof a); T(sizeof a[0]); for (int i = 0; i < 3; ++i) for (int j = 0; j < n; ++j) a[i][j] = i * 10 + j; T(a[2][n - 1]); T((char*)a[2] - (char*)a); T((char*)&a[2][n - 1] - (char*)a);', 'short a[n][n + 1]; T(sizeof a); for (int i = 0; i < n; ++i) for (int j = 0; j <= n; ++j) a[i][j] = i * 16 + j; int s = 0; for (int i = 0; i < n; ++i) for (int j = 0; j <= n; ++j) s = s * 3 + a[i][j]; T(s);',
         'int a[n][2][n]; T(sizeof a); T(sizeof a[0]); T(sizeof a[0][0]); for (int i = 0; i < n; ++i) for (int j = 0; j < 2; ++j) for (int k = 0; k < n; ++k) a[i][j][k] = i * 100 + j * 10 + k; T(a[n - 1][1][n - 1]); T(a[0][1][0]);',
         'T(sizeof(int[n])); T(sizeof(char[n][2])); int z = n; T(sizeof(int[z++])); T(z);', 'typedef int R[n]; int m = n; n = 50; R a, b; T(sizeof a); T(sizeof(R)); for (int i = 0; i < m; ++i) { a[i] = i; b[i] = -i; } for (int i = 0; i < m; ++i) { T(a[i]); T(b[i]); }', 'int q[4][n]; int (*p)[n] = q; for (int i = 0; i < 4 * n; ++i) q[0][i] = i; T(sizeof *p); T((*(p + 1))[0]); ++p; T((*p)[0]); T(p[1][n - 1]); T(p - q);',
         'for (int i = 1; i <= n; ++i) { int a[i]; a[i - 1] = i; a[0] += i; T(a[0]); T(sizeof a); }'.replace('a[i - 1] = i; a[0] += i;', 'a[0] = 0; a[i - 1] = i; a[0] += i;'), 'for (int i = 1; i <= n; ++i) { int a[i + 3]; for (int j = 0; j < i + 3; ++j) a[j] = i; if (i == 2) continue; T(a[i + 2]); if (i == 4) break; } T(7);',
         'int x = 11; { int a[n]; for (int i = 0; i < n; ++i) a[i] = -1; T(a[n - 1]); } { int b[n * 2]; for (int i = 0; i < n * 2; ++i) b[i] = 5; T(b[2 * n - 1]); } T(x);', 'T(Q_sum(n, n + 1)); T(Q_sum(2, n));', 'int a[n], *p = a, b[n]; for (int i = 0; i < n; ++i) { a[i] = i; b[i] = i + 100; } T(p[n - 1]); T(b[0]); T(Q_leaf(a, n) + Q_leaf(b, n));',
         'T(Q_rec(n));', 'int k = n; again:; { int a[k]; a[k - 1] = k * 2; T(a[k - 1]); } if (--k > 0) goto again;', 'switch (n) { case 1: { int a[n]; a[0] = 5; T(a[0]); break; } default: { int b[n]; b[n - 1] = 6; T(b[n - 1]); } } T(8);', 'char c[n]; double d[n]; for (int i = 0; i < n; ++i) { c[i] = i; d[i] = i * 0.5; } T((ill)(d[n - 1] * 4)); T(c[n - 1]);',
         'struct { int a, b; } s[n]; T(sizeof s); for (int i = 0; i < n; ++i) { s[i].a = i; s[i].b = -i; } T(s[n - 1].a); T(s[n - 1].b);', 'int *pp[n]; int v = 4; for (int i = 0; i < n; ++i) pp[i] = &v; T(*pp[n - 1]); T(sizeof pp);', 'int a[n]; int r = 0; for (int i = 0; i < n; ++i) a[i] = Q_leaf((int[]){i, 2}, 2) + i; for (int i = 0; i < n; ++i) r = r * 7 + a[i]; T(r);', 'int a[Q_cnt(n)]; T(sizeof a); T(Q_calls); T(sizeof(a[0])); T(Q_calls);']
    pre = 'static int Q_calls; static int Q_cnt(int n) { ++Q_calls; return n; } static int Q_leaf(int *p, int n) { int s = 0; for (int i = 0; i < n; ++i) s += p[i]; return s; } static int Q_sum2(int n, int m, int a[n][m]) { int s = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) s = s * 3 + a[i][j]; T(sizeof a[0]); return s; } static int Q_sum(int n, int m) { int a[n][m]; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) a[i][j] = i + 2 * j; return Q_sum2(n, m, a); } static int Q_rec(int n) { int a[n + 1]; a[n] = n; a[0] = n ? Q_rec(n - 1) : 1; return a[0] * 3 + a[n]; } '
    for i, bd in enumerate(B):
        for n in (1, 2, 3, 4, 7):
            yield Case('vla/%d/%d' % (i, n), pre + 'static void Q_go(int n, int guard) { T(guard); %s T(guard); } void Q_main(void) { (void)Q_cnt; (void)Q_leaf; (void)Q_sum; (void)Q_rec; Q_go(%d, 1234567); T(99); }' % (bd, n))

def vlaparam_cases():
    """Array parameters whose sizes are expressions of other parameters: declarator forms x operations x prototypes x linkage."""
    P = [('int a[n]', 1), ('int a[restrict]', 1), ('int a[static n]', 1), ('int a[n][m]', 2), ('int a[][m]', 2), ('int a[n + 1][m * 2]', 2), ('int (*a)[m]', 2), ('int a[3][m]', 2), ('int a[n][3]', 2), ('int a[restrict n][m + 1]', 2), ('int a[n][m][2]', 3), ('int a[n][2][m]', 3), ('int (*a)[n][m]', 3), ('int a[][n][m - 1 + n]', 3), ('int a[Q_k][m & 3 ? m : 1]', 2), ('int a[sizeof(n)][m]', 2), ('int (*a)[2]', 2), ('int a[m][sizeof(int[n])]', 2), ('int a[n][Q_h(m)]', 2), ('int (*a)[Q_h(m) + 1]', 2), ('int a[Q_h(n)][Q_t[m]]', 2)]
    O = ['T(%E); T(sizeof *a);', 'T(sizeof a); T(sizeof a[0]);', '++a; T(%E); T((char*)a - (char*)Q_buf);', 'a += 1; T((char*)a - (char*)Q_buf); a -= 1; T(%E);', 'T((char*)(1 + a) - (char*)a); T((char*)(a + 1) - (char*)a); T((char*)&a[2] - (char*)a);', 'T(&a[2] - a); T((a + 3) - (a + 1)); T(a++ - a == 0 || 1); T((char*)a - (char*)Q_buf);',
         'n += 3; m += 2; T(%E); T(sizeof *a);', 'T(a == (void*)Q_buf); T(a < a + 1); T(!a); T((char*)(a - 1) - (char*)a);', '{ int b[n][m]; T(sizeof b); T(sizeof *a); } T(%E);', 'for (int i = 0; i < 3; ++i, a++) T((char*)a - (char*)Q_buf);', 'if (n > 1) Q_r(n - 1, m, (void*)a); T(%E);', '__typeof__(*a) *p = a; T(sizeof *p); ++p; T((char*)p - (char*)Q_buf);', '%E = 77; T(%E); T(((int*)Q_buf)[%I]);']
    for i, (p, dim) in enumerate(P):
        e = 'a' + '[1]' * dim
        for j, o in enumerate(O):
            if 'Q_buf)[%I]' in o: o = o.replace('%I', '(int)((char*)&%s - (char*)Q_buf) / 4' % e)
            if '%E = 77' in o and dim == 1 and 'static' in p: continue
            o = o.replace('%E', e)
            for k, (proto, lk) in enumerate([('', 'static'), ('static void Q_v(int, int, %s);' % {1: 'int[*]', 2: 'int (*)[*]', 3: 'int[*][*][*]'}[dim], 'static'), ('static void Q_v(int n, int m, %s);' % p, 'static'), ('', 'static inline')]):
                rec = 'static void Q_r(int n, int m, %s) { T(sizeof *a); T(%s); } ' % (p, e) if 'Q_r(' in o else ''
                yield Case('vlap/%d/%d/%d' % (i, j, k), 'static int Q_k = 2, Q_buf[4000], Q_t[] = {1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}; static int Q_deep(int x) { return x + 1; } static int Q_h(int x) { return Q_deep(x) + 1; } %s %s %s void Q_v(int n, int m, %s) { %s T(n); T(m); } void Q_main(void) { for (int i = 0; i < 4000; ++i) Q_buf[i] = i * 7 + 1; for (int n = 1; n < 4; ++n) for (int m = 1; m < 4; ++m) Q_v(n, m, (void*)Q_buf); Q_v(5, 9, (void*)Q_buf); }' % (rec, proto, lk, p, o))

def run():
    rep = core.Report('C11')
    b = core.Build(libs=False)
    rep.rule = 'every declarator of <=4 derivations (pointer, arrays, functions) x base types against the type built stepwise; all ordered pairs of 54 types for compatibility; all orders of specifier lists; all identifier kinds at 3 scope levels; all declaration sequences of <=4 for linkage of variables, functions, arrays, incomplete types; static/automatic lifetime and variable length array programs; array parameters sized by other parameters x operations x prototypes'
    rep.assumptions = ['gcc and clang -pedantic-errors decide which declaration sequences are valid ISO C; gcc their meaning', 'enum types are not used in type-compatibility questions (implementation-defined)']
    d = core.scratch('c11')
    cs = list(decl_cases()) + list(compat_cases()) + list(spec_cases()) + list(scope_cases()) + list(life_cases()) + list(vla_cases()) + list(vlaparam_cases())
    cs += C07.valid(list(link_cases()), d)
    PairRunner(rep, b, shard=700, prelude=PRE).run(cs)
    return rep
