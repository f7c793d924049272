"""C07: every valid initialiser gives every subobject the value C prescribes, for static and automatic objects alike."""
import itertools, os, re
from vlib import core, pair
from vlib.pair import PairRunner, Case

# name: (declarator with %s, leaf accessors, designator paths (path, kind of the designated object), extra items)
T = {
 'arr3': ('int %s[3]', ['[0]', '[1]', '[2]'], ['[0]', '[1]', '[2]'], []),
 'st': ('struct { int x; char y; long z; } %s', ['.x', '.y', '.z'], ['.x', '.y', '.z'], []),
 'nest': ('struct { int a[2]; struct { char b; short c; } s; int t; } %s', ['.a[0]', '.a[1]', '.s.b', '.s.c', '.t'], ['.a', '.a[1]', '.s', '.s.c', '.t', '.s.b'], []),
 'arrst': ('struct { char b; short c; } %s[2]', ['[0].b', '[0].c', '[1].b', '[1].c'], ['[0]', '[1]', '[0].c', '[1].b'], []),
 'mat': ('short %s[2][2]', ['[0][0]', '[0][1]', '[1][0]', '[1][1]'], ['[0]', '[1]', '[0][1]', '[1][0]'], []),
 'deep': ('struct { struct { int a; int b[2]; } in[2]; int t; } %s', ['.in[0].a', '.in[0].b[0]', '.in[0].b[1]', '.in[1].a', '.in[1].b[0]', '.in[1].b[1]', '.t'], ['.in', '.in[1]', '.in[0].b', '.in[1].b[1]', '.t', '.in[0].b[1]'], ['{{@}, {@, @}}', '{{@, {@}}}']),
 'chst': ('struct { char s[4]; int n; } %s', ['.s[0]', '.s[1]', '.s[2]', '.s[3]', '.n'], ['.s', '.s[1]', '.n'], ['"ab"', '{"xyz"}', '.s = "abcd"', '.s = {"q"}', '"wxyz"']),
 'charr': ('char %s[2][4]', ['[0][0]', '[0][1]', '[0][2]', '[0][3]', '[1][0]', '[1][1]', '[1][2]', '[1][3]'], ['[0]', '[1]', '[1][2]'], ['"ab"', '{"xyz"}', '[1] = "abcd"', '[0] = {"q"}', '""']),
 'anon': ('struct { int a; union { int b; char c; }; struct { int d, e; }; } %s', ['.a', '.b', '.d', '.e'], ['.a', '.b', '.d', '.e'], []),
 'flo': ('struct { float f; double d[2]; signed char k; } %s', ['.f', '.d[0]', '.d[1]', '.k'], ['.f', '.d', '.d[1]', '.k'], ['@.5', '.f = @.25']),
 'bits': ('struct { unsigned a:3, b:5; int c:7; char d; } %s', ['.a', '.b', '.c', '.d'], ['.a', '.b', '.c', '.d'], []),
 'un': ('struct { union { int i; struct { short p, q; } s; } u; int t; } %s', ['.u.i', '.t'], ['.u', '.u.i', '.u.s', '.u.s.q', '.t'], []),
 'ptr': ('struct { const char *p; int n; } %s[2]', ['[0].p', '[0].n', '[1].p', '[1].n'], ['[0]', '[1]', '[1].n'], ['"s@"', '{"t@"}', '[1].p = "u@"', '{.n = @, .p = "v"}', '{0, @}']),
 'uarr': ('int %s[]', None, ['[0]', '[3]', '[5]', '[1]'], []),
 'uarrst': ('struct { char b; short c; } %s[]', None, ['[0]', '[2]', '[1].c', '[3].b'], []),
 'umat': ('short %s[][2]', None, ['[0]', '[2]', '[1][1]'], []),
 'uch': ('char %s[][3]', None, ['[0]', '[2]', '[1][1]'], ['"ab"', '{"x"}', '[3] = "q"']),
}
def items(name):
    d, leaves, des, extra = T[name]
    out = ['@', '{@}', '{@, @}']
    for p in des: out += [p + ' = @', p + ' = {@}', p + ' = {@, @}']
    return out + extra

def number(s, form):
    n = itertools.count(1)
    if form == 's': return re.sub('@', lambda m: str(next(n)), s)
    def r(m):
        k = next(n)
        if m.group(1): return '%d%s' % (k, m.group(1))
        return '%d + k' % k if k % 2 else str(k)
    return re.sub(r'@(\.\d+)?', r, s)

def tracer(name, v):
    d, leaves, des, extra = T[name]
    if leaves is None: return 'T(sizeof %s); TB(%s, sizeof %s);' % (v, v, v) if name != 'uarrst' else 'T(sizeof %s); for (int q = 0; q < (int)(sizeof %s / sizeof *%s); ++q) { T(%s[q].b); T(%s[q].c); }' % (v, v, v, v, v)
    out = []
    for l in leaves:
        if name == 'flo' and l != '.k': out.append('TD(%s%s);' % (v, l))
        elif name == 'ptr' and l.endswith('.p'): out.append('if (%s%s) TB(%s%s, 2); else T(0);' % (v, l, v, l))
        else: out.append('T(%s%s);' % (v, l))
    return ' '.join(out)

def make(id, name, init):
    d = T[name][0]
    dirt = 'volatile int dirt[40]; for (int q = 0; q < 40; ++q) dirt[q] = -1;'
    quoted = '"' in init and '@' in init
    si = number(init, 's')
    ai = si if name == 'ptr' else number(init, 'a')
    code = 'static %s = %s; static void Q_d(void) { %s } static void Q_l(int k) { %s = %s; %s static %s = %s; %s ' % (d % 'Q_g', si, dirt, d % 'l', ai, tracer(name, 'l'), d % 'sl', si, tracer(name, 'sl'))
    code += '} '
    if not name.startswith('u') or name == 'un':
        code = code.replace('static void Q_l', 'typedef %s; static void Q_p(Q_t *p) { %s } static void Q_l' % (d % 'Q_t', tracer(name, '(*p)')), 1)
        code = code[:-2] + 'Q_p(&(Q_t)%s); { Q_t *p = k > 5 ? 0 : &(Q_t)%s; if (p) Q_p(p); } } ' % (ai, si)
        code += 'static Q_t *Q_gp = &(Q_t)%s; ' % si
    code += 'void Q_main(void) { %s Q_d(); Q_l(0); Q_d(); Q_l(40); %s }' % (tracer(name, 'Q_g'), 'Q_p(Q_gp);' if not name.startswith('u') or name == 'un' else '')
    return Case(id, code)

def shape_cases():
    for name in T:
        its = items(name)
        lists = [(i,) for i in range(len(its))] + list(itertools.product(range(len(its)), repeat=2))
        if core.THOROUGH: lists += list(itertools.product(range(len(its)), repeat=3))
        else:
            sub = [0, 1, 2] + [i for i in range(3, len(its)) if its[i].endswith(' = @') or (its[i].endswith(' = {@}') and i % 2)][:6] + list(range(len(its) - len(T[name][3]), len(its)))[:2]
            lists += list(itertools.product(sub, repeat=3))
        for l in lists:
            if name in ('chst', 'charr', 'uch') and any(its[y].startswith('"') and '] =' in its[x] and '"' not in its[x] for i_, y in enumerate(l) for x in l[:i_]):
                continue   # a string for a char element: gcc and clang extension
            yield make('ini/%s/%s' % (name, '.'.join(map(str, l))), name, '{%s}' % ', '.join(its[i] for i in l))

def valid(cases, dirn):
    """Keeps the initialisers that the reference accepts without a constraint violation."""
    def one(k_chunk):
        k, chunk = k_chunk
        fn = os.path.join(dirn, 'v%d.c' % k)
        pre = (pair.PRELUDE + '\n').count('\n')
        with open(fn, 'w') as f:
            f.write(pair.PRELUDE + '\n')
            for j, c in enumerate(chunk): f.write(pair.subst(c.code.replace('\n', ' '), 'w%d_' % j) + '\n')
        rc, o, e = core.sh(['gcc', '-std=c17', '-pedantic-errors', '-fsyntax-only', '-fmax-errors=0', '-fno-diagnostics-show-caret', fn], timeout=300)
        bad = set(int(m) - pre - 1 for m in re.findall(r'v%d\.c:(\d+):\d+: error' % k, e.decode('utf-8', 'replace')))
        rc, o, e = core.sh(['clang', '-std=c17', '-pedantic-errors', '-Wno-strict-prototypes', '-Wno-deprecated-non-prototype', '-fsyntax-only', '-ferror-limit=0', '-fno-caret-diagnostics', fn], timeout=300)
        bad |= set(int(m) - pre - 1 for m in re.findall(r'v%d\.c:(\d+):\d+: error' % k, e.decode('utf-8', 'replace')))
        os.unlink(fn)
        return [c for j, c in enumerate(chunk) if j not in bad]
    chunks = [cases[i:i + 600] for i in range(0, len(cases), 600)]
    return [c for r in core.pmap(one, list(enumerate(chunks))) for c in r]

# ---- scalars and constant expressions in static initialisers ----------------------------------------
def const_cases():
    ty = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'float', 'double', 'long long', 'enum { Q_E1, Q_E2 = 7 }']
    ex = ['0', '1', '-1', '127', '-128', '255', '65535', '2147483647', '-2147483647 - 1', '4294967295', '1.5', '-2.75', '0.1f', '1e10f', "'a'", "'\\xff'", 'sizeof(int)', 'sizeof(long) * 3 - 1', '1 ? 2 : 3', '0 ? 2 : 3', '(1 << 5) | 3', '~0', '!0', '!5', '-(-7)', '10 / 3', '-10 / 3', '-10 % 3', '10 - 3 * 2', '1 < 2', '2 > 3 || 1', '2 && 0', '(char)300', '(unsigned char)-1', '(short)70000', '(int)3.9', '(double)7 / 2', '7 / 2 * 2.0', '(float)0.1', '1u - 2', '1ul << 40', '0x7fffffff + 0L', '(long)-1 >> 3', '0xffffffffu >> 4', '1 == 1.0', '3 - 5u > 0', '(1, 2) * 0 + 4' if 0 else '4', '1e-3 * 1000', "'a' + 1", '07 + 0x1f', '(unsigned)-1 / 2', '5 ^ 3', '6 & 3', '1.0 / 3', '-0.0', '1.5f + 2', '(_Bool)5', '(_Bool)0.5', '(long)(int)0x80000000']
    for i, t in enumerate(ty):
        for j, e in enumerate(ex):
            if t not in ('float', 'double') and (e in ('1e10f',)): continue
            if t.startswith('unsigned') and e in ('-2.75',): continue
            f = 'TD' if t in ('float', 'double') else 'TI' if 'enum' in t else 'T'
            tt = t.replace('{ Q_E1, Q_E2 = 7 }', '{ Q_E1, Q_E2 = 7 }')
            yield Case('sc/%d/%d' % (i, j), 'static %s Q_g = %s, Q_a[2] = {%s, 1}; struct Q_s { char p; %s v; } static Q_st = {1, %s}; void Q_main(void) { static %s l = %s; %s m = %s; const %s n = {%s}; %s(Q_g); %s(Q_a[0]); %s(Q_a[1]); %s(Q_st.v); %s(l); %s(m); %s(n); }' % (tt, e, e, 'int' if 'enum' in t else t, e, 'int' if 'enum' in t else t, e, 'int' if 'enum' in t else t, e, 'int' if 'enum' in t else t, e, f, f, f, f, f, f, f))

def addr_cases():
    pre = 'static int Q_x = 5, Q_a[5] = {1, 2, 3, 4, 5}; static struct Q_S { char c; int m; struct { short h; int k[3]; } in; struct Q_S *next; } Q_s, Q_t[3]; static int Q_fn(int v) { return v * 3; } static int Q_fm(int v) { return v - 3; } static char Q_c[] = "hello"; static double Q_d[2]; '
    B = {'Q_x': 'int', 'Q_a': 'int', 'Q_s': 'struct Q_S', 'Q_c': 'char'}
    pexp = [('int *', '&Q_x', '(char*)%s - (char*)&Q_x'), ('int *', 'Q_a', '%s - Q_a'), ('int *', '&Q_a[3]', '%s - Q_a'), ('int *', 'Q_a + 2', '%s - Q_a'), ('int *', '&Q_a[4] - 1', '%s - Q_a'), ('int *', '2 + Q_a', '%s - Q_a'), ('int *', '&*(Q_a + 1)', '%s - Q_a'), ('int *', '&1[Q_a]', '%s - Q_a'), ('void *', '&Q_a[2]', '(int*)%s - Q_a'), ('char *', '(char*)Q_a + 3', '%s - (char*)Q_a'), ('char *', '(char*)&Q_a[1] - 2', '%s - (char*)Q_a'), ('int *', '&Q_s.m', '(char*)%s - (char*)&Q_s'), ('short *', '&Q_s.in.h', '(char*)%s - (char*)&Q_s'), ('int *', '&Q_s.in.k[2]', '(char*)%s - (char*)&Q_s'), ('int *', 'Q_s.in.k + 1', '(char*)%s - (char*)&Q_s'), ('int *', '&Q_t[1].in.k[1]', '(char*)%s - (char*)Q_t'), ('int *', 'Q_t[2].in.k', '(char*)%s - (char*)Q_t'), ('struct Q_S *', '&Q_t[2]', '%s - Q_t'), ('struct Q_S *', 'Q_t + 1', '%s - Q_t'), ('int *', '&(Q_t + 1)->m', '(char*)%s - (char*)Q_t'), ('int *', '&(&Q_s)->m', '(char*)%s - (char*)&Q_s'), ('char *', 'Q_c + 1', '%s - Q_c'), ('const char *', '"abc"', '%s[2]'), ('const char *', '"abcdef" + 2', '%s[1]'), ('const char *', '&"xyz"[1]', '%s[1]'), ('double *', '&Q_d[1]', '%s - Q_d'), ('unsigned long', '(unsigned long)&Q_a[1]', '(int*)%s - Q_a'), ('int *', '(int*)0', '%s == 0'), ('void *', '(void*)16', '(long)%s'), ('int *', '(int*)(void*)&Q_a[2]', '%s - Q_a'), ('int *', '1 ? &Q_x : 0', '%s - &Q_x'), ('int *', '0 ? &Q_x : Q_a', '%s - Q_a'), ('int *', '(int[]){7, 8, 9}', '%s[1]'), ('struct Q_S *', '&(struct Q_S){1, 2, {3, {4, 5, 6}}, 0}', '%s->in.k[1]'), ('int (*)', None, None)]
    for i, (t, e, chk) in enumerate(pexp):
        if e is None: continue
        for j in range(4):
            g = ['static %s Q_g = %s;' % (t, e), 'static %s Q_g2[3] = {0, %s, %s};' % (t, e, e), 'static struct { char c; %s p; int z; } Q_g3 = {1, %s, 2};' % (t, e), ''][j]
            v = ['Q_g', 'Q_g2[2]', 'Q_g3.p', 'l'][j]
            yield Case('addr/%d/%d' % (i, j), pre + g + ' void Q_main(void) { %s T(%s); static %s sl = %s; T(%s); }' % ('%s l = %s;' % (t, e) if j == 3 else '', chk.replace('%s', v), t, e, chk.replace('%s', 'sl')))
    fps = ['Q_fn', '&Q_fn', '*Q_fn', '(int (*)(int))Q_fn', '1 ? Q_fn : Q_fm']
    for i, e in enumerate(fps):
        yield Case('fp/%d' % i, pre + 'static int (*Q_g)(int) = %s; static int (*Q_ga[3])(int) = {Q_fm, %s}; static struct { int n; int (*f)(int); const char *s; } Q_tab[] = {{1, Q_fm, "m"}, {2, %s, "n"}, {.s = "z", .f = %s}}; void Q_main(void) { T(Q_g(5)); T(Q_ga[0](5)); T(Q_ga[1](6)); T(Q_ga[2] == 0); for (int i = 0; i < (int)(sizeof Q_tab / sizeof *Q_tab); ++i) { T(Q_tab[i].n); T(Q_tab[i].f(i + 10)); T(Q_tab[i].s[0]); } }' % (e, e, e, e))
    yield Case('self', pre + 'static struct Q_S Q_r = {.next = &Q_r, .m = 4}; static void *Q_self = &Q_self; static struct Q_L { struct Q_L *n; int v; } Q_l1, Q_l2 = {&Q_l1, 2}, Q_l1 = {&Q_l2, 1}; extern int Q_ext[]; static int *Q_pe = &Q_ext[1]; int Q_ext[3] = {7, 8, 9}; void Q_main(void) { T(Q_r.next == &Q_r); T(Q_r.next->m); T(Q_self == (void*)&Q_self); T(Q_l1.n->v); T(Q_l2.n->n->v); T(*Q_pe); }')
    yield Case('tent', 'int Q_t; int Q_t; static int Q_u; static int Q_u = 4; extern int Q_v; int Q_v = 6; int Q_arr[3]; int Q_arr[3]; static struct Q_s *Q_fwd; struct Q_s { int a; }; static struct Q_s Q_o = {3}; void Q_main(void) { extern int Q_w; T(Q_t); T(Q_u); T(Q_v); T(Q_w); T(sizeof Q_arr); Q_fwd = &Q_o; T(Q_fwd->a); Q_t++; T(Q_t); } int Q_w = 8;')

def string_cases():
    S = ['""', '"a"', '"ab"', '"abc"', '"a\\0b"', '"\\n\\t\\\\\\""', '"\\x41\\102"', '"a" "b"', '"x" "" "yz"', '"\\377\\x80"', '"\\0"', '"caf\\xc3\\xa9"', "\"'\"", '"\\a\\b\\f\\v\\r\\?"', '"ab\\\n"' if 0 else '"end"']
    for i, s in enumerate(S):
        n = len(eval(s.replace('" "', '').replace('\\?', '?')))
        for w in ['', '{w}']:
            lit = s if not w else '{%s}' % s
            for sz in [''] + [str(k) for k in range(n, n + 3) if k > 0]:
                for t in ('char', 'unsigned char', 'signed char'):
                    yield Case('str/%d/%s/%s/%s' % (i, 'b' if w else 'n', sz, t), 'static %s Q_g[%s] = %s; const char *Q_p = %s; struct Q_s { int k; %s s[%s]; int e; }; static struct Q_s Q_st = {1, %s, 2}, Q_sa[2] = {[1] = {.s = %s}}; static void Q_d(void) { volatile int d[30]; for (int q = 0; q < 30; ++q) d[q] = -1; } static void Q_l(void) { %s l[%s] = %s; static %s sl[%s] = %s; struct Q_s x = {3, %s, 4}; TB(l, sizeof l); TB(sl, sizeof sl); T(x.k); TB(x.s, sizeof x.s); T(x.e); } void Q_main(void) { T(sizeof Q_g); TB(Q_g, sizeof Q_g); TB(Q_p, sizeof(%s)); T(sizeof(%s)); TB(Q_st.s, sizeof Q_st.s); T(Q_st.e); TB(Q_sa[1].s, sizeof Q_st.s); Q_d(); Q_l(); }' % (t, sz, lit, s, t, sz or str(n + 1), lit, lit, t, sz, lit, t, sz, lit, lit, s, s))
    W = ['L""', 'L"ab"', 'L"a\\0b"', 'L"\\x1234\\xe9g\\1234\\\\n"', 'L"\u00e9\u3042z"', 'u"ab\\u3042"', 'U"\\U0001F600x"', 'u8"\\u00e9"']
    for i, s in enumerate(W):
        t = {'L': 'int', 'u': 'unsigned short', 'U': 'unsigned'}[s[0]] if not s.startswith('u8') else 'char'
        if s[0] == 'u': continue   # u"", U"" and u8"" are not part of the supported language (see C10)
        if s[0] == 'U': continue
        yield Case('wstr/%d' % i, 'static %s Q_g[] = %s, Q_h[8] = %s; static const %s *Q_p = %s; void Q_main(void) { %s l[5] = %s; T(sizeof Q_g); TB(Q_g, sizeof Q_g); TB(Q_h, sizeof Q_h); TB(Q_p, sizeof(%s)); TB(l, sizeof l); }' % (t, s, s, t, s, t, s, s))

def auto_cases():
    """Automatic objects are initialised each time their declaration is reached."""
    decls = ['int l = k;', 'int l[4] = {k};', 'struct { int a, b, c; } l = {.b = k};', 'int l[3][2] = {[1] = {k}};', 'char l[6] = "q";', 'char l[4] = {(char)k, [3] = 1};', 'struct { char s[5]; int n; } l = {"x", k};', 'struct { struct { int a[3]; } i[2]; } l = {{[1] = {{[2] = k}}}};', 'union { long a; char c[16]; } l = {k};', 'double l[3] = {k, 0.5};', 'struct { char c; double d; float f; } l = {.f = k};', 'int l[40] = {[39] = k};', 'struct { int a[20]; char z; } l = {{1, 2, 3}, (char)k};', 'char l[33] = {1, 2, (char)k};', 'short l[7] = {[2] = 3, 4, (short)k};', 'struct { unsigned a:4, b:9; int c; } l = {1, (unsigned)k};', 'int *l[3] = {&k};', 'int l = {k};', 'struct { long x, y, z; } t = {k, 2, 3}, l = t;', 'int l[] = {k, k + 1, [4] = 9};']
    ctx = ['for (int i = 0; i < 3; ++i) { %s %s }', 'int n = 0; again: { %s %s } if (++n < 3) goto again;', 'int n = 0; do { %s %s } while (++n < 3);', 'switch (k) { case 0: { %s %s } break; default: { %s %s } }', '{ { %s %s } } { volatile char d[80]; for (int q = 0; q < 80; ++q) d[q] = 0x77; }']
    for i, d in enumerate(decls):
        if 'struct' in d or 'union' in d:
            mem = {2: ['a', 'b', 'c'], 6: ['n'], 8: ['a'], 10: [], 12: ['z'], 15: ['a', 'b', 'c'], 18: ['x', 'y', 'z']}.get(i, [])
            tr = ' '.join('T(l.%s);' % m for m in mem)
            if i == 6: tr += ' TB(l.s, 5);'
            if i == 7: tr += ' TB(&l, sizeof l);'
            if i == 10: tr += ' T(l.c); TD(l.d); TD(l.f);'
            if i == 12: tr += ' TB(l.a, sizeof l.a);'
            tr += ' for (int q = 0; q < (int)sizeof l; ++q) ((volatile char*)&l)[q] = 0x55;'
        elif i == 16: tr = 'T(l[0] == &k); T(l[1] == 0); T(l[2] == 0); for (int q = 0; q < (int)sizeof l; ++q) ((volatile char*)&l)[q] = 0x55;'
        else: tr = 'TB(&l, sizeof l); for (int q = 0; q < (int)sizeof l; ++q) ((volatile char*)&l)[q] = 0x55;'
        for j, c in enumerate(ctx):
            yield Case('auto/%d/%d' % (i, j), 'static void Q_d(void) { volatile int d[80]; for (int q = 0; q < 80; ++q) d[q] = -1; } static void Q_l(int k) { ' + c.replace('%s %s', d + ' ' + tr) + ' } void Q_main(void) { Q_d(); Q_l(0); Q_d(); Q_l(5); Q_d(); Q_l(-1); }')
        yield Case('slocal/%d' % i, 'static int *Q_run(int k) { static int a[3] = {5, 6}; static int cnt = 10; static struct { int x; char s[4]; } st = {7, "ab"}; static const char *p = "str"; cnt += k; a[2] += cnt; st.x++; T(cnt); TB(a, sizeof a); T(st.x); TB(st.s, 4); T(p[k %% 3]); { static int cnt = 100; cnt -= k; T(cnt); } return &cnt; } void Q_main(void) { T(Q_run(1) == Q_run(2)); Q_run(%d); }' % i) if i < 3 else Case('clit/%d' % i, 'struct Q_s { int a; char c[3]; }; static int Q_sum(const int *p, int n) { int s = 0; while (n-- > 0) s = s * 10 + *p++; return s; } static int Q_st(struct Q_s s, struct Q_s *p) { p->a++; return s.a * 100 + s.c[1] * 10 + p->a; } void Q_main(void) { for (int i = 0; i < 3; ++i) { T(Q_sum((int[]){i, %d, i + 1}, 3)); int *p = (int[4]){[2] = i}; T(Q_sum(p, 4)); p[0] = 9; T(Q_st((struct Q_s){i, "ab"}, &(struct Q_s){.a = i})); T(((struct Q_s){.c = {1, 2, 3}}).c[i]); T((int){i + 5}); T(*&(int){i}); (int){3}; T(sizeof (int[]){1, 2, 3}); char *s = (char[]){"xyz"}; s[0]++; T(s[0]); T(((int[]){4, 5, 6})[i]); struct Q_s x = (struct Q_s){i, {(char)i}}; T(x.a); TB(x.c, 3); x = (struct Q_s){0}; T(x.a); } }' % i)

# ---- every layout of up to 3 (4) members, statically and automatically initialised: the image of the object in the data section
# must put each value where the member accesses look for it, whatever mixture of padding, bit-field units and aggregates precedes it.
LM = {'c': ('char %s', '@', 1), 's': ('short %s', '@', 1), 'i': ('int %s', '@', 1), 'l': ('long %s', '@', 1), 'f': ('float %s', '@.5', 2), 'd': ('double %s', '@.25', 2), 'p': ('const char *%s', '"s@"', 3),
      'A': ('char %s[3]', '{@, @}', 4), 'H': ('short %s[2]', '{[1] = @}', 4), 'N': ('struct { char a; short b; } %s', '{@, @}', 5), 'M': ('struct { char a; long b; } %s', '{.b = @}', 5), 'U': ('union { char a; int b; } %s', '{.b = @}', 6),
      '1': ('unsigned %s:1', '1', 1), '7': ('int %s:7', '-@', 1), 'b': ('unsigned char %s:3', '@', 1), 'h': ('unsigned short %s:9', '25@', 1), 'L': ('unsigned long %s:33', '0x1000000@L', 1), 'Z': ('unsigned :0', None, 0), 'w': ('unsigned %s:20', '7@', 1), 'g': ('signed char %s:5', '-@', 1)}
def layout_case(id, ms):
    decl, full, odd, tr = [], [], [], []
    n = itertools.count(1)
    idx = 0
    for i, m in enumerate(ms):
        d, v, k = LM[m]
        decl.append(d % ('m%d' % i) if v else d)
        if not v: continue
        x = re.sub('@', lambda _: str(next(n)), v)
        full.append(x)
        if idx % 2: odd.append('.m%d = %s' % (i, x))
        idx += 1
        a = '(*q).m%d' % i
        tr.append({1: 'T(%s);' % a, 2: 'TD(%s);' % a, 3: 'if (%s) TB(%s, 3); else T(0);' % (a, a), 4: 'TB(%s, sizeof %s);' % (a, a), 5: 'T(%s.a); T(%s.b);' % (a, a), 6: 'T(%s.b);' % a}[k])
    if not full: return None
    f, o = '{%s}' % ', '.join(full), '{%s}' % ', '.join(odd or full)
    code = 'typedef struct { %s; } Q_t; static void Q_o(Q_t *q) { %s } ' % ('; '.join(decl), ' '.join(tr))
    code += 'static Q_t Q_a = %s, Q_b[3] = {%s, %s}; static int Q_c = 77; static struct { char x; Q_t y; short z; } Q_e = {1, %s, 2}; ' % (f, o, f, f)
    code += 'static void Q_l(void) { volatile char dirt[200]; for (int i = 0; i < 200; ++i) dirt[i] = (char)0xa5; } static void Q_r(void) { Q_t l = %s, m[2] = {%s}; static Q_t n = %s; Q_o(&l); Q_o(m); Q_o(m + 1); Q_o(&n); } ' % (o, f, o)
    code += 'void Q_main(void) { Q_o(&Q_a); for (int i = 0; i < 3; ++i) Q_o(&Q_b[i]); T(Q_c); T(Q_e.x); T(Q_e.z); Q_o(&Q_e.y); Q_l(); Q_r(); }'
    return Case(id, code)

def layout_cases(deep=False):
    for n in (1, 2, 3):
        for ms in itertools.product(LM if n < 3 or deep else 'cilfpANMU17bhLZw', repeat=n):
            c = layout_case('layout/' + ''.join(ms), ms)
            if c: yield c
    for ms in itertools.product('cilA7bLZN' if deep else 'cl7LZ', repeat=4):
        c = layout_case('layout/' + ''.join(ms), ms)
        if c: yield c

def run():
    rep = core.Report('C07')
    b = core.Build(libs=False)
    rep.rule = 'every initialiser list of <=2 items (<=3 over a sub-alphabet) from all item forms (plain, braced, every designator path, strings) for 17 object shapes, kept iff gcc -pedantic-errors accepts it; each as static, static local, automatic (constant and run-time values over a dirtied stack), compound literal; constant-expression x type table; address constants; string literals x array sizes; re-initialisation in loops'
    rep.assumptions = ['gcc decides which initialisers are valid ISO C', 'padding bytes are not observed']
    d = core.scratch('c07')
    sc = valid(list(shape_cases()), d)
    rep.count('shape_initialisers', len(sc))
    cs = sc + valid(list(const_cases()) + list(addr_cases()) + list(string_cases()) + list(auto_cases()), d) + list(layout_cases(core.THOROUGH))
    PairRunner(rep, b, shard=900, prelude='#define TI(x) T((int)(x))').run(cs)
    return rep
