"""C09: conditional inclusion, #if arithmetic, #include search, line tracking."""
import itertools, os, re
from vlib import core
from vlib.ppx import PpRunner, tokens

OPS = ['*', '/', '%', '+', '-', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '^', '|', '&&', '||']
VALS = ['0', '1', '2', '3', '-1', '-2', '7', '63', '0x7fffffff', '0x80000000', '0xffffffff', '0x7fffffffffffffff', '0x8000000000000000u', '0xffffffffffffffffu', '1u', '0u', '-1u', '(-9223372036854775807-1)', '5000000000', '010', '0b101', "'a'", "'\\n'", "'\\377'", 'UNDEF', 'M', 'NEG', 'defined M', 'defined(UNDEF)', '3000000000u', '2147483648UL', '4LL', 'true']
PRE = '#define M 3\n#define NEG -4\n#define FN(x) ((x)+1)\n#define EMPTY\n'

def ok_shift(op, b):
    return op not in ('<<', '>>') or b in ('0', '1', '2', '3', '7', '63', '010', '1u', '0u', 'M', '0b101', '4LL', 'UNDEF')

def probe(e):
    """Truth, sign, and equality with a few landmarks: enough to tell values and signedness apart."""
    t = ['(%s)', '(%s) < 0', '(%s) == 1', '(%s) == -1', '(%s) > 2', '(%s) - 4 > 0', '(%s) / 2 == 1', '((%s) & 0xff) < 0x80', '((%s) >> 31 & 1)', '((%s) >> 63 & 1)', '(%s) >> 62 < 0']
    return ''.join('#if %s\nT\n#else\nF\n#endif\n' % (x % e) for x in t)

def exprs1():
    for i, v in enumerate(VALS):
        for j, u in enumerate(['%s', '+%s', '-%s', '!%s', '~%s', '- -%s', '!!%s', '~-%s', '-~%s', '(%s)', '- - -%s', '!~%s', 'FN(%s)', 'EMPTY %s EMPTY']):
            yield 'un/%d/%d' % (i, j), PRE + probe(u % v)

def exprs2():
    for k, op in enumerate(OPS):
        for i, a in enumerate(VALS):
            for j, b in enumerate(VALS):
                if not ok_shift(op, b): continue
                e = '%s %s %s' % (a, op, b)
                yield 'bin/%s/%d/%d' % (op, i, j), PRE + probe(e)

def exprs3():
    vs = ['0', '1', '2', '-3', '1u'] if not core.THOROUGH else ['0', '1', '2', '-3', '5', '1u', '-1', '8']
    for o1 in OPS:
        for o2 in OPS:
            for i, (a, b, c) in enumerate(itertools.product(vs, repeat=3)):
                if (o1 in ('<<', '>>') and b in ('-3', '-1')) or (o2 in ('<<', '>>') and c in ('-3', '-1')): continue
                if (o1 in ('<<', '>>') and o2 in '*/%+-') and ('-3' in (b, c) or '-1' in (b, c) or o2 == '-'): continue
                if not core.THOROUGH and (i * 7 + OPS.index(o1) + OPS.index(o2)) % 5: continue
                e = '%s %s %s %s %s' % (a, o1, b, o2, c)
                yield 'prec/%s/%s/%d' % (o1, o2, i), '#if %s\nT\n#else\nF\n#endif\n#if (%s) == 1\nT\n#endif\n#if (%s) < 0\nN\n#endif\n#if (%s) > 3\nG\n#endif\n' % (e, e, e, e)

def ternaries():
    al = ['0', '1', '2', '-1', 'M', '0u', '(1 ? 0 : 1)', '1/0', '0 && 1/0', 'defined M', '(2,3)' if 0 else '3']
    for i, (a, b, c) in enumerate(itertools.product(al, repeat=3)):
        e = '%s ? %s : %s' % (a, b, c)
        yield 'tern/%d' % i, PRE + probe(e)
    for i, (a, b, c, d) in enumerate(itertools.product(['0', '1', '-1', '2u'], repeat=4)):
        yield 'tern2/%d' % i, probe('%s ? %s : %s ? %s : 5' % (a, b, c, d)) + probe('%s ? %s ? %s : %s : 5' % (a, b, c, d)) + probe('%s || %s ? %s : %s | 4' % (a, b, c, d)) + probe('(%s ? %s : %s) < %s' % (a, b, c, d))
    for i, e in enumerate(['0 && 1/0', '1 || 1/0', '0 && 1%0', '1 ? 2 : 1/0', '0 ? 1/0 : 2', '0 && (1 || 1/0)', '(0 && 1/0) || 1', '1 || (1/0 && 0)', '0 && 0 ? 1/0 : 3', '!defined UNDEF || UNDEF(1)' if 0 else '!defined UNDEF || UNDEF', 'defined(M) && M > 2', 'defined M && defined ( UNDEF )', '!defined M', 'defined EMPTY', 'FN(2) == 3', 'FN (2) == 3', 'FN\\\n(2) == 3', '1 /* c */ + /* d */ 1', '1 // x', '(1)', '((1)) + ((2))', '0x10 == 16', '010 == 8', "'\\0'", "'\\x41' == 65", "'a' < 'b'", "L'a' == 97", "'\\\\' == 92", "'\\'' == 39", '1.0' if 0 else '1', '__LINE__ > 0', '__LINE__ == __LINE__', 'int', 'sizeof', 'if', 'M M' if 0 else 'M', '-M', '- NEG', '-NEG == 4', '~NEG', '!NEG', 'EMPTY 1', '0 EMPTY', 'defined\tM', 'defined  (M)', 'UNDEF == 0', '0 || UNDEF', 'true', 'false', '1 == 1 == 1', '3 > 2 > 1', '-1 >> 1', '-1 < 0u', '-1 > 0u', '(0 ? 1u : -1) > 0', '(0 || -1u) < 2', '-1 * 1u / 2 > 5', '2 - 3u > 0', '1u << 63 > 0', '18446744073709551615u == -1', '9223372036854775807 + 0u', '-9223372036854775807 - 1 < 0', '0xffffffffffffffff > 0', '0x8000000000000000 < 0', '1 ? -1 : 0u', '(1 ? -1 : 0u) > 0', '(1 ? -1 : 0) > 0', '!-1u', '(!0u) - 2 < 0', '(1u == 1u) - 2 < 0', '(1u && 1u) - 2 < 0', '-1 / 2u > 100', '-7 / 2 == -3', '-7 % 3 == -1', '-8u % 3 < 4', '~0u > 0', '~0 < 0', '+1u - 2 > 0']):
        yield 'misc/%d' % i, PRE + '#if %s\nT\n#else\nF\n#endif\n#if 0\n#elif %s\nT\n#else\nF\n#endif\n' % (e, e)

def groups():
    """All balanced directive sequences; each position prints a distinct token when live."""
    opens = ['#if 0', '#if 1', '#ifdef A', '#ifndef A']
    mids = ['#elif 0', '#elif 1', '#elif defined A', '#else']
    acts = ['#define A', '#undef A']
    def gen(n, depth, st, seq):
        if n == 0:
            if depth == 0: yield seq
            return
        if depth > n: return
        for o in opens:
            if depth + 1 <= n - 1: yield from gen(n - 1, depth + 1, st + [0], seq + [o])
        if depth:
            for m in mids:
                if st[-1] == 1: continue
                yield from gen(n - 1, depth, st[:-1] + [1 if m == '#else' else 0], seq + [m])
            yield from gen(n - 1, depth - 1, st[:-1], seq + ['#endif'])
        for a in acts:
            yield from gen(n - 1, depth, st, seq + [a])
    for n in range(2, 7 if not core.THOROUGH else 8):
        for i, s in enumerate(gen(n, 0, [], [])):
            if n == 6 and not core.THOROUGH and sum(x in acts for x in s) > 1: continue
            if not any(x.startswith('#if') for x in s): continue
            yield 'grp/%d/%d' % (n, i), 't0\n' + ''.join('%s\nt%d\n' % (x, k + 1) for k, x in enumerate(s))

def disabled():
    junk = ['plain', "don't", '"a string"', "'c'", '/* comment */', '/* #endif */', '/*\n#endif\n#else\n*/', '// #endif', '// don\'t "', '"/*"', '"//" x', '#error no', '#include "nonexistent.h"', '#define A 2', '#undef B', '#line 5', '#pragma foo', '#unknown directive', '#', '# define A 3', '#warning x' if 0 else '#foo', '#if garbage ( (', '#ifdef', '#if 1/0', '#if', '#if "str"', '#elifx', '@ ` $', '\\', 'x \\\n#endif', '"\\"" y', "'\\'' y", "'\"' z", "'\"'\n\"'\"", '/* a */ /* b\n*/ c', '# /* */ if 1', '/* x */ # if 1', 'a/b', 'a /b/ c', '"a\\\\"', "/* ' */", '/* " */', '# 33 "f.c"' if 0 else '#ident "x"', '#if 0x', '#if 1 +', '#if a b c', '#ifndef', '#if (']
    closers = ['', '#endif\n']
    for i, j in enumerate(junk):
        nest = j.startswith(('#if', '# /* */ if', '/* x */ # if'))
        body = j + '\n' + ('t9\n#endif\n' if nest else '')
        for k, form in enumerate(['#if 0\n%s#endif\nend', '#if 1\nyes\n#else\n%s#endif\nend', '#if 1\nyes\n#elif 1\n%s#endif\nend', '#ifdef ND\n%s#else\nyes\n#endif\nend', '#if 0\n#if 1\n%s#endif\n%s#endif\nend', '#if 0\n%s#elif 1\nyes\n#else\n%s#endif\nend', '#if 1\nyes\n#else\n#if 1\n%s#else\n%s#endif\n%s#endif\nend']):
            t = form.replace('%s', body)
            yield 'dis/%d/%d' % (i, k), '#define B 1\n' + t + '\nA B'
    for k, e in enumerate(['garbage ( (', '1/0', '', '1 2', '"x"', '1 +', '0x', ')', '#', 'a b']):
        yield 'delif/%d' % k, '#if 1\nyes\n#elif %s\nno\n#else\nno2\n#endif\nend' % e
        yield 'delif2/%d' % k, '#if 0\n#if 0\n#elif %s\nno\n#else\nno2\n#endif\n#endif\nend' % e

def lexical():
    """Comments, continuation lines, directive spelling."""
    forms = ['#define A 1\nA', ' # define A 1\nA', '#\tdefine\tA\t1\nA', '/* c */ #define A 1\nA', '#/* c */define A 1\nA', '#define/* c */A 1\nA', '#define A/* c */ 1\nA', '#define A 1 /* c */\nA', '#define A 1 // c\nA', '#define \\\nA 1\nA', '#define A \\\n1\nA', '#def\\\nine A 1\nA', '#define A 1 \\\n2\nA', '#define A(x \\\n, y) x y\nA(1\\\n,2)', '#define A 1 /* x\ny */ 2\nA', 'a /* c */ b', 'a/* \n */b', 'a // b\nc', 'a // b \\\n still comment\nc', '"a // b"', '"a /* b"', 'a /* " */ b', "a /* ' */ b", 'a // "\nb', 'id\\\nent', '1\\\n2', '"st\\\nring"', '+\\\n+', '/\\\n* comment */ x', '/\\\n/ comment\nx', '#\nx', '# /* null */\nx', '  \nx', '#undef A\nA', '#define A\nA x A', '#define A 1\n#undef A // c\nA', '#define A 1\n#undef A /* c */\nA', '#ifdef A // c\nx\n#else // c\ny\n#endif // c', '#ifdef A /* c */\nx\n#else /* c */\ny\n#endif /* c */', '#if 1 /* c\n d */\nx\n#endif', '#if 1 // c\nx\n#endif', '#if 0 /* c */ || 1\nx\n#endif', '#if \\\n1\nx\n#endif', '#if 1 \\\n && 0\nx\n#endif', '#ifdef\tA\nx\n#endif\ny', '#ifndef A\nx\n#endif\ny', '#if defined A\nx\n#elif !defined A\ny\n#endif', '#if!1\nx\n#elif(1)\ny\n#endif', '#if(0)\nx\n#else\ny\n#endif', '#if-1\nx\n#endif', '#if~0\nx\n#endif', "#if'a'\nx\n#endif", '#define A(x)x\nA(1)', '#define A()1\nA()', '#define A (x)\nA', '#define A(x) (x)\n#if A(0)\nx\n#else\ny\n#endif', '#define EMPTY\nEMPTY # define A 1\nA', '??= x', '%: define A 1\nA' if 0 else 'x', '#pragma once\nx', '#ifdef A\n#define B 1\n#endif\n#ifndef A\n#define B 2\n#endif\nB', '#define f(x) x\nf\n(1)', '#define f(x) x\nf(\n#undef ZZ\n1)' if 0 else 'x', '#define A x\\\ny\nA', '#define A "x\\\ny"\nA', '\\\n#define A 1\nA', '/**/ /**/ #define A 1\nA', '/*\n*/ #define A 1\nA', 'x /* y */ #define A 1\nA', '__LINE__ \\\n__LINE__' if 0 else 'x', '#line 50\n__LINE__', '#line 50 "foo.c"\n__LINE__ __FILE__', '#define L 60\n#line L\n__LINE__\n__LINE__', '#define L 60 "bar.c"\n#line L\n__LINE__\n__FILE__', '#line 10\n\n\n__LINE__\n/*\n\n*/__LINE__ a\n__LINE__', 'a\n#line 7 "x/y.c"\nb __LINE__ __FILE__\n#line 3\nc __LINE__ __FILE__', '#line 100\n#if 0\n\n\n#endif\n__LINE__', '#line 100\n#define A \\\n  1\n__LINE__ A', '#line 100 // c\n__LINE__', '#line 100 /* c */\n__LINE__', '#line 100 "f.c" // c\n__LINE__']
    for i, f in enumerate(forms):
        yield 'lex/%d' % i, f
        yield 'lexcrlf/%d' % i, 'before\n' + f + '\nafter\n#undef A\n' + f

# ------------------------------------------------------------------ includes

def run_includes(rep, b):
    """Every placement of same-named headers in 4 directories x search options x include form; gcc -E is the reference."""
    root = core.scratch('inc')
    cpp = b.exe('cpp')
    dirs = ['.', 'i1', 'i2', 's1', 'a1']
    jobs = []
    optsets = [('-Ii1', '-Ii2'), ('-Ii2', '-Ii1'), ('-Ii1', '-isystem', 's1'), ('-isystem', 's1', '-Ii1'), ('-idirafter', 'a1', '-Ii1'), ('-idirafter', 'a1', '-isystem', 's1', '-Ii2'), ('-Ii1', '-Ii2', '-isystem', 's1', '-idirafter', 'a1'), ()]
    forms = {'q': '#include "h.h"', 'a': '#include <h.h>', 'm': '#define H "h.h"\n#include H', 'ma': '#define H <h.h>\n#include H', 'mf': '#define STR(x) #x\n#define XS(x) STR(x)\n#define N h.h\n#include XS(N)', 'sub': '#include "sub/g.h"', 'tw': '#include "h.h"\n#include "h.h"\n#include <h.h>', 'mid': 'x1\n  #  include   "h.h"   // c\nx2 __LINE__', 'subm': '#include <sub/g.h>'}
    kinds = ['plain', 'guard', 'once', 'next', 'rel']
    def content(kind, d):
        nm = 'in_%s' % d.replace('.', 'dot')
        if kind == 'plain': return '%s __LINE__ __FILE__\n' % nm
        if kind == 'guard': return '#ifndef G_%s\n#define G_%s\n%s\n#endif\n' % (nm, nm, nm)
        if kind == 'once': return '#pragma once\n%s\n' % nm
        if kind == 'next': return '%s_a\n#include_next <h.h>\n%s_b __LINE__\n' % (nm, nm)
        if kind == 'rel': return '%s_a\n#include "k.h"\n%s_b __LINE__\n' % (nm, nm)
    n = 0
    for kind in kinds:
        for mask in range(1, 32):
            present = [d for i, d in enumerate(dirs) if mask >> i & 1]
            wd = os.path.join(root, '%s_%d' % (kind, mask)); os.makedirs(wd)
            for d in dirs: os.makedirs(os.path.join(wd, d, 'sub'), exist_ok=True)
            for d in present:
                open(os.path.join(wd, d, 'h.h'), 'w').write(content(kind, d))
                open(os.path.join(wd, d, 'sub', 'g.h'), 'w').write('sub_%s\n#include "../h.h"\n#include "h2.h"\n' % d.replace('.', 'dot'))
                open(os.path.join(wd, d, 'sub', 'h2.h'), 'w').write('subh2_%s\n' % d.replace('.', 'dot'))
                if kind == 'rel': open(os.path.join(wd, d, 'k.h'), 'w').write('k_%s __LINE__\n' % d.replace('.', 'dot'))
            for fk, f in forms.items():
                fn = '%s.c' % fk
                open(os.path.join(wd, fn), 'w').write('start\n%s\nend __LINE__ __FILE__\n' % f)
                for oi, o in enumerate(optsets):
                    jobs.append((kind, mask, fk, oi, o, wd, fn))
    def one(j):
        kind, mask, fk, oi, o, wd, fn = j
        rc, out, e = core.sh(['gcc', '-E', '-nostdinc', '-undef', '-w'] + list(o) + [fn], cwd=wd)
        grc, gout, ge = core.sh([cpp] + list(o) + [fn], cwd=wd)
        return rc, out, grc, gout, ge
    res = core.pmap(one, jobs)
    def attr(o):
        return attribute(o.decode('utf-8', 'replace'))
    for j, (rc, out, grc, gout, ge) in zip(jobs, res):
        kind, mask, fk, oi, o, wd, fn = j
        cid = 'inc/%s/%d/%s/%d' % (kind, mask, fk, oi)
        rep.count('states')
        info = 'dirs with h.h: %s\noptions: %s\nfile:\n%s' % ([d for i, d in enumerate(dirs) if mask >> i & 1], ' '.join(o), open(os.path.join(wd, fn)).read())
        if rc != 0:
            if grc == 0: rep.violation(cid, 'a header that cannot be found is not diagnosed', info)
            elif not isinstance(grc, int) or grc < 0: rep.violation(cid, 'cpp died: %s' % grc, info)
            continue
        if grc != 0:
            rep.violation(cid, 'cpp failed: %s' % ge.decode('utf-8', 'replace')[:200], info); continue
        w, g = attr(out), attr(gout)
        norm = lambda l: [(t, os.path.normpath(os.path.relpath(os.path.join(wd, f), wd)), n) for t, f, n in l]
        w, g = norm(w), norm(g)
        w = [(normstr(t, wd), f, n) for t, f, n in w]; g = [(normstr(t, wd), f, n) for t, f, n in g]
        rep.count('transitions', len(w))
        rep.count('traces_validated_against_impl')
        if w != g:
            d = next((k for k in range(max(len(w), len(g))) if w[k:k + 1] != g[k:k + 1]))
            rep.violation(cid, 'token %d: got %s want %s' % (d, g[d:d + 1], w[d:d + 1]), info + '\ngot %s\nwant %s' % (g, w))

def normstr(t, wd):
    if t.startswith('"'):
        return '"' + os.path.normpath(os.path.relpath(os.path.join(wd, t[1:-1]), wd)) + '"'
    return t

def attribute(text):
    """[(token, file, line)] following the line markers."""
    fn, ln, out = '?', 0, []
    for l in text.split('\n'):
        m = re.match(r'#\s*(?:line\s+)?(\d+)\s+"([^"]*)"', l)
        if m: fn, ln = m.group(2), int(m.group(1)); continue
        if not l.startswith('#'):
            for t in tokens(l): out.append((t, fn, ln))
        ln += 1
    return out

def run_lines(rep, b):
    """Every sequence of source constructs: each following token is attributed to its own file and line."""
    wd = core.scratch('ln')
    cons = {'blank': '\n', 'tok': 'tk\n', 'com2': '/* a\n b */\n', 'com2t': '/* a\n b */ c\n', 'lc': '// x\n', 'lccont': '// x \\\n y\n', 'cont': 'a \\\n b\n', 'def': '#define Q%d 1\n', 'defcont': '#define Q%d 1 \\\n 2 \\\n 3\n', 'dis': '#if 0\nx\n/*\n*/\n#endif\n', 'dis8': '#if 0\n\n\n\n\n\n\nx\n#endif\n', 'en': '#if 1\ny\n#endif\n', 'call': 'FN(1,\n 2\n,\n3)\n', 'calltail': 'FN(1,\n2) z\n', 'inc': '#include "h.h"\n', 'inclong': '#include "long.h"\n', 'incempty': '#include "empty.h"\n', 'blank9': '\n' * 9, 'line': '#line 40\n', 'linef': '#line 70 "o.c"\n', 'und': '#undef Q%d\n', 'prag': '#pragma once\n' if 0 else '#\n', 'noparen': 'FN\nq\n', 'defcom': '#define Q%d /* a\nb */ 1\n', 'ifcont': '#if 1 \\\n && 1\n#endif\n', 'elif': '#if 0\n#elif 1\nw\n#else\nv\n#endif\n', 'next': '#include_next <n.h>\n' if 0 else '#include <n.h>\n', 'once': '#include "once.h"\n#include "once.h"\n', 'nextinc': '#include <nx.h>\n', 'nonl': '#include "nonl.h"\n', 'ifcom': '#if 1 /* a\n b */\n#endif\n', 'discom': '#if 0\n/* a\n\n\n\n\n\n*/ x\n#endif\n', 'com9': '/*' + '\n' * 9 + '*/\n', 'cont6': 'a \\\n\\\n\\\n\\\n\\\n\\\n b\n', 'spl': 'id\\\nent\n'}
    open(wd + '/h.h', 'w').write('hh __LINE__\n')
    open(wd + '/long.h', 'w').write('hh\n\n\n\n\n\n\n\n\nkk __LINE__\n')
    open(wd + '/empty.h', 'w').write('')
    open(wd + '/nonl.h', 'w').write('zz')
    os.makedirs(wd + '/s'); open(wd + '/s/n.h', 'w').write('nn __LINE__')
    open(wd + '/once.h', 'w').write('#pragma once\noo __LINE__\n')
    os.makedirs(wd + '/s2'); open(wd + '/s/nx.h', 'w').write('n1\n#include_next <nx.h>\n\nmkN __LINE__\n'); open(wd + '/s2/nx.h', 'w').write('n2 __LINE__\n')
    keys = list(cons)
    seqs = [(a,) for a in keys] + list(itertools.product(keys, repeat=2))
    if core.THOROUGH: seqs += list(itertools.product(keys, repeat=3))
    jobs = []
    per = 12
    for i, s in enumerate(seqs):
        t = '#define FN(x,y,...) x y __VA_ARGS__\n'
        for k, c in enumerate(s):
            t += (cons[c].replace('%d', str(k))) + 'mk%d __LINE__ __FILE__\n' % k
        t += 'mkE __LINE__\n'
        jobs.append((i, s, t))
    def one(j):
        i, s, t = j
        fn = 't%d.c' % i
        with open(os.path.join(wd, fn), 'w') as f: f.write(t)
        g = core.sh([b.exe('cpp'), '-Is', '-Is2', fn], cwd=wd)
        # expected attribution, from a physical-line model
        want = []; ln, cur = 0, fn
        for k, l in enumerate(t.split('\n')):
            ln += 1
            m = re.match(r'#line (\d+)(?: "(.*)")?', l)
            if m:
                ln = int(m.group(1)) - 1; cur = m.group(2) or cur; continue
            m = re.match(r'(mk\w+)', l)
            if m: want.append((m.group(1), cur, ln))
        os.unlink(os.path.join(wd, fn))
        return g, want
    for (i, s, t), ((rc, o, e), want) in zip(jobs, core.pmap(one, jobs)):
        rep.count('states')
        cid = 'line/' + '.'.join(s)
        if rc != 0:
            rep.violation(cid, 'cpp failed: %s' % e.decode('utf-8', 'replace')[:200], t); continue
        a = attribute(o.decode('utf-8', 'replace'))
        nx = [x for x in a if x[0] == 'mkN']
        if any(x[2] != 4 or os.path.basename(x[1]) != 'nx.h' for x in nx): rep.violation(cid + '/next', 'token after #include_next attributed to %s' % nx, t)
        a = [x for x in a if x[0] != 'mkN']
        got = [x for x in a if x[0].startswith('mk')]
        # the __LINE__ value printed after each marker must agree as well
        vals = [(a[k][0], a[k + 1][0]) for k in range(len(a)) if a[k][0].startswith('mk')]
        rep.count('transitions', len(want)); rep.count('traces_validated_against_impl')
        norm = lambda l: [(x, os.path.normpath(f), n) for x, f, n in l]
        if norm(got) != norm(want) or vals != [(x, str(n)) for x, f, n in want]:
            rep.violation(cid, 'got %s %s want %s' % (got, vals, want), t)

def run():
    rep = core.Report('C09')
    b = core.Build(libs=False)
    rep.rule = 'all operators x value pairs, all operator pairs (precedence), ternaries, all balanced directive sequences of <=6 directives, all junk in dead groups, all header placements x search options x include forms, all pairs of source constructs for line tracking'
    rep.assumptions = ['gcc -E decides which #if expressions are valid', 'the line attributed to tokens in the middle of a continued line is not constrained']
    r = PpRunner(rep, b, names=['A', 'B', 'M', 'NEG', 'FN', 'EMPTY', 'f', 'H', 'L'], batch=200)
    for f in (exprs1, exprs2, exprs3, ternaries, groups, disabled): r.run(f())
    r1 = PpRunner(rep, b, names=['A', 'B', 'M', 'f', 'H', 'L', 'EMPTY'], batch=1)
    r1.run(lexical())
    run_includes(rep, b)
    run_lines(rep, b)
    return rep
