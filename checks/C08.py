"""C08: macro expansion is exactly what C defines."""
import itertools
from vlib import core
from vlib.ppx import PpRunner

NAMES = ['A', 'B', 'C', 'F', 'G', 'H', 'E', 'LP', 'RP', 'CM', 'AB', 'STR', 'XSTR', 'CAT', 'XCAT']

def objs():
    """Object-like macros referring to each other, plain text around."""
    al = ['A', 'B', '1', 'x', '+', '(', ')', '-', '.5', 'C']
    bodies = [()] + [(a,) for a in al] + list(itertools.product(al, repeat=2))
    if core.THOROUGH: bodies += list(itertools.product(['A', 'B', '1', '-', 'C'], repeat=3))
    for i, a in enumerate(bodies):
        for j, b in enumerate(bodies):
            if not (set(a) & {'A', 'B', 'C'}) and j: continue
            if len(b) > 1 and not (set(b) & {'A', 'B', 'C'}) and j > 30: continue
            yield 'obj/%d/%d' % (i, j), '#define A %s\n#define B %s\n#define C A B\nA;B;C;-A+A;x A y;A.B;A(B);"A" \'A\' A1 1A _A A_;\n-B;B-;+B+B;1.B;B.1' % (' '.join(a), ' '.join(b))

def glue():
    """No two tokens merge just because one of them came from a macro."""
    toks = ['+', '-', '<', '>', '=', '&', '|', '!', '*', '/', '%', '^', '.', '1', 'x', ':', '"s"', "'c'", '..', '->', '++', '<<', '0x1e', '1.', 'L', 'e', '#']
    ctx = ['A', 'P A', 'A P', 'PA', 'AP', '(A)', 'A A', 'F()P', 'PF()', 'F()A', 'AF()', 'F()F()', 'I(A)P', 'PI(A)', 'J(P)', 'J2(P)', 'J(-)', 'J(+)']
    for i, t in enumerate(toks):
        for j, p in enumerate(toks):
            if t == '#' and j: continue
            if p in ('#', '1.'): continue   # (1. after a name: gcc -E itself glues these)
            lines = []
            for c in ctx:
                # where p is an identifier/number directly next to the name it would be a different identifier
                if p[-1].isalnum() and ('PA' in c or 'PF' in c or 'PI' in c): continue
                if p[0].isalnum() and 'AP' in c: continue
                if p in ('L', 'e', 'x') and 'AP' in c: continue
                lines.append(c.replace('F()', '\0').replace('P', p).replace('\0', 'F()') + ' ;')
            yield 'glue/%d/%d' % (i, j), '#define A %s\n#define F() %s\n#define I(x) x\n#define J(x) x%s\n#define J2(x) %s x\n%s' % (t, t, t, t, '\n'.join(lines))

def func1():
    """One-parameter macros: all bodies over the alphabet x all arguments."""
    al = ['x', '#x', 'x##x', 'x##1', 'a##x', 'A', 'F', 'G', 'G(x)', '(x)', ',', '1', 'F(x)', 'x##A', 'G##x', '(', ')']
    bodies = [(a,) for a in al] + list(itertools.product(al, repeat=2))
    if core.THOROUGH: bodies += list(itertools.product(al[:14], repeat=3))
    args = ['', '1', 'A', 'F', 'F(1)', '(1,2)', '"s"', "'c'", 'a b', 'G', 'G(2)', 'x', ' 1 ', 'A A', 'F(F(A))', '-', 'B', '"a\\n\\"q\\""', "'\\n' '\"'", 'F(G)(3)', 'a\n b', '/* c */ d', 'E', '()']
    for i, b in enumerate(bodies):
        d = '#define A 7\n#define B A\n#define E\n#define G(y) [y]\n#define a1 pasted\n#define F(x) %s\n' % ' '.join(b)
        for j, a in enumerate(args):
            yield 'f1/%d/%d' % (i, j), d + 'F(%s) ; F (%s)(3) ; G(F(%s)) F ; A' % (a, a, a)

def func2():
    al = ['x', 'y', '#x', '#y', 'x##y', 'y##x', 'x##y##x', 'A', 'F(y,x)', 'x y', '(x,y)', 'H(x)', 'H', 'x##_##y', '+', 'G(y)']
    bodies = [(a,) for a in al] + list(itertools.product(al, repeat=2))
    args = ['1,2', 'A,B', ',', '1,', ',2', '(1,2),3', 'F(1,2),A', 'a b,c d', 'A,A', '"x,y",(z)', 'H,(4)', 'x,y', 'F,F', 'E,E', ' p , q ', '1\n,\n2', 'B,1', 'G,H']
    for i, b in enumerate(bodies):
        d = '#define A 7\n#define B A\n#define E\n#define H(z) {z}\n#define G(z) H(z)H\n#define AB ab\n#define F(x,y) %s\n' % ' '.join(b)
        for j, a in enumerate(args):
            yield 'f2/%d/%d' % (i, j), d + 'F(%s) ; [F(%s)] F(F(%s),%s)' % (a, a, a, '3' if not a.startswith(('H', 'G')) else 'k')

def variadic():
    bodies = ['__VA_ARGS__', '#__VA_ARGS__', '{__VA_ARGS__}', 'f(x, ##__VA_ARGS__)', 'x __VA_ARGS__ x', 'G(__VA_ARGS__)', 'K(__VA_ARGS__)', 'x##__VA_ARGS__', '__VA_ARGS__##x', 'g(__VA_ARGS__, x)', '#x #__VA_ARGS__', 'f(x __VA_OPT__(,) __VA_ARGS__)', 'K(x, __VA_ARGS__)', 'G(x)(__VA_ARGS__)', 'A __VA_ARGS__ A', 'f(x __VA_OPT__(, A) )']
    args = ['', '1', '1,2', '1,2,3', 'A', 'A,B', ',', ',,', '(1,2)', '(1,2),(3)', 'a b , c', 'G(1)', 'K(1,2)', '"a,b"', 'E', 'E,E', 'x,y', 'F', 'F(1,2),3', '1,', 'a\n,b']
    for i, b in enumerate(bodies):
        for k, params in enumerate(['...', 'x,...', 'x,y,...', 'x, z...']):
            if k == 0 and ('x' in b.replace('__VA', '')): continue
            bb = b.replace('__VA_ARGS__', 'z') if k == 3 else b
            if k == 3 and 'OPT' in b: continue
            for j, a in enumerate(args):
                if '##__VA' in b and a in (',', ',,', '1,') or 'OPT' in b and 'E' in a: continue   # GNU corner: present but empty variable arguments
                yield 'va/%d/%d/%d' % (i, k, j), '#define A 7\n#define B A\n#define E\n#define G(z) [z]\n#define K(...) <__VA_ARGS__>\n#define F(%s) %s\nF(%s) ; F(%s) F' % (params, bb, a, a)

def pastes():
    l = ['a', '1', 'x1', '+', '-', '<', '>', '&', '|', '=', '!', '.', '1.', '0x', '<<', 'L', 'A', '_', '12', 'e', '##' if 0 else '*', '%', '^', 'F', ':']
    for i, a in enumerate(l):
        for j, b in enumerate(l):
            for k, form in enumerate(['#define CAT(x,y) x##y\nCAT(%s,%s);', '#define C %s##%s\nC;', '#define CAT(x) x##%s\n' + 'CAT(%s);', '#define CAT(x,y) x##y\n#define XCAT(x,y) CAT(x,y)\nXCAT(%s,%s) XCAT(A,1) CAT(A,1);']):
                t = form % ((b, a) if k == 2 else (a, b))
                yield 'paste/%d/%d/%d' % (i, j, k), '#define A 7\n#define B z\n#define A1 q\n#define F(x) <x>\n#define AF(x) (x)\n#define aA hit\n' + t

def stringize():
    args = ['a', 'a b', ' a   b ', 'a\tb', 'a\n  b', '"s"', '"a b"', '"a\\nb"', "'\\''", '"\\""', "'\"'", '"\\\\"', 'a+b', 'a + b', '( a , b )', 'a/**/b', 'a /* x */ b', '"a" "b"', '1.5e+3', 'x->y', '...', 'L"w"', "L'c'", '@', 'a\\b' if 0 else 'a', '"%d\\n"', 'F(1)', 'A', '-1', '- 1', 'a ;', '"\xc3\xa9"'.encode('latin1').decode('utf8') if 0 else '"z"', '"\\x41\\101"', '"tab\\t"', "'a' 'b'", '"?"', '0x1F', 'a##b' if 0 else 'ab', '[ ]', '{ }', '"//"', '"/*"', 'a // c\n b']
    for i, a in enumerate(args):
        for k, b in enumerate(['#x', '# x', 'f(#x)', '#x #x', '#x x', 'STR(x)', 'STR(#x)', '"p" #x "q"']):
            yield 'str/%d/%d' % (i, k), '#define A 7\n#define STR(y) #y\n#define F(x) %s\nF(%s);F( %s );STR(F(%s));STR(A F(A));' % (b, a, a, a)

def calls():
    """Where the argument list starts, spans lines, or comes from another expansion."""
    forms = ['F(1)', 'F (1)', 'F\n(1)', 'F\n\n\n(1)', 'F /* c */ (1)', 'F // c\n(1)', 'F /* a\n b */ (1)', 'F', 'F;(1)', '(F)(1)', 'F F(1)', 'F(F)(1)', 'F(\n1\n)', 'F(1 /* , */ )', 'F("a)b")', "F(')')", 'F((a)(b))', 'F([)]' if 0 else 'F([a])', 'F(F(1))', 'F(F (F)(2))', 'A(1)', 'A (1)', 'A A(1)', 'B(1)', 'LP 1)', 'F LP 1)', 'H 2)', 'G(F)(3)', 'G(A)(3)', 'G(F(1))', 'A\n(1)', 'G(\n#define Z 1\nZ)' if 0 else 'G(1)', 'F(1) F (2)\nF(3)', 'x.F', 'x.F(1)', 'F(a,)' if 0 else 'F(a)', 'E(1)', 'F E (1)', 'EF(1)' , 'E F(1)', 'F(E)', 'A E(1)', 'D', 'D(4)', 'F(D)', 'F(D)(5)']
    defs = ['#define F(x) <x>', '#define F(x) x', '#define F(x) F(x) x', '#define F(x) A', '#define F(x) F', '#define F(x)', '#define F(x) (x) F', '#define F(x) G(x) G', '#define F(x) x(x)', '#define F(x) #x', '#define F(x) D x']
    for i, d in enumerate(defs):
        for j, f in enumerate(forms):
            yield 'call/%d/%d' % (i, j), '#define A F\n#define B A\n#define E\n#define LP (\n#define H F(\n#define G(y) y\n#define D G(F)\n%s\n%s\nend' % (d, f)

def history():
    """Expansion of a macro does not depend on what was expanded before it (definitions unchanged)."""
    defs = ['#define A F(B)\n#define B A\n#define F(x) [x]', '#define X Y\n#define Y G(0)\n#define G(x) {X}\n#define F(x) X\n#define A Y\n#define B G(1)', '#define F(x) x A\n#define A B\n#define B F(1)', '#define A B\n#define B C\n#define C A\n#define F(x) x C', '#define F(x) G(x)\n#define G(x) H(x)\n#define H(x) F(x) x\n#define A H\n#define B G', '#define F(x) x x\n#define A F(B)\n#define B F(2)', '#define F(x) A##x\n#define A1 B\n#define B F(1)\n#define A F(1)', '#define A (B)\n#define B F(A)\n#define F(x) x']
    uses = ['A', 'B', 'F(A)', 'F(B)', 'F(1)', 'F(F(A))', 'A B', 'X', 'G(2)', 'F', 'H(3)', 'C']
    for i, d in enumerate(defs):
        for n in (1, 2, 3):
            for u in itertools.product(range(len(uses)), repeat=n):
                yield 'hist/%d/%s' % (i, '.'.join(map(str, u))), d + '\n' + '\n'.join(uses[k] + ' ;' for k in u)

def redefs():
    ops = ['#define A 1', '#define A 2', '#undef A', '#define A B', '#define B 3', '#undef B', '#define A(x) x', '#define A() e', '#define B A']
    for n in (2, 3, 4):
        for seq in itertools.product(range(len(ops)), repeat=n):
            if n == 4 and not core.THOROUGH and sum(k in (2, 5) for k in seq) == 0: continue
            # redefinition without #undef is a constraint violation unless identical
            state = {}; ok = True
            for k in seq:
                o = ops[k].split()
                nm = o[1].split('(')[0]
                if o[0] == '#undef': state.pop(nm, None)
                elif nm in state and state[nm] != ops[k]: ok = False; break
                else: state[nm] = ops[k]
            if not ok: continue
            yield 'redef/%s' % '.'.join(map(str, seq)), '\n'.join('%s\nA B A() A(9) ;' % ops[k] for k in seq)

FAMS = [objs, glue, func1, func2, variadic, pastes, stringize, calls, history, redefs]
NAMES2 = NAMES + ['I', 'J', 'J2', 'K', 'D', 'X', 'Y', 'A1', 'AF', 'aA', 'a1']

def run():
    rep = core.Report('C08')
    b = core.Build(libs=False)
    rep.rule = 'all macro bodies of <=2 (thorough 3) elements over each alphabet x all argument shapes; every pair of adjacent tokens; all definition/undefinition sequences <=4; all use histories <=3; compared token by token with gcc -E'
    rep.assumptions = ['gcc decides which inputs are valid (constraint violations are dropped)', 'a block comment in a macro body separates no tokens (xcc documents this as deliberate), so comments in bodies are not generated']
    r = PpRunner(rep, b, names=NAMES2)
    for f in FAMS:
        r.run(f())
    return rep
