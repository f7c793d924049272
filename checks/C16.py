"""C16: the linker: symbol resolution, archives, section layout, relocation, constructor order.

All small link configurations of each family are built with the tree's compiler, assembler and linker and with
gcc / GNU ld; acceptance and the behaviour of the linked program must agree. Layout configurations carry their own checks."""
import itertools, os, shutil
from vlib import core

class R:
    def __init__(self, rep, b):
        self.rep, self.b, self.dir = rep, b, core.scratch('ld')
        self.cache = {}; self.tmpl = None; self.arc = {}
        self.seq = itertools.count()
    def path(self, ext): return os.path.join(self.dir, 'f%d%s' % (next(self.seq), ext))
    def sh(self, cmd, **k): return core.sh(cmd, timeout=60, cwd=self.dir, **k)
    def obj(self, text, ext='.c', asm=False):
        """(tree object, gcc object)"""
        key = (text, ext)
        if key not in self.cache:
            src = self.path(ext)
            with open(src, 'w') as f: f.write(text)
            x, g = src + '.x.o', src + '.g.o'
            rc, o, e = self.sh([self.b.exe('as'), '-o', x, src] if ext == '.s' else [self.b.xcc, '-c', '-o', x, src])
            if rc != 0: raise core.TreeError('tree cannot compile a harness object: rc %s %s\n%s' % (rc, e.decode('utf-8', 'replace')[:500], text[:500]))
            rc, o, e = self.sh(['gcc', '-O0', '-w', '-fno-pic', '-c', '-o', g, src])
            if rc != 0: raise core.CheckError('gcc cannot compile a harness object: %s\n%s' % (e.decode()[:500], text[:500]))
            self.cache[key] = (x, g)
        return self.cache[key]
    def archive(self, members, which, names=None):
        """A thunk making the archive on first use."""
        def f():
            if 'a' not in memo: memo['a'] = self.archive_(members, which, names)
            return memo['a']
        memo = {}
        return f
    def archive_(self, members, which, names=None):
        d = self.path('.d'); os.mkdir(d)
        ms = []
        for i, m in enumerate(members):
            n = os.path.join(d, names[i] if names else 'm%d.o' % i)
            shutil.copy(m[which], n); ms.append(n)
        a = os.path.join(d, 'liba%d.a' % which)
        rc, o, e = self.sh(['ar', 'rcs', a] + ms)
        if rc != 0: raise core.CheckError('ar: ' + e.decode())
        return a
    def ldcmd(self, exe, inputs):
        if self.tmpl is None:
            rc, o, e = self.sh(['gcc', '-no-pie', '-###', '-o', 'EXE', 'INPUT.o'])
            import shlex
            line = [l for l in e.decode().splitlines() if 'collect2' in l][-1]
            t, skip = [], False
            for a in shlex.split(line):
                if skip: skip = False; continue
                if a == '-plugin': skip = True; continue
                if a.startswith('-plugin-opt'): continue
                t.append(a)
            t[0] = 'ld'
            self.tmpl = t
        return [y for a in self.tmpl for y in (inputs if a == 'INPUT.o' else [exe] if a == 'EXE' else [a])]
    def run(self, exe):
        rc, o, e = core.sh([exe], timeout=10, cwd=self.dir)
        return (rc, o.decode('utf-8', 'replace'))
    def link(self, inputs, which, extra=()):
        exe = self.path('.exe')
        cmd = [self.b.xcc, '-o', exe] + list(extra) + inputs if which == 0 else self.ldcmd(exe, inputs)
        rc, o, e = self.sh(cmd)
        if rc < 0 or rc > 125: return ('crash', 'rc %s: %s' % (rc, e.decode('utf-8', 'replace')[:200])), cmd
        if rc != 0: return ('rejected',), cmd
        r = self.run(exe)
        os.unlink(exe)
        return ('ran',) + r, cmd
    def compare(self, a):
        k, mk = a
        def res(w):
            out = []
            for i in mk(w)[0]:
                if isinstance(i, tuple): i = i[0] + os.path.dirname(i[1]())
                out.append(i() if callable(i) else i)
            return out
        x, cx = self.link(res(0), 0); g, cg = self.link(res(1), 1)
        if g[0] == 'crash': raise core.CheckError('gcc link crash')
        if x != g: return (k, 'tree: %s, reference: %s' % (x, g), ' '.join(cx))
        return None

# ---------------------------------------------------------------- families
KINDS = ('none', 'ref', 'strong', 'weak', 'static', 'bss')
def sym_obj(i, kind, fn):
    if fn:
        d = {'none': '', 'ref': 'int S(void);', 'strong': 'int S(void) { return %d; }' % (10 + i), 'weak': '__attribute__((weak)) int S(void) { return %d; }' % (20 + i),
             'static': 'static int S(void) { return %d; }' % (30 + i), 'bss': ''}[kind]
        use = 'S()' if kind not in ('none', 'bss') else '-1'
        addr = '(long)S' if kind in ('ref', 'strong', 'weak') else '0'
    else:
        d = {'none': '', 'ref': 'extern int S;', 'strong': 'int S = %d;' % (10 + i), 'weak': '__attribute__((weak)) int S = %d;' % (20 + i), 'static': 'static int S = %d;' % (30 + i), 'bss': 'int S;'}[kind]
        use = 'S' if kind != 'none' else '-1'
        addr = '(long)&S' if kind in ('ref', 'strong', 'weak', 'bss') else '0'
    return '%s\nint get%d(void) { return %s; }\nlong adr%d(void) { return %s; }\nint only%d = %d;\n' % (d, i, use, i, addr, i, i)

def main_obj(mask):
    s = '#include <stdio.h>\n'
    for i in range(3):
        if mask >> i & 1: s += 'int get%d(void); long adr%d(void);\n' % (i, i)
    s += 'int main(void) { long p = 0;\n'
    for i in range(3):
        if mask >> i & 1: s += 'printf("%d %%d\\n", get%d()); if (adr%d()) { if (p && p != adr%d()) printf("differ\\n"); p = adr%d(); }\n' % (i, i, i, i, i)
    return s + 'return 0; }\n'

def symbols(r):
    for fn in (0, 1):
        for ks in itertools.product([k for k in KINDS if k != ('bss' if fn else 'weak')], repeat=3):
            if all(k in ('none', 'static') for k in ks): continue
            obs = [r.obj(sym_obj(i, k, fn)) for i, k in enumerate(ks)]
            m = r.obj(main_obj(7))
            for perm in itertools.permutations(range(3)):
                for pos in (0, 3):
                    order = [obs[i] for i in perm]; order.insert(pos, m)
                    yield 'sym/%s/%s/%s/%d' % ('fn' if fn else 'var', '.'.join(ks), ''.join(map(str, perm)), pos), (lambda order: lambda w: ([o[w] for o in order], w))(order)

def archives(r):
    for fn in (0, 1):
        for ks in itertools.product(KINDS[:4] if fn else KINDS[:3], repeat=3):
            if all(k in ('none', 'static') for k in ks): continue
            # a weak or strong definition in a member whose get is not wanted is only reached through S
            obs = [r.obj(sym_obj(i, k, fn)) for i, k in enumerate(ks)]
            for perm in ((0, 1, 2), (2, 1, 0)):
                ars = [r.archive([obs[i] for i in perm], w) for w in (0, 1)]
                for mask in range(1, 8):
                    m = r.obj(main_obj(mask))
                    if mask in (1, 2, 4):
                        o = obs[mask.bit_length() - 1]
                        rest = [obs[i] for i in perm if i != mask.bit_length() - 1]
                        a2 = [r.archive(rest, w) for w in (0, 1)]
                        yield 'ar+o/%s/%s/%s/%d' % ('fn' if fn else 'var', '.'.join(ks), ''.join(map(str, perm)), mask), (lambda m, o, a2: lambda w: ([m[w], o[w], a2[w]], w))(m, o, a2)
                    defs = sum(1 << i for i in range(3) if ks[i] in ('strong', 'weak'))
                    # which definition is used then depends on the order in which members are pulled
                    if bin(defs).count('1') > 1 and (defs & ~mask or (ks.count('weak') > 1 and 'strong' not in ks)): continue
                    yield 'ar/%s/%s/%s/%d' % ('fn' if fn else 'var', '.'.join(ks), ''.join(map(str, perm)), mask), (lambda m, ars: lambda w: ([m[w], ars[w]], w))(m, ars)

def chains(r):
    """f0 -> f1 -> f2 -> f3: all member orders, member name lengths, and all splits over two archives in both orders."""
    NAMES = {'short': ['a.o', 'b.o', 'c.o', 'd.o'], '14': ['abcdefghijk%d.o' % i for i in range(4)], '15': ['abcdefghijkl%d.o' % i for i in range(4)], '16': ['abcdefghijklm%d.o' % i for i in range(4)], 'long': ['a_really_long_member_file_name_number_%d.o' % i for i in range(4)]}
    obs = []
    for i in range(4):
        obs.append(r.obj('static char pad%d[%d] = {1};\n%sint f%d(int x) { return x * 3 + pad%d[0] + %s; }\n' % (i, 2 * i + 1, 'int f%d(int);\n' % (i + 1) if i < 3 else '', i, i, 'f%d(x + 1)' % (i + 1) if i < 3 else '0')))
    m = r.obj('#include <stdio.h>\nint f0(int); int main(void) { printf("%d\\n", f0(5)); return 0; }\n')
    for nk, names in NAMES.items():
        for perm in itertools.permutations(range(4)):
            ars = [r.archive([obs[i] for i in perm], w, names) for w in (0, 1)]
            yield 'chain/%s/%s' % (nk, ''.join(map(str, perm))), (lambda ars: lambda w: ([m[w], ars[w]], w))(ars)
            if nk == 'short': yield 'chainfirst/%s' % ''.join(map(str, perm)), (lambda ars: lambda w: ([ars[w], m[w]], w))(ars)
    for split in range(1, 15):
        A, B = [i for i in range(4) if split >> i & 1], [i for i in range(4) if not split >> i & 1]
        ars = [(r.archive([obs[i] for i in A], w), r.archive([obs[i] for i in B], w)) for w in (0, 1)]
        yield 'split/%d/ab' % split, (lambda ars: lambda w: ([m[w], ars[w][0], ars[w][1]], w))(ars)
        yield 'split/%d/aba' % split, (lambda ars: lambda w: ([m[w], ars[w][0], ars[w][1], ars[w][0]], w))(ars)
        yield 'split/%d/-l' % split, (lambda ars: lambda w: ([m[w], ('-L', ars[w][0]), '-la%d' % w], w))(ars)
        # -L order: the first directory holding the library wins
        yield 'Lorder/%d' % split, (lambda ars: lambda w: ([m[w], ('-L', ars[w][0]), ('-L', ars[w][1]), '-la%d' % w, ars[w][1]], w))(ars)

def ctors(r):
    T = '#include <stdio.h>\n#include <stdlib.h>\nextern int n;\n'
    P = {'c': '__attribute__((constructor)) static void c%d(void) { printf("c%d %%d\\n", n++); }\n', 'd': '__attribute__((destructor)) static void d%d(void) { printf("d%d %%d\\n", n++); }\n',
         'C': '__attribute__((constructor)) void C%d(void) { printf("C%d %%d\\n", n++); }\n'}
    m = r.obj(T + 'int n;\nstatic void a1(void) { printf("a1 %d\\n", n++); }\nstatic void a2(void) { printf("a2 %d\\n", n++); }\nint main(void) { atexit(a1); atexit(a2); printf("main %d\\n", n++); return 3; }\n')
    kinds = ['', 'c', 'cC', 'd', 'cd', 'Cc']
    for k in itertools.product(kinds, repeat=2):
        obs = [r.obj(T + ''.join(P[c] % (i, i) for c in kk) + 'int dummy%d;\n' % i) for i, kk in enumerate(k)]
        for order in itertools.permutations([m] + obs):
            if sum('d' in kk for kk in k) > 1: continue
            yield 'ctor/%s/%s' % ('.'.join(x or '-' for x in k), ''.join('m' if o is m else '01'[obs.index(o)] for o in order)), (lambda order: lambda w: ([o[w] for o in order], w))(order)

# ---------------------------------------------------------------- layout
def lay_obj(i, sz, al):
    out = []
    for sec, d, k in (('.text', '.text', 't'), ('.data', '.data', 'd'), ('.rodata', '.section .rodata', 'r'), ('.bss', '.bss', 'b')):
        out += [d, '.align %d' % al, '.globl %s%d' % (k, i), '%s%d:' % (k, i)]
        if k == 'b': out.append('.zero %d' % sz)
        else:
            v = 'tdrb'.index(k) * 16 + i + 0x81
            out += ['.byte %d' % v] + ([] if sz == 1 else ['.zero %d' % (sz - 2)] if sz > 2 else []) + ([] if sz == 1 else ['.byte %d' % v])
    out += ['.data', '.align 8', '.globl p%d' % i, 'p%d:' % i]
    for k in 'tdrb':
        for j in range(2): out += ['.quad %s%d' % (k, j), '.quad %s%d+7' % (k, j)]
    out += ['.text', '.globl g%d' % i, 'g%d:' % i]
    for k in 'tdrb': out += ['lea %s%d(%%rip), %%rax' % (k, 1 - i), 'mov %%rax, %d(%%rdi)' % (8 * 'tdrb'.index(k))]
    out += ['lea b%d+%d(%%rip), %%rax' % (1 - i, sz), 'mov %rax, 32(%rdi)', 'call h%d' % (1 - i), 'ret', '.globl h%d' % i, 'h%d:' % i, 'mov $%d, %%eax' % (77 + i), 'ret']
    return '\n'.join(out) + '\n'

def lay_main(cfg):
    s = '#include <stdio.h>\n'
    for i in range(2): s += 'extern unsigned char t%d[], d%d[], r%d[], b%d[]; extern unsigned char *p%d[]; int g%d(unsigned char **);\n' % ((i,) * 6)
    s += 'static int bad; static unsigned char big[70000]; int iv = 5;\nstatic void ck(int c, int l) { if (!c) { printf("bad %d\\n", l); bad = 1; } }\n'
    s += 'static void fill(unsigned char *p, int n, int v, int al, int l) { ck((long)p % al == 0, l); ck(p[0] == v && p[n - 1] == v, l + 1); for (int i = 1; i < n - 1; ++i) if (p[i]) { ck(0, l + 2); break; } }\n'
    s += 'static void zero(unsigned char *p, int n, int v, int l) { for (int i = 0; i < n; ++i) if (p[i] != v) { ck(0, l); break; } }\n'
    s += 'int main(void) { unsigned char *q[5];\n'
    for rnd in range(2):
        for i, (sz, al) in enumerate(cfg):
            for n, k in enumerate('tdr'): s += 'fill(%s%d, %d, %d, %d, %d);\n' % (k, i, sz, n * 16 + i + 0x81, al, rnd * 1000 + i * 100 + n * 10)
            if rnd == 0: s += 'ck((long)b%d %% %d == 0, %d); zero(b%d, %d, 0, %d); for (int i = 0; i < %d; ++i) b%d[i] = %d;\n' % (i, al, 500 + i, i, sz, 510 + i, sz, i, 0x31 + i)
            else: s += 'zero(b%d, %d, %d, %d);\n' % (i, sz, 0x31 + i, 1510 + i)
            s += 'ck(g%d(q) == %d, %d);\n' % (i, 77 + 1 - i, rnd * 1000 + 600 + i)
            for n, k in enumerate('tdrb'): s += 'ck(q[%d] == %s%d, %d);\n' % (n, k, 1 - i, rnd * 1000 + 610 + i * 10 + n)
            s += 'ck(q[4] == b%d + %d, 700 + %d);\n' % (1 - i, sz, i)
            m = 0
            for k in 'tdrb':
                for j in range(2):
                    s += 'ck(p%d[%d] == %s%d && p%d[%d] == %s%d + 7, %d);\n' % (i, m, k, j, i, m + 1, k, j, 800 + m); m += 2
        s += 'zero(big, sizeof(big), %d, 900 + %d); ck(iv == %d, 920); iv = 6;\n' % (0 if rnd == 0 else 7, rnd, 5 + rnd)
        s += 'for (int i = 0; i < (int)sizeof(big); ++i) big[i] = 7;\n'
    return s + 'if (!bad) printf("ok\\n"); return bad; }\n'

def run():
    rep = core.Report('C16')
    b = core.Build()
    rep.rule = 'all assignments of {none, reference, strong, weak, static, tentative} to a symbol in 3 objects x all link orders, as objects and as archive members x wanted subsets; all member orders, name lengths and archive splits of a 4-object chain; constructor/destructor mixes x link orders; all pairs of (size, alignment) section shapes of two objects with cross-object relocations. Acceptance and output = gcc/GNU ld (layout: self-checking program)'
    rep.assumptions = ['common symbols are not mixed with weak ones', 'several destructors run in unspecified relative order across objects']
    r = R(rep, b)
    gens = [symbols, archives, chains, ctors]
    n = 0
    for g in gens:
        items = list(g(r))
        n += len(items)
        for v in core.pmap(r.compare, items):
            if v: rep.violation(*v)
        rep.sample(items[len(items) // 2][0])
    sizes = (1, 3, 8, 4095, 4097) if not core.THOROUGH else (1, 2, 3, 8, 100, 4095, 4096, 4097, 65537)
    aligns = (1, 8, 64, 512, 4096, 16384) if not core.THOROUGH else (1, 2, 8, 16, 64, 256, 512, 2048, 4096, 8192, 16384)
    shapes = list(itertools.product(sizes, aligns))
    def lay(c):
        k = 'layout/%d.%d/%d.%d' % (c[0] + c[1])
        # the address arithmetic of g<i> uses the size of its own object for the end of the other one
        o = [r.obj(lay_obj(0, *c[0]), '.s'), r.obj(lay_obj(1, *c[1]), '.s'), None]
        src = r.path('.c')
        with open(src, 'w') as f: f.write(lay_main(c))
        rc, oo, e = r.sh([b.xcc, '-c', '-o', src + '.o', src])
        if rc != 0: raise core.TreeError('harness: ' + e.decode()[:500])
        for order in ([src + '.o', o[0][0], o[1][0]], [o[1][0], src + '.o', o[0][0]]):
            res, cmd = r.link(order, 0)
            if res != ('ran', 0, 'ok\n'): return (k, 'program reports %s' % (res,), lay_obj(0, *c[0]) + '---\n' + lay_obj(1, *c[1]) + '---\n' + lay_main(c))
        os.unlink(src); os.unlink(src + '.o')
        return None
    for i, (sz, al) in itertools.product(range(2), shapes): r.obj(lay_obj(i, sz, al), '.s')
    pairs = list(itertools.product(shapes, repeat=2))
    for v in core.pmap(lay, pairs):
        if v: rep.violation(*v)
    # failures must be reported, not turned into an executable
    m = r.obj(main_obj(1))
    good = r.obj(sym_obj(0, 'strong', 0))
    junk = r.path('.o')
    open(junk, 'wb').write(b'junk')
    empty = r.path('.o'); open(empty, 'wb').close()
    for k, inp in (('missing-o', [m[0], good[0], '/nonexistent/x.o']), ('missing-a', [m[0], good[0], '/nonexistent/x.a']), ('missing-l', [m[0], good[0], '-lnonexistent_zz']), ('junk', [m[0], good[0], junk]), ('empty', [m[0], good[0], empty]), ('unresolved', [m[0]]), ('duplicate', [m[0], good[0], good[0]]), ('nomain', [good[0]])):
        res, cmd = r.link(inp, 0)
        n += 1
        if res != ('rejected',): rep.violation('fail/' + k, 'expected a diagnosed failure, got %s' % (res,), ' '.join(cmd))
    rep.counts['states'] = n + len(pairs)
    rep.counts['transitions'] = n * 2 + len(pairs) * 2
    rep.counts['traces_validated_against_impl'] = n + len(pairs)
    rep.sample(lay_obj(0, 3, 64))
    return rep
