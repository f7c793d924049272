"""C26: the WebAssembly linker of wcc: symbol resolution, archives, libraries, constructors, data layout, function tables.

All small link configurations (the families of C16, and layout and function-pointer families of their own) are built with
wcc and executed under node; acceptance and behaviour must agree with the same C sources built by gcc and GNU ld."""
import itertools, json, os, shutil
from vlib import core
from checks import C16

NODE = r'''
const {WASI} = require('wasi'); const fs = require('fs');
process.removeAllListeners('warning'); process.on('warning', () => {});
(async () => {
  for (const [wasm, out] of JSON.parse(fs.readFileSync(process.argv[2], 'utf8'))) {
    let rc, fd = fs.openSync(out, 'w');
    try {
      const wasi = new WASI({version: 'preview1', args: ['a'], env: {}, preopens: {}, returnOnExit: true, stdout: fd});
      const inst = await WebAssembly.instantiate(await WebAssembly.compile(fs.readFileSync(wasm)), Object.assign({env: {}}, wasi.getImportObject()));
      rc = wasi.start(inst);
    } catch (e) { rc = 'trap: ' + String(e).slice(0, 120); }
    fs.closeSync(fd);
    console.log(JSON.stringify(rc));
  }
})();
'''

class RW(C16.R):
    AR = '/usr/bin/llvm-ar-18' if os.path.exists('/usr/bin/llvm-ar-18') else 'llvm-ar'
    def __init__(self, rep, b):
        super().__init__(rep, b)
        self.js = os.path.join(self.dir, 'run.js')
        with open(self.js, 'w') as f: f.write(NODE)
    def obj(self, text, ext='.c', asm=False):
        key = (text, ext)
        if key not in self.cache:
            src = self.path(ext)
            with open(src, 'w') as f: f.write(text)
            x, g = src + '.x.o', src + '.g.o'
            rc, o, e = self.sh([self.b.wcc, '-c', '-o', x, src])
            if rc != 0: raise core.TreeError('wcc cannot compile a harness object: rc %s %s\n%s' % (rc, e.decode('utf-8', 'replace')[:500], text[:500]))
            rc, o, e = self.sh(['gcc', '-O0', '-w', '-fno-pic', '-c', '-o', g, src])
            if rc != 0: raise core.CheckError('gcc cannot compile a harness object: %s\n%s' % (e.decode()[:500], text[:500]))
            self.cache[key] = (x, g)
        return self.cache[key]
    def archive_(self, members, which, names=None):
        d = self.path('.d'); os.mkdir(d)
        ms = []
        for i, m in enumerate(members):
            n = os.path.join(d, names[i] if names else 'm%d.o' % i)
            shutil.copy(m[which], n); ms.append(n)
        a = os.path.join(d, '%sliba%d.a' % ('w' if which == 0 else '', which))
        rc, o, e = self.sh([self.AR if which == 0 else 'ar', 'rcs', a] + ms)
        if rc != 0: raise core.CheckError('ar: ' + e.decode())
        return a
    def resolve(self, mk, w):
        out = []
        for i in mk(w)[0]:
            if isinstance(i, tuple): i = i[0] + os.path.dirname(i[1]())
            out.append(i() if callable(i) else i)
        return out
    def batch(self, items):
        """[(case, mk)] -> violations"""
        plan, res = [], {}
        for k, mk in items:
            exe = self.path('.wasm')
            cmd = [self.b.wcc, '-o', exe] + self.resolve(mk, 0)
            rc, o, e = self.sh(cmd)
            if rc == 'timeout' or rc < 0 or rc > 125: res[k] = (('crash', 'rc %s: %s' % (rc, e.decode('utf-8', 'replace')[:200])), cmd)
            elif rc != 0:
                res[k] = (('rejected',) if not os.path.exists(exe) else ('rejected', 'but an output is left'), cmd)
            else: plan.append((k, exe, exe + '.out', cmd))
        if plan:
            lst = self.path('.json')
            with open(lst, 'w') as f: json.dump([[p[1], p[2]] for p in plan], f)
            rc, o, e = self.sh(['node', '--no-warnings', self.js, lst])
            rs = o.decode().splitlines()
            for n, (k, exe, out, cmd) in enumerate(plan):
                r = json.loads(rs[n]) if n < len(rs) else 'node ended: %s' % rc
                t = open(out, encoding='utf-8', errors='replace').read() if os.path.exists(out) else ''
                res[k] = (('ran', r, t), cmd)
                for f in (exe, out):
                    if os.path.exists(f): os.unlink(f)
        bad = []
        for k, mk in items:
            g, cg = self.link(self.resolve(mk, 1), 1)
            if g[0] == 'crash': raise core.CheckError('gcc link crash')
            x, cx = res[k]
            if x != g: bad.append((k, 'tree: %s, reference: %s' % (x, g), ' '.join(cx)))
        return bad

# ---------------------------------------------------------------- families of its own
def layout(r):
    """Data of every element type and size in two objects: addresses disjoint and aligned, contents right, pointers between them right."""
    tys = [('char', 1), ('short', 2), ('int', 4), ('long long', 8), ('double', 8)]
    sizes = (1, 3, 17, 4099) if not core.THOROUGH else (1, 2, 3, 5, 17, 255, 4099, 70001)
    shapes = list(itertools.product(tys, sizes))
    def ob(i, t, n):
        return r.obj('''
typedef %(t)s T;
T d%(i)d[%(n)d] = { [0] = %(v)d, [%(l)d] = %(v)d }; T b%(i)d[%(n)d]; static T s%(i)d[%(n)d] = { %(v)d }; const T c%(i)d[%(n)d] = { [%(l)d] = %(v)d };
extern char *q%(j)d[]; char *q%(i)d[4] = { (char*)d%(i)d, (char*)b%(i)d, (char*)&d%(i)d[%(l)d], (char*)&q%(j)d[1] };
int f%(i)d(int k) { T *a = k == 0 ? d%(i)d : k == 1 ? b%(i)d : k == 2 ? s%(i)d : (T*)c%(i)d; int r = 0; for (int n = 0; n < %(n)d; ++n) if (a[n] != 0) r = r * 7 + (int)a[n] + n; return r; }
void w%(i)d(int v) { for (int n = 0; n < %(n)d; ++n) { d%(i)d[n] = v; b%(i)d[n] = v + 1; s%(i)d[n] = v + 2; } }
int al%(i)d(void) { unsigned m = sizeof(T) - 1; return ((unsigned)(unsigned long)d%(i)d & m) || ((unsigned)(unsigned long)b%(i)d & m) || ((unsigned)(unsigned long)s%(i)d & m) || ((unsigned)(unsigned long)c%(i)d & m); }
int pp%(i)d(void) { return q%(i)d[0] == (char*)d%(i)d && q%(i)d[1] == (char*)b%(i)d && (T*)q%(i)d[2] == d%(i)d + %(l)d && (char**)q%(i)d[3] == q%(j)d + 1; }
''' % dict(t=t[0], n=n, l=n - 1, i=i, j=1 - i, v=40 + i))
    m = r.obj('''
#include <stdio.h>
int f0(int), f1(int), al0(void), al1(void), pp0(void), pp1(void); void w0(int), w1(int); static char big[70000]; static const char *const str[] = { "one", "two" };
static void sh(void) { for (int k = 0; k < 4; ++k) printf("%d %d\\n", f0(k), f1(k)); printf("%d %d %d %d %s\\n", al0(), al1(), pp0(), pp1(), str[1]); int z = 0; for (int i = 0; i < (int)sizeof(big); ++i) z += big[i]; printf("%d\\n", z); }
int main(void) { sh(); w0(3); sh(); w1(5); sh(); for (int i = 0; i < (int)sizeof(big); ++i) big[i] = 1; sh(); return al0() + al1(); }
''')
    for a, b in itertools.product(shapes, repeat=2):
        obs = [ob(0, *a), ob(1, *b)]
        for order in ([m] + obs, [obs[1], m, obs[0]]):
            yield 'layout/%s.%d/%s.%d/%d' % (a[0][0], a[1], b[0][0], b[1], order[0] is m), (lambda order: lambda w: ([o[w] for o in order], w))(order)

def pointers(r):
    """Function tables: each of 3 objects takes the address of, calls or ignores each of 3 functions; all link orders, as objects and as archive."""
    def ob(i, use):
        s = ''.join('int g%d(int);\n' % k for k in range(3))
        s += 'int g%d(int x) { return x * %d + %d; }\n' % (i, i + 2, i)
        s += 'static int loc(int x) { return x + %d; }\n' % (100 + i)
        s += 'typedef int (*F)(int);\nF t%d[] = { %s };\n' % (i, ', '.join(['g%d' % k for k in range(3) if use >> k & 1] + ['loc', '0']))
        s += 'F get%d(int k) { return %s; }\n' % (i, ' : '.join('k == %d ? g%d' % (k, k) for k in range(3) if use >> k & 1) + (' : ' if use else '') + 'loc')
        return r.obj(s)
    m = r.obj('''
#include <stdio.h>
typedef int (*F)(int); extern F t0[], t1[], t2[]; F get0(int), get1(int), get2(int);
int main(void) { F *t[] = { t0, t1, t2 }; F (*g[])(int) = { get0, get1, get2 };
 for (int i = 0; i < 3; ++i) { for (F *p = t[i]; *p; ++p) { printf("%d ", (*p)(i + 5)); for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) printf("%d", *p == g[j](k)); } for (int k = 0; k < 4; ++k) printf(" %d", g[i](k)(9)); printf("\\n"); }
 return 0; }
''')
    for us in itertools.product(range(8), repeat=3):
        obs = [ob(i, u) for i, u in enumerate(us)]
        perms = itertools.permutations(range(3)) if core.THOROUGH or sum(us) % 5 == 0 else [(0, 1, 2)]
        for p in perms:
            yield 'fptr/%d%d%d/%s' % (us + (''.join(map(str, p)),)), (lambda obs: lambda w: ([m[w]] + [o[w] for o in obs], w))([obs[i] for i in p])
        ars = [r.archive(obs, w) for w in (0, 1)]
        yield 'fptr-ar/%d%d%d' % us, (lambda ars: lambda w: ([m[w], ars[w]], w))(ars)

SIGS = ['int %s(void)', 'int %s(int)', 'long long %s(long long)', 'double %s(double, int)', 'void %s(int)', 'int %s(int, ...)', 'float %s(float)', 'struct P %s(struct P)']
def types(r):
    """Objects whose type sections differ: the same and different signatures in every combination of two objects and the main object."""
    pre = '#include <stdarg.h>\nstruct P { int a, b; };\nextern int last;\n'
    body = ['{ return 11; }', '{ return a + 1; }', '{ return a * 3000000000LL; }', '{ return a + b; }', '{ last = a; }', '{ va_list ap; va_start(ap, a); int t = 0; while (a-- > 0) t = t * 10 + va_arg(ap, int); va_end(ap); return t; }', '{ return a * 1.5f; }', '{ struct P q = { a.b, a.a + 1 }; return q; }']
    defs = ['int %s(void)', 'int %s(int a)', 'long long %s(long long a)', 'double %s(double a, int b)', 'void %s(int a)', 'int %s(int a, ...)', 'float %s(float a)', 'struct P %s(struct P a)']
    call = ['%s()', '%s(4)', '(int)(%s(5) >> 3)', '(int)(%s(2.5, 3) * 10)', '(%s(8), last)', '%s(3, 1, 2, 3)', '(int)(%s(7) * 10)', 'pp(%s(mk(3, 4)))']
    def ob(n, sigs):
        s = pre + 'static int pp(struct P p) { return p.a * 10 + p.b; } static struct P mk(int a, int b) { struct P p = { a, b }; return p; }\n'
        for k in sigs: s += defs[k] % ('%s%d' % (n, k)) + ' ' + body[k] + '\n'
        s += 'int run%s(void) { int r = 0;\n' % n
        for k in sigs: s += 'r = r * 31 + %s;\n { __typeof__(&%s%d) fp = &%s%d; r = r * 31 + %s; }\n' % (call[k] % ('%s%d' % (n, k)), n, k, n, k, call[k] % 'fp')
        return s.replace('__typeof__(&', 'TO(') + 'return r; }\n'
    def fix(s, sigs, n):
        for k in sigs: s = s.replace('TO(%s%d) fp' % (n, k), SIGS[k] % '(*fp)')
        return s
    for a in range(256):
        sa = [k for k in range(8) if a >> k & 1]
        for b in sorted({(a * 37 + 11) % 256, a, 255 - a, 1 << a % 8, 0}):
            sb = [k for k in range(8) if b >> k & 1]
            oa, obb = r.obj(fix(ob('x', sa), sa, 'x')), r.obj(fix(ob('y', sb), sb, 'y'))
            m = r.obj('#include <stdio.h>\nint last; int runx(void), runy(void); int main(void) { printf("%d %d\\n", runx(), runy()); return 0; }\n')
            yield 'types/%d.%d' % (a, b), (lambda l: lambda w: ([o[w] for o in l], w))([oa, m, obb] if a & 1 else [m, obb, oa])

def libs(r):
    """-l in every position and spelling."""
    f = r.obj('int g(void); int f(void) { return g() + 1; }\n'); g = r.obj('int g(void) { return 41; }\n'); m = r.obj('#include <stdio.h>\nint f(void); int main(void) { printf("%d\\n", f()); return 0; }\n')
    af, ag = [r.archive([f], w) for w in (0, 1)], [r.archive([g], w) for w in (0, 1)]
    both = [r.archive([f, g], w) for w in (0, 1)]
    for nm, mk in (('-L -l', lambda w: [m[w], ('-L', both[w]), '-la%d' % w]), ('-L before', lambda w: [('-L', both[w]), m[w], '-la%d' % w]), ('-l apart', lambda w: [m[w], ('-L', both[w]), '-l', 'a%d' % w]),
                   ('two dirs', lambda w: [m[w], ('-L', af[w]), ('-L', ag[w]), '-la%d' % w, ag[w]]), ('two dirs reversed', lambda w: [m[w], af[w], ('-L', ag[w]), ('-L', af[w]), '-la%d' % w]),
                   ('not found', lambda w: [m[w], '-lnope']), ('no -L', lambda w: [m[w], '-la%d' % w]), ('then other option', lambda w: [m[w], ('-L', both[w]), '-la%d' % w, '-L/nonexistent'])):
        yield 'lib/' + nm.replace(' ', '_'), (lambda mk: lambda w: (mk(w), w))(mk)

def run():
    rep = core.Report('C26')
    b = core.Build(wcc=True, libs=False)
    rep.rule = 'the symbol, archive, chain and constructor families of C16 with wcc objects; data layout over all pairs of element type x size; function tables over all address-taking patterns of 3 objects; type sections over subsets of 8 signatures; -l and -L spellings; each linked by wcc, executed under node and compared with gcc'
    rep.assumptions = ['data alignment up to 8 bytes', 'weak symbols and constructors as in C16']
    r = RW(rep, b)
    n = 0
    for fam in (C16.symbols, C16.archives, C16.chains, C16.ctors, layout, pointers, types, libs):
        items = list(fam(r))
        if fam is C16.symbols and not core.THOROUGH: items = [i for i in items if i[0].split('/')[-1] == '0']
        n += len(items)
        size = 40
        for vs in core.pmap(r.batch, [items[i:i + size] for i in range(0, len(items), size)]):
            for v in vs: rep.violation(*v)
        rep.sample(items[len(items) // 2][0])
    m = r.obj(C16.main_obj(1)); good = r.obj(C16.sym_obj(0, 'strong', 0))
    junk, empty = r.path('.o'), r.path('.o')
    open(junk, 'wb').write(b'junk'); open(empty, 'wb').close()
    trunc = r.path('.o'); data = open(good[0], 'rb').read(); open(trunc, 'wb').write(data[:len(data) // 2])
    for k, inp in (('missing-o', [m[0], good[0], '/nonexistent/x.o']), ('missing-a', [m[0], good[0], '/nonexistent/x.a']), ('junk', [m[0], good[0], junk]), ('empty', [m[0], good[0], empty]), ('undef', [m[0]])):
        exe = r.path('.wasm'); rc, o, e = r.sh([b.wcc, '-o', exe] + inp)
        n += 1
        if not (isinstance(rc, int) and 0 < rc < 125) or os.path.exists(exe): rep.violation('fail/' + k, 'expected a diagnosed failure, got rc %s, output %s' % (rc, os.path.exists(exe)), ' '.join(inp))
    rep.counts.update(states=n, transitions=2 * n, traces_validated_against_impl=n)
    return rep
