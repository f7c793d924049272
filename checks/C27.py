"""C27: the life of a program: start, environment, exit handlers, buffered streams, exit status, non-local jumps.

Every history of registrations and stream operations up to a depth x every way to end is run as a process of its own
(native: forked at the choice point; WebAssembly: one instance per history) and compared with glibc; every plan of long
jumps over every bounded nesting of setjmp calls is executed with live values in registers."""
import itertools, json, os
from vlib import core, libx

EXITS = r'''
#include <stdio.h>
#include <fcntl.h>
#ifndef WASM
#include <sys/wait.h>
#endif
static int quiet = 1, cnt; static FILE *g; static int nreg; static char early[16]; static int nearly;
#define REG(f) do { if (nreg < 32) { ++nreg; if (atexit(f)) printf("!"); } } while (0)
static void fa(void) { if (!quiet) printf("A"); }
static void fc(void) { if (!quiet) printf("C"); }
static void fb(void) { if (!quiet) { printf("B"); REG(fc); } }
static void fd(void) { if (!quiet) { if (g) fputs("D", g); else printf("d"); } }
static void fe(void) { if (!quiet) { FILE *h = fopen("h.txt", "w"); if (!h) printf("?"); else { fputs("E", h); printf("e"); } } }
static void fm(void) { ++cnt; if (!quiet && cnt == 7) printf("M"); }
static void fr(void) { if (!quiet) { printf("R"); if (cnt < 40) { ++cnt; REG(fr); } } }
static void fz(void) { if (!quiet) printf("Z"); }
__attribute__((constructor)) static void ctor1(void) { early[nearly++] = '1'; REG(fz); }
__attribute__((constructor)) static void ctor2(void) { early[nearly++] = '2'; }
__attribute__((destructor)) static void dtor1(void) { if (!quiet) printf(">"); }
static void nested(int k) { volatile char pad[100]; pad[k] = 1; if (k) nested(k - 1); else exit(256 + 5); }
static int run_(const char *s) {
  quiet = 0; printf("%%s", early);
  for (; *s; ++s) switch (*s) {
  case 'a': REG(fa); break;
  case 'b': REG(fb); break;
  case 'd': REG(fd); break;
  case 'e': REG(fe); break;
  case 'm': for (int i = 0; i < 7; ++i) REG(fm); break;
  case 'r': REG(fr); break;
  case 'M': while (nreg < 32) REG(fm); break;
  case 'p': printf("p"); break;
  case 'q': for (int i = 0; i < 150; ++i) putchar('q'); break;
  case 'f': if (!g) g = fopen("g.txt", "w"); if (g) fputs("f", g); break;
  case 'c': if (g) fclose(g); g = NULL; break;
  case 'F': { FILE *ks[6]; static const char *nm[] = {"k0", "k1", "k2", "k3", "k4", "k5"}; for (int i = 0; i < 6; ++i) { ks[i] = fopen(nm[i], "w"); if (ks[i]) fputs(nm[i], ks[i]); } for (int i = 0; i < 6; ++i) if (ks[i] && 26 >> i & 1) fclose(ks[i]); for (int i = 0; i < 6; ++i) if (ks[i] && !(26 >> i & 1)) fputs("+", ks[i]); break; }
  case '0': return 0;
  case '7': return 7;
  case '9': return -1;
  case 'X': exit(3);
  case 'N': nested(5);
  }
  return 1;
}
#ifndef WASM
static void cat(const char *fn) { char b[4096]; int fd = open(fn, O_RDONLY); if (fd < 0) { o_s(" -"); return; } o_s(" ["); int n; while ((n = (int)read(fd, b, sizeof(b))) > 0) for (int i = 0; i < n; ++i) o_c(b[i]); o_c(']'); close(fd); unlink(fn); }
static char h[16];
int main(int argc, char **argv) {
  int AN = %(an)d; static const char AL[] = "%(al)s", EN[] = "079XN";
  for (int l = 0; l <= %(depth)d; ++l) {
    long tot = 1; for (int i = 0; i < l; ++i) tot *= AN;
    for (long k = 0; k < tot * 5; ++k) {
      long x = k / 5; for (int i = 0; i < l; ++i) { h[i] = AL[x %% AN]; x /= AN; } h[l] = EN[k %% 5]; h[l + 1] = 0;
      pid_t pid = fork();
      if (pid == 0) {
        close(1); if (open("o.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644) != 1) return 99;
        o_len = 0;
        return run_(h);
      }
      int st = -1; waitpid(pid, &st, 0);
      o_s(h); o_c('\t'); o_i(st); cat("o.txt"); cat("g.txt"); cat("h.txt"); for (int i = 0; i < 6; ++i) { char nm[3] = {'k', (char)('0' + i), 0}; cat(nm); } o_c('\n');
    }
  }
  o_flush(); return 0;
}
#else
int main(int argc, char **argv) { return argc < 2 ? 98 : run_(argv[1]); }
#endif
'''
ARGS = r'''
int main(int argc, char **argv) {
  o_i(argc); for (int i = 1; i < argc; ++i) { o_c(' '); o_i(strlen(argv[i])); o_str(argv[i]); } o_s(argv[argc] ? "BAD" : " NULL");
#ifdef ENV
  static const char *N[] = {"A", "B", "AB", "", "Z", "A=1"}; for (int i = 0; i < 6; ++i) { o_c(' '); o_str(getenv(N[i])); }
#endif
  o_flush(); return argc;
}
'''
BATCH = r'''
const {WASI} = require('wasi'); const fs = require('fs'); const path = require('path');
process.removeAllListeners('warning'); process.on('warning', () => {});
const [dir, file, listf, outf] = process.argv.slice(2);
const list = JSON.parse(fs.readFileSync(listf)); const m = new WebAssembly.Module(fs.readFileSync(file)); const res = [];
for (const args of list) {
  const so = path.join(dir, '..', path.basename(dir) + '.out'); const fd = fs.openSync(so, 'w');
  let rc;
  try {
    const wasi = new WASI({version: 'preview1', args: ['prog'].concat(args), env: {}, preopens: {'/': dir, '.': dir}, returnOnExit: true, stdout: fd});
    const inst = new WebAssembly.Instance(m, Object.assign({env: {}}, wasi.getImportObject()));
    rc = wasi.start(inst);
  } catch (e) { rc = 'trap ' + String(e).slice(0, 100); }
  fs.closeSync(fd);
  const files = {}; for (const f of fs.readdirSync(dir).sort()) { files[f] = fs.readFileSync(path.join(dir, f), 'latin1'); fs.unlinkSync(path.join(dir, f)); }
  res.push([rc, fs.readFileSync(so, 'latin1'), files]);
}
fs.writeFileSync(outf, JSON.stringify(res));
'''

# ---- non-local jumps ----
FORMS = {  # name: (code with TRY / CATCH(r), usable by wcc)
 'eq':   ('if (setjmp(B) == 0) { TRY } else { CATCH(-7) }', 1),
 'not':  ('if (!setjmp(B)) { TRY } else { CATCH(-7) }', 1),
 'plain': ('if (setjmp(B)) { CATCH(-7) } else { TRY }', 1),
 'asg':  ('int r; if ((r = setjmp(B)) == 0) { TRY } else { CATCH(r) }', 1),
 'sep':  ('int r = setjmp(B); if (r == 0) { TRY } else { CATCH(r) }', 1),
 'ne':   ('int r = 0; if (0 != (r = setjmp(B))) { CATCH(r) } else { TRY }', 1),
 'comma': ('int r; if (r = setjmp(B), r != 0) { CATCH(r) } else { TRY }', 1),
 'loop': ('for (int k_ = 0; k_ < 2; ++k_) { if (setjmp(B) == 0) { TRY } else { CATCH(-7) } if (k_ == 0 && st == 0) continue; break; }', 1),
 'noelse': ('int c_ = 0; if (setjmp(B) == 0) { TRY c_ = 1; } if (!c_) { CATCH(-7) }', 0),
 'switch': ('switch (setjmp(B)) { case 0: TRY break; case 1: CATCH(1) break; default: CATCH(-8) break; }', 0),
 'while': ('volatile int w_ = 0; while (setjmp(B) == 0) { w_ = 1; TRY w_ = 2; break; } if (w_ != 2) { CATCH(-7) }', 0),
 'after': ('volatile int r; r = setjmp(B); if (r != 0) { CATCH(r) return a + r; } TRY', 0),
}
LOCALS = {
 'n0': ('', ''),
 'i3': ('int x0 = p * 3 + 1, x1 = p ^ 77; long long x2 = p * 1000003LL;', 'o_i(x0); o_c(\'.\'); o_i(x1); o_c(\'.\'); o_i(x2);'),
 'i8': ('int x0 = p + 1, x1 = p * 5, x2 = p - 9, x3 = ~p, x4 = p << 3, x5 = p ^ 21845; long long x6 = p * 99999999LL; unsigned char x7 = p * 7;', ' '.join('o_i(x%d); o_c(\'.\');' % i for i in range(8))),
 'd4': ('double d0 = p * 0.5, d1 = p + 0.25, d2 = -p, d3 = 1.0 / (p + 3); float d4 = p * 1.5f;', ' '.join('o_x(o_bits(d%d), 16); o_c(\'.\');' % i for i in range(5))),
 'mix': ('int x0 = p * 3 + 1, x1 = p ^ 77, x2 = p - 4; double d0 = p * 0.5, d1 = p + 0.25, d2 = -p; int ar[5] = {p, p + 1, p + 2, 3, 4}; struct { char c; long long l; } sv = {(char)p, p * 7L}; volatile int vv = p;', 'o_i(x0 + x1 * 31 + x2 * 1001); o_x(o_bits(d0 + d1 * 8 + d2 * 64), 16); o_i(ar[0] + ar[1] * 10 + ar[2] * 100 + ar[3] * 1000 + ar[4] * 10000); o_i(sv.c + sv.l * 256); o_i(vv);'),
}
JPRE = r'''
#include <setjmp.h>
static jmp_buf b[4]; static int plan[8], pval[8], st; static int has[4];
static void jump(int upto) { int t = plan[st]; if (t < 0 || t > upto) return; while (t >= 0 && !has[t]) --t; if (t < 0) return; int v = pval[st++]; o_c('j'); o_i(t); longjmp(b[t], v); }
static int deep(int n, int upto) { volatile int pad[3] = {n, 1, 2}; if (n) return deep(n - 1, upto) + pad[1]; jump(upto); o_c('_'); return pad[2]; }
static int eat(int a, int b, int c, int d, int e, int f, int g, int h) { return a + b * 2 + c * 3 + d * 4 + e * 5 + f * 6 + g * 7 + h * 8; }
'''
def jshape(n, levels, loc):
    out = []
    decl, show = LOCALS[loc]
    d = len(levels)
    for k in reversed(range(d)):
        form = levels[k]
        if k + 1 < d: call = 's%d_f%d(p + %d)' % (n, k + 1, k + 3)
        else: call = 'deep(2, %d)' % k
        body = 'static int s%d_f%d(int p) { int a = p + 1; %s o_c(\'(\'); ' % (n, k, decl)
        tr = 'o_c(\'t\'); o_i(%d); a = eat(p, 1, 2, %s, 3, 4, 5, p) ; o_i(a);' % (k, call)
        ca = lambda r: 'o_c(\'c\'); o_i(%d); o_c(\'=\'); o_i(%s); %s jump(%d); a = 5; ' % (k, r, show, k)
        if form is None: body += tr
        else:
            f = FORMS[form][0].replace('B)', 'b[%d])' % k)
            while 'CATCH(' in f:
                i = f.index('CATCH('); j = f.index(')', i)
                f = f[:i] + ca(f[i + 6:j]) + f[j + 1:]
            body += f.replace('TRY', tr)
        body += ' %s o_i(a); o_c(\')\'); return a + p; }' % show
        out.append(body)
    run = 'static int s%d(int p) { %s int t = 0; t += s%d_f0(p) * 3; %s return t; }' % (n, decl, n, show)
    return '\n'.join(out) + '\n' + run + '\n'
JMAIN = r'''
int main(void) {
  static const int V[] = {1, 0, -1, 5, (-2147483647 - 1)};
  for (int s = 0; s < (int)(sizeof(F) / sizeof(*F)); ++s) {
    int D = F[s].d; for (int i = 0; i < D; ++i) has[i] = F[s].m >> i & 1;
    int NJ = %(nj)d; long tot = 1; for (int i = 0; i < NJ; ++i) tot *= D + 1;
    for (long k = 0; k < tot; ++k) {
      long x = k; int z = 0, ok = 1; for (int i = 0; i < NJ; ++i) { plan[i] = (int)(x %% (D + 1)) - 1; pval[i] = V[(i + k) %% 5]; x /= D + 1; if (z && plan[i] >= 0) ok = 0; if (plan[i] < 0) z = 1; else if (!has[plan[i]]) ok = 0; } plan[NJ] = -1;
      if (!ok) continue;
      st = 0; int m0 = (int)k * 3 + 1, m1 = (int)k ^ 99; double m2 = k * 0.125;
      o_s(F[s].name); for (int i = 0; i < NJ; ++i) { o_c(' '); o_i(plan[i]); } o_c('\t');
      int r = F[s].f((int)k + 2); o_i(r); o_c('|'); o_i(m0 + m1); o_x(o_bits(m2), 16); o_c('\n');
    }
  }
  o_flush(); return 0;
}
'''
def jprog(shapes, nj):
    src = JPRE
    for n, (lv, loc) in enumerate(shapes): src += jshape(n, lv, loc)
    src += 'static struct { const char *name; int (*f)(int); int d, m; } F[] = {%s};\n' % ', '.join('{"%s/%s", s%d, %d, %d}' % ('-'.join(x or '0' for x in lv), loc, n, len(lv), sum(1 << i for i, x in enumerate(lv) if x)) for n, (lv, loc) in enumerate(shapes))
    return src + JMAIN % dict(nj=nj)
def jshapes(wasm):
    fs = [f for f in FORMS if FORMS[f][1] or not wasm]
    for f in fs:
        for loc in LOCALS: yield (f,), loc
    for lv in itertools.product(fs + [None], repeat=2):
        if any(lv):
            for loc in (('i8', 'mix') if not core.THOROUGH else LOCALS): yield lv, loc
    f3 = fs if core.THOROUGH else [f for f in fs if f in ('eq', 'asg', 'switch', 'loop')]
    for lv in itertools.product(f3 + [None], repeat=3):
        if any(lv): yield lv, 'mix'

def run():
    rep = core.Report('C27')
    b = core.Build(wcc=True)
    r = libx.LibRunner(rep, b)
    AL = 'abdemMpqfcFr'
    depth = 2 if not core.THOROUGH else 4
    rep.rule = 'all histories of <=%d of %d actions (register exit handlers that print, register further handlers, write to open files, open files; buffered output; open, close files) x 5 ways to end, each in its own process; all argument vectors of <=3 strings; all environments of <=3 variables; all plans of <=%d long jumps over all nestings of setjmp in %d syntactic forms to depth 3 with live integers, doubles, arrays and structures. Reference glibc; native and WebAssembly.' % (depth + 1, len(AL), 3 if not core.THOROUGH else 4, len(FORMS))
    def exits(al, d):
        return r.check('exit', EXITS % dict(an=len(al), al=al, depth=d), targets=('x',), timeout=300)
    def exits_wasm():
        ref = ref_exits[0]
        exe, err = r.compile(libx.PRE + '#define WASM\n' + EXITS % dict(an=1, al='a', depth=1), 'w')
        if err: rep.violation('exit/w/compile', err); return
        hist = [k for k in ref if len(k) <= (3 if not core.THOROUGH else 4)]
        res = batch(exe, [[h] for h in hist], 'ex')
        if res is None: rep.violation('exit/w/run', 'the module could not be run'); return
        for h, (rc, so, files) in zip(hist, res):
            st = (int(rc) & 255) << 8 if not isinstance(rc, str) else rc
            got = '%s [%s]' % (st, so)
            for f in ('g.txt', 'h.txt') + tuple('k%d' % i for i in range(6)): got += ' [%s]' % files[f] if f in files else ' -'
            r.lines += 1
            if got != ref[h]: rep.violation('exit/w/%s' % h, 'library gives %s, reference %s' % (got, ref[h]))
    def batch(exe, lists, tag):
        out = []
        N = 8
        def one(i):
            d = os.path.join(r.dir, 'b%s%d' % (tag, i)); os.mkdir(d)
            lf, of, js = d + '.list', d + '.res', d + '.js'
            with open(lf, 'w') as f: json.dump(lists[i::N], f)
            with open(js, 'w') as f: f.write(BATCH)
            rc, o, e = core.sh(['node', '--no-warnings', js, d, exe, lf, of], timeout=300, cwd=r.dir)
            if rc != 0 or not os.path.exists(of): return None
            return json.load(open(of))
        parts = core.pmap(one, range(N))
        if any(p is None for p in parts): return None
        res = [None] * len(lists)
        for i, p in enumerate(parts): res[i::N] = p
        return res
    def esc(s):
        o = '"'
        for c in s.encode('utf-8'): o += chr(c) if 0x20 <= c < 0x7f and c not in (0x22, 0x5c) else '\\%02x' % c
        return o + '"'
    def args():
        S = ['', 'a', '--x=1', 'sp ace\n', '\xe9"', 'L' * 3000, '*', '-']
        lists = [list(t) for k in range(4) for t in itertools.product(S, repeat=k) if k < 3 or core.THOROUGH or 'L' * 3000 not in t[1:]]
        want = ['%d' % (len(l) + 1) + ''.join(' %d%s' % (len(s.encode('utf-8')), esc(s)) for s in l) + ' NULL' for l in lists]
        for t in 'xw':
            exe, err = r.compile(libx.PRE + ARGS, t)
            if err: rep.violation('args/%s/compile' % t, err); continue
            if t == 'x':
                d = os.path.join(r.dir, 'args'); os.mkdir(d)
                got = core.pmap(lambda l: (lambda x: (x[0], x[1].decode('latin-1')))(core.sh([exe] + l, cwd=d)), lists)
            else:
                res = batch(exe, lists, 'ar')
                if res is None: rep.violation('args/w/run', 'the module could not be run'); continue
                got = [(x[0], x[1]) for x in res]
            for l, w, g in zip(lists, want, got):
                r.lines += 1
                if g != (len(l) + 1, w): rep.violation('args/%s/%r' % (t, [s[:8] for s in l]), 'program saw %r, given %r' % (g, w))
    def envs():
        E = [('A', '1'), ('B', ''), ('AB', 'x=y'), ('Z', '\xe9'), ('ABC', '7'), ('LONG', 'L' * 3000)]
        lists = [t for k in range(4) for t in itertools.permutations(E, k)]
        exe, err = r.compile(libx.PRE + '#define ENV\n' + ARGS, 'x')
        if err: rep.violation('env/x/compile', err); return
        got = core.pmap(lambda t: (lambda x: (x[0], x[1].decode('latin-1')))(core.sh([exe, 'q'], cwd=r.dir, env=dict(t))), lists)
        for t, g in zip(lists, got):
            d = dict(t); r.lines += 1
            want = '2 1"q" NULL' + ''.join(' ' + ('NULL' if d.get(n) is None else esc(d[n])) for n in ('A', 'B', 'AB', '', 'Z', 'A=1'))
            if g != (2, want): rep.violation('env/x/%s' % ','.join(d), 'program saw %r, given %r' % (g, want))
    def jumps(t, shapes, nj, fam): r.check(fam, jprog(shapes, nj), targets=(t,), timeout=200)
    ref_exits = []
    jobs = [lambda: ref_exits.append(exits(AL, depth)), args, envs]
    for t in 'xw':
        sh = list(jshapes(t == 'w')); nj = 3 if not core.THOROUGH else 4
        step = 60
        for i in range(0, len(sh), step): jobs.append(lambda t=t, s=sh[i:i + step], nj=nj, i=i: jumps(t, s, nj, 'jump%d' % i))
    core.pmap(lambda j: j(), jobs)
    exits_wasm()
    rep.counts.update(states=r.lines, transitions=r.lines, traces_validated_against_impl=r.lines, histories=r.lines)
    rep.sample('abX: register A, register B (which registers C), exit(3)'); rep.sample('asg-0-switch/mix plan 2 0 0'); rep.sample("args ['', 'sp ace\\n']")
    return rep
