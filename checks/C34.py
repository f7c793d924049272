"""C34: command-line options have their documented effect in every order, spelling and combination.

Every ordered sequence of option words up to the bound is given to xcc (and wcc), at both sides of the source file; what
comes out (preprocessed tokens, behaviour of the program, warnings, status, exports of the module) is compared with what
the reference driver does with the same words, or with a small model of the option."""
import hashlib, itertools, json, os, shutil
from vlib import core

MAIN = '''#include "h.h"
#include <g.h>
#include <stddef.h>
int printf(const char *f, ...);
#ifndef A
#define A none
#endif
#ifndef F
#define F(x) none x
#endif
#define STR(x) #x
#define XSTR(x) STR(x)
// comment
int main(void) { printf ( "%d %d %s %s" , H , G , XSTR(A) , XSTR(F(3)) ) ;
#ifdef MYDEF
printf ( " my" ) ;
#endif
#ifdef B
printf ( " B%d" , B ) ;
#endif
return 0 ; }
'''
PP = [['-DA'], ['-DA=2'], ['-D', 'A=5'], ['-DA='], ['-DF(x)=x+1'], ['-DB=0'], ['-DB'], ['-DA=B'], ['-DA="s"'], ['-Ii1'], ['-I', 'i1'], ['-Ii2'], ['-I', './i3'], ['-isystem', 'i1'], ['-isystem', 'i2'], ['-idirafter', 'i1'], ['-idirafter', 'i2'], ['-idirafter', 'i3'], ['-nostdinc'],
      ['-O2'], ['-O'], ['-O0'], ['-g'], ['-std=c11'], ['-Wall'], ['-pedantic'], ['-x', 'c'], ['-fno-common'], ['-Wno-unused-variable']]
def words(seq): return [w for o in seq for w in o]
def dirs_of(seq):
    k = {}
    for o in seq:
        if o[0].startswith('-I') or o[0] in ('-isystem', '-idirafter'):
            d = (o[1] if len(o) > 1 else o[0][2:]).replace('./', '')
            k.setdefault(d, []).append('-I' if o[0].startswith('-I') else o[0])
    return k
def comparable(seq):
    """The reference drops a directory named twice; it refuses nothing else that is here."""
    if any(len(v) > 1 for v in dirs_of(seq).values()): return False
    ms = [w.split('=')[0].split('(')[0].replace('-D', '') for o in seq for w in (o[-1:] if o[0] == '-D' else o) if o[0].startswith('-D')]
    return len(ms) == len(set(ms))        # a macro defined twice

def setup(d):
    os.makedirs(d)
    with open(os.path.join(d, 'v.c'), 'w') as f: f.write(MAIN)
    for i in (1, 2, 3):
        p = os.path.join(d, 'i%d' % i); os.mkdir(p)
        if i != 3:
            with open(os.path.join(p, 'h.h'), 'w') as f: f.write('#define H %d\n' % i)
        with open(os.path.join(p, 'g.h'), 'w') as f: f.write('#define G %d\n' % (i * 10))
    with open(os.path.join(d, 'i2', 'stddef.h'), 'w') as f: f.write('#define MYDEF 1\n')

def toks(b): return [l.split() for l in b.decode('utf-8', 'replace').split('\n') if l.strip() and not l.lstrip().startswith('#')]
def flat(t): return [w for l in t for w in l]
def body(b):
    """The tokens from the declaration of printf on (standard headers differ)."""
    t = flat(toks(b))
    for i in range(len(t) - 1):
        if t[i] == 'int' and t[i + 1].startswith('printf'): return t[i:]
    return t

def family_pp(rep, b, base, nodes):
    n = 3 if core.THOROUGH else 2
    seqs = [s for k in range(n + 1) for s in itertools.product(PP, repeat=k) if comparable(s)]
    if not core.THOROUGH:     # three words: the include and macro options among themselves
        core3 = [PP[i] for i in (1, 4, 9, 11, 13, 14, 16, 17)]
        seqs += [s for s in itertools.product(core3, repeat=3) if comparable(s)]
    seen, todo = set(), []
    for s in seqs:
        for after in (0, 1, 2):
            if after == 2 and len(s) < 2 or after and not s: continue
            k = (tuple(words(s)), after)
            if k not in seen: seen.add(k); todo.append((s, after))
    src = os.path.join(base, 'pp'); setup(src)
    ref = {}
    def order(s, after, f): return {0: words(s) + [f], 1: [f] + words(s), 2: words(s[:1]) + [f] + words(s[1:])}[after]
    def one(it):
        s, after = it
        if after and ['-x', 'c'] in s: return        # applies to what follows
        key = hashlib.sha1(repr(it).encode()).hexdigest()[:14]
        a = order(s, after, 'v.c')
        cid = 'pp/' + ' '.join(a)
        rc0, o0, e0 = core.sh(['gcc', '-w', '-E'] + a, timeout=20, cwd=src)
        for tool, exe in (('xcc', b.xcc), ('wcc', b.wcc)):
            if tool == 'wcc' and not core.THOROUGH and len(s) == 3: continue
            rc, o, e = core.sh([exe, '-E'] + a, timeout=20, cwd=src)
            rep.count('states'); rep.count('transitions', len(o) >> 4); rep.count('traces_validated_against_impl')
            if (rc == 0) != (rc0 == 0) or rc not in (0, 1): rep.violation(cid + '/%s-E' % tool, '%s -E %s: status %s, the reference driver %s\n%s\n%s' % (tool, ' '.join(a), rc, rc0, e[-300:], e0[-300:]))
            elif rc == 0 and body(o) != body(o0): rep.violation(cid + '/%s-E' % tool, '%s -E %s gives\n%s\nthe reference\n%s' % (tool, ' '.join(a), ' '.join(body(o))[-600:], ' '.join(body(o0))[-600:]))
        if len(s) > 2 and not core.THOROUGH: return
        # the program: what it prints follows from the preprocessed text, so equal texts share a reference
        if rc0 == 0:
            k = tuple(body(o0))
            if k not in ref:
                x = 'g' + key
                r = core.sh(['gcc', '-w', '-o', x] + a, timeout=30, cwd=src)
                ref[k] = core.sh(['./' + x], timeout=10, cwd=src)[:2] if r[0] == 0 else (None, r[2])
            want = ref[k]
        else: want = (None, b'')
        x = 'x' + key
        rc, o, e = core.sh([b.xcc, '-o', x] + a, timeout=30, cwd=src)
        rep.count('states')
        got = core.sh(['./' + x], timeout=10, cwd=src)[:2] if rc == 0 else (None, b'')
        if (rc == 0) != (want[0] is not None) or (rc == 0 and got != want):
            rep.violation(cid + '/run', 'xcc -o x %s: status %s, program %s; with the reference driver %s\n%s' % (' '.join(a), rc, got, want, e[-300:]))
        if os.path.exists(os.path.join(src, x)): os.unlink(os.path.join(src, x))
        if len(s) < 2 or core.THOROUGH:
            w = 'w' + key + '.wasm'
            rc, o, e = core.sh([b.wcc, '-o', w] + a, timeout=30, cwd=src)
            rep.count('states')
            if (rc == 0) != (want[0] is not None): rep.violation(cid + '/wcc', 'wcc -o w %s: status %s, program with the reference driver %s\n%s' % (' '.join(a), rc, want, e[-300:]))
            elif rc == 0: nodes.append((cid + '/wcc', os.path.join(src, w), want[1].decode(), 'wcc -o x.wasm ' + ' '.join(a)))
    core.pmap(one, todo)

# ---- comments -------------------------------------------------------------------------------------------------
def family_comment(rep, b, base):
    d = os.path.join(base, 'cm'); os.mkdir(d)
    for i, (t, keep) in enumerate((('a /* x */ b\n', '/* x */'), ('a // y\nb\n', '// y'), ('/* l1\nl2 */ a\n', 'l2 */'), ('#define M 1 /* z */\nM\n', None), ('a "/* s */" b\n', '"/* s */"'))):
        with open(os.path.join(d, '%d.c' % i), 'w') as f: f.write(t)
        for exe, tool in ((b.xcc, 'xcc'), (b.wcc, 'wcc')):
            for pos in (0, 1):
                for flag in ([], ['-C']):
                    a = ['-E'] + (flag + ['%d.c' % i] if pos else ['%d.c' % i] + flag)
                    rc, o, e = core.sh([exe] + a, timeout=10, cwd=d)
                    rep.count('states')
                    want = keep is not None and (bool(flag) or keep[0] == '"')
                    if rc != 0: rep.violation('comment/%s/%s' % (tool, ' '.join(a)), '%s %s: status %s' % (tool, ' '.join(a), rc))
                    elif keep and (keep.encode() in o) != want: rep.violation('comment/%s/%s' % (tool, ' '.join(a)), '%s %s of %r prints %r' % (tool, ' '.join(a), t, o))

# ---- warnings and code options --------------------------------------------------------------------------------
WOPT = ['-Wall', '-Werror', '-Wno-error', '-Wunused-variable', '-Wno-unused-variable', '-Wunused-function', '-Wno-unused-function', '-Wextra', '-Wfoo', '-Wno-foo']
WSRC = {'clean': 'int main(void) { return 0; }\n', 'var': 'int main(void) { int unused; return 0; }\n', 'fun': 'static int sf(void) { return 1; }\nint main(void) { return 0; }\n', 'both': 'static int sf(void) { return 1; }\nint main(void) { int unused; return 0; }\n'}
def family_warn(rep, b, base):
    d = os.path.join(base, 'wn'); os.mkdir(d)
    for n, t in WSRC.items():
        with open(os.path.join(d, n + '.c'), 'w') as f: f.write(t)
    n = 4 if core.THOROUGH else 3
    jobs = [(s, src) for k in range(n + 1) for s in itertools.product(WOPT, repeat=k) if len(set(s)) == len(s) for src in WSRC if len(s) < 3 or src == 'both' or core.THOROUGH]
    def model(s, src):
        v = f = err = False
        for o in s:
            if o == '-Wall': v = f = True
            elif o == '-Werror': err = True
            elif o == '-Wno-error': err = False
            elif 'unused-variable' in o: v = 'no-' not in o
            elif 'unused-function' in o: f = 'no-' not in o
        w = (v and src in ('var', 'both')) + (f and src in ('fun', 'both'))
        return (1 if w and err else 0), w
    def one(it):
        s, src = it
        # -Wall after a specific option: which of the two wins is not documented
        for i, o in enumerate(s):
            if o == '-Wall' and any('unused' in p for p in s[:i]): return
        st, w = model(s, src)
        for tool, exe, o in (('xcc', b.xcc, '-o/dev/null'), ('wcc', b.wcc, '-o/dev/null')):
            key = hashlib.sha1(repr(it).encode()).hexdigest()[:14] + tool + '.o'
            rc, so, se = core.sh([exe, '-c', '-o', key] + list(s) + [src + '.c'], timeout=20, cwd=d)
            rep.count('states'); rep.count('transitions', 2); rep.count('traces_validated_against_impl')
            n = se.decode('utf-8', 'replace').lower().count('unused')
            cid = 'warn/%s/%s/%s' % (tool, src, ' '.join(s))
            if rc != st: rep.violation(cid, '%s -c %s %s.c: status %s instead of %s\n%s' % (tool, ' '.join(s), src, rc, st, se[-300:]))
            elif (n > 0) != (w > 0): rep.violation(cid, '%s -c %s %s.c: %d warnings about unused names instead of %d\n%s' % (tool, ' '.join(s), src, n, w, se[-300:]))
            p = os.path.join(d, key)
            if os.path.exists(p) != (st == 0): rep.violation(cid, '%s -c %s %s.c: output %s' % (tool, ' '.join(s), src, 'missing' if st == 0 else 'left after an error'))
            if os.path.exists(p): os.unlink(p)
    core.pmap(one, jobs)
    # -fcommon / -fno-common: two tentative definitions in two files
    for i in (1, 2):
        with open(os.path.join(d, 'c%d.c' % i), 'w') as f: f.write('int shared;\n' + ('int f(void); int main(void) { shared = 5; return f(); }\n' if i == 1 else 'int f(void) { return shared + 1; }\n'))
    for k in range(4):
        for s in itertools.product(['-fcommon', '-fno-common', '-fother', '-O2'], repeat=k):
            last = [o for o in s if o in ('-fcommon', '-fno-common')]
            if not last: continue
            rc, o, e = core.sh([b.xcc, '-o', 'cx'] + list(s) + ['c1.c', 'c2.c'], timeout=20, cwd=d)
            rep.count('states')
            want = last[-1] == '-fcommon'
            if (rc == 0) != want: rep.violation('common/' + ' '.join(s), 'xcc %s c1.c c2.c: status %s' % (' '.join(s), rc))
            elif want and core.sh(['./cx'], cwd=d)[0] != 6: rep.violation('common/' + ' '.join(s), 'the tentative definitions are not merged')

# ---- libraries and linking --------------------------------------------------------------------------------------
LINK = [['-Ll1'], ['-L', 'l1'], ['-Ll2'], ['-L', './l2'], ['-lk'], ['-l', 'k'], ['-lj'], ['k3.o'], ['l2/libk.a'], ['-g'], ['-O1']]
def family_link(rep, b, base, nodes):
    d = os.path.join(base, 'ln')
    AR = '/usr/bin/llvm-ar-18' if os.path.exists('/usr/bin/llvm-ar-18') else 'llvm-ar'
    kinds = {'x': (b.xcc, ['ar', 'rcs']), 'g': ('gcc', ['ar', 'rcs']), 'w': (b.wcc, [AR, 'rcs'])}
    for n, (cc, ar) in kinds.items():
        p = os.path.join(d, n); os.makedirs(p); os.mkdir(p + '/l1'); os.mkdir(p + '/l2')
        for f, t in (('m.c', 'int printf(const char *, ...); int k(void); int main(void) { printf("%d", k()); return 0; }\n'), ('k1.c', 'int k(void) { return 10; }\n'), ('k2.c', 'int k(void) { return 20; }\n'), ('k3.c', 'int k(void) { return 30; }\n'), ('j.c', 'int j2(void); int k(void); int j(void) { return k() + 1; }\n')):
            with open(os.path.join(p, f), 'w') as fp: fp.write(t)
        for f in ('k1', 'k2', 'k3', 'j', 'm'):
            rc, o, e = core.sh([cc, '-c', '-o', f + '.o', f + '.c'], timeout=20, cwd=p)
            if rc != 0: raise core.TreeError('cannot compile %s: %s' % (f, e[-300:]))
        for a, o in (('l1/libk.a', 'k1.o'), ('l2/libk.a', 'k2.o'), ('l1/libj.a', 'j.o')):
            if n == 'w': a = a.replace('lib', 'wlib')
            if core.sh(ar + [a, o], cwd=p)[0] != 0: raise core.CheckError('ar')
    n = 4 if core.THOROUGH else 3
    L = LINK if core.THOROUGH else LINK[:9]
    seqs = {tuple(words(s[:i] + (['m.c'],) + s[i:])) for k in range(n + 1) for s in itertools.product(L, repeat=k) if len({tuple(x) for x in s}) == k for i in ((0, k, k // 2) if k > 2 else range(k + 1))}
    def one(a):
        mi = a.index('m.c')
        # an archive in front of the file that needs it: no required outcome
        early = any(w.endswith('.a') or w.startswith('-l') for w in a[:mi])
        cid = 'link/' + ' '.join(a)
        key = hashlib.sha1(cid.encode()).hexdigest()[:14]
        g = os.path.join(d, 'g'); x = os.path.join(d, 'x')
        rc0, o, e = core.sh(['gcc', '-w', '-o', key] + list(a), timeout=30, cwd=g)
        if early and rc0 != 0: return
        want = core.sh(['./' + key], cwd=g)[1] if rc0 == 0 else None
        if early and want is not None and not any(w.endswith('.o') for w in a): return
        rc, o, e = core.sh([b.xcc, '-o', key] + list(a), timeout=30, cwd=x)
        rep.count('states'); rep.count('transitions'); rep.count('traces_validated_against_impl')
        got = core.sh(['./' + key], cwd=x)[1] if rc == 0 else None
        if got != want or rc not in (0, 1): rep.violation(cid, 'xcc %s: status %s, program prints %s; reference %s\n%s' % (' '.join(a), rc, got, want, e[-300:]))
        for p in (g, x):
            if os.path.exists(p + '/' + key): os.unlink(p + '/' + key)
        if len(a) <= 4 or core.THOROUGH:
            rc, o, e = core.sh([b.wcc, '-o', key + '.wasm'] + [x.replace('libk.a', 'wlibk.a') for x in a], timeout=30, cwd=os.path.join(d, 'w'))
            rep.count('states')
            if (rc == 0) != (want is not None): rep.violation(cid + '/wcc', 'wcc %s: status %s; reference %s\n%s' % (' '.join(a), rc, want, e[-300:]))
            elif rc == 0: nodes.append((cid + '/wcc', os.path.join(d, 'w', key + '.wasm'), want.decode(), 'wcc ' + ' '.join(a)))
    core.pmap(one, sorted(seqs))
    # -nostdlib, -nodefaultlibs and the entry point
    p = os.path.join(d, 's'); os.mkdir(p)
    fs = {'st.c': 'void _start(void) { __asm("mov $60, %eax"); __asm("mov $9, %edi"); __asm("syscall"); }\n', 'my.c': 'void my(void) { __asm("mov $60, %eax"); __asm("mov $8, %edi"); __asm("syscall"); }\n', 'mn.c': 'int main(void) { return 7; }\n', 'pr.c': 'int printf(const char *, ...); int main(void) { printf(""); return 6; }\n'}
    for f, t in fs.items():
        with open(os.path.join(p, f), 'w') as fp: fp.write(t)
    O = [['-nostdlib'], ['-nodefaultlibs'], ['-Wl,-emy'], ['-Wl,-e,my'], ['-Xlinker', '-emy'], ['-Xlinker', '-e', '-Xlinker', 'my'], ['-no-pie'], ['-g']]
    def special(it):
        s, fl = it
        cid = 'start/' + ' '.join(words(s) + list(fl))
        key = hashlib.sha1(cid.encode()).hexdigest()[:14]
        opts = [o[0] for o in s]
        nolib = '-nostdlib' in opts; nodef = '-nodefaultlibs' in opts
        my = any('-e' in ' '.join(o)[3:] and 'my' in o[-1] for o in s)
        # crt0 and the C library are archives: their members come in only for names that are still missing
        if my: want = 8 if 'my.c' in fl else None
        elif 'st.c' in fl: want = 9
        elif nolib or nodef: want = None
        else: want = 7 if 'mn.c' in fl else 6 if 'pr.c' in fl else None
        rc, o, e = core.sh([b.xcc, '-o', key] + words(s) + list(fl), timeout=20, cwd=p)
        rep.count('states'); rep.count('transitions'); rep.count('traces_validated_against_impl')
        got = core.sh(['./' + key], cwd=p, timeout=10)[0] if rc == 0 else None
        if got != want or rc not in (0, 1): rep.violation(cid, 'xcc %s: status %s, program status %s instead of %s\n%s' % (' '.join(words(s) + list(fl)), rc, got, want, e[-300:]))
        if want is not None and not e and os.path.exists(os.path.join(p, key)): pass
    its = [(s, fl) for k in range(4 if core.THOROUGH else 3) for s in itertools.product(O, repeat=k) for fl in (('st.c',), ('my.c', 'st.c'), ('mn.c',), ('mn.c', 'my.c'), ('my.c',), ('pr.c',))
           if sum('my' in w for w in words(s)) <= 1]
    core.pmap(special, its)

# ---- wcc's own options --------------------------------------------------------------------------------------------
WASM = 'int a1(int x) { return x + 1; }\nint a2(void) { return 2; }\nvoid _start(void) {}\nvoid go(void) {}\nint unused(void) { return 3; }\n'
IMP = 'int host(int);\nint a1(int x) { return host(x); }\n'
def family_wasm(rep, b, base):
    d = os.path.join(base, 'wa'); os.mkdir(d)
    with open(os.path.join(d, 'e.c'), 'w') as f: f.write(WASM)
    with open(os.path.join(d, 'i.c'), 'w') as f: f.write(IMP)
    with open(os.path.join(d, 'n.c'), 'w') as f: f.write('int a1(int x) { char b[64]; b[0] = x; return (int)(long)b != b[0]; }\n')
    W = [['-e', 'a1'], ['-ea2'], ['-e', 'a1,a2'], ['-ea2,go'], ['--entry-point=go'], ['--entry-point', 'go'], ['--entry-point='], ['--stack-size=4096'], ['--stack-size', '0x10000'], ['-nodefaultlibs'], ['-O2'], ['-g0']]
    jobs = [(s, at) for k in range(4 if core.THOROUGH else 3) for s in itertools.product(W, repeat=k) for at in {0, k}]
    checks = []
    def one(it):
        s, at = it
        a = ['-nostdlib'] + words(s[:at]) + ['e.c'] + words(s[at:])
        cid = 'wasm/' + ' '.join(a)
        key = hashlib.sha1(cid.encode()).hexdigest()[:14] + '.wasm'
        rc, o, e = core.sh([b.wcc, '-o', key] + a, timeout=20, cwd=d)
        rep.count('states'); rep.count('transitions'); rep.count('traces_validated_against_impl')
        want, entry, stack = set(), '_start', 8192
        for o in s:
            w = o[-1]
            if o[0].startswith('-e'): want |= set((w if len(o) > 1 else w[2:]).split(','))
            elif o[0].startswith('--entry'): entry = w.split('=')[-1] if '=' in w else w
            elif o[0].startswith('--stack'): stack = int(w.split('=')[-1], 0)
        if entry: want.add(entry)
        if rc == 1 and not want and b'export' in e: return       # nothing to export: an error, said so
        if rc != 0:
            rep.violation(cid, 'wcc %s: status %s\n%s' % (' '.join(a), rc, e[-300:])); return
        checks.append((cid, os.path.join(d, key), sorted(want), stack, ' '.join(a)))
    core.pmap(one, jobs)
    js = os.path.join(d, 'x.mjs')
    with open(js, 'w') as f: f.write('''import fs from 'node:fs';
const r = [];
for (const p of JSON.parse(fs.readFileSync(process.argv[2]))) {
  try { const m = new WebAssembly.Module(fs.readFileSync(p)); r.push([WebAssembly.Module.exports(m).filter(e => e.kind == 'function').map(e => e.name).sort(), WebAssembly.Module.imports(m).map(e => e.module + '.' + e.name)]); }
  catch (e) { r.push([String(e), []]); }
}
console.log(JSON.stringify(r));''')
    def inspect(paths):
        fn = os.path.join(d, 'l%s.json' % hashlib.sha1(repr(paths).encode()).hexdigest()[:10])
        with open(fn, 'w') as f: json.dump(paths, f)
        rc, o, e = core.sh(['node', '--no-warnings', js, fn], timeout=100)
        if rc != 0: raise core.CheckError('node: %s' % e[-300:])
        return json.loads(o)
    for (cid, p, want, stack, a), (ex, im) in zip(checks, inspect([c[1] for c in checks])):
        if ex != want: rep.violation(cid, 'wcc %s exports the functions %s instead of %s' % (a, ex, want))
        elif im: rep.violation(cid, 'wcc %s imports %s' % (a, im))
    # the module that undefined functions are imported from: named in the object, and only WASI is left to the host at the link
    WASI = 'wasi_snapshot_preview1'
    got = []
    for i, o in enumerate(([], ['--import-module-name=env'], ['--import-module-name', 'other'], ['--import-module-name=a b'], ['--import-module-name=' + WASI], ['--import-module-name', 'x', '--import-module-name=y'])):
        for at in (0, 1):
            for c in (['-c'], []):
                a = c + ['-nostdlib', '--entry-point=', '-ea1'] + (o + ['i.c'] if at else ['i.c'] + o)
                out = 'i%d%d%d.wasm' % (i, at, len(c))
                rc, so, e = core.sh([b.wcc, '-o', out] + a, timeout=20, cwd=d)
                rep.count('states')
                mod = o[-1].split('=')[-1] if o else 'env'
                if not c and mod != WASI:
                    if rc == 0 or not e: rep.violation('wasm/import/' + ' '.join(a), 'wcc %s: an undefined function is accepted (status %s)' % (' '.join(a), rc))
                elif rc != 0: rep.violation('wasm/import/' + ' '.join(a), 'wcc %s: status %s %s' % (' '.join(a), rc, e[-200:]))
                else: got.append((a, os.path.join(d, out), mod + '.host'))
    for (a, p, want), (ex, im) in zip(got, inspect([g[1] for g in got])):
        if [m for m in im if m.endswith('.host')] != [want]: rep.violation('wasm/import/' + ' '.join(a), 'wcc %s imports %s instead of %s' % (' '.join(a), im, [want]))
    # erroneous option values
    for o in (['--stack-size=0'], ['--stack-size=abc'], ['--stack-size=12x'], ['--stack-size='], ['-x', 'pascal']):
        rc, so, e = core.sh([b.wcc, '-o', 'bad.wasm', '-nostdlib', 'e.c'] + o, timeout=20, cwd=d)
        rep.count('states')
        if rc == 0 or not e: rep.violation('wasm/bad/' + ' '.join(o), 'wcc %s: status %s' % (' '.join(o), rc))

RUN = '''import fs from 'node:fs'; import { WASI } from 'node:wasi';
const items = JSON.parse(fs.readFileSync(process.argv[2])); const out = process.argv[3];
items.forEach((p, i) => { let st; const fd = fs.openSync(out + i, 'w');
  try { const w = new WASI({version: 'preview1', args: ['x'], env: {}, stdout: fd, returnOnExit: true});
    const m = new WebAssembly.Module(fs.readFileSync(p)); const inst = new WebAssembly.Instance(m, {wasi_snapshot_preview1: w.wasiImport});
    st = String(w.start(inst)); } catch (e) { st = String(e).slice(0, 200); }
  fs.closeSync(fd); console.log(JSON.stringify(st)); });'''
def run_nodes(rep, base, nodes):
    js = os.path.join(base, 'run.mjs')
    with open(js, 'w') as f: f.write(RUN)
    nodes.sort()
    def part(k):
        its = nodes[k::core.NCPU]
        fn = os.path.join(base, 'n%d.json' % k)
        with open(fn, 'w') as f: json.dump([i[1] for i in its], f)
        rc, o, e = core.sh(['node', '--no-warnings', js, fn, os.path.join(base, 'out%d.' % k)], timeout=200)
        st = [json.loads(x) for x in o.decode().split('\n') if x]
        for i, (cid, p, want, cmd) in enumerate(its):
            rep.count('traces_validated_against_impl')
            s = st[i] if i < len(st) else 'none'
            try: got = open(os.path.join(base, 'out%d.%d' % (k, i))).read()
            except OSError: got = None
            if s != '0' or got != want: rep.violation(cid, '%s: the module ends with %s and prints %r instead of %r' % (cmd, s, got, want))
    core.pmap(part, range(core.NCPU))

def run():
    rep = core.Report('C34')
    rep.rule = ('every sequence of <=2 of %d preprocessing/code option words (3 of the include and macro options) before, around and after the source, for -E, and compiled and run; all sequences of <=3 of 9 library option/input words with the source at every place; '
                'all sequences of <=3 of 10 warning options x 4 sources; all sequences of <=2 start-up and linker options x 6 file lists; all sequences of <=2 of 12 wcc export/entry/stack options') % len(PP)
    rep.assumptions = ['the gcc driver is the reference for option words both have; sequences it treats specially (a directory or macro named twice) are left out', 'an archive placed before its user has no required status', 'which of -Wall and an earlier specific -W option wins is not prescribed']
    b = core.Build(libs=True, wcc=True)
    base = core.scratch('opt')
    nodes = []
    family_pp(rep, b, base, nodes)
    family_comment(rep, b, base)
    family_warn(rep, b, base)
    family_link(rep, b, base, nodes)
    family_wasm(rep, b, base)
    run_nodes(rep, base, nodes)
    rep.sample('xcc -o x -isystem i1 v.c -DA=2; wcc -nostdlib e.c -e a1 --entry-point=go')
    return rep
