"""C29: the toolchain reproduces itself, and the bytes it writes depend on its inputs only.

Configurations = who built the tools (gcc at several levels, clang, the tree's own compiler with and without SSA, two
generations deep; for wcc also itself, run in node) x the environment they run in (heap fill, address layout, size of the
environment, directory, standard input).  Every configuration processes every source of the corpus at every stage (preprocess,
compile, assemble, link); all must write identical bytes, and the generations must be identical programs."""
import ctypes, glob, itertools, json, os, re, shutil, subprocess
from vlib import core
from vlib.pair import PRELUDE, subst

CFL = '-std=c11 -D_DEFAULT_SOURCE -w '
DEFS = ['-D__XCC', '-D__LP64__', '-D__x86_64__', '-D__linux__', '-D__STDC__', '-D__STDC_VERSION__=201112L', '-D__SIZEOF_POINTER__=8',
        '-D__SIZEOF_INT__=4', '-D__SIZEOF_LONG__=8', '-D__SIZEOF_LONG_LONG__=8', '-D__SIZEOF_SIZE_T__=8']
OWN = ['-Isrc/util', '-Isrc/cpp', '-Isrc/cc/frontend', '-Isrc/cc/backend', '-Isrc/cc/arch/x64', '-Isrc/as', '-Isrc/as/arch/x64', '-DXCC_TARGET_ARCH=XCC_ARCH_X64', '-D_DEFAULT_SOURCE']

NODE = '''import {WASI} from 'wasi'; import fs from 'fs';
const [wasm, list, inc, lib] = process.argv.slice(2);
const m = await WebAssembly.compile(fs.readFileSync(wasm));
for (const args of JSON.parse(fs.readFileSync(list))) {
  let rc;
  try {
    const w = new WASI({version: 'preview1', args: ['wcc', ...args], preopens: {'.': '.', '/usr/include': inc, '/usr/lib': lib, '/tmp': '/tmp'}, returnOnExit: true});
    rc = w.start(await WebAssembly.instantiate(m, {wasi_snapshot_preview1: w.wasiImport}));
  } catch (e) { rc = 'trap:' + String(e).replace(/\\s+/g, '_'); }
  console.log(rc ?? 0);
}
'''

def packs():
    """Enumerated programs (the families of the other properties), many to a file."""
    from checks import C01, C03, C04, C05, C06, C07, C10, C11, C12
    fams = [('c01', '', [c for c in C01.cases() if not c.id.startswith(('full8', 'bin'))][::1 if core.THOROUGH else 16], 10),
            ('c03', '', list(C03.tree_cases())[::1 if core.THOROUGH else 24] + list(C03.switch_cases())[::1 if core.THOROUGH else 12] + list(C03.misc_cases()), 40),
            ('c04', C04.PRE, list(C04.gens())[::1 if core.THOROUGH else 24], 20),
            ('c05', C05.PRE, (list(C05.struct_cases()) + list(C05.vararg_cases()) + list(C05.misc_cases()))[::1 if core.THOROUGH else 12], 16),
            ('c06', '', (list(C06.layout_cases()) + list(C06.bit_cases()))[::1 if core.THOROUGH else 20], 10),
            ('c07', '', (list(C07.const_cases()) + list(C07.addr_cases()) + list(C07.string_cases()) + list(C07.auto_cases()))[::1 if core.THOROUGH else 6], 30),
            ('c10', '', (list(C10.chars()) + list(C10.strings()) + list(C10.floats()))[::1 if core.THOROUGH else 4], 8),
            ('c11', C11.PRE, (list(C11.vla_cases()) + list(C11.vlaparam_cases()))[::1 if core.THOROUGH else 12], 20),
            ('c12', '', list(C12.loop_cases()) + list(C12.prop_cases())[::1 if core.THOROUGH else 24], 12)]
    for n, pre, cs, k in fams:
        for i in range(0, len(cs), k):
            yield '%s_%03d.c' % (n, i // k), PRELUDE + pre + '\n'.join(subst(c.xcode or c.code, 'x%d' % j) for j, c in enumerate(cs[i:i + k])) + '\n'

_personality = None
def noaslr():
    global _personality
    if _personality is None: _personality = ctypes.CDLL(None).personality
    _personality(0x0040000)

class Conf:
    """One way to run the tools: a directory with cpp, cc1, as, ld, and an environment."""
    def __init__(self, name, tools, env=None, pre=None, cwd=None):
        self.name, self.tools, self.cwd, self.pre = name, tools, cwd, pre
        self.env = dict(core.CLEAN_ENV, **(env or {}))
    def run(self, tool, args, cwd, stdin=None, timeout=60):
        p = subprocess.Popen([self.tools[tool]] + args, stdin=stdin if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             cwd=self.cwd or cwd, env=self.env, preexec_fn=self.pre, start_new_session=True)
        try: o, e = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate()
            return 'timeout', b'', b''
        return p.returncode, o, e

def diff(a, b):
    if a[:4] in (b'\x7fELF', b'\0asm') or b'\0' in a[:64]:
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return 'sizes %d and %d, first difference at 0x%x: %s and %s' % (len(a), len(b), k, a[k:k + 16].hex(), b[k:k + 16].hex())
    la, lb = a.decode('utf-8', 'replace').split('\n'), b.decode('utf-8', 'replace').split('\n')
    k = next((i for i, (x, y) in enumerate(itertools.zip_longest(la, lb)) if x != y), 0)
    return 'line %d: %r and %r' % (k + 1, (la + [''])[k] if k < len(la) else None, lb[k] if k < len(lb) else None)

class Matrix:
    def __init__(self, rep, dirn): self.rep, self.dir = rep, dirn
    def compare(self, fam, name, confs, tool, args, out=None, stdin=None, replay=None):
        """Runs one step under every configuration; returns the bytes of the first."""
        base = None
        for k, c in enumerate(confs):
            fn = None
            if out:
                fn = '%s.%s' % (out, re.sub(r'\W', '_', c.name))
                a = [fn if x == '@OUT' else x for x in args]
                p = os.path.join(c.cwd or self.dir, fn)
                if os.path.exists(p): os.unlink(p)
            else: a = args
            f = open(os.path.join(self.dir, stdin), 'rb') if stdin else None
            rc, o, e = c.run(tool, a, self.dir, f)
            if f: f.close()
            if fn:
                try:
                    with open(p, 'rb') as f: o = f.read()
                except OSError: o = b'(no file)'
                if k: 
                    try: os.unlink(p)
                    except OSError: pass
                e = e.replace(fn.encode(), b'OUT')
            if c.cwd: o, e = (x.replace(c.cwd.encode(), self.dir.encode()) for x in (o, e))      # absolute names in line markers
            r = (rc, e, o)
            self.rep.count('states'); self.rep.count('transitions', max(1, len(o) >> 6)); self.rep.count('traces_validated_against_impl')
            if base is None:
                base = r; first = p if fn else None
                continue
            if r != base:
                what = 'status %r and %r' % (base[0], rc) if rc != base[0] else 'messages differ: ' + diff(base[1], e) if e != base[1] else 'output differs: ' + diff(base[2], o)
                self.rep.violation('%s/%s/%s/%s' % (fam, tool, name, c.name), '%s of %s: %s and %s do not agree; %s' % (tool, name, confs[0].name, c.name, what), replay)
        return base, (first if out else None)

def tools(b, pfx=''): return {t: b.exe(pfx + t) for t in ('cpp', 'cc1', 'as', 'ld')}

def run():
    rep = core.Report('C29')
    rep.rule = ('every configuration of {tools built by gcc -O0, gcc -O2, clang -O1, the tree itself (second and third generation, with and without SSA)} x {heap fill patterns, fixed and random '
                'address layout, empty and huge environment, another directory} x every source of the corpus (all C files of the tree, packed program families of C01-C12) x every stage (cpp, cc1 -O0, cc1 -O1, '
                'as, ld): identical bytes, messages and status; generations 2 and 3 identical; wcc built by gcc, clang, the tree and itself (in node): identical objects and modules')
    rep.assumptions = ['gcc and clang compile the (UB-free) tool sources correctly; a difference between builds is a defect of a tool or of generated code either way']
    mk = [('gcc2', dict(optimize='-O2 -Wno-error', cc='gcc', wcc=True)), ('gcc0', dict(optimize='-O0 -Wno-error', cc='gcc', wcc=True, libs=False)),
          ('clang1', dict(optimize='-O1 -Wno-error', cc='clang', wcc=True, libs=False))]
    B = {}
    for n, kw in mk:
        w = kw.pop('wcc'); libs = kw.get('libs', True)
        b = core.Build(**kw)
        if libs:
            b._make(['make', '-j%d' % core.NCPU, 'OPTIMIZE=' + kw['optimize'], 'CC=' + kw['cc'], 'wcc'])
        elif w:
            b._make(['make', '-j%d' % core.NCPU, 'OPTIMIZE=' + kw['optimize'], 'CC=' + kw['cc'], 'wcc-libs=', '-o', 'wcc-libs', 'wcc'])
        B[n] = b
    b = B['gcc2']
    # generations: gen2 and gen3 with the default flags, gen2o/gen3o without SSA
    gens = []
    for g, opt in (('gen2', '-O2'), ('gen0', '-O0')):
        for host, target in (('', g), (g, g + 'x')):
            rc, o, e = core.sh(['make', '-j%d' % core.NCPU, 'OPTIMIZE=' + opt, 'HOST=' + host, 'TARGET=' + target, 'self-hosting'], timeout=300, cwd=b.dir)
            if rc != 0:
                rep.violation('selfhost/' + target, 'the tree does not compile itself (%s): %s' % (opt, (o + e).decode('utf-8', 'replace')[-800:]))
                rep.count('states')
                break
            gens.append(target)
        else:
            for t in ('cpp', 'cc1', 'as', 'ld', 'xcc'):
                x, y = (open(b.exe(p + t), 'rb').read() for p in (g, g + 'x'))
                rep.count('states'); rep.count('transitions', len(x) >> 6); rep.count('traces_validated_against_impl')
                if x != y: rep.violation('generations/%s/%s' % (g, t), '%s%s and %sx%s differ: %s' % (g, t, g, t, diff(x, y)))
    confs = [Conf(n, tools(x)) for n, x in B.items()] + [Conf(g, tools(b, g)) for g in ('gen2', 'gen0') if g in gens]
    d = core.scratch('c29')
    for s in ('src', 'include', 'libsrc', 'examples', 'tests'): shutil.copytree(b.exe(s), os.path.join(d, s))
    d2 = core.scratch('c29-another-directory')
    for s in ('src', 'include', 'libsrc', 'examples', 'tests'): shutil.copytree(b.exe(s), os.path.join(d2, s))
    base = tools(b)
    envs = [Conf('env-base', base)] + [Conf('perturb%d' % v, base, {'MALLOC_PERTURB_': str(v)}) for v in (1, 0x55, 0xff)]
    envs += [Conf('bigenv', base, {'JUNK%d' % i: 'x' * 1000 for i in range(60)}), Conf('noenv', base), Conf('noaslr', base, pre=noaslr), Conf('mmap', base, {'MALLOC_MMAP_THRESHOLD_': '256', 'MALLOC_TOP_PAD_': '0'}),
             Conf('locale', base, {'LANG': 'de_DE.UTF-8', 'LC_ALL': 'de_DE.UTF-8', 'TZ': 'Asia/Tokyo'}), Conf('cwd', base, cwd=d2)]
    envs[5].env = {}
    m = Matrix(rep, d)
    src = {}
    for n, t in packs(): src[n] = []; open(os.path.join(d, n), 'w').write(t)
    for n in src: os.symlink(os.path.join(d, n), os.path.join(d2, n))
    for f in sorted(glob.glob(os.path.join(d, 'src', '**', '*.c'), recursive=True)):
        f = os.path.relpath(f, d)
        if '/arch/aarch64' in f or '/arch/riscv64' in f or '/www/' in f or 'wcc' in f.split('/')[1:2] or 'wcc' in f: continue
        src[f] = OWN
    for sub in ('libsrc', 'examples', 'tests'):
        for f in sorted(glob.glob(os.path.join(d, sub, '**', '*.c'), recursive=True)):
            f = os.path.relpath(f, d)
            if 'thirdparty' in f or '_wasm' in f or 'aarch64' in f or 'riscv64' in f: continue
            src[f] = ['-Isrc/util', '-Isrc/cc/frontend', '-Isrc/cc/backend', '-Ilibsrc', '-Itests', '-D_DEFAULT_SOURCE']
    objs = {}
    def one(n):
        key = re.sub(r'\W', '_', n)
        def both(tool, args, out=None, stdin=None):
            r, p = m.compare('build', n, confs, tool, args, out, stdin)
            r2, p2 = m.compare('env', n, envs, tool, args, out and out + 'e', stdin)
            return r
        a = DEFS + src[n] + ['-idirafter', 'include', n]
        r = both('cpp', a)
        rep.count('stages')
        if r[0] != 0: return
        with open(os.path.join(d, key + '.i'), 'wb') as f: f.write(r[2])
        for o in ('-O0', '-O1'):
            r = both('cc1', [o, '-'], None, key + '.i')
            rep.count('stages')
            if r[0] != 0: continue
            if o == '-O1' and n in src and not src[n] and not core.THOROUGH: continue      # packed: assembled once
            s = key + o + '.s'
            with open(os.path.join(d, s), 'wb') as f: f.write(r[2])
            os.path.exists(os.path.join(d2, s)) or os.symlink(os.path.join(d, s), os.path.join(d2, s))
            r = both('as', ['-o', '@OUT', s], key + o + '.o')
            rep.count('stages')
            fn = os.path.join(d, '%s.%s' % (key + o + '.o', re.sub(r'\W', '_', confs[0].name)))
            if r[0] == 0: objs[n, o] = fn
    core.pmap(one, list(src))
    # linking: every tool of the toolchain and every example, from the objects above, in two orders
    def srcs(*pats): return sorted(f for p in pats for f in (os.path.relpath(x, d) for x in glob.glob(os.path.join(d, p))))
    U = ['src/util/util.c', 'src/util/table.c']
    P = {'cpp': srcs('src/cpp/*.c') + U, 'cc1': srcs('src/cc/*.c', 'src/cc/frontend/*.c', 'src/cc/backend/*.c', 'src/cc/arch/x64/*.c') + U,
         'as': srcs('src/as/*.c', 'src/as/arch/x64/*.c') + U + ['src/util/elfutil.c'], 'ld': srcs('src/ld/*.c') + U + ['src/util/elfutil.c', 'src/util/archive.c'], 'xcc': srcs('src/xcc/*.c') + U}
    for f in srcs('examples/*.c'): P[os.path.basename(f)] = [f]
    def link(it):
        n, o, rev = it
        ob = [objs.get((f, o)) for f in P[n]]
        if None in ob: return
        if rev: ob.reverse()
        crt, libc = b.exe('lib/crt0.a'), b.exe('lib/libc.a')
        for fam, cs in (('build', confs), ('env', envs)):
            m.compare(fam, '%s%s%d' % (n, o, rev), cs, 'ld', ['-o', '@OUT'] + ob + [crt, libc], 'ld_%s%s%d%s' % (n, o, rev, fam))
        rep.count('stages')
    core.pmap(link, list(itertools.product(P, ('-O0', '-O1'), (0, 1))))
    # WebAssembly: wcc by gcc, clang, the tree; and the module wcc makes of itself, run in node
    b._make(['make', '-j%d' % core.NCPU, 'HOST_TARGET=wcc', 'HOST_WCC=./wcc', 'CC=./wcc', 'WCC_TARGET=', 'OPTIMIZE=-O2', 'wcc-self-hosting'])
    wt = {}
    for n, x in B.items():
        if x is not b:
            for s in ('lib', 'include'):
                if os.path.isdir(x.exe(s)): shutil.rmtree(x.exe(s))
                os.symlink(b.exe(s), x.exe(s))
        wt[n] = x.wcc
    rc, o, e = core.sh(['sh', '-c', 'cp wcc wcc.keep && rm wcc && make -j8 CC=./xcc OPTIMIZE=-O2 WCC_OBJ_DIR=obj/xwcc -o wcc-libs wcc; r=$?; mv wcc wcc.x; cp wcc.keep wcc; exit $r'], timeout=200, cwd=b.dir)
    if rc != 0: rep.violation('selfhost/wcc-by-xcc', 'the tree does not compile wcc: ' + (o + e).decode('utf-8', 'replace')[-500:])
    else: wt['xcc'] = b.exe('wcc.x')
    wconfs = [Conf(n, {'wcc': p}) for n, p in wt.items()]
    wenvs = [Conf(c.name, {'wcc': b.wcc}, pre=c.pre) for c in envs]
    for c, c0 in zip(wenvs, envs): c.env, c.cwd = c0.env, c0.cwd
    wfiles = [n for n in src if not src[n] and n.startswith(('c03', 'c06', 'c07', 'c11', 'c12'))] + [n for n in src if n.startswith('examples')]
    wflags = {n: ['-w'] for n in wfiles}
    WSRC = srcs('src/wcc/*.c', 'src/cc/frontend/*.c') + ['src/cpp/preprocessor.c', 'src/cpp/pp_parser.c', 'src/cpp/macro.c', 'src/util/util.c', 'src/util/table.c', 'src/util/archive.c']
    for n in WSRC: wfiles.append(n); wflags[n] = ['-D_DEFAULT_SOURCE', '-DSELF_HOSTING', '-DXCC_TARGET_ARCH=XCC_ARCH_WASM', '-Isrc/util', '-Isrc/cpp', '-Isrc/cc/frontend']
    wobj = {}
    def wone(n):
        key = 'w_' + re.sub(r'\W', '_', n)
        a = wflags[n] + ['-c', '-o', '@OUT', n]
        r, p = m.compare('wbuild', n, wconfs, 'wcc', a, key + '.o')
        m.compare('wenv', n, wenvs, 'wcc', a, key + 'e.o')
        rep.count('stages')
        if r[0] == 0: wobj[n] = p
    core.pmap(wone, wfiles)
    js = os.path.join(d, 'batch.mjs')
    with open(js, 'w') as f: f.write(NODE)
    wmod = b.exe('cc.wasm')
    def nodes(items):
        """items: (name, args, out, want)"""
        with open(os.path.join(d, 'batch%x.json' % id(items)), 'w') as f:
            json.dump([[out if x == '@OUT' else x for x in a] for n, a, out, want in items], f)
        rc, o, e = core.sh(['node', '--no-warnings', js, wmod, f.name, b.exe('include'), b.exe('lib')], timeout=300, cwd=d)
        done = o.decode('utf-8', 'replace').split()
        for k, (n, a, out, want) in enumerate(items):
            rep.count('states'); rep.count('stages'); rep.count('traces_validated_against_impl')
            try: got = open(os.path.join(d, out), 'rb').read()
            except OSError: got = b'(no file)'
            rep.count('transitions', len(got) >> 6)
            ref = open(want, 'rb').read()
            st = done[k] if k < len(done) else 'none (node: %r)' % rc
            if st != '0' or got != ref:
                rep.violation('wself/' + n, 'wcc compiled by itself (in node) and wcc do not agree on %s: status %s %s; %s' % (n, st, e[-300:], diff(ref, got)))
    its = [(n, wflags[n] + ['-c', '-o', '@OUT', n], 'n_' + re.sub(r'\W', '_', n) + '.o', p) for n, p in sorted(wobj.items())]
    core.pmap(nodes, [its[i::core.NCPU] for i in range(core.NCPU)])
    # the module of the compiler itself: linked by every wcc, and by itself
    ob = [os.path.relpath(wobj[n], d) for n in WSRC if n in wobj]
    if len(ob) == len(WSRC):
        r, p = m.compare('wbuild', 'cc.wasm', wconfs, 'wcc', ['-o', '@OUT'] + ob, 'cc_wasm')
        if r[0] == 0: nodes([('cc.wasm', ['-o', '@OUT'] + ob, 'n_cc.wasm', p)])
    else: rep.violation('selfhost/wcc', 'wcc does not compile itself: %s' % [n for n in WSRC if n not in wobj][:5])
    return rep
