"""Pairwise exhaustive execution of enumerated C programs as WebAssembly.

The same cases as vlib.pair, compiled by the tree's wcc (compiler and linker) into one module and by the reference
compiler (clang --target=wasm32, wasm-ld) into another; node instantiates both and runs every case on every element of its
input space in both, comparing result and observation trace, and that the wcc module's stack pointer is back where it was.
"""
import json, os, re
from . import core, pair
from .pair import Case, PairRunner, subst

PRELUDE = '''
typedef signed char i8; typedef unsigned char u8; typedef short i16; typedef unsigned short u16;
typedef %(i32)s i32; typedef unsigned %(i32)s u32; typedef %(i64)s i64; typedef unsigned %(i64)s u64;
typedef long long ill; typedef unsigned long long ull;
#ifdef __clang__
#define WIMP_
#else
#define WIMP_ __attribute__((import_module("wasi_snapshot_preview1")))
#endif
WIMP_ extern void T(ill v); WIMP_ extern void TD(double d); WIMP_ extern void TF(float f); WIMP_ extern void TBI(const void *p, int n);
#define TB(p, n) TBI(p, (int)(n))
int SPF_(void) { volatile char b[16]; b[0] = 1; return (int)(long)b; }
'''
JS = r'''
const fs = require('fs');
const [xf, rf, cf, lo, hi] = process.argv.slice(2);
const cases = JSON.parse(fs.readFileSync(cf)).slice(+lo, +hi);
const xm = new WebAssembly.Module(fs.readFileSync(xf)), rm = new WebAssembly.Module(fs.readFileSync(rf));
const dv = new DataView(new ArrayBuffer(8));
let tr = [], n = 0, mem = null, total = 0, expect = null, diff = -1, trunc = false;
class Hang extends Error {}
const CAP = 4096; let hash = 0;
function push(v) { ++n; hash = (Math.imul(hash, 31) + Number(BigInt.asIntN(32, v)) + Math.imul(Number(BigInt.asIntN(32, v >> 32n)), 77)) | 0; if (n <= CAP) tr.push(v); if (n > 1000000) throw new Hang('hang'); }
function TD(d) { if (d !== d) return push(0x7ff8dead00000000n); dv.setFloat64(0, d); push(dv.getBigInt64(0)); }
function TF(f) { if (f !== f) return push(0x7fc0deadn); dv.setFloat32(0, f); push(BigInt(dv.getInt32(0))); }
function TBI(p, k) { const b = new Uint8Array(mem.buffer, p >>> 0, k); let h = k; for (let i = 0; i < k; ++i) { h = (Math.imul(h, 16777619) + b[i]) | 0; if (k <= 64) push(BigInt(b[i])); } push(BigInt(h)); }
const f = {T: push, TD, TF, TBI};
if (EXTRA) Object.assign(f, EXTRA(push, TD));
function inst(m) {
  const imp = {};
  for (const i of WebAssembly.Module.imports(m)) { (imp[i.module] = imp[i.module] || {})[i.name] = i.kind === 'function' ? (f[i.name] || (() => { throw new Error('import ' + i.name); })) : i.kind === 'tag' ? new WebAssembly.Tag({parameters: ['i32']}) : null; }
  const r = new WebAssembly.Instance(m, imp);
  return r;
}
let X = inst(xm), R = inst(rm), sp0 = X.exports.SPF_();
function once(I, name, kind, a, b) {
  tr = []; n = 0; hash = 0; mem = I.exports.memory;
  const fn = I.exports[name];
  if (!fn) return {e: 'no export ' + name};
  try { const r = kind ? fn(a, b) : fn(); return {r: kind ? BigInt.asUintN(64, r) : 0n, t: tr, n, h: hash}; }
  catch (e) { return {e: e instanceof Hang ? 'hang' : e instanceof RangeError ? 'stack' : e instanceof WebAssembly.RuntimeError ? 'trap' : 'error ' + e, m: String(e.message), t: tr, n, h: hash}; }
}
let ev = 0;
for (const c of cases) {
  const va = c.va ? c.va.map(BigInt) : [0n], vb = c.vb ? c.vb.map(BigInt) : [0n]; let bad = false;
  for (const a of va) { for (const b of vb) {
    const name = (c.k ? '_f' : '_main');
    const x = once(X, 'x' + c.i + name, c.k, a, b), r = once(R, 'r' + c.i + name, c.k, a, b);
    if (r.e === 'hang') { console.log('REFHANG ' + c.i); bad = true; break; }
    if (r.e && r.e !== 'trap' && r.e !== 'stack') { console.log('REFERR ' + c.i + ' ' + r.e); bad = true; break; }
    ++ev; total += r.n;
    let why = '';
    if (x.e !== r.e) why = 'got ' + (x.e || 'return') + (x.m ? ' (' + x.m + ')' : '') + ' want ' + (r.e || 'return');
    else if (!x.e && x.r !== r.r) why = 'got ret ' + x.r.toString(16) + ' want ' + r.r.toString(16);
    if (!why && (x.n !== r.n || x.h !== r.h)) why = 'trace differs';
    if (!why && !x.e) { const s = X.exports.SPF_(); if (s !== sp0) { why = 'stack pointer ' + s + ' not restored to ' + sp0; X = inst(xm); } }
    if (why) { let k = 0; while (k < x.t.length && k < r.t.length && x.t[k] === r.t[k]) ++k;
      if (x.n !== r.n || k < x.t.length) why += '; trace got n=' + x.n + ' want n=' + r.n + ' first difference at ' + k + ': got ' + (k < x.t.length ? x.t[k].toString() : 'end') + ' want ' + (k < r.t.length ? r.t[k].toString() : 'end');
      console.log('MISMATCH ' + c.i + ' a=' + a.toString(16) + ' b=' + b.toString(16) + ' ' + why); bad = true; }
    if (x.e || r.e) { X = inst(xm); R = inst(rm); }
    if (bad) break;
  } if (bad) break; }
}
console.log('DONE ' + cases.length + ' ' + ev + ' ' + total);
'''
CLANG = ['clang', '--target=wasm32', '-std=gnu17', '-O0', '-w', '-fwrapv', '-fno-strict-aliasing', '-fno-builtin', '-ffp-contract=off', '-mbulk-memory', '-nostdinc']
LONG = re.compile(r'\blong( long)?\b')
LSUF = re.compile(r'(?<![\w.])((?:0[xX][0-9a-fA-F]+|\d+)[uU]?)[lL](?![lL\w.])')
def in_domain(c):
    """wcc documents that goto, and case labels inside nested statements of a switch, are not supported."""
    return not re.search(r'\bgoto\b', c.code) and c.id not in ('sw/duff', 'sw/into')
XR = re.compile(r'\b(X_|R_|MA_|MB_)(?=[A-Za-z0-9_])')

class WasmPair:
    def __init__(self, rep, build, prelude='', shard=400, tag='', xflags=(), i64='long long', i32='int', extra='null', widelong=True, rt=''):
        self.widelong = widelong
        self.rep, self.b, self.prelude, self.shard, self.tag, self.xflags = rep, build, PRELUDE % dict(i64=i64, i32=i32) + (LSUF.sub(r'\1ll', LONG.sub('long long', prelude)) if widelong else prelude), shard, tag, list(xflags)
        self.dir = core.scratch('wpair'); self.n = 0; self.bad = []; self.dropped = 0
        self.js = os.path.join(self.dir, 'run.js'); self.rt = rt
        with open(self.js, 'w') as f: f.write('const EXTRA = %s;\n' % extra + JS)
    def text(self, cases, side):
        return self.prelude + '\n'.join(subst(c.code, '%s%d_' % (side, c.idx)) for c in cases)
    def names(self, cases, side): return ['%s%d_%s' % (side, c.idx, 'f' if c.kind else 'main') for c in cases]
    def xbuild(self, cases, base):
        with open(base + '.x.c', 'w') as f: f.write(self.text(cases, 'x'))
        rc, o, e = core.sh([self.b.wcc, '-nostdlib', '--entry-point=', '--stack-size=60000', '-e', ','.join(['SPF_'] + self.names(cases, 'x')), '-o', base + '.x.wasm'] + self.xflags + [base + '.x.c'], timeout=300, cwd=self.dir)
        return rc, e.decode('utf-8', 'replace')
    def rbuild(self, cases, base):
        """Builds the reference module; returns the cases it covers (clang cannot compile some initialisers at all)."""
        with open(base + '.r.c', 'w') as f: f.write(self.text(cases, 'r') + self.rt)
        rc, o, e = core.sh(CLANG + ['-c', '-o', base + '.r.o', base + '.r.c'], timeout=300, cwd=self.dir)
        if rc:
            t = e.decode('utf-8', 'replace')
            bad = {int(m) for m in re.findall(r'error: .*\n.*?\br(\d+)_', t) + re.findall(r"Generating code for declaration 'r(\d+)_", t)}
            if not bad or self.dropped > 500: raise core.CheckError('reference compiler rejects a case: ' + t[:2000])
            self.dropped += len(bad)
            return self.rbuild([c for c in cases if c.idx not in bad], base)
        rc, o, e = core.sh(['wasm-ld', '--no-entry', '--allow-undefined', '--export-memory', '-z', 'stack-size=65536', '-o', base + '.r.wasm', base + '.r.o'] + ['--export=' + n for n in self.names(cases, 'r')], timeout=300, cwd=self.dir)
        if rc: raise core.CheckError('wasm-ld: ' + e.decode('utf-8', 'replace')[:2000])
        return cases
    def run(self, cases, unreliable=None):
        """unreliable(cases): ids of those about which the two reference compilers disagree, which then decide nothing."""
        cases = [c for c in cases if in_domain(c)]
        for i, c in enumerate(cases):
            c.idx = i; c.orig_code = c.code; c.code = XR.sub('Q_', LSUF.sub(r'\1ll', LONG.sub('long long', c.code)) if self.widelong else c.code)
        shards = [cases[i:i + self.shard] for i in range(0, len(cases), self.shard)]
        base0 = os.path.join(self.dir, 'b%d' % self.n); self.n += 1
        res = core.pmap(lambda s: self.shard_run(s[1], '%s_%d' % (base0, s[0])), list(enumerate(shards)))
        nev = 0
        skip = unreliable([c for r in res for c, t in r[0] if 'MISMATCH ' in t]) if unreliable else ()
        for probs, ev, trc in res:
            nev += ev; self.rep.count('transitions', trc)
            for c, t in probs:
                if c.id in skip: self.dropped += 1; continue
                self.bad.append(c.id)
                self.rep.violation(self.tag + c.id, t, replay='/* wcc -nostdlib --entry-point= -e f,main,SPF_ %s */\n' % ' '.join(self.xflags) + self.prelude + subst(c.code, 'Q_'))
        self.rep.count('programs', len(cases)); self.rep.count('states', nev); self.rep.count('traces_validated_against_impl', nev)
        for c in cases[:: max(1, len(cases) // 3)][:2]: self.rep.sample({'case': self.tag + c.id, 'program': c.code[:400]})
        return nev
    def fails(self, cases, base):
        rc, err = self.xbuild(cases, base)
        if rc == 0: return cases, []
        if len(cases) == 1: return [], [(cases[0], 'wcc failed (rc=%s) on a valid program: %s' % (rc, re.sub(r'\S*/b\d+_\d+\.x\.c', '', '; '.join(l for l in err.strip().split('\n') if '.x.c(' in l or 'ssert' in l or not 'T(' in l)[:400])))]
        m = len(cases) // 2
        g1, b1 = self.fails(cases[:m], base)
        if len(b1) > 24: return g1, b1
        g2, b2 = self.fails(cases[m:], base)
        return g1 + g2, b1 + b2
    def shard_run(self, cases, base):
        probs = []
        rc, err = self.xbuild(cases, base)
        if rc != 0:
            good, bads = self.fails(cases, base); probs += bads; cases = good
            if not cases: return probs, 0, 0
            rc, err = self.xbuild(cases, base)
            if rc != 0: return probs + [(cases[0], 'wcc fails on this set of programs together: ' + err[:500])], 0, 0
        cases = self.rbuild(cases, base)
        with open(base + '.json', 'w') as f: json.dump([{'i': c.idx, 'k': c.kind, 'va': [str(v & (2**64 - 1)) for v in c.va] if c.va is not None else None, 'vb': [str(v & (2**64 - 1)) for v in c.vb] if c.vb is not None else None} for c in cases], f)
        byidx = {c.idx: c for c in cases}; nev = ntr = nfail = 0
        work = [(0, len(cases))]
        while work:
            lo, hi = work.pop()
            rc, o, e = core.sh(['node', '--no-warnings', '--experimental-wasm-exnref', self.js, base + '.x.wasm', base + '.r.wasm', base + '.json', str(lo), str(hi)], timeout=240 if hi - lo > 30 else 40, cwd=self.dir)
            t = o.decode('utf-8', 'replace'); m = re.search(r'^DONE (\d+) (\d+) (\d+)$', t, re.M)
            if m and rc == 0:
                nev += int(m.group(2)); ntr += int(m.group(3))
                for line in t.split('\n'):
                    if line.startswith('MISMATCH '): probs.append((byidx[int(line.split()[1])], line))
                    elif line.startswith('REF'): raise core.CheckError('reference: ' + line + ' ' + byidx[int(line.split()[1])].id)
            elif 'CompileError' in e.decode('utf-8', 'replace') or 'LinkError' in e.decode('utf-8', 'replace'):
                if len(cases) == 1: return probs + [(cases[0], 'invalid module: ' + re.sub(r'\s+', ' ', e.decode('utf-8', 'replace'))[-500:])], 0, 0
                k = len(cases) // 2
                p1, a1, b1 = self.shard_run(cases[:k], base)
                p2, a2, b2 = self.shard_run(cases[k:], base) if len(p1) < 12 else ([], 0, 0)
                if not p1 and not p2: p1 = [(cases[0], 'invalid module for this set of cases: ' + e.decode('utf-8', 'replace')[-500:])]
                return probs + p1 + p2, a1 + a2, b1 + b2
            elif hi - lo == 1:
                probs.append((cases[lo], 'run failed (rc=%s): %s' % (rc, (t + e.decode('utf-8', 'replace'))[-300:]))); nfail += 1
                if nfail > 8: break
            else:
                k = (lo + hi) // 2; work += [(lo, k), (k, hi)]
        for ext in ('.x.c', '.r.c', '.r.o', '.x.wasm', '.r.wasm', '.json'):
            try: os.unlink(base + ext)
            except OSError: pass
        return probs, nev, ntr

class _Clang: xcc = 'clang'
def references_disagree(prelude=''):
    """unreliable() for WasmPair.run: native gcc and native clang give different results for the program."""
    def f(cases):
        rep = core.Report('C00')
        p = PairRunner(rep, _Clang, prelude=prelude, xflags=['-std=gnu17', '-w', '-O0', '-fwrapv', '-fno-builtin'], shard=10)
        p.run([Case(c.id, c.orig_code, c.va, c.vb, c.kind) for c in cases])
        return set(p.bad)
    return f
