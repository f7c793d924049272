"""Lock-step runs of the tree's C library (native and WebAssembly) against the platform's C library.

A driver program enumerates a space of calls and prints one line 'case<TAB>result' per call. It is compiled by the tree's
xcc (linked with the tree's libc), by the tree's wcc (run under node's WASI) and by gcc (linked with glibc); the lines must agree."""
import os, shutil, itertools
from . import core

PRE = r'''
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
static char o_buf[1 << 16]; static int o_len;
static void o_flush(void) { int p = 0; while (p < o_len) { int n = (int)write(1, o_buf + p, o_len - p); if (n <= 0) _Exit_(9); p += n; } o_len = 0; }
static void o_c(int c) { if (o_len >= (int)sizeof(o_buf)) o_flush(); o_buf[o_len++] = (char)c; }
static void o_s(const char *s) { while (*s) o_c(*s++); }
static void o_u(unsigned long long v) { char b[24]; int i = 24; do { b[--i] = (char)('0' + v % 10); v /= 10; } while (v); while (i < 24) o_c(b[i++]); }
static void o_i(long long v) { if (v < 0) { o_c('-'); o_u(-(unsigned long long)v); } else o_u(v); }
static void o_x(unsigned long long v, int digits) { for (int i = digits - 1; i >= 0; --i) o_c("0123456789abcdef"[(v >> (i * 4)) & 15]); }
static void o_hex(const void *p, int n) { const unsigned char *q = p; for (int i = 0; i < n; ++i) { o_c("0123456789abcdef"[q[i] >> 4]); o_c("0123456789abcdef"[q[i] & 15]); } }
static void o_str(const char *s) { if (!s) { o_s("NULL"); return; } o_c('"'); for (; *s; ++s) { unsigned char c = (unsigned char)*s; if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\') o_c(c); else { o_c('\\'); o_hex(&c, 1); } } o_c('"'); }
static unsigned long long o_hash(const void *p, int n) { unsigned long long h = 1469598103934665603ULL; const unsigned char *q = p; for (int i = 0; i < n; ++i) h = (h ^ q[i]) * 1099511628211ULL; return h; }
static int o_sign(int v) { return v < 0 ? -1 : v > 0; }
static unsigned long long o_bits(double d) { unsigned long long u; unsigned char *p = (unsigned char*)&u, *q = (unsigned char*)&d; for (int i = 0; i < 8; ++i) p[i] = q[i]; if ((u & 0x7ff0000000000000ULL) == 0x7ff0000000000000ULL && (u & 0xfffffffffffffULL)) return 0x7ff8000000000000ULL; return u; }
'''.replace('_Exit_(9)', '{ o_len = 0; exit(9); }')

RUNJS = r'''
const {WASI} = require('wasi'); const fs = require('fs');
process.removeAllListeners('warning'); process.on('warning', () => {});
const dir = process.argv[2], file = process.argv[3];
const wasi = new WASI({version: 'preview1', args: [file].concat(process.argv.slice(4)), env: JSON.parse(process.env.WENV || '{}'), preopens: {'/': dir, '.': dir}, returnOnExit: true});
(async () => {
  const m = await WebAssembly.compile(fs.readFileSync(file));
  const inst = await WebAssembly.instantiate(m, Object.assign({env: {}}, wasi.getImportObject()));
  process.exitCode = wasi.start(inst);
})().catch(e => { console.error(String(e && e.stack || e)); process.exitCode = 134; });
'''

class LibRunner:
    def __init__(self, rep, b, targets=('x', 'w')):
        self.rep, self.b, self.targets = rep, b, targets
        self.dir = core.scratch('lib')
        self.seq = itertools.count()
        self.js = os.path.join(self.dir, 'run.js')
        with open(self.js, 'w') as f: f.write(RUNJS)
        self.lines = 0; self.runs = 0
    def compile(self, src_text, target, flags=()):
        n = next(self.seq)
        src = os.path.join(self.dir, 'p%d.c' % n)
        with open(src, 'wb') as f: f.write(src_text if isinstance(src_text, bytes) else src_text.encode())
        exe = os.path.join(self.dir, 'p%d.%s' % (n, 'wasm' if target == 'w' else 'exe'))
        if target == 'x': cmd = [self.b.xcc, '-o', exe] + list(flags) + [src]
        elif target == 'w': cmd = [self.b.wcc, '-o', exe] + list(flags) + [src]
        else: cmd = ['gcc', '-O0', '-w', '-fno-builtin', '-D_GNU_SOURCE', '-o', exe] + list(flags) + [src, '-lm']
        rc, o, e = core.sh(cmd, timeout=120, cwd=self.dir)
        if rc != 0: return None, 'compile (%s) failed: rc %s %s' % (target, rc, e.decode('utf-8', 'replace')[:600])
        return exe, None
    def execute(self, exe, target, args=(), input=None, cwd=None, timeout=60, env=None):
        if cwd is None:
            cwd = os.path.join(self.dir, 'r%d' % next(self.seq)); os.mkdir(cwd)
        cmd = [exe] + list(args) if target != 'w' else ['node', '--no-warnings', '--stack-size=4000', self.js, cwd, exe] + list(args)
        return core.sh(cmd, timeout=timeout, cwd=cwd, input=input, env=env)
    def check(self, fam, src, args=(), input=None, targets=None, ref=None, timeout=60, flags=()):
        """ref: precomputed expected lines {case: result} or None (gcc)."""
        src = PRE + src
        rep = self.rep
        if ref is None:
            exe, err = self.compile(src, 'r', flags)
            if err: raise core.CheckError('reference: ' + err)
            rc, o, e = self.execute(exe, 'r', args, input)
            if rc != 0: raise core.CheckError('reference driver %s failed: rc %s %s' % (fam, rc, e[:300]))
            ref = self.parse(o)
        for t in targets or self.targets:
            exe, err = self.compile(src, t, flags)
            if err:
                rep.violation('%s/%s/compile' % (fam, t), err, src); continue
            rc, o, e = self.execute(exe, t, args, input, timeout=timeout)
            got = self.parse(o)
            self.runs += 1
            bad = 0
            for k, v in ref.items():
                self.lines += 1
                if got.get(k) != v:
                    bad += 1
                    if bad <= 200: rep.violation('%s/%s/%s' % (fam, t, k), 'library gives %s, reference %s' % (got.get(k, '(no result)'), v), src)
            extra = [k for k in got if k not in ref]
            if rc != 0 or extra:
                rep.violation('%s/%s/end' % (fam, t), 'driver rc %s, %d unexpected lines; stderr %s' % (rc, len(extra), e[:300]), src)
        return ref
    @staticmethod
    def parse(o):
        d = {}
        for l in o.decode('latin-1').split('\n'):
            if not l: continue
            k, _, v = l.partition('\t')
            d[k] = v
        return d
