"""Pairwise exhaustive execution of enumerated C programs (x86-64).

Every case is a C fragment whose identifiers Q_* are made unique; it is compiled once by the tree under
test (xcc -c, i.e. its cpp, cc1 and as) and once by the reference compiler, both objects are linked into
one process together with a driver (reference compiler + glibc) and the driver runs BOTH versions on
every element of the case's input space, comparing the returned value and the whole observation trace.
"""
import os, re
from . import core

QRE = re.compile(r'\bQ_([A-Za-z0-9_]*)')

PRELUDE = '''
typedef signed char i8; typedef unsigned char u8; typedef short i16; typedef unsigned short u16;
typedef int i32; typedef unsigned int u32; typedef long i64; typedef unsigned long u64;
typedef long long ill; typedef unsigned long long ull;
extern void T(ill v); extern void TD(double d); extern void TF(float f); extern void TB(const void *p, u64 n);
'''

DRIVER = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <sys/time.h>
typedef long long ill; typedef unsigned long long ull;
#define CAP 2048
static ull buf[2][CAP]; static ull cnt[2], hsh[2]; static int cur; static ull total_events;
void T(ill v) { if (cnt[cur] < CAP) buf[cur][cnt[cur]] = v; ++cnt[cur]; hsh[cur] = (hsh[cur] ^ (ull)v) * 0x100000001b3ULL; hsh[cur] ^= hsh[cur] >> 29;
  if (cnt[cur] > 2000000) { raise(SIGXCPU); } }
void TD(double d) { ull u; if (d != d) u = 0x7ff8dead00000000ULL; else memcpy(&u, &d, 8); T(u); }
void TF(float f) { unsigned u; if (f != f) u = 0x7fc0dead; else memcpy(&u, &f, 4); T(u); }
void TB(const void *p, unsigned long n) { const unsigned char *q = p; ull h = n; for (unsigned long i = 0; i < n; ++i) { h = h * 1099511628211ULL + q[i]; if (n <= 64) T(q[i]); } T(h); }
static sigjmp_buf jb; static volatile int sigcode;
static void onsig(int s) { sigcode = s; siglongjmp(jb, 1); }
struct C { int id, kind; void *x, *r; const ull *va; int na; const ull *vb; int nb; };
%(decls)s
static const struct C cases[] = {
%(table)s
};
static long nev;
/* Calls f(a, b) with known values in every callee-saved register and reports whether they (and the stack pointer) survive. */
void *tramp_sp; ull tramp(void *f, ull a, ull b, int *bad);
__asm__(".text\n.globl tramp\ntramp:\n push %%rbx\n push %%rbp\n push %%r12\n push %%r13\n push %%r14\n push %%r15\n push %%rcx\n"
  "mov %%rdi, %%rax\n mov %%rsi, %%rdi\n mov %%rdx, %%rsi\n mov $0x1234567, %%rbx\n lea 1(%%rbx), %%rbp\n lea 2(%%rbx), %%r12\n lea 3(%%rbx), %%r13\n lea 4(%%rbx), %%r14\n lea 5(%%rbx), %%r15\n"
  "mov %%rsp, tramp_sp(%%rip)\n call *%%rax\n xor %%ecx, %%ecx\n cmp %%rsp, tramp_sp(%%rip)\n je 1f\n or $1, %%ecx\n1: mov tramp_sp(%%rip), %%rsp\n"
  "cmp $0x1234567, %%rbx\n je 1f\n or $2, %%ecx\n1: cmp $0x1234568, %%rbp\n je 1f\n or $4, %%ecx\n1: cmp $0x1234569, %%r12\n je 1f\n or $8, %%ecx\n"
  "1: cmp $0x123456a, %%r13\n je 1f\n or $16, %%ecx\n1: cmp $0x123456b, %%r14\n je 1f\n or $32, %%ecx\n1: cmp $0x123456c, %%r15\n je 1f\n or $64, %%ecx\n1:\n"
  "pop %%rdx\n mov %%ecx, (%%rdx)\n pop %%r15\n pop %%r14\n pop %%r13\n pop %%r12\n pop %%rbp\n pop %%rbx\n ret\n");
static int once(int w, void *f, int kind, ull a, ull b, ull *ret) {
  cur = w; cnt[w] = 0; hsh[w] = 1; sigcode = 0;
  struct itimerval it = {{0, 0}, {%(tmo)d, 0}}; setitimer(ITIMER_REAL, &it, 0);
  if (sigsetjmp(jb, 1) == 0) {
    static int bad; bad = 0;
    *ret = tramp(f, a, b, &bad);
    if (kind == 0) *ret = 0;
    return bad ? 1000 + bad : 0;
  }
  return sigcode;
}
int main(int argc, char **argv) {
  int lo = argc > 1 ? atoi(argv[1]) : 0, hi = argc > 2 ? atoi(argv[2]) : (int)(sizeof(cases) / sizeof(*cases));
  static char altst[1 << 16];
  stack_t ss = {.ss_sp = altst, .ss_size = sizeof altst}; sigaltstack(&ss, 0);
  int sigs[] = {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGALRM, SIGXCPU, SIGTRAP, SIGABRT};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; ++i) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(sigs[i], &sa, 0); }
  for (int i = lo; i < hi; ++i) {
    const struct C *c = &cases[i];
    int bad = 0;
    for (int p = 0; p < c->na && !bad; ++p) for (int q = 0; q < c->nb && !bad; ++q) {
      ull a = c->va ? c->va[p] : 0, b = c->vb ? c->vb[q] : 0, rx = 0, rr = 0;
      int s0 = once(0, c->x, c->kind, a, b, &rx);
      int s1 = once(1, c->r, c->kind, a, b, &rr);
      if (s1 == SIGALRM || s1 == SIGXCPU) { printf("REFHANG %%d\n", c->id); bad = 1; continue; }
      if (s1 && s1 != SIGFPE) { printf("REFHANG %%d signal %%d\n", c->id, s1); bad = 1; continue; }
      ++nev; total_events += cnt[1];
      if (s0 != s1 || (!s0 && (rx != rr || cnt[0] != cnt[1] || hsh[0] != hsh[1]))) {
        bad = 1;
        printf("MISMATCH %%d a=%%llx b=%%llx got sig=%%d ret=%%llx n=%%llu want sig=%%d ret=%%llx n=%%llu", c->id, a, b, s0, rx, cnt[0], s1, rr, cnt[1]);
        for (ull k = 0; k < CAP && k < cnt[0] && k < cnt[1]; ++k) if (buf[0][k] != buf[1][k]) { printf(" first trace diff at %%llu: got %%llx want %%llx", k, buf[0][k], buf[1][k]); break; }
        printf("\n"); fflush(stdout);
      }
    }
  }
  printf("DONE %%d %%ld %%llu\n", hi - lo, nev, total_events);
  return 0;
}
'''

class Case:
    __slots__ = ('id', 'code', 'kind', 'va', 'vb', 'idx', 'xcode', 'orig_code')
    def __init__(self, id, code, va=None, vb=None, kind=None):
        self.id, self.code, self.va, self.vb = id, code, va, vb
        self.kind = kind if kind is not None else (1 if va is not None else 0)
        self.xcode = self.orig_code = None

XRE = re.compile(r'\b(X_|R_|MA_|MB_)([A-Za-z0-9_]*)')
def subst(code, pfx):
    code = QRE.sub(lambda m: pfx + m.group(1), code)
    if 'X_' in code or 'R_' in code or 'MA_' in code:
        # X_/R_: always the version compiled by the tree under test / by the reference.  MA_: on the x side calls
        # reference code that calls x code.  MB_: plain x code calling x code.  On the r side both are reference code.
        side, idx = pfx[0], pfx[1:]
        def rep(m):
            k, n = m.groups()
            if k == 'X_': return 'x' + idx + n
            if k == 'R_': return 'r' + idx + n
            if k == 'MA_': return 'r' + idx + n + ('X' if side == 'x' else 'R')
            return pfx + n + ('X' if side == 'x' else 'R')
        code = XRE.sub(rep, code)
    return code

def _text(cases, side, prelude):
    out = [PRELUDE, prelude]
    for c in cases:
        out.append(subst(c.code, '%s%d_' % (side, c.idx)))
    return '\n'.join(out)

class PairRunner:
    def __init__(self, rep, build, prelude='', xflags=(), rflags=(), ref=('gcc', '-std=gnu17', '-O0', '-w', '-fwrapv', '-fno-strict-aliasing', '-fno-builtin', '-fexcess-precision=standard', '-ffp-contract=off'),
                 shard=1200, tag='', tmo=20, reject_is_violation=True, driver_extra=''):
        self.driver_extra = driver_extra
        self.rep, self.b, self.prelude = rep, build, prelude
        self.xflags, self.rflags, self.ref = list(xflags), list(rflags), list(ref)
        self.shard, self.tag, self.tmo = shard, tag, tmo
        self.dir = core.scratch('pair')
        self.n = 0
        self.reject_is_violation = reject_is_violation
        self.bad = []

    def _xcompile(self, cases, base):
        src = base + '.x.c'
        with open(src, 'w') as f: f.write(_text(cases, 'x', self.prelude))
        rc, o, e = core.sh([self.b.xcc, '-c', '-o', base + '.x.o'] + self.xflags + [src], timeout=300, cwd=self.dir)
        return rc, e.decode('utf-8', 'replace')

    def run(self, cases):
        cases = list(cases)
        for i, c in enumerate(cases): c.idx = i
        shards = [cases[i:i + self.shard] for i in range(0, len(cases), self.shard)]
        base0 = os.path.join(self.dir, 'b%d' % self.n); self.n += 1
        res = core.pmap(lambda s: self._run_shard(s[1], '%s_%d' % (base0, s[0])), list(enumerate(shards)))
        nev = 0
        for (probs, ev, tr) in res:
            nev += ev
            self.rep.count('transitions', tr)
            for c, text in probs:
                self.bad.append(c.id)
                self.rep.violation(self.tag + c.id, text, replay='/* xcc flags: %s */\n' % ' '.join(self.xflags) + PRELUDE + self.prelude + subst(c.code, 'Q_'))
        self.rep.count('programs', len(cases))
        self.rep.count('states', nev)
        self.rep.count('traces_validated_against_impl', nev)
        for c in cases[:: max(1, len(cases) // 3)][:2]:
            self.rep.sample({'case': self.tag + c.id, 'program': c.code[:400]})
        return nev

    def _fails_compile(self, cases, base):
        """Bisects a failing compile down to the offending cases; returns (good, [(case, err)])."""
        rc, err = self._xcompile(cases, base)
        if rc == 0:
            return cases, []
        if len(cases) == 1:
            if rc == 'timeout': err = 'timeout ' + err
            return [], [(cases[0], 'compiler failed (rc=%s) on a valid program: %s' % (rc, err.strip()[:600]))]
        m = len(cases) // 2
        g1, b1 = self._fails_compile(cases[:m], base)
        if len(b1) > 24:
            return g1, b1
        g2, b2 = self._fails_compile(cases[m:], base)
        return g1 + g2, b1 + b2

    def _run_shard(self, cases, base):
        probs = []
        rc, err = self._xcompile(cases, base)
        if rc != 0:
            good, bads = self._fails_compile(cases, base)
            if self.reject_is_violation:
                probs += bads
            cases = good
            if not cases: return probs, 0, 0
            rc, err = self._xcompile(cases, base)
            if rc != 0:
                probs.append((cases[0], 'compiler fails on this set of programs together: %s' % err[:500]))
                return probs, 0, 0
        with open(base + '.r.c', 'w') as f: f.write(_text(cases, 'r', self.prelude))
        rc, o, e = core.sh(self.ref + self.rflags + ['-c', '-o', base + '.r.o', base + '.r.c'], timeout=600, cwd=self.dir)
        if rc != 0:
            raise core.CheckError('reference compiler rejects a case: ' + e.decode('utf-8', 'replace')[:2000])
        decls, table, arrs = [], [], {}
        def arr(v):
            if v is None: return '0', 1
            key = tuple(v)
            if key not in arrs:
                arrs[key] = 'av%d' % len(arrs)
                decls.append('static const ull %s[] = {%s};' % (arrs[key], ','.join('%dULL' % (x & (2**64 - 1)) for x in key)))
            return arrs[key], len(key)
        for c in cases:
            nm = 'main' if c.kind == 0 else 'f'
            decls.append('extern void x%d_%s(void); extern void r%d_%s(void);' % (c.idx, nm, c.idx, nm))
            a, na = arr(c.va); b, nb = arr(c.vb)
            table.append('{%d,%d,(void*)x%d_%s,(void*)r%d_%s,%s,%d,%s,%d},' % (c.idx, c.kind, c.idx, nm, c.idx, nm, a, na, b, nb))
        with open(base + '.d.c', 'w') as f:
            f.write(DRIVER.replace('static sigjmp_buf', self.driver_extra.replace('%', '%%') + '\nstatic sigjmp_buf', 1) % {'decls': '\n'.join(decls), 'table': '\n'.join(table), 'tmo': self.tmo})
        rc, o, e = core.sh(['gcc', '-O1', '-w', '-fno-stack-protector', '-fcf-protection=none', '-c', '-o', base + '.d.o', base + '.d.c'], timeout=300)
        if rc != 0: raise core.CheckError('driver: ' + e.decode()[:2000])
        rc, o, e = core.sh(['gcc', '-no-pie', '-w', '-o', base + '.exe', base + '.d.o', base + '.x.o', base + '.r.o', '-lm', '-Wl,-z,noexecstack'], timeout=120)
        if rc != 0:
            if len(cases) == 1:
                return probs + [(cases[0], 'object produced by the compiler cannot be linked: ' + e.decode('utf-8', 'replace')[:800])], 0, 0
            m = len(cases) // 2
            p1, n1, t1 = self._run_shard(cases[:m], base); p2, n2, t2 = ([], 0, 0) if len(p1) > 12 else self._run_shard(cases[m:], base)
            if not p1 and not p2:
                p1 = [(cases[0], 'objects of this set cannot be linked together: ' + e.decode('utf-8', 'replace')[:800])]
            return probs + p1 + p2, n1 + n2, t1 + t2
        byidx = {c.idx: c for c in cases}
        nev, ntr = 0, 0
        work = [(0, len(cases))]
        nfail = 0
        while work:
            lo, hi = work.pop()
            rc, o, e = core.sh([base + '.exe', str(lo), str(hi)], timeout=600, cwd=self.dir)
            text = o.decode('utf-8', 'replace')
            m = re.search(r'^DONE (\d+) (\d+) (\d+)$', text, re.M)
            if m and rc == 0:
                nev += int(m.group(2)); ntr += int(m.group(3))
                if 'REFHANG' in text: raise core.CheckError('reference does not terminate normally on case ' + byidx[int(text.split('REFHANG ')[1].split()[0])].id)
                for line in text.split('\n'):
                    if line.startswith('MISMATCH '):
                        c = byidx[int(line.split()[1])]
                        k = cases.index(c)
                        rc2, o2, e2 = core.sh([base + '.exe', str(k), str(k + 1)], timeout=600, cwd=self.dir)
                        if rc2 == 0 and 'MISMATCH' not in o2.decode('utf-8', 'replace') and hi - lo == 1:
                            continue    # not reproducible (an overloaded machine): not reported
                        if rc2 == 0 and 'MISMATCH' not in o2.decode('utf-8', 'replace'):
                            line += ' (only after the preceding cases in the same process)'
                            if 'sig=14' in line: continue
                        probs.append((c, line))
            elif hi - lo == 1:
                probs.append((cases[lo], 'test process died (rc=%s): %s' % (rc, text[:200])))
                nfail += 1
                if nfail > 20: break
            else:
                mid = (lo + hi) // 2
                work += [(lo, mid), (mid, hi)]
        for ext in ('.x.c', '.r.c', '.d.c', '.x.o', '.r.o', '.d.o', '.exe'):
            try: os.unlink(base + ext)
            except OSError: pass
        return probs, nev, ntr
