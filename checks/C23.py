"""C23: the heap. All sequences of malloc/calloc/realloc/free up to a depth, explored by forking the process at every
state (native) or by depth-first replay (WebAssembly); a shadow model checks every state. Also under memory limits."""
import os
from vlib import core, libx

HEAP = r'''
#include <stdint.h>
#ifndef NOFORK
#include <sys/wait.h>
#endif
#define NSLOT 3
static const size_t SZ[] = { %(sizes)s };
#define NSZ ((int)(sizeof(SZ) / sizeof(*SZ)))
#define ALIGN %(align)d
#define DEPTH %(depth)d
#define LEAK %(leak)d
#define LIMITED %(limited)d
struct slot { unsigned char *p; size_t n; int tag; };
static struct slot S[NSLOT]; static int tag;
static int path[16], plen;
static int bad;
static void fail(const char *why) { if (bad) return; bad = 1; o_s("\nBAD "); o_s(why); o_s(" path"); for (int i = 0; i < plen; ++i) { o_c(' '); o_i(path[i]); } o_c('\n'); }
static unsigned char pat(int t, size_t i) { return (unsigned char)(t * 31 + i * 7 + (i >> 8) + 1); }
#define STEP(i, n) ((i) < 64 || (i) + 64 >= (n) ? 1 : 53)
static void fillslot(struct slot *s) { for (size_t i = 0; i < s->n; i += STEP(i, s->n)) s->p[i] = pat(s->tag, i); }
static void checkall(void) {
  for (int i = 0; i < NSLOT; ++i) {
    struct slot *s = &S[i];
    if (!s->p) continue;
    if ((uintptr_t)s->p %% ALIGN) fail("alignment");
    for (size_t k = 0; k < s->n; k += STEP(k, s->n)) if (s->p[k] != pat(s->tag, k)) { fail("contents of a live block changed"); break; }
    for (int j = 0; j < i; ++j) if (S[j].p && S[j].p < s->p + s->n && s->p < S[j].p + S[j].n) fail("live blocks overlap");
    for (int j = 0; j < i; ++j) if (S[j].p && S[j].p == s->p) fail("same pointer twice");
  }
}
// op: slot * 100 + kind: 0..9 malloc size k, 10..19 calloc, 20..29 realloc, 30 free, 31 realloc(p, 0) unused
static int doop(int op) {
  struct slot *s = &S[op / 100]; int k = op %% 100; size_t n;
  if (k < 10) {
    n = SZ[k]; unsigned char *p = malloc(n);
    if (!p) { if (n && !LIMITED) fail("malloc failed"); return 0; }
    s->p = p; s->n = n; s->tag = ++tag; fillslot(s);
  } else if (k < 20) {
    n = SZ[k - 10]; unsigned char *p = calloc(n & 1 ? 1 : n / 2, n & 1 ? n : 2);
    if (!p) { if (n && !LIMITED) fail("calloc failed"); return 0; }
    for (size_t i = 0; i < n; ++i) if (p[i]) { fail("calloc block not zero"); break; }
    s->p = p; s->n = n; s->tag = ++tag; fillslot(s);
  } else if (k < 30) {
    n = SZ[k - 20]; size_t m = n < s->n ? n : s->n;
    unsigned char *p = realloc(s->p, n);
    if (!p) { if (!LIMITED) fail("realloc failed"); return 0; }
    if (s->p) { for (size_t i = 0; i < m; i += STEP(i, s->n)) if (p[i] != pat(s->tag, i)) { fail("realloc lost contents"); break; } }
    s->p = p; s->n = n; s->tag = ++tag; fillslot(s);
  } else { free(s->p); s->p = NULL; s->n = 0; }
  return 1;
}
static int ops(int *out) {
  int n = 0, seen = 0;
  for (int i = 0; i < NSLOT; ++i) {
    if (!S[i].p) {
      if (seen) continue;   // empty slots are interchangeable
      seen = 1;
      for (int k = 0; k < NSZ; ++k) out[n++] = i * 100 + k;
      out[n++] = i * 100 + 10 + NSZ / 2; if (NSZ > 2) out[n++] = i * 100 + 10 + 1;
      if (i == 0) out[n++] = i * 100 + 20 + 1;   // realloc(NULL, n)
    } else {
      out[n++] = i * 100 + 30;
      for (int k = 0; k < NSZ; ++k) if (SZ[k]) out[n++] = i * 100 + 20 + k;
    }
  }
  return n;
}
static void freeall(void) { for (int i = 0; i < NSLOT; ++i) { free(S[i].p); S[i].p = NULL; S[i].n = 0; } }
#ifndef NOFORK
static void leak(void) {
  char *b0 = NULL;
  for (int r = 0; r < 2500; ++r) {
    freeall();
    for (int i = 0; i < plen; ++i) {
      struct slot *s = &S[path[i] / 100]; int k = path[i] %% 100;
      if (k < 10) { s->p = malloc(SZ[k]); } else if (k < 20) s->p = calloc(SZ[k - 10], 1); else if (k < 30) { s->p = realloc(s->p, SZ[k - 20]); } else { free(s->p); s->p = NULL; }
    }
    if (r == 20) b0 = sbrk(0);
  }
  freeall();
  if ((char*)sbrk(0) - b0 > 65536) fail("heap grows without bound although everything is freed");
}
static void explore(void) {
  int o[64], n = ops(o);
  for (int i = 0; i < n; ++i) {
    if (plen == 0 && (i %% %(shards)d) != SHARD) continue;
    o_flush();
    int pid = fork();
    if (pid < 0) exit(7);
    if (pid == 0) {
      path[plen++] = o[i];
      doop(o[i]); checkall(); o_c('.');
      if (bad) { o_flush(); exit(1); }
      if (plen < DEPTH) explore();
      else { freeall(); }
      if (LEAK && plen == LEAK && !bad) leak();
      o_flush(); exit(bad);
    }
    int st = 0;
    if (waitpid(pid, &st, 0) != pid) { o_s("\nHARNESS waitpid\n"); o_flush(); exit(8); }
    if ((st & 0x7f) != 0) { path[plen++] = o[i]; bad = 0; fail("crash"); bad = 0; --plen; }
  }
}
int main(int argc, char **argv) {
  SHARD = atoi(argv[1]);
  explore(); o_flush();
  return 0;
}
#else
// replay: each sequence from whatever state the previous ones left (all freed)
static int seq[16];
static void dfs(int d) {
  freeall();
  for (int i = 0; i < d; ++i) { path[i] = seq[i]; plen = i + 1; doop(seq[i]); checkall(); if (bad) { o_flush(); exit(1); } }
  o_c('.');
  if (d == DEPTH) return;
  int o[64], n = ops(o);
  for (int i = 0; i < n; ++i) { seq[d] = o[i]; dfs(d + 1); }
}
int main(void) { dfs(0); o_flush(); return 0; }
#endif
'''.replace('static int path[16], plen;', 'static int path[16], plen; static int SHARD;')

HUGE = r'''
#include <stdint.h>
#include <errno.h>
int main(void) {
  size_t M = (size_t)-1;
  size_t big[] = { M, M - 1, M - 7, M - 8, M - 15, M - 16, M - 17, M - 31, M - 32, M - 4095, M - 4096, M - 8192, M / 2, M / 2 + 1, M / 2 - 15, M / 2 - 4096, M / 2 - 4112, M / 2 - 5000, M / 4 * 3, M - M / 16 };
  if (sizeof(size_t) == 4) for (int i = 12; i < 18; ++i) big[i] = M;   // 2 GB may be available there
  unsigned char *keep = malloc(100); for (int i = 0; i < 100; ++i) keep[i] = (unsigned char)i;
  for (int i = 0; i < 20; ++i) {
    o_s("malloc huge "); o_i(i); o_c('\t'); { void *p = malloc(big[i]); o_i(p == NULL || (sizeof(size_t) == 4 && big[i] <= M / 2)); free(p); } o_c('\n');
    o_s("calloc huge "); o_i(i); o_c('\t'); o_i(calloc(1, big[i]) == NULL); o_i(calloc(big[i], 1) == NULL); o_i(calloc(big[i], 2) == NULL); o_c('\n');
    o_s("realloc huge "); o_i(i); o_c('\t'); o_i(realloc(keep, big[i]) == NULL); o_c('\n');
    // the heap still works
    unsigned char *p = malloc(50), *q = malloc(5000); int ok = p && q; for (int k = 0; k < 50; ++k) p[k] = 0xaa; for (int k = 0; k < 5000; ++k) q[k] = 0xbb; for (int k = 0; k < 100; ++k) if (keep[k] != k) ok = 0;
    o_s("after huge "); o_i(i); o_c('\t'); o_i(ok); o_c('\n'); free(p); free(q);
  }
  size_t h = (size_t)1 << (sizeof(size_t) * 4);
  size_t a[] = { h, h + 1, h * 2, M / 2 + 1, M / 3 + 1, M / 16 + 1, M / 8 + 2, M };
  for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) { o_s("calloc ovf "); o_i(i); o_c(' '); o_i(j); o_c('\t'); o_i(calloc(a[i], a[j]) == NULL); o_c('\n'); }
  for (int i = 2; i < 40; ++i) { o_s("calloc ovf1 "); o_i(i); o_c('\t'); o_i(calloc(M / i + 1, i) == NULL); o_i(calloc(i, M / i + 1) == NULL); o_c('\n'); }
  { void *p = calloc(0, 5), *q = calloc(5, 0); o_s("calloc 0\t"); o_i(1); o_c('\n'); free(p); free(q); free(NULL); }
  o_flush(); return 0;
}
'''

def run():
    rep = core.Report('C23')
    b = core.Build(wcc=True)
    r = libx.LibRunner(rep, b)
    T = core.THOROUGH
    rep.rule = 'every sequence of malloc/calloc/realloc/free over 3 blocks and the size set up to the depth bound, the process forked at every state; invariants in every state: alignment, no overlap, contents preserved, calloc zeroed, NULL only when memory is exhausted; every shorter sequence repeated 2500 times must not grow the heap; the same under RLIMIT_DATA; huge and overflowing sizes'
    states = [0]
    SH = 8
    # (name, sizes, depth, leak depth, limit KB)
    confs = [('mixed', '1, 24, 40, 4100', 5 if not T else 6, 3, 0), ('page', '16, 4064, 4080, 4096, 20000', 4 if not T else 5, 2, 0), ('zero', '0, 8, 17, 1000', 5 if not T else 6, 0, 0),
             ('limit', '100, 5000, 30000, 120000', 5 if not T else 6, 0, 240)]
    jobs = []
    for nm, sizes, depth, leak, lim in confs:
        src = libx.PRE + HEAP % dict(sizes=sizes, align=16, depth=depth, leak=leak, limited=1 if lim else 0, shards=SH)
        exe, err = r.compile(src, 'x')
        if err: rep.violation('heap/%s/compile' % nm, err, src); continue
        for sh in range(SH): jobs.append((nm, exe, src, sh, lim))
    def job(j):
        nm, exe, src, sh, lim = j
        cmd = [exe, str(sh)] if not lim else ['sh', '-c', 'ulimit -d %d; exec "$0" "$1"' % lim, exe, str(sh)]
        rc, o, e = core.sh(cmd, timeout=600, cwd=r.dir)
        o = o.decode('latin-1')
        if rc != 0 or 'HARNESS' in o: raise (core.CheckError if 'HARNESS' in o else core.TreeError)('heap driver %s: rc %s %s' % (nm, rc, o[-200:]))
        states[0] += o.count('.')
        for l in o.split('\n'):
            if l.startswith('BAD'):
                rep.violation('heap/%s/%s' % (nm, l[4:].strip().replace(' ', '_')), l, src)
        return o.count('.')
    tot = sum(core.pmap(job, jobs))
    # WebAssembly
    for nm, sizes, depth in (('wmixed', '1, 24, 40, 4100', 4), ('wpage', '0, 4064, 4096, 70000', 3)):
        src = '#define NOFORK\n' + libx.PRE + HEAP % dict(sizes=sizes, align=8, depth=depth + T, leak=0, limited=0, shards=1)
        exe, err = r.compile(src, 'w')
        if err: rep.violation('heap/%s/compile' % nm, err, src); continue
        rc, o, e = r.execute(exe, 'w')
        o = o.decode('latin-1'); tot += o.count('.')
        if rc != 0 or 'BAD' in o: rep.violation('heap/%s/run' % nm, 'rc %s: %s %s' % (rc, [l for l in o.split('\n') if l.startswith('BAD')], e[:200]), src)
    r.check('huge', HUGE)
    rep.counts.update(states=tot + r.lines, transitions=tot + r.lines, traces_validated_against_impl=tot + r.lines)
    rep.sample('malloc 4100; realloc 40; malloc 1; free 0; calloc 40')
    return rep
