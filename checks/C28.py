"""C28: qsort, bsearch, absolute values, random sequences, environment look-up, temporary names; native and WebAssembly."""
from vlib import core, libx

SORT = r'''
#define SZ %(sz)d
static unsigned char guard0[16], A[SZ * 1100 + 16], B[SZ * 1100 + 16]; static int mode, badptr; static long calls; static int N;
static unsigned key(const void *p) { const unsigned char *q = p; unsigned v = q[0]; if (SZ > 1) v |= (unsigned)q[SZ - 1] << 8; return v; }
static void set(unsigned char *p, unsigned v, int tag) { for (int i = 0; i < SZ; ++i) p[i] = (unsigned char)(v * 7 + tag * 3 + i); p[0] = (unsigned char)v; if (SZ > 1) p[SZ - 1] = (unsigned char)(v >> 8); }
static int cmp(const void *a, const void *b) {
  const unsigned char *p = a, *q = b; ++calls;
  if (p < A || p >= A + N * SZ || (p - A) %% SZ) badptr |= 1;
  if (q < A || q >= A + N * SZ || (q - A) %% SZ) badptr |= 1;
  if (calls > 40000000L) { o_s("too many comparisons\n"); o_flush(); exit(3); }
  unsigned x = key(a), y = key(b);
  switch (mode) {
  case 0: return x < y ? -1 : x > y;
  case 1: return x < y ? 2147483647 : x > y ? -2147483647 - 1 : 0;
  case 2: return (int)x - (int)y;
  case 3: return (int)(x & 1) - (int)(y & 1);
  default: return 0;
  }
}
static int lt(unsigned x, unsigned y) { switch (mode) { case 0: case 2: return x < y; case 1: return x > y; case 3: return (x & 1) < (y & 1); default: return 0; } }
static unsigned long long hsum(const unsigned char *p, int n) { unsigned long long s = 0; for (int i = 0; i < n; ++i) { unsigned long long h = o_hash(p + i * SZ, SZ); s += h * h + h; } return s; }
static int one(int n) {
  int r = 0; unsigned long long h = hsum(A, n);
  N = n; calls = 0; badptr = 0; for (int i = 0; i < 16; ++i) A[n * SZ + i] = (unsigned char)(0xC0 + i);
  qsort(A, n, SZ, cmp);
  for (int i = 1; i < n; ++i) if (lt(key(A + i * SZ), key(A + (i - 1) * SZ))) r |= 1;
  if (hsum(A, n) != h) r |= 2;
  for (int i = 0; i < 16; ++i) { if (A[n * SZ + i] != (unsigned char)(0xC0 + i)) r |= 4; if (guard0[i]) r |= 4; }
  if (badptr) r |= 8;
  return r;
}
int main(void) {
  for (mode = 0; mode < 5; ++mode) {
    for (int n = 0; n <= %(maxn)d; ++n) {
      long tot = 1; for (int i = 0; i < n; ++i) tot *= %(k)d;
      for (long c = 0; c < tot; ++c) {
        long x = c; for (int i = 0; i < n; ++i) { set(A + i * SZ, (unsigned)(x %% %(k)d), i); x /= %(k)d; }
        int r = one(n);
        if (r) { o_s("qsort size "); o_i(SZ); o_s(" mode "); o_i(mode); o_s(" n "); o_i(n); o_s(" code "); o_i(c); o_c('\t'); o_i(r); o_c('\n'); }
      }
    }
    // all permutations of distinct keys
    for (int n = 1; n <= %(perm)d; ++n) {
      long f = 1; for (int i = 2; i <= n; ++i) f *= i;
      for (long c = 0; c < f; ++c) {
        int used = 0; long x = c; for (int i = 0; i < n; ++i) { int k = (int)(x %% (n - i)); x /= n - i; int v = 0; for (;; ++v) if (!(used >> v & 1) && k-- == 0) break; used |= 1 << v; set(A + i * SZ, v, 0); }
        int r = one(n);
        if (r) { o_s("qsort perm size "); o_i(SZ); o_s(" mode "); o_i(mode); o_s(" n "); o_i(n); o_s(" code "); o_i(c); o_c('\t'); o_i(r); o_c('\n'); }
      }
    }
    // long patterned arrays
    static const int LN[] = {15, 16, 17, 31, 64, 100, 255, 256, 257, 1000};
    for (int li = 0; li < 10; ++li) for (int pat = 0; pat < 8; ++pat) {
      int n = LN[li]; unsigned s = 12345;
      for (int i = 0; i < n; ++i) {
        unsigned v; s = s * 1103515245u + 12345;
        switch (pat) { case 0: v = i; break; case 1: v = n - i; break; case 2: v = 5; break; case 3: v = i < n / 2 ? i : n - i; break; case 4: v = i & 1; break; case 5: v = s >> 16; break; case 6: v = i %% 7; break; default: v = i == n - 1 ? 0 : i + 1; break; }
        set(A + i * SZ, SZ == 1 ? v & 255 : v & 65535, i);
      }
      int r = one(n);
      o_s("qsort long size "); o_i(SZ); o_s(" mode "); o_i(mode); o_s(" n "); o_i(n); o_s(" pat "); o_i(pat); o_c('\t'); o_i(r); o_c('\n');
    }
  }
  o_s("end\tok\n"); o_flush(); return 0;
}
'''
SEARCH = r'''
static int bad; static const void *K; static const char *lo, *hi; static int SZ_, rev;
static int cmp(const void *k, const void *e) { const char *p = e; if (k != K) bad |= 1; if (p < lo || p >= hi || (p - lo) % SZ_) bad |= 2; int a = *(const signed char*)k, b = *(const signed char*)e; if (rev) return a < b ? 1000 : a > b ? -1000 : 0; return a < b ? -5 : a > b ? 2147483647 : 0; }
int main(void) {
  static const int S[] = {1, 2, 3, 8, 12};
  static char A[16 * 12];
  for (rev = 0; rev < 2; ++rev)
  for (int si = 0; si < 5; ++si) { SZ_ = S[si];
    for (int n = 0; n <= 7; ++n) for (int m = 0; m < 1 << 9; ++m) {
      // non-decreasing sequences: n steps out of the mask
      int v = -1, k = 0; signed char val[8]; int mm = m; while (k < n && v < 8) { if (mm & 1) { ++v; } else val[k++] = (signed char)v; mm >>= 1; if (!mm && k < n) { while (k < n) val[k++] = (signed char)v; } }
      if (k < n) continue;
      for (int i = 0; i < n; ++i) { for (int j = 0; j < SZ_; ++j) A[i * SZ_ + j] = (char)(i * 9 + j); A[i * SZ_] = (char)val[rev ? n - 1 - i : i]; }
      for (signed char key = -2; key <= 9; ++key) {
        signed char kk = key; K = &kk; lo = A; hi = A + n * SZ_; bad = 0;
        char *r = bsearch(&kk, A, n, SZ_, cmp); int have = 0; for (int i = 0; i < n; ++i) if (A[i * SZ_] == key) have = 1;
        int res = bad; if ((r != NULL) != have) res |= 4; if (r && (r < lo || r >= hi || (r - lo) % SZ_ || *r != key)) res |= 8;
        if (res) { o_s("bsearch rev "); o_i(rev); o_s(" size "); o_i(SZ_); o_s(" n "); o_i(n); o_s(" mask "); o_i(m); o_s(" key "); o_i(key); o_c('\t'); o_i(res); o_c('\n'); }
      }
    }
  }
  o_s("end\tok\n"); o_flush(); return 0;
}
'''
RAND = r'''
static void X(unsigned short *x) { for (int i = 0; i < 3; ++i) { o_x(x[i], 4); } }
int main(void) {
  static const unsigned short E[] = {0, 1, 0x7fff, 0x8000, 0xffff, 0x330e, 0x1234};
  for (int a = 0; a < 7; ++a) for (int b = 0; b < 7; ++b) for (int c = 0; c < 7; ++c) {
    unsigned short x[3] = {E[a], E[b], E[c]};
    o_s("nrand48 "); X(x); o_c('\t'); for (int i = 0; i < 4; ++i) { o_i(nrand48(x)); o_c(' '); X(x); o_c(' '); } o_c('\n');
    x[0] = E[c]; x[1] = E[a]; x[2] = E[b];
    o_s("erand48 "); X(x); o_c('\t'); int bad = 0; for (int i = 0; i < 4; ++i) { double d = erand48(x); if (!(d >= 0 && d < 1)) bad = 1; o_i((long long)(d * 2147483648.0)); o_c(' '); X(x); o_c(' '); } o_i(bad); o_c('\n');
  }
  static const long SD[] = {0, 1, -1, 2147483647L, -2147483647L - 1, 65535, 65536, 123456789};
  for (int s = 0; s < 8; ++s) {
    o_s("srand48 "); o_i(SD[s]); o_c('\t'); srand48(SD[s]); for (int i = 0; i < 50; ++i) { o_i(lrand48()); o_c(' '); } int bad = 0; for (int i = 0; i < 50; ++i) { double d = drand48(); if (!(d >= 0 && d < 1)) bad = 1; o_i((long long)(d * 2147483648.0)); o_c(' '); } o_i(bad); o_c('\n');
    o_s("srand "); o_i(SD[s]); o_c('\t'); srand((unsigned)SD[s]); int r[200], ok = 1, diff = 0; for (int i = 0; i < 200; ++i) { r[i] = rand(); if (r[i] < 0 || r[i] > RAND_MAX) ok = 0; if (i && r[i] != r[0]) diff = 1; } srand((unsigned)SD[s]); for (int i = 0; i < 200; ++i) if (rand() != r[i]) ok = 0; o_i(ok); o_i(diff); o_c('\n');
  }
  static const long long V[] = {0, 1, -1, 127, -128, 32767, -32768, 65536, -65536, 2147483647LL, -2147483647LL, -2147483648LL + 1, 4294967296LL, -4294967296LL, 9223372036854775807LL, -9223372036854775807LL};
  for (int i = 0; i < 16; ++i) { o_s("abs "); o_i(V[i]); o_c('\t'); if (V[i] <= 2147483647LL && V[i] >= -2147483647LL) { o_i(abs((int)V[i])); o_c(' '); o_i(labs((long)V[i])); } o_c(' '); o_i(llabs(V[i])); o_c('\n'); }
  o_flush(); return 0;
}
'''
ENV = r'''
extern char **environ;
int main(void) {
  static char *E[] = {"A=1", "AB=2", "A=dup", "B=", "=x", "A", "ABC=a=b", "a=low", "B=2"};
  static const char *Q[] = {"A", "AB", "B", "ABC", "a", "Z", "ABCD"};
  char *v[8];
  for (int n = 0; n <= %(n)d; ++n) { long tot = 1; for (int i = 0; i < n; ++i) tot *= 9; for (long c = 0; c < tot; ++c) {
    long x = c; for (int i = 0; i < n; ++i) { v[i] = E[x %% 9]; x /= 9; } v[n] = NULL; environ = v;
    o_s("getenv "); o_i(n); o_c(' '); o_i(c); o_c('\t'); for (int q = 0; q < 7; ++q) { o_str(getenv(Q[q])); o_c(' '); } o_c('\n');
  } }
  environ = NULL; o_s("getenv null\t"); o_str(getenv("A")); o_c('\n');
  o_flush(); return 0;
}
'''
TMPN = r'''
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <stdio.h>
int mkstemps(char *, int);
int main(void) {
  static const char *T[] = {"", "XXXXX", "XXXXXX", "aXXXXXX", "aXXXXXXX", "aXXXXXx", "XXXXXXb", "a.XXXXXX.c", "dXXXXX.cc", "a/XXXXXX", "YXXXXXX", "xXXXXXX.cXX"};
  for (int i = 0; i < 12; ++i) for (int s = -1; s <= 4; ++s) {
    if (s >= 0 && (int)strlen(T[i]) < s) continue;
    char b[32]; strcpy(b, T[i]); errno = 0;
    int fd = s < 0 ? mkstemp(b) : mkstemps(b, s); int e = errno;
    o_s("mkstemp "); o_s(T[i]); o_c(' '); o_i(s); o_c('\t');
    if (fd < 0) { o_i(fd); o_c(' '); o_i(e == EINVAL ? 1 : e == ENOENT ? 2 : 3); }
    else {
      int n = (int)strlen(b), ok = n == (int)strlen(T[i]), k = s < 0 ? 0 : s; struct stat st;
      for (int j = 0; j < n && ok; ++j) { if (j < n - 6 - k || j >= n - k) { if (b[j] != T[i][j]) ok = 0; } else if (!(b[j] >= '0' && b[j] <= '9' || b[j] >= 'a' && b[j] <= 'z' || b[j] >= 'A' && b[j] <= 'Z')) ok = 0; }
      char z[4] = ""; o_s("fd "); o_i(ok); o_i(write(fd, "xyz", 3)); o_i(lseek(fd, 0, SEEK_SET)); o_i(read(fd, z, 3)); o_s(z);
      struct stat t; if (stat(b, &st) == 0) { o_c(' '); o_i(st.st_size); 
#ifndef __wasm
      o_c(' '); o_i(st.st_mode & 07777);
#endif
      }
      // a second call gives another name
      char c[32]; strcpy(c, T[i]); int f2 = s < 0 ? mkstemp(c) : mkstemps(c, s); o_c(' '); o_i(f2 >= 0 && strcmp(b, c) != 0);
      if (f2 >= 0) { close(f2); unlink(c); } close(fd); unlink(b);
    }
    o_c('\n');
  }
  o_flush(); return 0;
}
'''
def run():
    rep = core.Report('C28')
    b = core.Build(wcc=True)
    r = libx.LibRunner(rep, b)
    rep.rule = 'qsort on every array of <=n elements over k keys and every permutation of distinct keys, element sizes 1-40, five comparison functions (extreme results, partial order, constant), long patterned arrays; bsearch on every sorted array x key x size; the 48-bit generators from all boundary states; getenv on every environment vector of the bound; template names of mkstemp. Reference: the definition (sorting, searching) and glibc. Native and WebAssembly.'
    T = core.THOROUGH
    jobs = []
    for sz in (1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 40):
        d = dict(sz=sz, k=4, maxn=(9 if T else 6), perm=(8 if T else 7) if sz in (1, 4, 8, 24) else 5)
        jobs.append(('qsort%d' % sz, SORT % d))
    jobs += [('bsearch', SEARCH), ('rand', RAND), ('env', ENV % dict(n=5 if T else 4)), ('mkstemp', TMPN)]
    def go(j):
        fam, src = j
        r.check(fam, src, targets=('x',) if fam in ('env', 'mkstemp') else ('x', 'w'), timeout=300)
    core.pmap(go, jobs)
    n = sum(4 ** i for i in range((9 if T else 6) + 1)) * 5 * 11 * 2
    rep.counts.update(states=r.lines + n, transitions=r.lines + n, traces_validated_against_impl=r.lines + n)
    rep.sample('qsort size 3 mode 1 n 6 code 2741'); rep.sample('nrand48 ffff7fff8000'); rep.sample('getenv 3 "AB=2" "A=1" "A"')
    return rep
