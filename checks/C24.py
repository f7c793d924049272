"""C24: stdio streams. All operation sequences up to a depth on a stream (every mode, files around the buffer sizes),
lock-step with glibc; all short-read / short-write / failing-write fault points (native)."""
import os
from vlib import core, libx

SEQ = r'''
#include <stdio.h>
#include <fcntl.h>
static char FN[16] = "f.dat";
static void o_w(const char *s, int n) { o_c('"'); if (n > 12) { o_x(o_hash(s, n), 16); } else for (int i = 0; i < n; ++i) { unsigned char c = (unsigned char)s[i]; if (c >= 0x20 && c < 0x7f) o_c(c); else { o_c('\\'); o_hex(&c, 1); } } o_c('"'); }
static char *content(int n) { static char b[2000]; for (int i = 0; i < n; ++i) b[i] = (char)(i %% 13 == 9 ? '\n' : i %% 29 == 28 ? 0xff : i %% 31 == 30 ? 0 : 'a' + i %% 26); return b; }
static void mkfile(int n) { int fd = open(FN, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (n > 0 && write(fd, content(n), n) != n) exit(3); close(fd); }
static void dump(void) { static char b[6000]; int fd = open(FN, O_RDONLY), n = 0, k; while ((k = (int)read(fd, b + n, sizeof(b) - n)) > 0) n += k; close(fd); o_i(n); o_c(':'); o_w(b, n); }
enum { NONE, RD, WR };
static int last, pend, ateof, dead, wrote;  // discipline: reads and writes need a seek or flush in between; one pushed back character
#define MEM %(mem)d
static char line[64]; static char bigbuf[2000]; static char *gl; static size_t glcap;
static const char *const OPS[] = { %(opnames)s };
#define NOPS ((int)(sizeof(OPS) / sizeof(*OPS)))
static int canread, canwrite, isapp;
static int legal(int op) {
  char k = OPS[op][0];
  if (k == 'r') return canread && last != WR;
  if (k == 'u') return canread && last == RD && !pend && !ateof;
  if (k == 'w') return canwrite && (last != RD || (ateof && !pend));
  if (k == 'f') return last != RD;   // fflush of an input stream is undefined in C
  return 1;
}
static void step(FILE *fp, int op) {
  const char *o = OPS[op]; char k = o[0], s = o[1]; int n = 0; for (const char *p = o + 2; *p; ++p) if (*p >= '0' && *p <= '9') n = n * 10 + *p - '0'; if (o[2] == '-') n = -n;
  if (k == 'r') {
    if (s != 'z') last = RD;
    if (s == 'c') { int c = fgetc(fp); o_i(c); pend = 0; if (c == EOF) ateof = 1; }
    else if (s == 'r') { int r = (int)fread(bigbuf, 1, n, fp); o_i(r); o_w(bigbuf, r); if (r) pend = 0; if (r < n) ateof = 1; }
    else if (s == 'R') { int r = (int)fread(bigbuf, 4, n, fp); o_i(r); o_w(bigbuf, r * 4); pend = 0; if (r < n) ateof = 1; }
    else if (s == 'z') { int r = (int)fread(bigbuf, 0, n, fp); o_i(r); r = (int)fread(bigbuf, n, 0, fp); o_i(r); }
    else if (s == 's') { if (n == 1) last = NONE; bigbuf[0] = 'Q'; char *r = fgets(bigbuf, n, fp); if (!r) { o_s("NULL"); ateof = 1; } else { o_w(r, (int)strlen(r)); if (n > 1) pend = 0; if ((int)strlen(r) < n - 1 && !strchr(r, '\n')) ateof = ateof ? 1 : feof(fp) != 0; } }
    else if (s == 'l') { int r = (int)getline(&gl, &glcap, fp); o_i(r); if (r >= 0) { o_w(gl, r); o_i(gl[r]); o_i((int)glcap > r); pend = 0; if (gl[r - 1] != '\n') ateof = 1; } else ateof = 1; }
  } else if (k == 'u') { int c = s == 'E' ? EOF : s == 'h' ? 0xfe : 'U'; o_i(ungetc(c, fp)); if (c != EOF) pend = 1; }
  else if (k == 'w') {
    last = WR; if (s != 'z' && !(s == 's' && n == 0)) wrote = 1;   // the position of an append stream is defined after a write
    if (s == 'c') o_i(fputc(n, fp));
    else if (s == 's') o_i(fputs(n == 0 ? "" : n == 1 ? "hello" : "two\nlines\n", fp) >= 0);
    else if (s == 'w') o_i((int)fwrite(content(1000), 1, n, fp));
    else if (s == 'W') o_i((int)fwrite(content(1000), 3, n, fp));
    else if (s == 'z') { o_i((int)fwrite(bigbuf, 0, n, fp)); o_i((int)fwrite(bigbuf, n, 0, fp)); }
    else if (s == 'p') o_i(fprintf(fp, "<%%d>", n));
  } else if (k == 'f') { o_i(s == 'N' ? fflush(NULL) : fflush(fp)); last = NONE; }
  else if (k == 's') { int r = fseek(fp, n, s == 'S' ? SEEK_SET : s == 'C' ? SEEK_CUR : SEEK_END); o_i(r); if (r == 0) { last = NONE; pend = 0; ateof = 0; wrote = 0; } else if (pend || MEM) dead = 1; /* the pushed back character: unspecified */ }
  else if (k == 't') { if (!isapp || wrote) o_i(ftell(fp)); }
  else if (k == 'e') { o_i(feof(fp) != 0); }
}
static const char *mode; static int flen; static int path[8];
#if MEM
static char membuf[64]; static char *mp; static size_t ms;
#endif
static void runpath(int d, int obs) {
  o_s(mode); o_c(' '); o_i(flen); if (obs) o_s(" obs"); for (int i = 0; i < d; ++i) { o_c(' '); o_s(OPS[path[i]]); } o_c('\t');
  FILE *fp;
#if MEM == 1
  memcpy(membuf, content(64), 64); fp = fmemopen(membuf, flen, mode);
#elif MEM == 2
  mp = NULL; ms = 77; fp = open_memstream(&mp, &ms);
#else
  mkfile(flen); fp = fopen(FN, mode);
#endif
  if (!fp) { o_s("open failed\n"); return; }
  last = NONE; pend = ateof = dead = wrote = 0;
  for (int i = 0; i < d && !dead; ++i) { step(fp, path[i]); o_c(' '); if (obs && !dead) { if (!isapp || wrote) o_i(ftell(fp)); o_c(feof(fp) ? 'E' : 'e'); o_c(' '); } }
  o_c('|'); if (dead) { fclose(fp); o_c('\n'); return; } o_i(feof(fp) != 0); if (!isapp || wrote) o_i(ftell(fp));
  o_i(fclose(fp)); o_c(' ');
#if MEM == 1
  o_w(membuf, 64);
#elif MEM == 2
  o_i((int)ms); o_w(mp, (int)ms + 1); free(mp);
#else
  dump();
#endif
  o_c('\n');
}
// the legality of an operation depends on results, so a path is replayed to reach its state
static void dfs(int d, int depth) {
  if (d > 0) runpath(d, 0);
  if (d > 0 && d <= 2) runpath(d, 1);
  if (d == depth || (d > 0 && dead)) return;
  int l = last, p = pend, e = ateof;
  for (int i = 0; i < NOPS; ++i) {
    last = l; pend = p; ateof = e;
    if (!legal(i)) continue;
    if (d > 0 && (OPS[i][0] == 'e' || OPS[i][0] == 't') && OPS[path[d - 1]][0] == OPS[i][0]) continue;
    path[d] = i; dfs(d + 1, depth);
  }
}
int main(void) {
  static const char *const M[] = { %(modes)s }; static const int L[] = { %(lens)s };
  for (int m = 0; m < (int)(sizeof(M) / sizeof(*M)); ++m) for (int k = 0; k < (int)(sizeof(L) / sizeof(*L)); ++k) {
    mode = M[m]; flen = L[k]; dead = 0;
    canread = mode[0] == 'r' || strchr(mode, '+'); canwrite = mode[0] != 'r' || strchr(mode, '+'); isapp = mode[0] == 'a';
    last = NONE; pend = ateof = 0; dfs(0, %(depth)d);
  }
#if !MEM
  remove(FN);
#endif
  o_flush(); return 0;
}
'''
ROPS = ['rc', 'rr3', 'rr130', 'rr255', 'rr256', 'rr300', 'rR1', 'rR70', 'rz3', 'rs1', 'rs2', 'rs5', 'rs300', 'rl', 'uU', 'uh', 'uE', 'sS0', 'sS2', 'sC1', 'sC-1', 'sC-3', 'sE0', 'sE-2', 'sS-1', 't', 'e']
ROPS3 = ['rc', 'rr3', 'rr300', 'rs5', 'rl', 'uU', 'sS2', 'sC-1', 'sC1', 'sE0', 'sE-2', 't', 'e']
WOPS = ['wc65', 'wc10', 'wc255', 'ws0', 'ws1', 'ws2', 'ww127', 'ww128', 'ww129', 'ww300', 'wW50', 'wz3', 'wp7', 'f', 'fN', 'sS0', 'sS2', 'sC-1', 'sC2', 'sE0', 'sE3', 't']
WOPS3 = ['wc65', 'ws0', 'ws2', 'ww128', 'ww300', 'f', 'sS2', 'sC-1', 'sE0', 't']
RWOPS = ['rc', 'rr3', 'rr300', 'rs5', 'uU', 'wc65', 'ws2', 'ww130', 'f', 'sS0', 'sS2', 'sC0', 'sC-1', 'sE0', 't', 'e']
MOPS = ['wc65', 'ws1', 'ws2', 'ww10', 'wp7', 'f', 't']

FAULT_S = '''	.text
	.globl raw_read
raw_read:
	mov $0, %eax
	syscall
	ret
	.globl raw_write
raw_write:
	mov $1, %eax
	syscall
	ret
'''
# the driver replaces read/write; the library's streams run on top of it
FAULT = r'''
#include <stdio.h>
#include <fcntl.h>
#include <errno.h>
long raw_read(int, void*, size_t); long raw_write(int, const void*, size_t);
static int ncall, fk, fkind, faulted;   // fault at call number fk: kind 0 none, 1 short by one byte, 2 only one byte, 3 error, 4 every call short, 5 every call from fk fails
static long lim(long n) { if (n <= 1) return n; if (fkind == 4) return n < 3 ? 1 : n / 3; if (ncall != fk) return n; return fkind == 1 ? n - 1 : fkind == 2 ? 1 : n; }
static int err(void) { if ((fkind == 3 && ncall == fk) || (fkind == 5 && ncall >= fk)) { faulted = 1; errno = fkind == 5 ? ENOSPC : EIO; return 1; } return 0; }
ssize_t read(int fd, void *b, size_t n) { if (fd <= 2) return raw_read(fd, b, n); ++ncall; if (err()) return -1; return raw_read(fd, b, lim(n)); }
ssize_t write(int fd, const void *b, size_t n) { if (fd <= 2) return raw_write(fd, b, n); ++ncall; if (err()) return -1; return raw_write(fd, b, lim(n)); }
static char C[1200], B[1200];
static int rscript(FILE *fp, int s) {
  int n = 0, c; size_t k; 
  switch (s) {
  case 0: while ((c = fgetc(fp)) != EOF) B[n++] = (char)c; break;
  case 1: while ((k = fread(B + n, 1, 7, fp)) > 0) n += (int)k; break;
  case 2: while ((k = fread(B + n, 1, 300, fp)) > 0) n += (int)k; break;
  case 3: n = (int)fread(B, 1, 1000, fp); break;
  case 4: while (fgets(B + n, 40, fp)) n += (int)strlen(B + n); break;
  case 5: { char *l = NULL; size_t cap = 0; long r; while ((r = getline(&l, &cap, fp)) > 0) { memcpy(B + n, l, r); n += (int)r; } free(l); break; }
  case 6: n = (int)fread(B, 1, 100, fp); fseek(fp, 50, SEEK_CUR); fseek(fp, -50, SEEK_CUR); n += (int)fread(B + n, 1, 900, fp); break;
  case 7: while ((c = fgetc(fp)) != EOF) { ungetc(c, fp); if ((k = fread(B + n, 1, 3, fp)) > 0) n += (int)k; } break;
  }
  return n;
}
static int wscript(FILE *fp, int s, int len) {
  int ok = 1, i;
  switch (s) {
  case 0: for (i = 0; i < len; ++i) ok &= fputc(C[i], fp) == (unsigned char)C[i]; break;
  case 1: for (i = 0; i < len; i += 7) { int k = len - i < 7 ? len - i : 7; ok &= (int)fwrite(C + i, 1, k, fp) == k; } break;
  case 2: ok &= (int)fwrite(C, 1, len, fp) == len; break;
  case 3: for (i = 0; i < len; i += 50) { int k = len - i < 50 ? len - i : 50; ok &= (int)fwrite(C + i, 1, k, fp) == k; if (i %% 100 == 0) ok &= fflush(fp) == 0; } break;
  case 4: for (i = 0; i < len; i += 90) { int k = len - i < 90 ? len - i : 90; ok &= fprintf(fp, "%%.*s", k, C + i) == k; } break;
  case 5: ok &= (int)fwrite(C, 1, len / 2, fp) == len / 2; ok &= fseek(fp, 0, SEEK_CUR) == 0; ok &= (int)fwrite(C + len / 2, 1, len - len / 2, fp) == len - len / 2; break;
  }
  return ok;
}
int main(void) {
  static const int L[] = { 0, 1, 5, 100, 128, 129, 256, 300, 700 };
  for (int i = 0; i < 1200; ++i) C[i] = (char)(i %% 37 == 36 ? '\n' : 'a' + (i * 7 + i / 26) %% 26);
  for (int li = 0; li < (int)(sizeof(L) / sizeof(*L)); ++li) {
    int len = L[li];
    for (int s = 0; s < 8; ++s) for (int kind = 0; kind <= 4; ++kind) for (int k = 1; k <= 24; ++k) {
      if ((kind == 0 || kind == 4) && k > 1) break;
      if (kind == 3 && (s == 7 || s == 6)) continue;
      fkind = 0; int fd = open("g.dat", O_WRONLY | O_CREAT | O_TRUNC, 0644); if (len) raw_write(fd, C, len); close(fd);
      FILE *fp = fopen("g.dat", "r"); ncall = 0; fk = k; fkind = kind; faulted = 0;
      int n = rscript(fp, s); int eof = feof(fp) != 0; int cr = fclose(fp);
      if (k > ncall && k > 1) break;
      o_s("read script "); o_i(s); o_s(" len "); o_i(len); o_s(" kind "); o_i(kind); o_s(" call "); o_i(k); o_c('\t');
      int okc = memcmp(B, C, n) == 0;
      if (!faulted) { if (s == 3 && 0) ; o_s(n == len && okc && (eof || s == 6 || s == 3) && cr == 0 ? "ok" : "bad"); if (n != len || !okc) { o_c(' '); o_i(n); } }
      else o_s(n <= len && okc ? "ok" : "bad error");
      o_c('\n');
    }
    for (int s = 0; s < 6; ++s) for (int kind = 0; kind <= 5; ++kind) for (int k = 1; k <= 40; ++k) {
      if ((kind == 0 || kind == 4) && k > 1) break;
      FILE *fp = fopen("g.dat", "w"); ncall = 0; fk = k; fkind = kind; faulted = 0;
      int ok = wscript(fp, s, len); int cr = fclose(fp); 
      if (k > ncall && k > 1) break;
      fkind = 0; int fd = open("g.dat", O_RDONLY), n = 0, r; while ((r = (int)raw_read(fd, B + n, 1200 - n)) > 0) n += r; close(fd);
      o_s("write script "); o_i(s); o_s(" len "); o_i(len); o_s(" kind "); o_i(kind); o_s(" call "); o_i(k); o_c('\t');
      int okc = n == len && memcmp(B, C, n) == 0;
      // without errors everything arrives; after an error the loss is reported by some operation
      if (!faulted) o_s(ok && cr == 0 && okc ? "ok" : "bad"); else o_s(okc || !ok || cr != 0 ? "ok" : "unreported");
      o_c('\n');
    }
  }
  unlink("g.dat"); o_flush(); return 0;
}
'''
STD = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(int argc, char **argv) {
  int c, n = 0;
  switch (argv[1][0]) {
  case 'c': while ((c = getchar()) != EOF) { putchar(c); ++n; } break;
  case 'g': { char b[10]; while (fgets(b, sizeof b, stdin)) { fputs(b, stdout); ++n; } break; }
  case 'r': { char b[100]; size_t k; while ((k = fread(b, 1, 100, stdin)) > 0) { fwrite(b, 1, k, stdout); ++n; } break; }
  case 'u': while ((c = getchar()) != EOF) { ungetc(c, stdin); c = getchar(); putc(c, stdout); ++n; } break;
  case 'p': puts(""); puts("x"); printf("%d", 5); fputs("", stdout); puts("y"); break;
  case 'l': { char *l = NULL; size_t cap = 0; while (getline(&l, &cap, stdin) > 0) { printf("%s", l); ++n; } break; }
  }
  fprintf(stderr, "%d %d\n", argv[1][0] == 'r' ? 0 : n, feof(stdin) != 0);
  if (argv[1][1] == 'x') exit(5);
  return 4;
}
'''

def cq(l): return ', '.join('"%s"' % x for x in l)

def run():
    rep = core.Report('C24')
    b = core.Build(wcc=True)
    r = libx.LibRunner(rep, b)
    T = core.THOROUGH
    rep.rule = 'all sequences of stream operations up to the depth bound (27 read ops depth 2, 13 read ops depth 3, 22 write ops depth 2, 10 write ops depth 3, 16 mixed ops depth 3; thorough one deeper) obeying the C rules for mixing reads and writes x open modes x file lengths around the buffer sizes; results, position, end-of-file flag after each step and final file contents = glibc; memory streams; for 14 transfer scripts x 9 lengths, every read/write system call in turn made short or failing'
    def conf(ops, modes, lens, depth, mem=0): return SEQ % dict(opnames=cq(ops), modes=cq(modes), lens=', '.join(map(str, lens)), depth=depth, mem=mem)
    d = 1 if T else 0
    jobs = []
    for m in ('r', 'rb'):
        jobs.append(('rd2/%s' % m, conf(ROPS, [m], [0, 1, 5, 255, 256, 257, 300, 600], 2)))
    for L in (0, 1, 2, 5, 256, 300):
        jobs.append(('rd3/%d' % L, conf(ROPS3, ['r'], [L], 3 + d)))
        jobs.append(('rw3/%d' % L, conf(RWOPS, ['r+'], [L], 3 + d)))
    for m in ('w+', 'a+', 'rb+', 'r+b', 'w+b'): jobs.append(('rw/%s' % m, conf(RWOPS, [m], [0, 5, 300] if m != 'a+' else [0, 5], 3 if m in ('w+', 'r+b') else 2)))
    for m in ('w', 'wb', 'a', 'ab'):
        jobs.append(('wr2/%s' % m, conf(WOPS if m[0] == 'w' else [o for o in WOPS if o[0] not in 's'], [m], [0, 5, 300], 2)))
        jobs.append(('wr3/%s' % m, conf(WOPS3 if m[0] == 'w' else [o for o in WOPS3 if o[0] not in 's'], [m], [0, 5], 3 + d)))
    jobs.append(('mem/r', conf(['rc', 'rr3', 'rr40', 'rs5', 'rs40', 'rl', 'uU', 'sS0', 'sS2', 'sC1', 'sC-1', 'sE0', 'sE-2', 'sS-1', 't', 'e'], ['r', 'rb'], [1, 5, 20], 3, 1)))
    jobs.append(('mem/grow', conf(MOPS, ['w'], [0], 4, 2)))
    core.pmap(lambda j: r.check(*j), jobs)
    # faults (native): the expected value of every line is ok
    src = libx.PRE + FAULT.replace('%%', '%')
    s = os.path.join(r.dir, 'raw.s')
    with open(s, 'w') as f: f.write(FAULT_S)
    exe, err = r.compile(src, 'x', [s])
    nf = 0
    if err: rep.violation('fault/compile', err, src)
    else:
        rc, o, e = r.execute(exe, 'x')
        if rc != 0: rep.violation('fault/run', 'rc %s %s' % (rc, e[:200]), src)
        for k, v in r.parse(o).items():
            nf += 1
            if v != 'ok': rep.violation('fault/' + k.replace(' ', '_'), v, src)
        if nf < 1000: rep.violation('fault/count', 'only %d fault points reached' % nf, src)
    # standard streams
    exes = {}
    for t in ('x', 'w', 'r'):
        exes[t], err = r.compile(STD, t)
        if err: raise (core.CheckError if t == 'r' else core.TreeError)(err)
    inputs = [b'', b'\n', b'a', b'a\nb', bytes(range(1, 256)), (b'line\n' * 60), b'x' * 256, b'x' * 300 + b'\n' + b'y' * 300]
    for mode in ('c', 'g', 'r', 'u', 'p', 'l', 'cx', 'px'):
        for i, inp in enumerate(inputs):
            ref = r.execute(exes['r'], 'r', [mode], inp)
            for t in ('x', 'w'):
                got = r.execute(exes[t], t, [mode], inp)
                nf += 1
                if got != ref: rep.violation('std/%s/%s/%d' % (t, mode, i), 'library %s, reference %s' % (str(got)[:200], str(ref)[:200]), STD)
    n = r.lines + nf
    rep.counts.update(states=n, transitions=n * 3, traces_validated_against_impl=n)
    rep.sample('mode r+ len 300: rr300 sC-1 ww130 f rc'); rep.sample('write script 3 len 700, 4th write short by one byte')
    return rep
