"""C32: the system interface (open, read, write, lseek, stat, mkdir, unlink, dup, pipe, fork, ...): all operation histories
over a small file system, in lock-step with glibc on the same kernel; natively and as WebAssembly (WASI)."""
import os
from vlib import core, libx

FS = r'''
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#ifdef WASM
#define ERR(r) ((r) < 0 ? -1 : 0)
#else
#define ERR(r) ((r) < 0 ? -errno : 0)
extern int pipe2(int *, int);
#endif
static int fds[8], nfd, cur, prv;
static void slot(int r) { if (r >= 0) { prv = cur; cur = r; if (nfd < 8) fds[nfd++] = r; } o_i(r < 0 ? ERR(r) : 1); }
static void res(long r) { o_i(r < 0 ? ERR(r) : r); }
static void shows(int r, struct stat *s) {
  if (r < 0) { res(r); return; }
  o_c('0' + (((s->st_mode >> 12) & 15) == 8 ? 1 : ((s->st_mode >> 12) & 15) == 4 ? 2 : ((s->st_mode >> 12) & 15) == 2 ? 3 : ((s->st_mode >> 12) & 15) == 10 ? 4 : 9));
  if (((s->st_mode >> 12) & 15) != 4) { o_c('z'); o_i(s->st_size); }
#ifndef WASM
  o_c('m'); o_x(s->st_mode, 4); o_c('l'); o_i(s->st_nlink); o_c('u'); o_i(s->st_uid); o_c('g'); o_i(s->st_gid); if (((s->st_mode >> 12) & 15) != 2) { o_c('b'); o_i(s->st_blksize); }
  o_i(S_ISREG(s->st_mode) ? 1 : S_ISDIR(s->st_mode) ? 2 : 3);
#endif
}
static int sameino(const char *n) { struct stat a, b; if (cur < 0 || fstat(cur, &a) < 0 || stat(n, &b) < 0) return 2; return a.st_ino == b.st_ino && a.st_dev == b.st_dev; }
static char rb[16]; static int depthd, guard;
static int op(int k) {   // 0: not applicable here
  struct stat st; int p[2];
  switch (k) {
  case 0: slot(open("f", O_RDONLY)); break;
  case 1: slot(open("f", O_RDWR)); break;
  case 2: slot(open("f", O_WRONLY | O_CREAT | O_TRUNC, 0640)); break;
  case 3: slot(open("f", O_RDWR | O_CREAT | O_APPEND, 0600)); break;
  case 4: slot(open("n", O_WRONLY | O_CREAT | O_EXCL, 0666)); break;
  case 5: slot(open("d/g", O_CREAT | O_RDWR, 0644)); break;
  case 6: slot(open("x/y", O_CREAT | O_RDWR, 0644)); break;
  case 7: slot(open("d", O_WRONLY)); break;
  case 8: if (cur < 0) return 0; res(write(cur, "abc", 3)); break;
  case 9: if (cur < 0) return 0; for (int i = 0; i < 16; ++i) rb[i] = '#'; { long n = read(cur, rb, 4); res(n); for (int i = 0; i < 6; ++i) o_c(rb[i] ? rb[i] : '0'); } break;
  case 10: if (cur < 0) return 0; res(lseek(cur, 2, SEEK_SET)); break;
  case 11: if (cur < 0) return 0; res(lseek(cur, -1, SEEK_CUR)); break;
  case 12: if (cur < 0) return 0; res(lseek(cur, 3, SEEK_END)); break;
  case 13: if (cur < 0) return 0; res(close(cur)); break;
  case 14: { int t = cur; cur = prv; prv = t; o_c('s'); } break;
  case 15: if (cur < 0) return 0; { int r = fstat(cur, &st); shows(r, &st); } break;
  case 16: res(unlink("f")); break;
  case 17: res(unlink("d")); break;
  case 18: res(rmdir("d")); break;
  case 19: res(rmdir("f")); break;
  case 20: res(mkdir("d", 0750)); break;
  case 21: res(mkdir("m", 0777)); break;
  case 22: res(unlink("d/g")); break;
  case 23: res(remove("n")); break;
  case 24: o_i(sameino("f")); break;
  case 25: if (cur < 0) return 0; res(read(cur, rb, 0)); res(write(cur, "", 0)); break;
#ifdef WASM
  case 26: return 0;  /* off_t is 32-bit there */
#else
  case 26: if (cur < 0) return 0; { long n = lseek(cur, 0x100000001LL, SEEK_SET); o_i(n < 0 ? -1 : n == 0x100000001LL ? 1 : 0); res(lseek(cur, 0, SEEK_SET)); } break;
#endif
  case 27: slot(open("", O_RDONLY)); break;
#ifndef WASM
  case 28: if (cur < 0) return 0; slot(dup(cur)); break;
  case 29: { int r = pipe2(p, 04000); res(r); if (r == 0) { prv = p[1]; cur = p[0]; if (nfd < 7) { fds[nfd++] = p[0]; fds[nfd++] = p[1]; } } } break;
  case 30: res(chmod("f", 0400)); break;
  case 31: res(chmod("d", 0701)); break;
  case 32: { int r = chdir("d"); res(r); if (r == 0) ++depthd; } break;
  case 33: { if (!depthd) return 0; int r = chdir(".."); res(r); if (r == 0) --depthd; } break;
  case 34: { char b[300]; char *r = getcwd(b, sizeof(b)); if (r != b) res(-1); else { char *t = strrchr(b, '/'); o_s(t); } r = getcwd(b, 2); res(r == b ? 5 : -1); r = getcwd(NULL, 0); if (r) { o_s(strrchr(r, '/')); free(r); } else o_c('N'); } break;
  case 35: if (cur < 0) return 0; { errno = 0; int r = isatty(cur); o_i(r); } break;
  case 36: { int r = lstat("s", &st); shows(r, &st); r = stat("s", &st); shows(r, &st); } break;
  case 37: slot(openat(AT_FDCWD, "d/g", O_RDONLY)); break;
  case 38: res(unlinkat(AT_FDCWD, "d", AT_REMOVEDIR)); break;
  case 39: slot(open("f", O_RDONLY | O_CREAT, 0604)); break;
  case 40: res(mkdirat(AT_FDCWD, "d/h", 0711)); break;
  case 41: res(fchmodat(AT_FDCWD, "f", 0444, 0)); break;
  case 42: { int r = fork(); if (r == 0) { if (cur >= 0) { long z = write(cur, "C", 1); (void)z; lseek(cur, 1, SEEK_CUR); } o_len = 0; unlink("n"); exit(7); } int s = -1; int w = waitpid(r, &s, 0); o_i(r > 0 && w == r); o_i(s); s = -1; res(wait(&s)); } break;
  case 43: if (cur < 0) return 0; { int r = fork(); if (r == 0) { close(1); if (dup(cur) != 1) { o_len = 0; exit(3); } char *av[] = {"sh", "-c", "printf %%s \"$V\"; exit 9", NULL}; char *ev[] = {"V=exec", "PATH=/usr/bin:/bin", NULL}; o_len = 0; execve("/bin/sh", av, ev); exit(4); } int s = -1; waitpid(r, &s, 0); o_i(s); } break;
#endif
  default: return 0;
  }
  return 1;
}
static void one(const char *n) { struct stat st; errno = 0; int r = stat(n, &st); o_c(' '); shows(r, &st); }
static void snap(void) {
  one("f"); one("d"); one("n"); one("m"); one("d/g"); one("d/h");
#ifndef WASM
  { struct stat st; int r = fstatat(AT_FDCWD, "s", &st, AT_SYMLINK_NOFOLLOW); o_c(' '); shows(r, &st); }
#endif
  o_c(' '); int fd = open("f", O_RDONLY); if (fd >= 0) { char b[12]; for (int i = 0; i < 12; ++i) b[i] = 0; long n = read(fd, b, 12); o_i(n); for (int i = 0; i < 12; ++i) if (b[i]) o_c(b[i]); else o_c('0'); close(fd); }
}
static void reset(void) {
  for (int i = 0; i < nfd; ++i) close(fds[i]);
  nfd = 0; cur = prv = -1;
#ifndef WASM
  while (depthd) { if (chdir("..") < 0) break; --depthd; }
  chmod("d", 0755); chmod("f", 0644);
#endif
  unlink("f"); unlink("n"); unlink("d/g"); rmdir("d/h"); rmdir("d/m"); rmdir("d/d"); unlink("d/f"); unlink("d/n"); rmdir("d"); rmdir("m");
  mkdir("d", 0755);
  int fd = open("f", O_CREAT | O_WRONLY | O_TRUNC, 0644); if (fd < 0 || write(fd, "hello", 5) != 5) { o_s("reset failed\n"); o_flush(); exit(9); } close(fd);
}
static int path[8];
static void rec(int l) {
  // replay the path from a fresh state, print the last step and the state after it
  reset();
  int ok = 1, mark = o_len;
  for (int i = 0; i < l && ok; ++i) { if (i == l - 1) { o_s("fs"); for (int j = 0; j < l; ++j) { o_c(' '); o_i(path[j]); } o_c('\t'); mark = -1; } else mark = o_len; int before = o_len; ok = op(path[i]); if (i < l - 1) o_len = before; }
  if (!ok) { o_s("n/a\n"); return; }
  if (l > 0) { snap(); o_c('\n'); if (o_len > 30000) o_flush(); }
  if (l >= %(depth)d) return;
  for (int k = 0; k < %(nop)d; ++k) { if (%(skip)s) continue; path[l] = k; rec(l + 1); }
}
int main(void) {
#ifndef WASM
  extern unsigned umask(unsigned); 
#endif
  rec(0); reset(); o_flush(); return 0;
}
'''
def run():
    rep = core.Report('C32')
    b = core.Build(wcc=True)
    r = libx.LibRunner(rep, b)
    D = 3 if core.THOROUGH else 2
    rep.rule = 'all histories of <=%d of 44 system operations (28 under WASI) on a file system of one file, one directory and one symbolic link, each from a fresh state: result, error number, data read, status of every name, contents, after every step; reference glibc on the same kernel; under WASI success, data and sizes are compared' % (D + 1)
    os.umask(0o022)
    def go(t, nop, depth, skip, tag):
        src = libx.PRE + ('#define WASM\n' if t == 'w' else '') + FS.replace('%%s', '%%s') % dict(depth=depth, nop=nop, skip=skip)
        if t == 'w': src = src.replace('#include <sys/wait.h>\n', '')
        out = {}
        for tt in ('r', t):
            exe, err = r.compile(src, tt)
            if err:
                if tt == 'r': raise core.CheckError('reference: ' + err)
                rep.violation('fs/%s/compile' % t, err); return
            d = os.path.join(r.dir, 'fs_%s_%s_%s' % (tag, t, tt), 'w'); os.makedirs(d); os.symlink('f', os.path.join(d, 's'))
            rc, o, e = r.execute(exe, tt, cwd=d, timeout=300)
            if rc != 0 and tt == 'r': raise core.CheckError('reference driver failed: %s %s' % (rc, e[:300]))
            out[tt] = (rc, r.parse(o), e)
        ref, (rc, got, e) = out['r'][1], out[t]
        for k, v in ref.items():
            r.lines += 1
            if got.get(k) != v: rep.violation('fs/%s/%s' % (t, k), 'library gives %s, reference %s' % (got.get(k, '(no result)'), v))
        if rc != 0: rep.violation('fs/%s/end' % t, 'driver rc %s: %s' % (rc, e[:300]))
    jobs = []
    parts = 8
    deep = D + 1
    for i in range(parts):
        jobs.append(('x', 44, deep, 'l == 0 && k %% 8 != %d' % i, 'x%d' % i))
        jobs.append(('w', 28, min(deep, 3), 'l == 0 && k %% 8 != %d' % i, 'w%d' % i))
    core.pmap(lambda j: go(*j), jobs)
    rep.counts.update(states=r.lines, transitions=r.lines, histories=r.lines, traces_validated_against_impl=r.lines)
    rep.sample('open(f,RDWR|APPEND) write lseek(-1,CUR)'); rep.sample('mkdir(m) rmdir(d) open(d/g,CREAT)')
    return rep
