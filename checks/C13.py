"""C13: the headers tell the truth about the target. Every constant macro of the tree's headers that the platform also defines
must have the platform's value, width and signedness, in expressions and in #if; every limit must be the actual limit of its type;
every typedef, structure layout, status macro and format macro is compared over its whole domain."""
import os, re
from vlib import core, libx

HEADERS = ['limits.h', 'stdint.h', 'float.h', 'errno.h', 'fcntl.h', 'signal.h', 'stdlib.h', 'unistd.h', 'stdio.h', 'elf.h', 'sys/stat.h', 'sys/wait.h', 'sys/random.h', 'ar.h', 'math.h', 'time.h']
SKIP = {'RAND_MAX', 'NULL', 'NAN', 'INFINITY', 'HUGE_VAL', 'FLT_ROUNDS', '__ELF_H__', 'ARMAG', 'ARFMAG', 'errno', 'stdin', 'stdout', 'stderr', 'SIG_DFL', 'SIG_IGN', 'SIG_ERR',
        'BUFSIZ', 'NCC', 'TCGETA', '_WSTOPPED', 'st_atime', 'st_mtime', 'st_ctime', 'stat', 'fstat', 'lstat', 'fstatat', 'getc', 'getchar', 'putc', 'putchar'}   # implementation-defined, or not arithmetic constants
FLT = re.compile(r'(FLT|DBL|LDBL)_(MIN|MAX|EPSILON)$|M_[A-Z0-9_]+$')
# what differs between the ILP32 WebAssembly target and x86-64
WASM = {'LONG_MIN': '-2147483648 4 s', 'LONG_MAX': '2147483647 4 s', 'ULONG_MAX': '4294967295 4 u', 'INTPTR_MIN': '-2147483648 4 s', 'INTPTR_MAX': '2147483647 4 s', 'UINTPTR_MAX': '4294967295 4 u',
        'SIZE_MAX': '4294967295 4 u', 'PTRDIFF_MIN': '-2147483648 4 s', 'PTRDIFF_MAX': '2147483647 4 s'}
# Constants of the wasi/newlib environment, which follow it and not Linux.
WASM_ONLY_LIMITS = ['limits.h', 'stdint.h', 'float.h']

def macros(path):
    out = []
    for l in open(path, encoding='utf-8', errors='replace'):
        m = re.match(r'\s*#\s*define\s+([A-Za-z_]\w*)(?!\w|\()\s+\S', l)
        if m and m.group(1).startswith('FP_'): continue      # implementation-defined values
        if m and m.group(1) not in SKIP and m.group(1) not in out: out.append(m.group(1))
    return out

TYPES = ['int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t', 'intptr_t', 'uintptr_t', 'intmax_t', 'uintmax_t', 'size_t', 'ptrdiff_t', 'ssize_t', 'off_t', 'time_t']
LIMIT = [('char', 'CHAR'), ('short', 'SHRT'), ('int', 'INT'), ('long', 'LONG'), ('long long', 'LLONG'), ('int8_t', 'INT8'), ('int16_t', 'INT16'), ('int32_t', 'INT32'), ('int64_t', 'INT64'), ('intptr_t', 'INTPTR'), ('intmax_t', 'INTMAX')]
ULIMIT = [('unsigned char', 'UCHAR_MAX'), ('unsigned short', 'USHRT_MAX'), ('unsigned int', 'UINT_MAX'), ('unsigned long', 'ULONG_MAX'), ('unsigned long long', 'ULLONG_MAX'),
          ('uint8_t', 'UINT8_MAX'), ('uint16_t', 'UINT16_MAX'), ('uint32_t', 'UINT32_MAX'), ('uint64_t', 'UINT64_MAX'), ('uintmax_t', 'UINTMAX_MAX')]

def source(hdrs, names, wasm):
    s = ''.join('#include <%s>\n' % h for h in ['stddef.h', 'sys/types.h'] + hdrs)
    s += r'''
static void pi(const char *n, long long v, unsigned long long u, int size, int sgn) { o_s(n); o_c('\t'); if (sgn) o_i(v); else o_u(u); o_c(' '); o_i(size); o_c(' '); o_c(sgn ? 's' : 'u'); o_c('\n'); }
static void pd(const char *n, double d, int size) { o_s(n); o_c('\t'); o_x(o_bits(d), 16); o_c(' '); o_i(size); o_c('\n'); }
#define SGN(x) (-1 - (x) * 0 < (x) * 0)
int main(void) {
'''
    for n in names:
        s += '#ifdef %s\n' % n
        if FLT.match(n): s += '  pd("%s", %s, 0);\n' % (n, n)
        else:
            s += '  pi("%s", (long long)(%s), (unsigned long long)(%s), (int)sizeof(%s), SGN(%s));\n' % (n, n, n, n, n)
        s += '#endif\n'
    s += '  o_flush(); return 0;\n}\n'
    return s

COMMON = r'''
#include <stdint.h>
#include <limits.h>
#include <inttypes.h>
#include <stdio.h>
#include <sys/types.h>
#include <time.h>
#ifndef SS
#define SS(b) (b)
#endif
int main(void) {
  char b[100];
'''

def common(wasm):
    s = COMMON
    for t in TYPES:
        if wasm and t in ('off_t', 'time_t', 'ssize_t'): continue
        s += '  o_s("type/%s\\t"); o_i((int)sizeof(%s)); o_c((%s)-1 < (%s)0 ? \'s\' : \'u\'); o_c(\'\\n\');\n' % (t, t, t, t)
    # The limits are the limits of their types: computed from the type itself, on both sides.
    for t, n in LIMIT:
        s += '  { unsigned long long m = (~0ULL >> 1) >> (64 - 8 * sizeof(%s)); if (sizeof(%s) == 8) m = ~0ULL >> 1;\n' % (t, t)
        s += '    o_s("limit/%s\\t"); o_i((unsigned long long)%s_MAX == m && %s_MAX > 0); o_i((unsigned long long)(long long)%s_MIN == (unsigned long long)(-(long long)m - 1) && %s_MIN < 0); o_i((%s)%s_MAX == %s_MAX && (%s)%s_MIN == %s_MIN); o_i(%s_MIN + %s_MAX == -1); o_c(\'\\n\'); }\n' % (n, n, n, n, n, t, n, n, t, n, n, n, n)
        s += '#if %s_MAX > 0 && %s_MIN < 0 && %s_MIN + %s_MAX == -1\n  o_s("if/%s\\tyes\\n");\n#endif\n' % (n, n, n, n, n)
    for t, n in ULIMIT:
        s += '  o_s("ulimit/%s\\t"); o_i((%s)-1 == %s && %s > 0 && (%s)(%s + 1) == 0); o_c(\'\\n\');\n' % (n, t, n, n, t, n)
        s += '#if %s > 0 && %s / 2 * 2 + 1 == %s\n  o_s("if/%s\\tyes\\n");\n#endif\n' % (n, n, n, n)
    # format macros
    for m, t in (('PRId32', 'int32_t'), ('PRIu32', 'uint32_t'), ('PRIx32', 'uint32_t'), ('PRIdPTR', 'intptr_t'), ('PRIxPTR', 'uintptr_t'), ('PRId64', 'int64_t'), ('PRIu64', 'uint64_t'), ('PRIx64', 'uint64_t'), ('PRIdMAX', 'intmax_t'), ('PRIuMAX', 'uintmax_t'), ('PRIoMAX', 'uintmax_t')):
        if wasm and 'PTR' in m: continue     # the width differs between the targets
        s += '  { for (int k = 0; k < (int)sizeof(%s) * 8; ++k) for (int q = -1; q <= 1; ++q) { %s v = (%s)((1ULL << k) + q); snprintf(b, sizeof(b), "%%" %s ";%%d", v, 77); o_s("fmt/%s/"); o_i(k); o_c(\'/\'); o_i(q); o_c(\'\\t\'); o_s(b); o_c(\'\\n\'); } }\n' % (t, t, t, m, m)
    # adjacent arguments: the conversion must consume exactly its argument
    s += '  { int32_t a = -5; uint32_t c = 4000000000u; int64_t d = -6; snprintf(b, sizeof(b), "%" PRId32 " %" PRIu32 " %" PRIx32 " %" PRId64 " %d", a, c, c, d, 9); o_s("fmt/mix\\t"); o_s(b); o_c(\'\\n\'); }\n'
    s += '  o_flush(); return 0;\n}\n'
    return s

PLAT = r'''
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <elf.h>
#include <time.h>
#include <stdint.h>
#define OFF(S, f) o_s("off/" #S "." #f "\t"); o_i((int)((char*)&((struct S*)buf)->f - buf)); o_c(' '); o_i((int)sizeof(((struct S*)buf)->f)); o_c('\n')
#define OFT(S, f) o_s("off/" #S "." #f "\t"); o_i((int)((char*)&((S*)buf)->f - buf)); o_c(' '); o_i((int)sizeof(((S*)buf)->f)); o_c('\n')
#define SZ(S) o_s("size/" #S "\t"); o_i((int)sizeof(S)); o_c('\n')
int main(void) {
  static char buf[1000];
  OFF(stat, st_dev); OFF(stat, st_ino); OFF(stat, st_nlink); OFF(stat, st_mode); OFF(stat, st_uid); OFF(stat, st_gid); OFF(stat, st_rdev); OFF(stat, st_size); OFF(stat, st_blksize); OFF(stat, st_blocks); OFF(stat, st_mtime); SZ(struct stat);
  OFF(timespec, tv_sec); OFF(timespec, tv_nsec); SZ(struct timespec);
  OFT(Elf64_Ehdr, e_type); OFT(Elf64_Ehdr, e_entry); OFT(Elf64_Ehdr, e_phoff); OFT(Elf64_Ehdr, e_shoff); OFT(Elf64_Ehdr, e_shstrndx); SZ(Elf64_Ehdr);
  OFT(Elf64_Phdr, p_offset); OFT(Elf64_Phdr, p_align); SZ(Elf64_Phdr); OFT(Elf64_Shdr, sh_flags); OFT(Elf64_Shdr, sh_entsize); SZ(Elf64_Shdr);
  OFT(Elf64_Sym, st_value); OFT(Elf64_Sym, st_size); SZ(Elf64_Sym); OFT(Elf64_Rela, r_info); OFT(Elf64_Rela, r_addend); SZ(Elf64_Rela);
  for (int hi = 0; hi < 256; ++hi) {
    unsigned long long h = 1469598103934665603ULL;
    for (int lo = 0; lo < 256; ++lo) {
      int st = hi << 8 | lo; int v[4];
      v[0] = WIFEXITED(st) != 0; v[1] = v[0] ? WEXITSTATUS(st) : 0; v[2] = WIFSIGNALED(st) != 0; v[3] = v[2] ? WTERMSIG(st) : 0;
      for (int i = 0; i < 4; ++i) h = (h ^ (unsigned)v[i]) * 1099511628211ULL;
      int m = st; int z = (S_ISREG(m) != 0) + 2 * (S_ISDIR(m) != 0) + 4 * (S_ISCHR(m) != 0) + 8 * (S_ISBLK(m) != 0) + 16 * (S_ISLNK(m) != 0) + 32 * (S_ISSOCK(m) != 0) + 64 * (S_ISFIFO(m) != 0);
      h = (h ^ (unsigned)z) * 1099511628211ULL;
      h = (h ^ (unsigned)(ELF64_ST_BIND(lo) * 100 + ELF64_ST_TYPE(lo) * 3 + ELF64_ST_INFO(lo >> 4, lo & 15))) * 1099511628211ULL;
    }
    o_s("status/"); o_i(hi); o_c('\t'); o_x(h, 16); o_c('\n');
  }
  for (int a = 0; a < 64; ++a) for (int c = 0; c < 33; ++c) {
    uint64_t sym = 1ULL << (a & 31), ty = (1ULL << c) - 1; uint64_t i = ELF64_R_INFO(sym, ty & 0xffffffff);
    o_s("rinfo/"); o_i(a); o_c('/'); o_i(c); o_c('\t'); o_u(i); o_c(' '); o_u(ELF64_R_SYM(i)); o_c(' '); o_u(ELF64_R_TYPE(i)); o_c('\n');
  }
  o_flush(); return 0;
}
'''

CT = r'''
#include <ctype.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdarg.h>
#include <stdnoreturn.h>
struct A { char a; int b; char c; long long d; short e; char f[3]; double g; struct { char x; int y; } h; unsigned char z; };
static long long va(int n, ...) { va_list ap, aq; va_start(ap, n); va_copy(aq, ap); long long t = 0; for (int i = 0; i < n; ++i) t = t * 3 + va_arg(ap, int); for (int i = 0; i < n; ++i) t = t * 5 + va_arg(aq, int); va_end(ap); va_end(aq); return t; }
int main(void) {
#define O(f) o_s("offsetof/" #f "\t"); o_i((long long)offsetof(struct A, f)); o_c('\n')
  O(a); O(b); O(c); O(d); O(e); O(f); O(g); O(h); O(h.y); O(f[2]); O(z);
  { static int arr[offsetof(struct A, d)]; o_s("offsetof/const\t"); o_i((int)sizeof(arr) / (int)sizeof(int)); o_c('\n'); }
  { bool t = true, f = false; o_s("bool\t"); o_i(t + f * 2); o_i((bool)256); o_i((bool)0.5); o_c('\n'); }
  o_s("va\t"); o_i(va(9, 1, 2, 3, 4, 5, 6, 7, 8, 9)); o_c('\n');
  o_s("null\t"); o_i(NULL == (void*)0); o_i(sizeof(NULL) == sizeof(void*)); o_c('\n');
  { int k; const char *p = "x"; k = 0; o_s("ctype-once\t"); o_i(isdigit((k++, '5')) != 0); o_i(k); o_i(toupper((k++, 'a'))); o_i(k); o_c('\n'); }
  o_flush(); return 0;
}
'''

def run():
    rep = core.Report('C13')
    b = core.Build(wcc=True)
    r = libx.LibRunner(rep, b)
    inc = b.exe('include')
    rep.rule = 'every object-like constant macro of 16 headers that the platform headers also define: value, size, signedness; every limit against its type and usable in #if; every typedef; every structure offset; wait status and file mode macros over all 65536 values; format macros over every power of two and neighbours; native, and for the limits also WebAssembly'
    def one(h):
        names = macros(os.path.join(inc, h))
        if h in ('stdint.h',): names += [n for n in ('INT64_MIN', 'UINT64_MAX', 'INTPTR_MAX', 'INTPTR_MIN') if n not in names]
        if h == 'limits.h': names += [n for n in ('INT_MIN', 'INT_MAX', 'UINT_MAX', 'LONG_MIN', 'LONG_MAX', 'ULONG_MAX') if n not in names]
        src = source([h], names, False)
        ref = r.check('macro/' + h, src, targets=['x'])
        if h in WASM_ONLY_LIMITS:
            wref = {k: WASM.get(k, v) for k, v in ref.items()}
            r.check('macro/' + h, source([h], names, True), targets=['w'], ref=wref)
    core.pmap(one, HEADERS)
    r.check('common', common(False), targets=['x'])
    ref = None
    src = common(True)
    # The same truths hold on the ILP32 target; only widths differ.
    exe, err = r.compile(libx.PRE + src, 'r')
    if err: raise core.CheckError(err)
    rc, o, e = r.execute(exe, 'r'); ref = r.parse(o)
    for t in ('intptr_t', 'uintptr_t', 'size_t', 'ptrdiff_t'): ref['type/' + t] = '4' + ref['type/' + t][1]
    r.check('common', src, targets=['w'], ref=ref)
    r.check('platform', PLAT, targets=['x'])
    r.check('lang', CT)
    rep.counts.update(states=r.lines, transitions=r.lines, traces_validated_against_impl=r.lines)
    rep.sample('INTPTR_MIN; "%" PRId32 with -1; WEXITSTATUS(0x8000)')
    return rep
