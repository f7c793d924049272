"""C33: every input is either translated or diagnosed at its place; nothing crashes, hangs or is silently accepted against the rules."""
import collections, itertools, os, re, subprocess
from vlib import core

RUNNER = r'''
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
/* runner LIST OUT cmd... [--then cmd...] : each NUL-terminated record of LIST is the standard input of cmd; its output, when it succeeds, that of the second */
static int one(int in, int so, int er, char **av) {
  struct rlimit rl = {2000000000, 2000000000}, rc = {10, 10}, r0 = {0, 0}, rf = {100000000, 100000000};
  pid_t c = vfork();
  if (c == 0) {
    lseek(in, 0, SEEK_SET); lseek(er, 0, SEEK_SET); dup2(in, 0); dup2(so, 1); dup2(er, 2);
    setrlimit(RLIMIT_AS, &rl); setrlimit(RLIMIT_CPU, &rc); setrlimit(RLIMIT_CORE, &r0); setrlimit(RLIMIT_FSIZE, &rf);
    execv(av[0], av); _exit(127);
  }
  int s; waitpid(c, &s, 0); return WIFSIGNALED(s) ? -WTERMSIG(s) : WEXITSTATUS(s);
}
int main(int argc, char **argv) {
  int fd = open(argv[1], O_RDONLY); struct stat st; fstat(fd, &st);
  char *m = mmap(0, st.st_size + 1, PROT_READ, MAP_PRIVATE, fd, 0);
  FILE *out = fopen(argv[2], "w");
  int in = memfd_create("in", 0), er = memfd_create("er", 0), nul = open("/dev/null", O_WRONLY), mid = memfd_create("mid", 0);
  char **second = NULL;
  for (int i = 3; i < argc; ++i) if (!strcmp(argv[i], "--then")) { argv[i] = NULL; second = argv + i + 1; break; }
  for (char *p = m; p < m + st.st_size; p += strlen(p) + 1) {
    ftruncate(in, 0); pwrite(in, p, strlen(p), 0); ftruncate(er, 0); ftruncate(mid, 0); lseek(mid, 0, SEEK_SET);
    int r = one(in, second ? mid : nul, er, argv + 3), stage = 1;
    if (r == 0 && second) { int e2 = memfd_create("e2", 0); r = one(mid, nul, e2, second); stage = 2; if (r) { char b[200]; long l = pread(e2, b, 199, 0); ftruncate(er, 0); pwrite(er, b, l < 0 ? 0 : l, 0); } close(e2); }
    char b[200]; long l = pread(er, b, 190, 0); if (l < 0) l = 0; b[l] = 0; char *q = strchr(b, '\n'); if (q) *q = 0;
    fprintf(out, "%d\t%d\t%s\n", stage, r, b);
  }
  fclose(out); return 0;
}
'''
MARK = '# 77 "cand.c"\n'

class Runner:
    def __init__(self):
        self.d = core.scratch('diag')
        open(self.d + '/runner.c', 'w').write(RUNNER)
        rc, o, e = core.sh(['gcc', '-O1', '-w', '-o', self.d + '/runner', self.d + '/runner.c'], timeout=120)
        if rc: raise core.CheckError('runner: ' + e.decode())
        self.n = 0
    def run(self, texts, cmd, then=None, timeout=600):
        """[(stage, status, first line of standard error)] per text."""
        P = core.NCPU; res = [None] * len(texts); self.n += 1
        def job(i):
            part = texts[i::P]
            if not part: return
            l, o = '%s/l%d.%d' % (self.d, self.n, i), '%s/o%d.%d' % (self.d, self.n, i)
            with open(l, 'wb') as f: f.write(b''.join(t.encode() + b'\0' for t in part))
            core.sh([self.d + '/runner', l, o] + cmd + (['--then'] + then if then else []), timeout=timeout)
            lines = open(o, errors='replace').read().split('\n')
            for k in range(len(part)):
                if k < len(lines) and lines[k].count('\t') >= 2:
                    s, r, m = lines[k].split('\t', 2); res[i + k * P] = (int(s), int(r), m)
                else: res[i + k * P] = (0, 124, 'no answer')
            os.unlink(l); os.unlink(o)
        core.pmap(job, range(P), P)
        return res

# ---------------------------------------------------------------- candidates
TOK = "int char struct S T x f ( ) { } [ ] * , ; = 1 1.5 \"s\" if else return case : & + typedef . -> ? sizeof".split()
CTX = {'top': 'typedef int T;struct S{int a;};\n%s', 'blk': 'typedef int T;struct S{int a;} s;\nint f(int x){ %s', 'exp': 'typedef int T;struct S{int a;} s;\nint f(int x){ return %s;}'}

PRE = 'typedef int T; struct S { int a; char *p; struct S *n; }; enum E { E0, E1 = 3 }; extern int v, w, arr[4]; extern struct S s, *sp; extern double d; extern int *ip; extern const int ci; int g(int, char *); void h(void); '
SN = r'''
int a = 1 , * b = & a , c [ 3 ] = { 1 , 2 } ;
static const char m [ ] = "ab" "c" ;
struct U { int x : 3 ; unsigned y ; struct { int z ; } ; } u = { . x = 1 , . z = 2 } ;
union V { int i ; float f ; } vv ; typedef union V VV ;
enum F { FA , FB = 2 , FC } ef = FB ;
typedef int ( * FP ) ( int , char * ) ; FP fp = g ;
int q ( int x , ... ) { return x ; }
void r1 ( void ) { if ( v ) h ( ) ; else if ( w ) { v = 1 ; } }
int r2 ( int x ) { switch ( x ) { case 1 : v = 2 ; break ; default : return 3 ; } return 0 ; }
void r3 ( int n ) { for ( int i = 0 ; i < n ; ++ i ) { if ( i == 3 ) continue ; w += i ; } }
void r4 ( void ) { do { -- v ; } while ( v > 0 ) ; while ( w ) break ; }
int r5 ( void ) { goto L ; v = 1 ; L : return v ? w : - 1 ; }
void r6 ( struct S * t ) { t -> a = ( * t ) . n -> a ; s = * t ; }
int r7 ( int x ) { return arr [ x & 3 ] + ( int ) d * sizeof ( int [ 2 ] ) - sizeof x ; }
int r8 ( void ) { int k = 0 ; k ++ ; k <<= 2 ; return ! k && ~ k || ( k , 2 ) ; }
int r9 ( T t ) { T T = t ; return T + g ( 1 , "x" ) ; }
int ra ( void ) { return ( ( struct S ) { 1 } ) . a + _Generic ( v , int : 1 , default : 2 ) ; }
extern int ( * rb ( int ) ) [ 3 ] ; static inline int rc ( void ) { static int n ; return n ++ ; }
double rd ( float f ) { double * p = & d ; return * p + f * 1.5 - 'c' ; }
struct W ; struct W * wp ; volatile int vx , * const cp = & vx ;
int re ( int n , int m [ ] [ 3 ] ) { int z [ n + 1 ] ; z [ 0 ] = m [ 1 ] [ 2 ] ; return z [ n - n ] ; }
'''.strip().split('\n')
ALPHA = "int double void struct S T v ( ) { } [ ] * , ; = 1 \"s\" if else : & static const . sizeof ++".split()
ALPHA2 = "char unsigned long E0 f 1.5 return break case default + typedef -> ? float enum union goto while for do switch continue extern inline register signed short _Bool _Generic volatile restrict h s arr sp d \"x\"[0] 0 -1 0x7fffffff 'c' ... && - ! ~ << < == /= -- | % ^".split()
def edits(t):
    out = {}
    for i in range(len(t)):
        out[tuple(t[:i] + t[i + 1:])] = 1
        if i + 1 < len(t): out[tuple(t[:i] + [t[i + 1], t[i]] + t[i + 2:])] = 1
        out[tuple(t[:i])] = 1
        for a in ALPHA + (ALPHA2 if core.THOROUGH else []):
            out[tuple(t[:i] + [a] + t[i + 1:])] = 1; out[tuple(t[:i] + [a] + t[i:])] = 1
    out[tuple(t)] = 1
    out.pop((), None)
    return list(out)

OPRE = '''typedef unsigned char u8; struct S { int a; char *p; struct S *n; int bf : 3; }; struct R { int a; }; union U { int a; float f; }; struct I; enum E { E0, E1 = 3 }; enum E e;
int i, arr[3], aa[2][3]; char c, ca[4]; unsigned u; long l; _Bool b; float f; double d; int *p, **pp, (*pa)[3]; const int *cp; void *vp; int (*fp)(int); int g(int); int gg(int, char *); void h(void); struct S s, *sp, rs(void); struct R t, *tp; struct I *ip; union U un; const int ci; const struct S cs; const struct S *csp; volatile int vi; char *q;
'''
K = "i c u l b e E1 f d 0 1 1.5 'a' \"s\" p cp vp pp fp g s t sp tp ip un arr ca h() ci cs s.bf cs.a csp->a rs() rs().a &i *p (void*)0 aa aa[0] pa *vp *ip *g &g &arr &s ++i vi i=1 (i,c) (int*)0 q".split()
OPS = "+ - * % << & && < == , = += -= *= %= <<= |=".split() + ("/ >> | ^ || > <= >= != /= >>= &= ^=".split() if core.THOROUGH else [])
UN = "- + ~ ! & * ++ -- sizeof".split()
TY = "int|char|_Bool|unsigned long|float|double|int *|const int *|void *|void|struct S|struct R|struct S *|struct I|struct I *|union U|enum E|int (*)(int)|int (*)[3]|int [3]|int (int)|int **|const int|u8".split('|')
ST = ('if (%s) ;', 'while (%s) ;', 'for (;%s;) ;', 'do ; while (%s);', 'switch (%s) { case 1: ; }', 'switch (i) { case %s: ; }', '&(%s);', 'gg(1, %s);', 'g(%s);', 'arr[%s];', '(%s)[arr];', 'sizeof(%s) + 1;', '(%s) ? 1 : 2;', 'i ? (%s) : (%s);', 'return %s;', 'goto %s;', '{ int zz[%s]; }', '{ struct { int x : %s; } zz; }', '{ enum { ZZ = %s }; }', '{ static int zz = %s; }', '{ static int *zz = %s; }', '{ static double zz = %s; }', '{ static char zz[4] = %s; }', '{ struct S zz = { .bf = %s }; }', '*&(%s);')
def declare(t, n='zz'):
    if '(*)' in t: return t.replace('(*)', '(*%s)' % n)
    for c in '[(':
        if c in t: return t.replace(c, n + c)
    return t + ' ' + n
def operators():
    C = []
    for a in K:
        for o in UN: C.append('%s (%s);' % (o, a))
        for o in '++', '--': C.append('(%s)%s;' % (a, o))
        for m in ('.a', '->a', '.zz', '->n', '[0]', '[1.5]', '()', '(1)', '(1,2)', '(1,"x")', '(p)', '.bf'): C.append('(%s)%s;' % (a, m))
        for t in TY:
            C.append('(%s)(%s);' % (t, a)); C.append('{ %s = %s; }' % (declare(t), a)); C.append('{ %s = {%s}; }' % (declare(t), a))
        for st in ST: C.append(st.replace('%s', a))
        for a2 in K:
            for o in OPS: C.append('(%s) %s (%s);' % (a, o, a2))
            C.append('i ? (%s) : (%s);' % (a, a2)); C.append('(%s)[%s];' % (a, a2))
    return list(dict.fromkeys(C))

# ---------------------------------------------------------------- reference verdicts
CLANG = '/usr/lib/llvm-18/bin/clang'
class Ref:
    """For each text, the first error clang (and then gcc) reports under the flags, or None."""
    def __init__(self): self.d = core.scratch('ref'); self.n = 0
    def clang(self, texts, flags, N=200):
        self.n += 1; d = '%s/%d' % (self.d, self.n); os.makedirs(d)
        def job(b):
            fs = []; part = texts[b:b + N]
            for k, t in enumerate(part):
                f = '%d.c' % (b + k); open(d + '/' + f, 'w').write(t); fs.append(f)
            rc, o, e = core.sh([CLANG, '-cc1', '-fsyntax-only', '-ferror-limit', '0'] + flags + fs, timeout=300, cwd=d)
            E = {}
            for m in re.finditer(r'^(\d+)\.c:\d+:\d+: (?:fatal )?error: (.*)$', e.decode('utf-8', 'replace'), re.M): E.setdefault(int(m.group(1)), m.group(2))
            for f in fs: os.unlink(d + '/' + f)
            return [E.get(b + k) for k in range(len(part))]
        return [x for l in core.pmap(job, range(0, len(texts), N)) for x in l]
    def gcc(self, texts, flags):
        def job(t):
            rc, o, e = core.sh(['gcc', '-fsyntax-only', '-x', 'c'] + flags + ['-'], input=t.encode(), timeout=60)
            m = re.search(r'error: (.*)', e.decode('utf-8', 'replace'))
            return None if rc == 0 else m.group(1) if m else 'error'
        return core.pmap(job, texts)

# Rules the compiler deliberately does not enforce (it has no use for the distinction): not claimed.
LENIENT = [r"incomplete type .* where a complete type is required", r"as parameter must not have type qualifiers", r"used in array declarator outside of function prototype",
           r"used in non-outermost array type", r"must be bound in function definition", r"field designator .* does not refer to any field", r"in generic association incomplete", r"does not match previous declaration", r"cannot have variably modified type", r"variable length array declaration not allowed at file scope", r"variably modified type"]

def judge(rep, fam, ref, pre, suf, cands, res):
    """Compares acceptance with the references; a warning counts as a diagnosis."""
    full = lambda c: pre + c + suf
    silent = [c for c, r in zip(cands, res) if r[1] == 0 and r[2] == '']
    E = ref.clang([full(c) for c in silent], ['-std=gnu11', '-w'])
    bad = [(c, e) for c, e in zip(silent, E) if e and not any(re.search(p, e) for p in LENIENT)]
    G = ref.gcc([full(c) for c, e in bad], ['-std=gnu11', '-w'])
    for (c, e), g in zip(bad, G):
        if g: rep.violation('%s/accepted/%s' % (fam, c), 'silently accepted, though it violates a constraint: %s\n  clang: %s\n  gcc: %s' % (c, e, g), full(c))
    rej = [c for c, r in zip(cands, res) if r[1] != 0]
    E = ref.clang([full(c) for c in rej], ['-std=c11', '-pedantic-errors', '-w'])
    ok = [c for c, e in zip(rej, E) if not e]
    G = ref.gcc([full(c) for c in ok], ['-std=c11', '-pedantic-errors'])
    msg = dict(zip(cands, res))
    for c, g in zip(ok, G):
        if not g: rep.violation('%s/rejected/%s' % (fam, c), 'rejected, though it is a strictly valid program: %s\n  %s' % (c, msg[c][2]), full(c))
    rep.count('states', len(cands)); rep.count('traces_validated_against_impl', len(silent) + len(rej))

def crash(rep, fam, tool, c, r, text):
    if r[1] < 0 or r[1] > 1 or r[1] == 1 and r[2] == '':
        rep.violation('%s/%s/%s' % (fam, tool, c[:100]), '%s (stage %d) %s on: %s' % (tool, r[0], 'ended by signal %d' % -r[1] if r[1] < 0 else 'ended with status %d: %s' % (r[1], r[2]) if r[2] else 'failed without a diagnostic', c), text)
        return True
    return False

LOC = re.compile(r'^cand\.c\((\d+)\): ')
def locate(rep, fam, c, r, text, last):
    """The (first) diagnostic names the file and a line of the candidate."""
    if r[2] == '': return
    m = LOC.match(r[2])
    if not m or not 77 <= int(m.group(1)) <= last:
        rep.violation('%s/location/%s' % (fam, c[:100]), 'diagnostic without the right location (cand.c line 77..%d): %s\n  %s' % (last, c, r[2]), text)

def run():
    rep = core.Report('C33')
    b = core.Build(libs=False, wcc=False)
    b._make(['make', '-j%d' % core.NCPU, 'OPTIMIZE=-O1 -Wno-error', 'CC=gcc', 'wcc'])
    rep.rule = ('all token sequences of length <=3 over 32 tokens in 3 contexts; all single-token edits (delete, swap, truncate, replace and insert over %d tokens) of 21 snippets; all combinations of %d operand kinds with %d operators, casts to and initialisations of %d types, postfix forms, statements; cpp directive token sequences of length <=3 (thorough 4); assembler token sequences of length <=3 and by first token 4: '
                'each is translated or ends with status 1 and a diagnostic at its line; the edits and operator families are also compared with clang and gcc in both directions; what is accepted is also compiled by wcc and assembled' % (len(ALPHA + (ALPHA2 if core.THOROUGH else [])), len(K), len(OPS), len(TY)))
    rep.assumptions = ['a constraint is claimed only where both clang and gcc make it a hard error in gnu11 mode with warnings off; deliberate leniencies (C33.LENIENT, DESIGN.md) are not', 'validity is claimed only where both accept under -std=c11 -pedantic-errors', '_Static_assert, _Alignas, _Atomic, _Complex, K&R definitions are outside the supported language']
    run_ = Runner(); ref = Ref()
    cc1, wcc, as_, cpp = b.exe('cc1'), b.exe('wcc'), b.exe('as'), b.exe('cpp')
    # 1. token sequences
    depth = 3
    for cx, t in CTX.items():
        cs = [' '.join(p) for k in range(1, depth + 1) for p in itertools.product(TOK, repeat=k)]
        h, body = t.rsplit('\n', 1)
        texts = [h + '\n' + MARK + body % c for c in cs]
        for c, r, x in zip(cs, run_.run(texts, [cc1, '-']), texts):
            if not crash(rep, 'tokens/' + cx, 'cc1', c, r, x): locate(rep, 'tokens/' + cx, c, r, x, 78)
        rep.count('programs', len(cs)); rep.count('transitions', len(cs))
    # 2. edits, 3. operators
    ed = []
    for sn in SN:
        t = re.findall(r'"[^"]*"(?:\[0\])?|\S+', sn)
        ed += [' '.join(e) for e in edits(t)]
    ops = operators()
    acc = []
    for fam, pre, suf, cs in (('edits', PRE + '\n', '\n', ed), ('operators', OPRE + 'int F(int n) {\n', '\nreturn 0; }\n', ops)):
        cs = list(dict.fromkeys(cs))
        texts = [pre + MARK + c + suf for c in cs]
        res = run_.run(texts, [cc1, '-'], [as_, '-o', '/dev/null', '-'])
        good = []
        for c, r, x in zip(cs, res, texts):
            if crash(rep, fam, 'cc1', c, r, x): continue
            if r[0] == 1: locate(rep, fam, c, r, x, 78 if fam == 'edits' else 79)
            good.append((c, r))
            if r[1] == 0: acc.append((fam, c, x))
        judge(rep, fam, ref, pre, suf, [c for c, r in good], [r for c, r in good])
        rep.count('programs', len(cs)); rep.count('transitions', len(cs))
    # what is accepted natively does not crash the WebAssembly compiler
    res = run_.run([x for f, c, x in acc], [wcc, '-c', '-o', '/dev/null', '-xc', '-'])
    for (f, c, x), r in zip(acc, res): crash(rep, f, 'wcc', c, r, x)
    rep.count('programs', len(acc))
    # 4. preprocessor directives
    T = '#define #undef #if #ifdef #elif #else #endif #include #line #error #pragma # ## A A( A(x) A(x, ) __VA_ARGS__ ... ( ) , 1 0 "s" <s> + && ? : defined ! \\\n // /* \' " @'.split(' ')
    cs = [' '.join(p) for k in range(1, 4 if not core.THOROUGH else 5) for p in itertools.product(T, repeat=k) if k < 3 or p[0].startswith('#') or core.THOROUGH and k < 4]
    for pre in ('', '#define A(x) x #x\n', '#if 1\n'):
        texts = [pre + '# 77 "cand.c"\n' + c + '\nz A A(1) A\n' for c in cs]
        for c, r, x in zip(cs, run_.run(texts, [cpp, '-']), texts): crash(rep, 'cpp', 'cpp', c, r, x)
        rep.count('programs', len(cs)); rep.count('transitions', len(cs))
    # 5. assembler
    T = 'mov add lea call jmp %rax %eax %al %xmm0 $1 $x x 8 ( ) , : - .globl .byte .quad .section .text "s" .L1 push * %rip'.split()
    first = ('mov', 'lea', 'call', '.quad') if core.THOROUGH else ('mov',)
    cs = [' '.join(p) for k in (1, 2, 3, 4) for p in itertools.product(T, repeat=k) if k < 4 or p[0] in first]
    texts = ['\t' + c + '\n' for c in cs]
    for c, r, x in zip(cs, run_.run(texts, [as_, '-o', '/dev/null', '-']), texts): crash(rep, 'as', 'as', c, r, x)
    rep.count('programs', len(cs)); rep.count('transitions', len(cs))
    return rep
