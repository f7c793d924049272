"""C21: <string.h>, <strings.h>, <ctype.h>, <libgen.h>: all small strings x all argument values, native and WebAssembly."""
from vlib import core, libx

STR = r'''
#include <strings.h>
#define NAL %(nal)d
static const char AL[] = "%(al)s";
#define MAXL %(maxl)d
static char pool[2000][8]; static int np;
static void gen(void) { np = 0; pool[np++][0] = 0; for (int s = 0, e = 1, l = 1; l <= MAXL; ++l) { int ne = np; for (int i = s; i < e; ++i) for (int a = 0; a < NAL; ++a) { memcpy(pool[np], pool[i], l - 1); pool[np][l - 1] = AL[a]; pool[np][l] = 0; ++np; } s = ne; e = np; } }
static void K(const char *f, const char *p, const char *q, int n) { o_s(f); o_c('('); o_str(p); if (q) { o_c(','); o_str(q); } if (n > -100) { o_c(','); o_i(n); } o_s(")\t"); }
static void P(const char *base, const char *r) { if (!r) o_s("NULL"); else o_i(r - base); }
static char D[40];
static void D_(void) { for (int i = 0; i < 40; ++i) D[i] = (char)0xEE; }
static void DD(const char *r) { P(D, r); o_c(' '); o_hex(D, 40); o_c('\n'); }
int main(void) {
  gen();
  for (int i = 0; i < np; ++i) {
    const char *p = pool[i];
    K("strlen", p, 0, -100); o_u(strlen(p)); o_c('\n');
    for (int n = 0; n < 6; ++n) { K("strnlen", p, 0, n); o_u(strnlen(p, n)); o_c('\n'); }
    for (int a = 0; a <= NAL + 2; ++a) {
      int c = a < NAL ? AL[a] : a == NAL ? 0 : a == NAL + 1 ? (unsigned char)AL[NAL - 1] : AL[0] + 256;
      K("strchr", p, 0, c); P(p, strchr(p, c)); o_c('\n');
      K("strrchr", p, 0, c); P(p, strrchr(p, c)); o_c('\n');
      for (int n = 0; n <= 5; ++n) {
        o_s("memchr("); o_str(p); o_c(','); o_i(c); o_c(','); o_i(n); o_s(")\t"); P(p, memchr(p, c, n)); o_c('\n');
        o_s("memccpy("); o_str(p); o_c(','); o_i(c); o_c(','); o_i(n); o_s(")\t"); D_(); DD(memccpy(D + 4, p, c, n));
      }
    }
    K("strcpy", p, 0, -100); D_(); DD(strcpy(D + 4, p));
    K("stpcpy", p, 0, -100); D_(); DD(stpcpy(D + 4, p));
    { char *r = strdup(p); K("strdup", p, 0, -100); o_str(r); o_c(r == p ? 'S' : 'D'); o_c('\n'); free(r); }
    for (int n = 0; n <= 6; ++n) {
      K("strncpy", p, 0, n); D_(); DD(strncpy(D + 4, p, n));
      K("stpncpy", p, 0, n); D_(); DD(stpncpy(D + 4, p, n));
      { char *r = strndup(p, n); K("strndup", p, 0, n); o_str(r); o_c('\n'); free(r); }
    }
    for (int j = 0; j < np; ++j) {
      const char *q = pool[j];
      K("strcmp", p, q, -100); o_i(o_sign(strcmp(p, q))); o_c('\n');
      K("strcoll", p, q, -100); o_i(o_sign(strcoll(p, q))); o_c('\n');
      K("strcasecmp", p, q, -100); o_i(o_sign(strcasecmp(p, q))); o_c('\n');
      K("strspn", p, q, -100); o_u(strspn(p, q)); o_c('\n');
      K("strcspn", p, q, -100); o_u(strcspn(p, q)); o_c('\n');
      K("strpbrk", p, q, -100); P(p, strpbrk(p, q)); o_c('\n');
      K("strstr", p, q, -100); P(p, strstr(p, q)); o_c('\n');
      K("strcat", p, q, -100); D_(); strcpy(D + 4, p); DD(strcat(D + 4, q));
      for (int n = 0; n <= 5; ++n) {
        K("strncmp", p, q, n); o_i(o_sign(strncmp(p, q, n))); o_c('\n');
        K("strncasecmp", p, q, n); o_i(o_sign(strncasecmp(p, q, n))); o_c('\n');
        if (n <= (int)strlen(p) + 1 && n <= (int)strlen(q) + 1) { K("memcmp", p, q, n); o_i(o_sign(memcmp(p, q, n))); o_c('\n'); }
        K("strncat", p, q, n); D_(); strcpy(D + 4, p); DD(strncat(D + 4, q, n));
      }
      if (*q) {
        // strtok sequences: the whole sequence until NULL and two calls after it
        char b[16]; strcpy(b, p); K("strtok", p, q, -100);
        char *t = strtok(b, q); int k = 0;
        for (; k < 8; ++k) { P(b, t); if (t) o_str(t); o_c(' '); if (!t && k > 0) break; t = strtok(NULL, q); }
        if (t == NULL) { P(b, strtok(NULL, q)); }
        o_c('\n');
        strcpy(b, p); char b2[16]; strcpy(b2, p); char *s1, *s2;
        K("strtok_r", p, q, -100);
        char *t1 = strtok_r(b, q, &s1), *t2 = strtok_r(b2, "b", &s2);
        for (k = 0; k < 6; ++k) { if (t1) { P(b, t1); o_str(t1); t1 = strtok_r(NULL, q, &s1); } else o_c('-'); if (t2) { P(b2, t2); o_str(t2); t2 = strtok_r(NULL, "b", &s2); } else o_c('-'); o_c(' '); }
        o_c('\n');
      }
    }
  }
  o_flush();
  return 0;
}
'''
MEM = r'''
static unsigned char B[300], C[300];
static void fill(void) { for (int i = 0; i < 300; ++i) { B[i] = (unsigned char)(i * 7 + 3); C[i] = (unsigned char)(i * 13 + 101); } }
static void R(const char *f, int a, int b, int n, long r) { o_s(f); o_c(' '); o_i(a); o_c(' '); o_i(b); o_c(' '); o_i(n); o_c('\t'); o_i(r); o_c(' '); o_x(o_hash(B, 300), 16); o_c('\n'); }
#define NS %(ns)d
int main(void) {
  static const int N[] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,23,24,25,31,32,33,34,47,48,49,63,64,65,66,100,127,128,129,200};
  for (int ni = 0; ni < (int)(sizeof(N) / sizeof(*N)); ++ni) {
    int n = N[ni];
    for (int a = 0; a < NS; ++a) {
      for (int b = 0; b < NS; ++b) {
        fill(); R("memcpy", a, b, n, (unsigned char*)memcpy(B + 8 + a, C + b, n) - B);
        fill(); R("memmove", a, b, n, (unsigned char*)memmove(B + 8 + a, B + 8 + b, n) - B);
        fill(); memcpy(B + 8 + a, C + b, n); { int r = o_sign(memcmp(B + 8 + a, C + b, n)); for (int k = 0; k < n; k += 1 + n / 8) { B[8 + a + k] ^= 0x80; r = r * 3 + 1 + o_sign(memcmp(B + 8 + a, C + b, n)); B[8 + a + k] ^= 0x80; } R("memcmp", a, b, n, r); }
      }
      fill(); for (int k = 40; k < 60; ++k) ;
      fill(); R("memmove+", a, 40, n, (unsigned char*)memmove(B + 8 + a, B + 40, n) - B);
      fill(); R("memmove-", 40, a, n, (unsigned char*)memmove(B + 40, B + 8 + a, n) - B);
      static const int V[] = {0, 1, 127, 128, 255, 256, -1, 511};
      for (int v = 0; v < 8; ++v) { fill(); R("memset", a, V[v], n, (unsigned char*)memset(B + 8 + a, V[v], n) - B); }
      // long strings at every alignment
      fill(); for (int i = 0; i < n; ++i) B[8 + a + i] = (unsigned char)(1 + (i * 37) %% 255); B[8 + a + n] = 0;
      R("strlen", a, 0, n, strlen((char*)B + 8 + a));
      R("strchr0", a, 0, n, strchr((char*)B + 8 + a, 0) - (char*)B);
      for (int k = 0; k < n; k += 1 + n / 5) { char *r = strchr((char*)B + 8 + a, B[8 + a + k]); R("strchr", a, k, n, r ? r - (char*)B : -1); r = strrchr((char*)B + 8 + a, B[8 + a + k]); R("strrchr", a, k, n, r ? r - (char*)B : -1);
        r = memchr(B + 8 + a, B[8 + a + k], n); R("memchr", a, k, n, r ? r - (char*)B : -1); }
      for (int b = 0; b < NS; ++b) {
        char t[300]; strcpy(t + b, (char*)B + 8 + a); int r = o_sign(strcmp(t + b, (char*)B + 8 + a));
        for (int k = 0; k <= n; k += 1 + n / 5) { char c = t[b + k]; t[b + k] = (char)(c ^ 0x81); r = r * 3 + 1 + o_sign(strcmp(t + b, (char*)B + 8 + a)); r ^= o_sign(strncmp(t + b, (char*)B + 8 + a, k)) << 3; r ^= o_sign(strncmp(t + b, (char*)B + 8 + a, k + 1)) << 4; t[b + k] = c; }
        R("strcmp", a, b, n, r);
        fill(); for (int i = 0; i < n; ++i) C[b + i] = (unsigned char)(1 + (i * 37) %% 255); C[b + n] = 0;
        R("strcpy", a, b, n, strcpy((char*)B + 8 + a, (char*)C + b) - (char*)B);
        fill(); for (int i = 0; i < n; ++i) B[8 + a + i] = (unsigned char)(1 + (i * 37) %% 255); B[8 + a + n] = 0;
      }
    }
  }
  o_flush(); return 0;
}
'''
CT = r'''
#include <ctype.h>
int main(void) {
  for (int c = -1; c < 256; ++c) {
    o_s("ctype "); o_i(c); o_c('\t');
    o_c(isalnum(c) ? 'a' : '-'); o_c(isalpha(c) ? 'A' : '-'); o_c(iscntrl(c) ? 'c' : '-'); o_c(isdigit(c) ? 'd' : '-'); o_c(isgraph(c) ? 'g' : '-'); o_c(islower(c) ? 'l' : '-');
    o_c(isprint(c) ? 'p' : '-'); o_c(ispunct(c) ? 'P' : '-'); o_c(isspace(c) ? 's' : '-'); o_c(isupper(c) ? 'u' : '-'); o_c(isxdigit(c) ? 'x' : '-'); o_c(isascii(c) ? '7' : '-');
    o_i(tolower(c)); o_c(' '); o_i(toupper(c)); o_c('\n');
  }
  o_flush(); return 0;
}
'''
LIBGEN = r'''
#include <libgen.h>
static const char AL[] = "/a.";
int main(void) {
  char p[12], q[12];
  for (int l = 0; l <= %(l)d; ++l) {
    long tot = 1; for (int i = 0; i < l; ++i) tot *= 3;
    for (long k = 0; k < tot; ++k) {
      long x = k; for (int i = 0; i < l; ++i) { p[i] = AL[x %% 3]; x /= 3; } p[l] = 0;
      strcpy(q, p); o_s("basename "); o_str(p); o_c('\t'); o_str(basename(q)); o_c('\n');
      strcpy(q, p); o_s("dirname "); o_str(p); o_c('\t'); { char *d = dirname(q); o_str(strcmp(d, "//") ? d : "/"); } o_c('\n');   // "//" is implementation-defined
    }
  }
  o_s("basename NULL\t"); o_str(basename(NULL)); o_c('\n'); o_s("dirname NULL\t"); o_str(dirname(NULL)); o_c('\n');
  o_flush(); return 0;
}
'''

def run():
    rep = core.Report('C21')
    b = core.Build(wcc=True)
    r = libx.LibRunner(rep, b)
    rep.rule = 'all strings up to length 3 over three 3-letter alphabets (plain, case/boundary, high bytes), all ordered pairs, all counts 0..6, destination buffers dumped with guard bytes; memory functions over all source/destination alignments x 39 lengths incl. every overlap; ctype over -1..255; all paths up to the bound over {/,a,.}. Reference glibc. Native and WebAssembly builds.'
    L = 3
    alph = ['abA', 'aA\\xe1', 'Zz['] if not core.THOROUGH else ['abAB', 'aA\\xe1\\x80', 'Zz[{', '@`\\x7f']
    jobs = [('str/%d' % i, STR % dict(al=a, nal=len(a.encode().decode('unicode_escape')), maxl=L)) for i, a in enumerate(alph)]
    jobs += [('mem', MEM % dict(ns=9 if not core.THOROUGH else 17)), ('ctype', CT), ('libgen', LIBGEN % dict(l=5 if not core.THOROUGH else 8))]
    core.pmap(lambda j: r.check(*j), jobs)
    rep.counts.update(states=r.lines, transitions=r.lines, traces_validated_against_impl=r.lines)
    rep.sample('strstr("aba","ba")'); rep.sample('memmove 3 5 17'); rep.sample('strtok("aAb","A")')
    return rep
