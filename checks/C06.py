"""C06: struct, union and bit-field layout matches the platform, and member accesses touch exactly their own bits."""
import itertools
from vlib import core
from vlib.pair import PairRunner, Case
from vlib.ctypes_ import *

BT = {'c': ('signed char', 8), 'C': ('unsigned char', 8), 's': ('short', 16), 'S': ('unsigned short', 16), 'i': ('int', 32), 'u': ('unsigned int', 32), 'l': ('long', 64), 'L': ('unsigned long', 64)}

# ---- layout: all member lists up to length 3 over plain, array, nested and bit-field members ---------
MEM = ['char %s', 'short %s', 'int %s', 'long %s', 'double %s', 'float %s', 'char %s[3]', 'short %s[3]', 'char *%s', 'struct { char x; short y; } %s', 'union { char x[5]; int y; } %s', 'int (*%s)(int)', 'struct { long p; char q; } %s[2]']
BMEM = ['unsigned %s:1', 'int %s:7', 'unsigned char %s:3', 'unsigned short %s:9', 'unsigned long %s:33', 'int %s:32', 'unsigned :0', 'unsigned :5', 'long %s:64', 'signed char %s:8', 'unsigned long %s:20', 'unsigned %s:25']

def layout(id, kind, mems):
    names = [m % ('m%d' % i) if '%s' in m else m for i, m in enumerate(mems)]
    decl = 'struct' if kind == 's' else 'union'
    if not any(':' in m for m in mems):
        body = 'T(sizeof v); T(_Alignof(%s Q_s)); struct { char c; %s Q_s s; } w; T((char*)&w.s - (char*)&w); T(sizeof w); %s Q_s arr[3]; T(sizeof arr); T((char*)&arr[2] - (char*)arr); ' % (decl, decl, decl)
        for i, m in enumerate(mems):
            body += 'T((char*)&v.m%d - (char*)&v); T(sizeof v.m%d); T((ull)&((%s Q_s*)0)->m%d); ' % (i, i, decl, i)
        return Case(id, '%s Q_s { %s; }; void Q_main(void) { static %s Q_s v; %s }' % (decl, '; '.join(names), decl, body))
    # the placement of bit-fields is implementation-defined: require only that members are disjoint, complete and within the object
    def put(i, k):
        if ':' in mems[i]: return 'p->m%d = %s;' % (i, ['0', '-1', '0x5a', '~(long)0x5a', '0x0123456789abcdefL'][k])
        return '{ unsigned char *q = (unsigned char*)&p->m%d; for (int k = 0; k < (int)sizeof p->m%d; ++k) q[k] = (unsigned char)(k * 17 + %d); }' % (i, i, k * 85)
    def get(i):
        return 'T(p->m%d);' % i if ':' in mems[i] else 'TB(&p->m%d, sizeof p->m%d);' % (i, i)
    idx = [i for i, m in enumerate(mems) if '%s' in m]
    allget = ' '.join(get(i) for i in idx)
    body = 'T(sizeof *p %% _Alignof(%s Q_s)); ' % decl
    for i in idx:
        if ':' not in mems[i]: body += 'T(((char*)&p->m%d - (char*)p) %% _Alignof(p->m%d)); T((ull)((char*)&p->m%d - (char*)p) + sizeof p->m%d <= sizeof *p); ' % ((i,) * 4)
    for fillv in (0, 255):
        body += 'for (int k = 0; k < (int)sizeof *p; ++k) ((unsigned char*)p)[k] = %d; ' % fillv
        if kind == 's':
            for k in (2, 0, 1, 3, 4):
                body += ' '.join(put(i, k) for i in idx) + ' ' + allget + ' '
            for i in idx:
                for k in (0, 1): body += put(i, k) + ' ' + allget + ' '
            body += '{ %s Q_s w = *p, u[2]; u[1] = w; *p = u[1]; } %s ' % (decl, allget)
        else:
            for i in idx:
                for k in range(5): body += put(i, k) + ' ' + get(i) + ' '
    return Case(id, '%s Q_s { %s; }; static void Q_go(%s Q_s *p) { %s } void Q_main(void) { static struct { char g[16]; %s Q_s s; char h[16]; } z; Q_go(&z.s); TB(z.g, 16); TB(z.h, 16); }' % (decl, '; '.join(names), decl, body, decl))

def layout_cases():
    allm = MEM + BMEM
    for k in 'su':
        for n in (1, 2):
            for p in itertools.product(range(len(allm)), repeat=n):
                ms = [allm[i] for i in p]
                if not any('%s' in m for m in ms): continue
                yield layout('lay/%s/%s' % (k, '.'.join(map(str, p))), k, ms)
    sub = [0, 2, 3, 6] + list(range(len(MEM), len(MEM) + len(BMEM) - 3))
    for p in itertools.product(sub, repeat=3):
        ms = [allm[i] for i in p]
        if not any(':' in m for m in ms) or not any('%s' in m for m in ms): continue
        yield layout('lay3/%s' % '.'.join(map(str, p)), 's', ms)
    if core.THOROUGH:
        for p in itertools.product([0, 2] + list(range(len(MEM), len(MEM) + 8)), repeat=4):
            ms = [allm[i] for i in p]
            if not any(':' in m for m in ms) or not any('%s' in m for m in ms): continue
            yield layout('lay4/%s' % '.'.join(map(str, p)), 's', ms)
        for p in itertools.product(range(len(MEM)), repeat=3):
            yield layout('layp/%s' % '.'.join(map(str, p)), 's', [MEM[i] for i in p])
    # bit-field widths w1, w2 of one type: every pair
    for t, (tn, bits) in BT.items():
        ws = range(1, bits + 1) if bits <= 16 else [1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 47, 48, 63, 64]
        ws = [w for w in ws if w <= bits]
        if not core.THOROUGH and bits == 16: ws = [1, 3, 7, 8, 9, 11, 15, 16]
        for a, b in itertools.product(ws, repeat=2):
            yield layout('bw/%s/%d/%d' % (t, a, b), 's', ['%s %%s:%d' % (tn, a), '%s %%s:%d' % (tn, b), 'char %s'])

# ---- operations on a bit-field: every type/width/offset x operation x value ---------------------------
OPS = ['v.f = (%(t)s)a;', 'T(v.f = (int)a);', 'T(v.f += 3);', 'T(v.f -= (int)a);', 'T(v.f *= 5);', 'T(v.f ^= (int)a);', 'T(v.f <<= 1);', 'T(v.f >>= 1);', 'T(v.f |= 1);', 'T(v.f++);', 'T(++v.f);', 'T(v.f--);', 'T(--v.f);', 'T(v.f + 0); T(-v.f); T(~v.f); T(!v.f); T(v.f < 2); T(v.f == 1); if (v.f) T(1); T(v.f ? 5 : 6); T(v.f * 3 - 1); T((long)v.f << 3); TD(v.f);', 'p->f = v.g; p->g = v.f;', 'struct Q_s w = v, x; x = w; x.f ^= 1; v = x;', 'T(v.f - 5 < 0); T(v.f > -1); T(-1 < v.f); T(v.f - 100);', 'v.f = v.g = v.h = (int)a;', 'T((p->f = (int)a, p->f));', 'v.f /= 3; T(v.f %% 5); v.f %%= 4;', 'T(v.g++ + v.h--); v.g += v.f;', 'int k = v.f; v.f = k + 1; T(k == v.f);', 'v.f = (double)1.0; T(v.f); v.f = (unsigned char)a; T(v.f == (unsigned char)a);', 'arr[1].f = (int)a; arr[1].g++; T(arr[1].f); Q_tr(arr); Q_tr(arr + 1);', 'union { struct Q_s s; unsigned char b[sizeof(struct Q_s)]; } u; u.s = v; u.s.f = 1; Q_tr(&u.s);', 'v.f *= 0.5; T(v.f); T(v.f += 0.5);']
def bit_cases():
    cfg = []
    for t, (tn, bits) in BT.items():
        for w in ([1, 2, 5, 8] if bits == 8 else [1, 3, 8, 11, 16] if bits == 16 else [1, 4, 8, 13, 16, 20, 31, 32] if bits == 32 else [1, 8, 30, 31, 32, 33, 40, 63, 64]):
            for off in (0, 1, 3, bits // 2, bits - w):
                if off >= 0 and off + w <= bits: cfg.append((t, tn, bits, w, off))
    for t, tn, bits, w, off in sorted(set(cfg)):
        rest = bits - off - w
        decl = ('%s h:%d; ' % (tn, off) if off else '%s h; ' % tn) + '%s f:%d; ' % (tn, w) + ('%s g:%d; ' % (tn, rest) if rest else '%s g; ' % tn)
        for i, op in enumerate(OPS):
            if i == 16 and t == 'L': continue   # the promoted type of a long bit-field is implementation-defined
            s = op % {'t': tn} if '%(' in op else op.replace('%%', '%')
            if i == 13 and t in 'lL': s = s.replace('v.f', '((%s)v.f)' % tn)
            yield Case('bit/%s/%d/%d/%d' % (t, w, off, i), 'struct Q_s { char a0; %s char z0; }; static void Q_tr(struct Q_s *p) { T(p->a0); T(p->h); T(p->f); T(p->g); T(p->z0); } ull Q_f(ull a, ull b) { struct Q_s v, *p = &v, arr[2]; for (int i = 0; i < (int)sizeof v; ++i) ((unsigned char*)&v)[i] = (unsigned char)-(b & 1); v.a0 = (char)b; v.z0 = (char)~b; v.h = (%s)(b * 0x123456789abcdefL); v.f = (%s)(b * 0xf0e1d2c3b4a59687L); v.g = (%s)~(b * 0x5a5a3c3c99667711L); arr[0] = arr[1] = v; %s Q_tr(&v); return 0; }' % (decl, tn, tn, tn, s), [0, 1, 2, 5, 2**64 - 1, 0x7f, 0x80, 0x5555555555555555, 1 << 31], [0, 1, 0xff, 0xa4])
    # initialisers of bit-fields: static and automatic, partial, designated
    for t, (tn, bits) in BT.items():
        for w1, w2 in ((1, 2), (3, 5), (4, bits), (bits, 1), (bits - 1, 1), (bits // 2, bits // 2), (bits // 2 + 1, bits // 2)):
            d = 'struct Q_s { %s a:%d; %s b:%d; char c; %s d:3; }; ' % (tn, w1, tn, w2, tn)
            for k, ini in enumerate(['{1, 2, 3, 1}', '{-1, -1, -1, -1}', '{0}', '{.b = 1}', '{.d = 3, .a = 1}', '{1}', '{.c = 9, 2}', '{5, .c = 4}', '{[0 ? 0 : 0] = 1}'][:8]):
                yield Case('bini/%s/%d/%d/%d' % (t, w1, w2, k), d + 'static struct Q_s Q_g = %s, Q_ga[2] = {%s, {0, 1}}; ull Q_f(ull a, ull b) { struct Q_s l = %s, la[2] = {%s}; struct Q_s *ps[] = {&Q_g, &Q_ga[0], &Q_ga[1], &l, &la[0], &la[1]}; for (int i = 0; i < 6; ++i) { T(ps[i]->a); T(ps[i]->b); T(ps[i]->c); T(ps[i]->d); } return 0; }' % (ini, ini, ini, ini), [0])
                yield Case('binv/%s/%d/%d/%d' % (t, w1, w2, k), d + 'ull Q_f(ull a, ull b) { struct Q_s l = {(int)a, (int)b, (char)a, (int)b}; T(l.a); T(l.b); T(l.c); T(l.d); l = (struct Q_s){.b = (int)a}; T(l.a); T(l.b); T(l.c); T(l.d); return 0; }', [0, 1, 2**64 - 1, 0x55], [0, 3, 2**64 - 2]) if k == 0 else Case('binw/%s/%d/%d/%d' % (t, w1, w2, k), d + 'void Q_main(void) { struct Q_s x = (struct Q_s)%s; T(x.a); T(x.b); T(x.c); T(x.d); }' % ini)

# ---- accesses: anonymous members, nesting, unions, flexible arrays, copies ------------------------------
def misc_cases():
    yield Case('anon/1', 'struct Q_s { int a; struct { int b; union { int c; struct { short d, e; }; }; }; union { char f[8]; long g; }; }; ull Q_f(ull x, ull y) { struct Q_s s = {1, {2, {3}}, {"abc"}}, *p = &s; p->c = (int)x; T(s.a); T(s.b); T(s.d); T(p->e); T(s.g); p->f[2] = (char)y; T(p->g); s.e++; T(s.c); TB(&s, sizeof s); T((char*)&s.e - (char*)&s); T((char*)&p->g - (char*)p); return sizeof s; }', [0, 1, 0x12345678, 2**32 - 1], [0, 7])
    yield Case('anon/2', 'union Q_u { struct { unsigned a:4, b:4; }; struct { unsigned char lo, hi; }; unsigned short w; }; ull Q_f(ull x, ull y) { union Q_u u; u.w = (unsigned short)x; T(u.a); T(u.b); T(u.lo); T(u.hi); u.b = (int)y; T(u.w); u.hi++; T(u.w); return sizeof u; }', [0, 0x1234, 0xffff], range(0, 20, 3))
    yield Case('flex', 'struct Q_s { int n; char d[]; }; static long Q_m[4]; static struct Q_s Q_i = {3, {1, 2, 3}}; ull Q_f(ull x, ull y) { struct Q_s *p = (struct Q_s*)Q_m; p->n = 5; for (int i = 0; i < 10; ++i) p->d[i] = (char)(x + i); T(sizeof(struct Q_s)); T((char*)p->d - (char*)p); for (int i = 0; i < 10; ++i) T(p->d[i]); T(Q_i.d[0] + Q_i.d[2] * 10); return 0; }', [0, 100])
    yield Case('ptrs', 'struct Q_s { struct Q_s *n; int v; }; ull Q_f(ull x, ull y) { struct Q_s a[5]; for (int i = 0; i < 5; ++i) { a[i].n = &a[(i + 2) % 5]; a[i].v = i; } struct Q_s *p = a; for (ull i = 0; i < x; ++i) { T(p->v); p = p->n; } T(p->n->n->v); T((*p).v); T((*(*p).n).v); T(p - a); T(&a[4] - &a[1]); T(&p[1] == a + (p - a) + 1); T((&a[3])[-1].v); return a[x % 5].n->v; }', range(8))
    for n in list(range(1, 42)) + [64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 5000]:
        for el in ('char', 'short', 'int', 'long'):
            if el != 'char' and n > 130: continue
            yield Case('copy/%s/%d' % (el, n), 'struct Q_s { %s c[%d]; }; static struct Q_s Q_g; struct Q_o { char k; struct Q_s s; char z; }; ull Q_f(ull x, ull y) { struct Q_s a, b, *p = &b; struct Q_o o = {1}; for (int i = 0; i < %d; ++i) a.c[i] = (%s)(i * 31 + x); b = a; TB(&b, sizeof b); Q_g = *p; TB(&Q_g, sizeof b); o.z = 77; o.s = Q_g; T(o.k); T(o.z); TB(&o.s, sizeof b); a.c[0] ^= 1; *p = x ? a : Q_g; TB(p, sizeof b); struct Q_s i = a, j[2] = {a, b}; TB(&i, sizeof i); TB(j, sizeof j); return sizeof o; }' % (el, n, n, el), [0, 3])
    yield Case('nested', 'struct Q_a { char c; struct Q_b { short s; struct Q_c { long l; char d; } c; } b[2]; }; ull Q_f(ull x, ull y) { struct Q_a a = {1, {{2, {3, 4}}, {5, {6, 7}}}}; struct Q_b b = a.b[1]; struct Q_c c = a.b[0].c; b.c.l += x; a.b[0] = b; T(a.b[0].c.l); T(a.b[0].s); T(c.l); T(c.d); a.b[x & 1].c = c; T(a.b[0].c.l); T(a.b[1].c.d); T(sizeof(struct Q_a)); T(sizeof(struct Q_b)); T((char*)&a.b[1].c.d - (char*)&a); return 0; }', range(4))
    yield Case('enum', 'enum Q_e { Q_A, Q_B = 5, Q_C, Q_D = -2, Q_E, Q_F = Q_B + Q_C * 2, Q_G = sizeof(int), Q_H = \'a\' }; struct Q_s { enum Q_e e; char c; }; void Q_main(void) { struct Q_s s = {Q_F, 1}; T(s.e); T(Q_A); T(Q_B); T(Q_C); T(Q_D); T(Q_E); T(Q_G); T(Q_H); T(sizeof(enum Q_e)); T(sizeof s); s.e = Q_D; T(s.e < 0); s.e++; T(s.e == Q_E); enum { X = 3, Y } l = Y; T(l); enum Q_e arr[Q_C] = {[Q_B] = Q_H}; T(arr[5]); T(sizeof arr); }')
    for ty in ('char', 'short', 'int', 'long', 'float', 'double'):
        for ty2 in ('char', 'short', 'int', 'long', 'float', 'double', 'unsigned char', 'unsigned'):
            f = 'TD' if ty2 in ('float', 'double') else 'T'
            yield Case('union/%s/%s' % (ty, ty2), 'union Q_u { %s a; %s b; unsigned char raw[8]; }; ull Q_f(ull x, ull y) { union Q_u u, v, *p = &v; for (int i = 0; i < 8; ++i) u.raw[i] = (unsigned char)(x * (i + 1)); u.a = (%s)(x & 0x3fffff); %s(u.b); v = u; %s(p->b); TB(&v, 8); p->raw[1] ^= (unsigned char)y; %s(v.b); TB(p, 8); return sizeof u; }' % (ty, ty2, ty, f, f, f), [0, 1, 0x81, 0xffff], [0, 0x80])

def run():
    rep = core.Report('C06')
    b = core.Build(libs=False)
    rep.rule = 'every member list of length <=2 (3 with bit-fields) over 25 member kinds for struct/union; every width pair per bit-field type; 25 operations x every (type, width, offset) configuration x 27 value pairs; initialisers; copies of every size 1..41 and around powers of two'
    rep.assumptions = ['gcc defines the platform layout (System V psABI)', '_Bool bit-fields excluded (_Bool is 4 bytes in xcc)']
    PairRunner(rep, b, shard=700, ref=('clang', '-std=gnu17', '-O0', '-w', '-fwrapv', '-fno-strict-aliasing', '-fno-builtin', '-ffp-contract=off')).run(list(layout_cases()) + list(bit_cases()) + list(misc_cases()))
    return rep
