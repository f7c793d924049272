"""C12: the optimiser (SSA construction, copy propagation, dead code, phi resolution) keeps the meaning of every program.

The program spaces of C01-C06 are compiled with --apply-ssa; in addition every control-flow graph of a bounded size with
every assignment of moves, swaps and updates to its blocks is compiled with and without it."""
import itertools
from vlib import core
from vlib.pair import Case, PairRunner
from checks import C01, C02, C03, C04, C05, C06

ACTS = ['', 'x = y;', 'y = x;', 'x = x + 1;', 'y += 3;', 'z = x; x = y; y = z;', 'z = x; y = z + y;', 'T(x);', 'x = 7;', 'z += 1; w = z;']

def cfg(n, acts, terms, tag, pick=None):
    """All graphs of n blocks; each block an action, then a branch on a bit of the fuel counter or a jump."""
    blocks = list(itertools.product(acts, terms))
    k = 0
    for g in itertools.product(range(len(blocks)), repeat=n):
        k += 1
        if pick and not pick(k): continue
        body = ''
        for i, bi in enumerate(g):
            a, t = blocks[bi]
            body += 'L%d: if (n++ >= 9) goto E; %s ' % (i, ACTS[a])
            if isinstance(t, int): body += 'goto L%d; ' % t if t < n else 'goto E; '
            else: body += 'if (c >> n & 1) goto L%d; goto %s; ' % (t[0], 'L%d' % t[1] if t[1] < n else 'E')
        yield Case('%s/%s' % (tag, '.'.join(str(x) for x in g)),
                   'ull Q_f(ull a, ull c) { int x = (int)a, y = 20, z = 300, w = 4000, n = 0; %s E: T(x); T(y); T(z); T(w); T(n); return x + y * 2 + z * 3 + w; }' % body, [1, 50], [0, 0x2a5, 0x15a, 0x333, 0x3ff])

def cfg_cases():
    t2 = [0, 1, 2, (0, 1), (1, 0), (0, 2), (1, 2)]
    yield from cfg(2, range(len(ACTS)), t2, 'cfg2')
    t3 = [1, 3, (0, 1), (1, 2), (2, 3), (2, 0)]
    yield from cfg(3, [1, 3, 5, 6], t3, 'cfg3')
    if core.THOROUGH:
        yield from cfg(3, [0, 1, 2, 4, 5, 8, 9], t3, 'cfg3b')

def loop_cases():
    """Loop-carried values: every simultaneous update of 3 variables by a map of the old ones, in nested or sequential loops, with
    the values used before, inside and after the loop."""
    names = 'xyz'
    for m in itertools.product(range(3), repeat=3):
        upd = 'int nx = %s, ny = %s, nz = %s; x = nx; y = ny; z = nz;' % tuple(names[i] for i in m)
        for si, sk in enumerate((
                'for (int i = 0; i < (int)a; ++i) { %s }',
                'for (int i = 0; i < (int)a; ++i) { T(x); %s if (i == 2) break; T(y); }',
                'for (int i = 0; i < (int)a; ++i) { if (i & 1) { %s } else { z += 5; } }',
                'for (int i = 0; i < (int)a; ++i) { for (int j = 0; j < i; ++j) { %s } T(z); }',
                'int i = 0; do { %s if (b) continue; x += 1; } while (++i < (int)a);',
                'int i = 0; while (i++ < (int)a) { int old = x; %s T(old); T(x); }',
                'switch (a) { case 3: { %s } case 2: { int t = x; x = y; y = t; } case 1: z = x; break; default: y = z; }',
                'int i = (int)a; again: { %s } if (i-- > 0) goto again;')):
            yield Case('loop/%s/%d' % (''.join(map(str, m)), si), 'ull Q_f(ull a, ull b) { int x = 1, y = 20, z = 300; %s T(x); T(y); T(z); return x + y * 2 + z * 3; }' % (sk % upd), range(6), range(2))

def prop_cases():
    """Constants that reach an operation only through copy propagation: every operator x every pair of operand types, with a
    constant local on the left, on the right, on both sides, and derived from another constant; used in a branch, as a value,
    as a loop condition and widened."""
    ops = C01.ARITH + C01.SHIFT + C01.CMP
    for op in ops:
        for ta in C01.NAMES:
            for tb in C01.NAMES:
                ks = {0, 1, 5, 31} if op in C01.SHIFT else {1, 7, C01.lim(ta)[1], C01.lim(ta)[0], C01.lim(tb)[1]}
                body = ''
                for k in sorted(ks):
                    # the constant as the left operand of type ta, as the right operand of type tb
                    kl, kr = C01.wrap(k, ta), C01.wrap(k, tb)
                    gl, gr = C01.guard(op, ta, tb, 'kl', 'y') or '1', C01.guard(op, ta, tb, 'x', 'kr') or '1'
                    both = C01.ok(op, ta, tb, kl, kr)
                    body += '{ %s kl = %s; %s kr = %s; ' % (ta, C01.lit(kl, ta), tb, C01.lit(kr, tb))
                    body += 'if (%s) { T((ill)(kl %s y)); if (kl %s y) T(1); else T(2); if (!(kl %s y)) T(3); } ' % (gl, op, op, op)
                    body += 'if (%s) { T((ill)(x %s kr)); if (x %s kr) T(1); else T(2); int n = 0; while ((x %s kr) && n < 2) ++n; T(n); } ' % (gr, op, op, op)
                    if both:
                        body += 'T((ill)(kl %s kr)); if (kl %s kr) T(1); else T(2); T((kl %s kr) > -1); %s t = kl; t %s kr; T((ill)t); if (t > kr) T(5); ' % (
                            op, op, op, ta, (op + '=') if op not in C01.CMP else op)
                        if op in C01.CMP: body = body.replace('t %s kr; ' % op, 't = kl %s kr; ' % op)
                    body += 'T((ill)-kl); T((ill)~kr); T(!kl); T((ill)(%s)kr); if (-kl < 0) T(6); if (~kr > x) T(7); } ' % ta
                yield Case('prop/%s/%s/%s' % (C01.NM[op], ta, tb), 'ull Q_f(ull a, ull b) { %s x = (%s)a; %s y = (%s)b; %s return 0; }' % (ta, ta, tb, tb, body),
                           [0, 1, 6, 0x7f, 0x80, 0x7fffffff, 0x80000000, 2**64 - 1, 2**63], C01.shiftcounts(tb) if op in C01.SHIFT else [0, 1, 8, 0x7f, 0xff, 0xffff, 0x80000000, 2**64 - 1, 2**63])
    fl = ['+', '-', '*', '/'] + C01.CMP
    for op in fl:
        for ta in ('float', 'double', 'int', 'u64'):
            for tb in ('float', 'double'):
                out = 'TD((double)(%s));' if op not in C01.CMP else 'T(%s);'
                body = ''
                for k in ('2', '0.5', '-3', '0.1', '1e10') if ta in ('float', 'double') else ('2', '7', '1000000007'):
                    body += '{ %s kl = %s; %s kr = %s; ' % (ta, k, tb, k)
                    for e in ('kl %s y' % op, 'x %s kr' % op, 'kl %s kr' % op, 'y %s kl' % op): body += (out % e) + ' if (%s) T(1); else T(2); if (!(%s)) T(3); ' % (e, e)
                    body += 'TD(-kr); T((ill)kr); TF((float)kr); TD((double)kl); T(!kr); } '
                yield Case('fprop/%s/%s/%s' % (C01.NM[op], ta, tb), 'ull Q_f(ull a, ull b) { double v[] = {0, 1, 2, -3, 0.1, 0.5, 1e10, -1e-5, 3e30}; %s x = (%s)v[a]; %s y = (%s)v[b]; %s return 0; }' % (ta, ta, tb, tb, body),
                           list(range(9)) if ta in ('float', 'double') else [0, 1, 2, 5], range(9))

def run():
    rep = core.Report('C12')
    b = core.Build(libs=False)
    rep.rule = 'every control-flow graph of <=3 blocks over the listed actions and terminators, every loop-carried map of 3 variables in 8 skeletons, and the program spaces of C01-C04 (thorough: also C05, C06), all compiled with --apply-ssa (graphs and loops also without) in lock-step with gcc'
    rep.assumptions = ['gcc -O0 gives the C abstract machine for these (UB-free) programs']
    S = ['--apply-ssa']
    own = list(cfg_cases()) + list(loop_cases())
    PairRunner(rep, b, shard=50, xflags=S, tag='prop/').run(list(prop_cases()))
    PairRunner(rep, b, shard=1500, xflags=S, tag='ssa/').run(own)
    PairRunner(rep, b, shard=1500, tag='base/').run(own)
    PairRunner(rep, b, shard=700, xflags=S, tag='c03/').run(list(C03.tree_cases()) + list(C03.switch_cases()) + list(C03.misc_cases()))
    PairRunner(rep, b, prelude=C03.BPRE, shard=300, xflags=S, tag='c03b/').run(list(C03.bool_cases()))
    PairRunner(rep, b, prelude=C03.JPRE, shard=300, xflags=S, tag='c03j/').run(list(C03.jump_cases()))
    PairRunner(rep, b, prelude=C04.PRE, shard=1500, xflags=S, tag='c04/', driver_extra=C04.EXTRA).run(list(C04.gens()))
    c1 = list(C01.cases()); c2 = list(C02.cases())
    PairRunner(rep, b, shard=200, xflags=S, tag='c01/').run(c1 if core.THOROUGH else [c for c in c1 if not c.id.startswith('full8/')])
    PairRunner(rep, b, prelude=C02.PRE, shard=60, xflags=S, tag='c02/').run(c2)
    if core.THOROUGH:
        c5 = list(C05.scalar_cases()) + list(C05.struct_cases()) + list(C05.vararg_cases()) + list(C05.misc_cases()) + list(C05.mix_cases())
        PairRunner(rep, b, prelude=C05.PRE, shard=500, xflags=S, tag='c05/', driver_extra=C05.EXTRA, rflags=['-mno-red-zone']).run(c5)
        PairRunner(rep, b, shard=500, xflags=S, tag='c06/', ref=('clang', '-O0', '-w', '-fwrapv')).run(list(C06.layout_cases()) + list(C06.bit_cases()))
    return rep
