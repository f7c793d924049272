"""C15: labels, branch relaxation, sections, data directives and symbols of the assembler.

Every source text of the enumerated families is assembled by the tree's `as` and by GNU as; both objects are linked by
GNU ld at the same fixed section addresses, and the two images (every byte of every section), alignments and symbol
tables must agree."""
import itertools, os, re
from vlib import core
from vlib.elf import Elf

SCRIPT = 'SECTIONS {\n' + '\n'.join('  %s 0x%x : { *(%s) }' % (n, a, n) for n, a in
    [('.text', 0x400000), ('.rodata', 0x500000), ('.data', 0x600000), ('.foo', 0x700000), ('.tx', 0x800000), ('.init_array', 0x880000), ('.bss', 0x900000)]) + '\n  /DISCARD/ : { *(.note*) *(.comment) *(.eh_frame) }\n}\n'

CC = 'o no b ae e ne be a s ns p np l ge le g'.split()

# ---------------------------------------------------------------- families: lists of (id, text)
def relax():
    """Groups of jumps, gaps, labels and alignments: lists of ('j', cc, label) ('z', n) ('l', label) ('a', n)."""
    n = [0]
    def lab():
        n[0] += 1
        return '.L%d' % n[0]
    for j in ['jmp'] + ['j' + c for c in CC]:
        for d in (0, 1, 2, 100, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 200, 255, 256, 257, 32767, 40000):
            a = lab(); yield 'fwd/%s/%d' % (j, d), [('j', j, a), ('z', d), ('l', a)]
            a = lab(); yield 'bwd/%s/%d' % (j, d), [('l', a), ('z', d), ('j', j, a)]
    # nested and crossing jumps: growing one moves the target of the other over the boundary
    R = range(118, 132)
    for j1, j2 in itertools.product(('jmp', 'je'), repeat=2):
        for x, y in itertools.product(R, (0, 1, 2, 3, 4, 5, 6)):
            a, b = lab(), lab()
            yield 'nest/%s/%s/%d/%d' % (j1, j2, x, y), [('j', j1, a), ('j', j2, b), ('z', x), ('l', a), ('z', y), ('l', b)]
            a, b = lab(), lab()
            yield 'nestb/%s/%s/%d/%d' % (j1, j2, x, y), [('l', a), ('z', y), ('l', b), ('z', x), ('j', j1, b), ('j', j2, a)]
            a, b = lab(), lab()
            yield 'cross/%s/%s/%d/%d' % (j1, j2, x, y), [('j', j1, a), ('z', y), ('l', b), ('z', x), ('l', a), ('j', j2, b)]
    for x in range(110, 132):
        # a chain: one growth triggers the next
        for j in ('jmp', 'jne'):
            for rev in (0, 1):
                ls = [lab() for _ in range(6)]
                g = [('j', j, l) for l in (ls[::-1] if rev else ls)] + [('z', x)]
                for l in ls: g += [('l', l), ('z', 2)]
                yield 'chain/%s/%d/%d' % (j, rev, x), g
        for al in (2, 4, 8, 16, 32):
            for j in ('jmp', 'jg'):
                a, b = lab(), lab()
                yield 'al/%s/%d/%d' % (j, x, al), [('j', j, a), ('z', x), ('a', al), ('l', a), ('j', j, b), ('z', 127), ('l', b)]
                a, b = lab(), lab()
                yield 'al2/%s/%d/%d' % (j, x, al), [('j', j, a), ('j', j, b), ('z', x - 3), ('l', b), ('a', al), ('l', a)]
                a, b = lab(), lab()
                yield 'al3/%s/%d/%d' % (j, x, al), [('l', a), ('a', al), ('l', b), ('z', x), ('j', j, b), ('j', j, a), ('a', al)]

def relax_text(groups):
    out = []
    for _, g in groups:
        for s in g:
            out.append('%s %s' % s[1:] if s[0] == 'j' else '.zero %d' % s[1] if s[0] == 'z' else s[1] + ':' if s[0] == 'l' else '.align %d' % s[1])
    return '.text\n' + '\n'.join(out) + '\n'

def relax_check(groups, code):
    """Walk the emitted bytes along the statements: every jump must have its condition and reach its label."""
    pos, err = 0, []
    for k, g in groups:
        at, jumps = {}, []
        for s in g:
            if s[0] == 'l': at[s[1]] = pos
            elif s[0] == 'z':
                if code[pos:pos + s[1]] != bytes(s[1]): return [(k, '.zero %d at 0x%x holds other bytes' % (s[1], pos))]
                pos += s[1]
            elif s[0] == 'a': pos = -(-pos // s[1]) * s[1]
            else:
                c = None if s[1] == 'jmp' else CC.index(s[1][1:])
                b = code[pos:pos + 6]
                if len(b) < 2: return [(k, 'text ends early')]
                if b[0] == (0xeb if c is None else 0x70 + c): n, rel = 2, int.from_bytes(b[1:2], 'little', signed=True)
                elif c is None and b[0] == 0xe9: n, rel = 5, int.from_bytes(b[1:5], 'little', signed=True)
                elif c is not None and b[0] == 0x0f and b[1] == 0x80 + c: n, rel = 6, int.from_bytes(b[2:6], 'little', signed=True)
                else: return [(k, '%s at 0x%x is encoded as %s' % (s[1], pos, b.hex()))]
                pos += n
                jumps.append((s, pos + rel))
        for s, t in jumps:
            if t != at[s[2]]: err.append((k, '%s %s goes to 0x%x, label is at 0x%x' % (s[1], s[2], t, at[s[2]])))
    if pos != len(code): err.append((groups[-1][0], 'text has %d bytes, expected %d' % (len(code), pos)))
    return err

STM = [('text', '.text'), ('data', '.data'), ('ro', '.section .rodata'), ('foo', '.section .foo,"aw"'), ('tx', '.section .tx,"ax"'), ('bss', '.bss'),
       ('b', '.byte 0x12'), ('s', '.short 0x1234'), ('l', '.long 0x12345678'), ('q', '.quad 0x123456789abcdef0'), ('z', '.zero 3'), ('a8', '.align 8'),
       ('a2', '.align 2'), ('str', '.string "ab"'), ('p4', '.p2align 4'), ('ret', 'ret'), ('jl', 'jmp L0'), ('je', 'je ext'), ('qr', '.quad L1'), ('qe', '.quad ext+8'), ('qd', '.quad L1-L0'), ('ld', '.long L1-L0+3'), ('lea', 'lea L0(%rip), %rax'), ('mv', 'mov ext(%rip), %rcx'), ('cl', 'call ext2'), ('cl0', 'call L1')]
BSSOK = {'z', 'a8', 'a2', 'p4'}
SECS = {'text', 'data', 'ro', 'foo', 'tx', 'bss'}

def sections(depth, glob):
    """All statement sequences; every statement is labelled, and all labels are referred to afterwards."""
    for seq in itertools.product(STM, repeat=depth):
        cur, ok, used, nsec = 'text', True, False, 0
        for k, _ in seq:
            if k in SECS:
                cur = k; nsec += 1
            elif cur == 'bss' and k not in BSSOK: ok = False
        if not ok or not nsec: continue
        lines, cur = [], 'text'
        seclab = {}
        for i, (k, t) in enumerate(seq):
            lines.append(t if k in SECS else 'L%d: %s' % (i, t) if glob == 1 else 'L%d:\n%s' % (i, t))
            if k in SECS:
                cur = k; lines.append('L%d:' % i)
            seclab[i] = cur
        if 'L1-L0' in '\n'.join(lines) and seclab.get(0) != seclab.get(1): continue
        pre = []
        for i in range(len(seq)):
            if glob and i % 2 == glob - 1: pre.append('.globl L%d' % i)
        # every section holds something, so that every label has a section to live in
        tail = ['.text', 'nop0: ret'] + ['jmp L%d\nje L%d\nlea L%d(%%rip), %%rax\ncall L%d' % (i, i, i, i) for i in range(len(seq))]
        tail += ['.data'] + ['.quad L%d\n.quad L%d+5' % (i, i) for i in range(len(seq))]
        for k in sorted(set(seclab.values())):
            tail += [dict(STM)[k], '.zero 8' if k == 'bss' else '.byte 0xcc']
        yield 'sec%d/%d/%s' % (depth, glob, '.'.join(k for k, _ in seq)), '\n'.join(pre + lines + tail)

NUM = ['0', '1', '-1', '127', '128', '255', '256', '-128', '-129', '32767', '65535', '-32768', '2147483647', '4294967295', '-2147483648', '0x7f', '0xff', '0xFFFF', '0x123456789abcdef0', '9223372036854775807', '-9223372036854775808', '18446744073709551615', '-0x80']
def data():
    for d, lim in (('.byte', 8), ('.short', 16), ('.long', 32), ('.quad', 64)):
        for v in NUM:
            x = int(v, 0)
            if -(1 << lim - 1) <= x < 1 << lim: yield 'num/%s/%s' % (d, v), '%s %s' % (d, v)
    ops = ['1', '7', '-3', '100', '0x10']
    for a, b in itertools.product(ops, repeat=2):
        for o in '+-*/':
            yield 'bin/%s%s%s' % (a, o, b), '.quad %s%s%s' % (a, o, b)
            yield 'binsp/%s%s%s' % (a, o, b), '.long %s %s %s' % (a, o, b)
    for a, b, c in itertools.product(['6', '20', '-7'], ['2', '3'], ['1', '5']):
        for o, p in itertools.product('+-*/', repeat=2):
            yield 'tri/%s%s%s%s%s' % (a, o, b, p, c), '.quad %s%s%s%s%s' % (a, o, b, p, c)
    # operand lists: every list of 2 and 3 operands, each of its own form
    for d in ('.byte', '.short', '.long', '.quad'):
        es = ['1', '-2', '0x7f', '017', '3 + 4', '8*2'] + (['nop0', 'nop0+4'] if d == '.quad' else [])
        for k in (2, 3):
            for i, l in enumerate(itertools.product(es, repeat=k)):
                sep = (', ', ',', ' , ', ' ,')[i % 4]
                yield 'list/%s/%s' % (d, ','.join(l)), d + ' ' + sep.join(l)
    for n in ('0', '00', '01', '07', '010', '0777', '017777', '-010', '-01', '0x1F', '0X1f', '1 + 010', '010 * 010', '0-07'):
        yield 'oct/' + n, '.long %s' % n
    for d in ('.double', '.float'):
        for l in itertools.product(['1', '-2.5', '0.1', '1e3'], repeat=2): yield 'list/%s/%s' % (d, ','.join(l)), '%s %s, %s' % ((d,) + l)
    for d in ('.string', '.ascii'):
        for k in (2, 3):
            for l in itertools.product(['""', '"a"', '"b,c"', '"\\0"', '"\\""'], repeat=k): yield 'list/%s/%s' % (d, ','.join(l)), '%s %s' % (d, ', '.join(l))
    fl = ['0', '1', '1.0', '-1.5', '0.1', '3.14159265358979', '1e10', '1e-10', '-2.5e300', '1.5e-300', '123456789.125', '.5', '1e308', '5e-324', '-0.0']
    for v in fl:
        yield 'double/' + v, '.double %s' % v
        if 'e3' not in v and 'e-3' not in v: yield 'float/' + v, '.float %s' % v
    for c in range(0x20, 0x7f):
        if chr(c) in '"\\': continue
        yield 'ascii/%02x' % c, '.ascii "%s"' % chr(c)
        yield 'string/%02x' % c, '.string "x%sy"' % chr(c)
    for e in ['\\n', '\\t', '\\r', '\\b', '\\f', '\\\\', '\\"', '\\0', '\\x41', '\\x7f', '\\xff', '\\x00']:
        for l, r in itertools.product(['', 'x', ' ', '\\n'], ['', 'z', ' ', '\\\\', '\\"', '\\n']):
            yield 'esc/%s/%s/%s' % (l, e, r), '.ascii "%s%s%s"' % (l, e, r)
            yield 'escz/%s/%s/%s' % (l, e, r), '.string "%s%s%s"' % (l, e, r)
    for e in ['\\x41', '\\xff', '\\x00', '\\0']:
        yield 'esc2/' + e, '.ascii "%s%s"' % (e, e)
    for u in ['é', '日本語', '𝄞', 'aé', '// x', '/* x */', '#', ';', ',', ':']:
        yield 'utf/' + u, '.string "%s"' % u
    yield 'empty', '.string ""'
    for z in (0, 1, 2, 7, 8, 100, 4095, 4096, 4097):
        yield 'zero/%d' % z, '.zero %d\n.byte 1' % z
    for al in (1, 2, 4, 8, 16, 32, 64):
        for n in (0, 1, 3, 8, 15):
            yield 'align/%d/%d' % (al, n), '.zero %d\n.align %d\n.byte 2' % (n, al)
            yield 'p2align/%d/%d' % (al, n), '.zero %d\n.p2align %d\n.byte 2' % (n, al.bit_length() - 1)

def spelling():
    for c in ['', ' ', '\t', ' // c', ' /* c */', '\t// "x']:
        for body in ['ret', 'mov %rax, %rbx', 'mov $1, %eax', 'lab:', 'lab: ret', 'lab:  mov $2, %ecx', 'jmp nop0', 'add $8, %rsp', 'mov 8(%rsp), %rdi', 'lea nop0(%rip), %rsi', 'push %rbx']:
            for pre in ['', ' ', '\t', '  \t ']:
                yield 'spell/%r/%s/%r' % (pre, body, c), pre + body + c
    for l in ['a', '_a', '.a', '.La', 'a1', 'a.b', '_', 'a_b.c_1', '"q"', '"q r"', '"a-b"']:
        yield 'label/' + l, '%s:\nret\njmp %s\n.data\n.quad %s\n.text\nlea %s(%%rip), %%rax' % (l, l, l, l)
        yield 'glabel/' + l, '.globl %s\n%s:\nret\njmp %s\ncall %s' % (l, l, l, l)

def symbols():
    """Symbol table contents: binding x type x definition x references, in every order of the declarations."""
    D = {'g': '.globl S', 'w': '.weak S', 'tf': '.type S, @function', 'to': '.type S, @object', 'l': '.local S'}
    for sub in itertools.chain.from_iterable(itertools.permutations(D, n) for n in range(0, 4)):
        if ('tf' in sub and 'to' in sub) or ('l' in sub and ('g' in sub or 'w' in sub)) or ('g' in sub and 'w' in sub): continue
        for defn in ('text', 'data', 'comm', 'none'):
            if defn == 'comm' and ('w' in sub or 'tf' in sub): continue
            for pos in range(len(sub) + 1):
                ls = [D[k] for k in sub]
                d = {'text': '.text\nS:\nret', 'data': '.data\nS:\n.quad 7\n.text', 'comm': '.comm S, 12, 4', 'none': '.text'}[defn]
                if defn == 'comm' and not ('g' in sub or 'l' in sub): continue
                if defn == 'comm' and 'l' in sub[pos:]: continue        # .local must come first
                if defn == 'none' and ('l' in sub or not ('g' in sub or 'w' in sub)): continue
                ls.insert(pos, d)
                for ref in ('', 'call S', 'lea S(%rip), %rax', '.data\n.quad S\n.text', 'jmp S'):
                    yield 'sym/%s/%s/%d/%s' % ('.'.join(sub), defn, pos, ref.replace('\n', ' ')), '\n'.join(ls) + '\n' + ref + '\nnop1: ret\n.data\n.quad 1\n'
    for sz in (1, 2, 3, 8, 100, 4097):
        for al in (1, 2, 4, 8, 16, 32, 64):
            for o in range(2):
                ls = ['.comm A, %d, %d' % (sz, al), '.comm B, 3, 1', '.comm C, 8, %d' % al]
                if o: ls.reverse()
                yield 'comm/%d/%d/%d' % (sz, al, o), '.local A\n.local B\n.local C\n' + '\n'.join(ls) + '\n.data\n.quad A\n.quad B\n.quad C\n.text\nret'
                yield 'gcomm/%d/%d/%d' % (sz, al, o), '.globl A\n.globl B\n.globl C\n' + '\n'.join(ls) + '\n.data\n.quad A\n.quad B\n.quad C\n.text\nret'

# ---------------------------------------------------------------- execution
class Runner:
    def __init__(self, rep, b):
        self.rep, self.as_, self.dir = rep, b.exe('as'), core.scratch('asx')
        self.seq = itertools.count()
        self.script = os.path.join(self.dir, 'l.ld')
        with open(self.script, 'w') as f: f.write(SCRIPT)
    def gtext(self, kind, t, fill):
        t = re.sub(r'(?m)^((?:L\d+: )?)\.align (\d+)', r'\1.balign \2, %d' % fill, t)
        t = re.sub(r'(?m)^((?:L\d+: )?)\.p2align (\d+)', r'\1.p2align \2, %d' % fill, t)
        return re.sub(r'(?m)( //.*|\t//.*)$', '', t) if kind.startswith('spell') else t
    def build(self, fn, text, tool, link):
        with open(fn + '.s', 'w') as f: f.write(text + '\n')
        rc, o, e = core.sh([tool] + ([] if tool != 'as' else ['--64', '-mrelax-relocations=no']) + ['-o', fn + '.o', fn + '.s'], timeout=60, env=core.CLEAN_ENV if tool == 'as' else None)
        if rc != 0: return None, 'as rc %s: %s' % (rc, e.decode('utf-8', 'replace')[:300])
        if link:
            rc, o, e = core.sh(['ld', '-T', self.script, '--defsym', 'ext=0x450000', '--defsym', 'ext2=0x450010', '-e', '0', '--no-warn-rwx-segments', '--no-relax', '--unresolved-symbols=ignore-all', '-o', fn + '.x', fn + '.o'], timeout=60, env=core.CLEAN_ENV)
            if rc != 0: return None, 'object rejected by ld: %s' % e.decode('utf-8', 'replace')[:300]
        return (Elf(fn + '.o'), Elf(fn + '.x') if link else None), ''
    def one(self, a):
        k, text = a
        fn = os.path.join(self.dir, 'f%d_' % os.getpid() + '%d' % next(self.seq))
        try:
            link = not k.startswith(('sym/', 'gcomm/'))
            g0, e = self.build(fn + 'g', self.gtext(k, text, 0), 'as', link)
            if g0 is None: raise core.CheckError('reference rejects %s: %s\n%s' % (k, e, text[:2000]))
            g1 = g0
            if 'align' in text: g1, e = self.build(fn + 'h', self.gtext(k, text, 0x90), 'as', link)
            x, e = self.build(fn + 'x', text, self.as_, link)
            if x is None: return e
            return self.compare(g0, g1, x, link)
        finally:
            for t in 'ghx':
                for ext in ('.s', '.o', '.x'):
                    try: os.unlink(fn + t + ext)
                    except OSError: pass
    def compare(self, g0, g1, x, link):
        if link:
            A, B, X = g0[1].image(), g1[1].image(), x[1].image()
            if set(A) != set(X): return 'sections %s, expected %s' % (sorted(X), sorted(A))
            for n in A:
                if A[n][1] != X[n][1]: return 'section %s has size %d, expected %d' % (n, X[n][1], A[n][1])
                if (A[n][2] is None) != (X[n][2] is None): return 'section %s: NOBITS differs' % n
                if A[n][2] is not None:
                    for i, (p, q, r) in enumerate(zip(A[n][2], B[n][2], X[n][2])):
                        if p == q and r != p: return 'byte 0x%x of %s is 0x%02x, expected 0x%02x (linked image)' % (i, n, r, p)
        AO, XO = g0[0].image(), x[0].image()
        for n in AO:
            if n not in XO: return 'object lacks section %s' % n
            if XO[n][3] % max(1, AO[n][3]): return 'section %s aligned to %d, must be %d' % (n, XO[n][3], AO[n][3])
            if XO[n][4] & 7 != AO[n][4] & 7: return 'section %s flags %x, expected %x' % (n, XO[n][4], AO[n][4])
        def syms(e):
            out = {}
            for n, bind, ty, ndx, v, sz in e.symbols():
                if not n or ty in (3, 4): continue
                sec = 'UND' if ndx == 0 else 'COM' if ndx == 0xfff2 else 'ABS' if ndx == 0xfff1 else e.names[ndx]
                if bind == 0 and not (ty in (1, 2)): continue      # untyped locals need not be kept
                out.setdefault(n, []).append((bind, ty if sec != 'COM' else 1, sec, v, sz if sec == 'COM' else 0))
            return out
        sa, sx = syms(g0[0]), syms(x[0])
        for n in sorted(set(sa) | set(sx)):
            p, q = sa.get(n), sx.get(n)
            if p and len(p) == 1 and p[0][0] == 0 and not q: continue
            if q and len(q) == 1 and (q[0][0] == 0 or q[0][2] == 'UND') and not p: continue
            if p and q and len(p) == len(q) == 1 and p[0][2] == 'COM' and q[0][2] == 'COM':
                if p[0][4] == q[0][4] and p[0][0] == q[0][0]: continue      # st_value: private convention with the tree's ld (C16)
            elif p and q and p[0][2] != 'COM' and len(p) == len(q) and all(u[0] == v[0] and u[2] == v[2] and (u[3] == v[3] or 'bss' in u[2]) and (u[1] == v[1] or u[1] == 0 or v[1] == 0 and u[2] == 'UND') for u, v in zip(p, q)): continue
            return 'symbol %s: %s, expected %s (bind, type, section, value/alignment, size)' % (n, q, p)
        return None

def run():
    rep = core.Report('C15')
    b = core.Build(libs=False)
    rep.rule = 'all jump/label/distance groups around the short/long boundary (nested, crossing, chained, aligned); all statement sequences of length <= 3 over 26 statements with every label referenced from text and data; data directive x value/expression/escape tables; all declaration orders of symbol attributes. Linked image, alignment and symbol table = those of GNU as.'
    rep.assumptions = ['GNU as, ld and the ELF specification define the meaning', 'alignment fill bytes in code are not compared', 'untyped local symbols need not be in the symbol table']
    r = Runner(rep, b)
    items = []
    # groups that can share a file are packed; a failing pack is split
    rel = list(relax()); dat = [(k, t) for k, t in data()]
    packs = [('data', dat[i:i + 25], '.data\n') for i in range(0, len(dat), 25)]
    def rx(grp):
        fn = os.path.join(r.dir, 'r%d' % next(r.seq))
        with open(fn + '.s', 'w') as f: f.write(relax_text(grp))
        rc, o, e = core.sh([r.as_, '-o', fn + '.o', fn + '.s'], timeout=60)
        if rc != 0: bad = [(grp[0][0], 'as rc %s: %s' % (rc, e.decode('utf-8', 'replace')[:300]))]
        else:
            o = Elf(fn + '.o')
            bad = relax_check(grp, o.image()['.text'][2])
            if o.relocs(): bad.append((grp[0][0], 'relocations left for local jumps'))
        d = dict(grp)
        for ext in ('.s', '.o'):
            if os.path.exists(fn + ext): os.unlink(fn + ext)
        return [(k, m, relax_text([(k, d[k])])) for k, m in bad]
    for l in core.pmap(rx, [rel[i:i + 20] for i in range(0, len(rel), 20)]):
        for k, m, t in l: rep.violation(k, m, t)
    for k, t in spelling(): items.append((k, '.text\nnop0: ret\n' + t + '\n.data\n.byte 1'))
    for k, t in symbols(): items.append((k, t))
    depths = [(1, 0), (1, 1), (2, 0), (2, 1), (2, 2)]
    for d, g in depths: items += list(sections(d, g))
    items += list(sections(3, 1))
    if core.THOROUGH: items += list(sections(3, 0)) + list(sections(3, 2))
    def pk(a):
        kind, grp, hdr = a
        m = r.one((kind + '/' + grp[0][0], hdr + '\n'.join(t for _, t in grp) + '\n.text\nnop0: ret\n.data\n.byte 0xee'))
        if m is None: return []
        if len(grp) == 1: return [(grp[0][0], m, grp[0][1])]
        h = len(grp) // 2
        return (pk((kind, grp[:h], hdr)) + pk((kind, grp[h:], hdr))) or [(kind + '/' + grp[0][0] + '..' + grp[-1][0], m, '\n'.join(t for _, t in grp))]
    for l in core.pmap(pk, packs):
        for k, m, t in l: rep.violation(k, m, t)
    for (k, t), m in zip(items, core.pmap(r.one, items)):
        if m: rep.violation(k, m, t)
    n = len(rel) + len(dat) + len(items)
    rep.counts['states'] = n
    rep.counts['transitions'] = sum(t.count('\n') + 1 for _, t in items + dat) + sum(len(g) for _, g in rel)
    rep.counts['traces_validated_against_impl'] = n
    rep.sample(items[len(items) // 2][1]); rep.sample(relax_text([rel[len(rel) // 2]]))
    return rep
