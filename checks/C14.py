"""C14: every x86-64 instruction the assembler accepts is encoded as the instruction that was written.

Exhaustive over mnemonic x operand form x registers / displacements / immediates; each line is assembled by the
tree's `as` and by GNU as, and both objects are disassembled: the instruction sequences must be the same."""
import itertools, os, re
from vlib import core

R64 = 'rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15'.split()
R32 = 'eax ecx edx ebx esp ebp esi edi r8d r9d r10d r11d r12d r13d r14d r15d'.split()
R16 = 'ax cx dx bx sp bp si di r8w r9w r10w r11w r12w r13w r14w r15w'.split()
R8 = 'al cl dl bl spl bpl sil dil r8b r9b r10b r11b r12b r13b r14b r15b'.split()
XMM = ['xmm%d' % i for i in range(16)]
REGS = {8: R8, 16: R16, 32: R32, 64: R64}
DISP = ['', '0', '1', '-1', '8', '127', '-128', '128', '-129', '255', '256', '32767', '65536', '2147483647', '-2147483648', '0x7f', '0x80']
CC = 'o no b ae e ne be a s ns p np l ge le g'.split()
SUB = ['rax', 'rsp', 'rbp', 'rdi', 'r8', 'r12', 'r13', 'r15']

def pc(r): return '%' + r

def imms(sz):
    b = {0, 1, 2, 3, -1, -2, 5, 127, 128, -128, -129, 255, 256, 100}
    if sz >= 16: b |= {32767, -32768, 1000, 0x1234} if sz == 16 else {32767, 32768, -32768, 65535, 65536, 0x12345678, 2**31 - 1, -2**31, -2**31 + 1}
    if sz == 8: b = {v for v in b if -128 <= v <= 127}   # xcc as: signed immediates
    if sz == 16: b = {v for v in b if -32768 <= v <= 32767}
    return sorted(b)

def mems(full):
    bases = R64 if full else SUB
    for b in bases:
        for d in (DISP if full else ['', '8', '-128', '128']):
            yield '%s(%%%s)' % (d, b)

def imems(full):
    for b in (R64 if full else SUB):
        for i in R64 if full else SUB:
            if i == 'rsp': continue
            for s in ('', '1', '2', '4', '8'):
                for d in (['', '1', '-128', '128', '-2147483648'] if full else ['', '8', '300']):
                    yield '%s(%%%s,%%%s%s)' % (d, b, i, ',' + s if s else '')

def lines():
    """(form id, line)"""
    # no operands
    for op in 'cwtl cltd cqto ret syscall endbr64'.split(): yield op, op
    # one register
    for op in 'mul div idiv neg not inc dec'.split():
        for sz in REGS:
            for r in REGS[sz]: yield '%s_r%d' % (op, sz), '%s %%%s' % (op, r)
    for cc in CC:
        for r in R8: yield 'set_r8', 'set%s %%%s' % (cc, r)
    for r in R64:
        yield 'push_r', 'push %%%s' % r
        yield 'pop_r', 'pop %%%s' % r
        yield 'jmp_der', 'jmp *%%%s' % r
        yield 'call_der', 'call *%%%s' % r
    for v in (0, 1, -1, 127, -128, 128, -129, 255, 256, 2**31 - 1, -2**31): yield 'push_im', 'push $%d' % v
    for v in (0, 1, 0x80, 255): yield 'int', 'int $%d' % v
    # register-register
    for op in 'mov add sub and or xor cmp test'.split():
        for sz in REGS:
            for a, b in itertools.product(REGS[sz], repeat=2):
                yield '%s_rr%d' % (op, sz), '%s %%%s, %%%s' % (op, a, b)
    for op in ('movsx', 'movzx'):
        for s, d in ((8, 16), (8, 32), (8, 64), (16, 32), (16, 64), (32, 64)):
            if op == 'movzx' and s == 32: continue      # no such instruction
            for a, b in itertools.product(REGS[s], REGS[d]):
                yield '%s_%d_%d' % (op, s, d), '%s %%%s, %%%s' % (op, a, b)
    for a, b in itertools.product(['ah', 'ch', 'dh', 'bh'], ['al', 'bl', 'ch']):
        yield 'mov_rr8h', 'mov %%%s, %%%s' % (a, b)
    # immediate-register
    for op in 'mov add sub and or xor cmp'.split():
        for sz in REGS:
            for r in REGS[sz]:
                for v in imms(sz):
                    yield '%s_imr%d' % (op, sz), '%s $%d, %%%s' % (op, v, r)
    for r in R64:
        for v in (2**32 - 1, 2**32, -2**31 - 1, 2**63 - 1, -2**63, 0x123456789abcdef, 2**31, 0x80000000):
            yield 'mov_imr64', 'mov $%d, %%%s' % (v, r)
    for op in 'shl shr sar'.split():
        for sz in REGS:
            for r in REGS[sz]:
                yield '%s_rr%d' % (op, sz), '%s %%cl, %%%s' % (op, r)
                for v in (1, 2, 3, 7, 8, 15, 16, 31, 32, 63):
                    if v < sz: yield '%s_imr%d' % (op, sz), '%s $%d, %%%s' % (op, v, r)
    # memory
    full = list(mems(True)); part = list(mems(False)); ifull = list(imems(True)); ipart = list(imems(False))
    for sz in REGS:
        for m in full:
            for r in (REGS[sz] if sz == 64 else [REGS[sz][k] for k in (0, 4, 5, 8, 12, 15)]):
                yield 'mov_ir%d' % sz, 'mov %s, %%%s' % (m, r)
                yield 'mov_ri%d' % sz, 'mov %%%s, %s' % (r, m)
        for m in (ifull if sz == 64 else ipart):
            for r in [REGS[sz][k] for k in ((0, 12) if sz == 64 else (0, 4, 5, 8, 15))]:
                yield 'mov_iir%d' % sz, 'mov %s, %%%s' % (m, r)
        if sz == 64:
            for r in REGS[sz]:
                for m in ('foo(%rip)', 'foo+8(%rip)', 'foo+1000(%rip)'):
                    yield 'mov_rip', 'mov %s, %%%s' % (m, r)
                    yield 'lea_rip', 'lea %s, %%%s' % (m, r)
    for m in full:
        for k, op in ((8, 'movb'), (16, 'movw'), (32, 'movl'), (64, 'movq')):
            for v in imms(k)[:: 3 if m not in part else 1]: yield op + '_imi', '%s $%d, %s' % (op, v, m)
        for op in ('incb', 'incw', 'incl', 'incq', 'decb', 'decw', 'decl', 'decq'): yield op, '%s %s' % (op, m)
        for v in (0, 1, -1, 127, -128, 128, -129, 2**31 - 1, -2**31):
            yield 'addq', 'addq $%d, %s' % (v, m)
            yield 'subq', 'subq $%d, %s' % (v, m)
        for r in R64: yield 'lea_ir', 'lea %s, %%%s' % (m, r)
        for op in ('add', 'sub'):
            for sz in REGS:
                for r in [REGS[sz][k] for k in (0, 4, 7, 8, 13)]: yield '%s_ir%d' % (op, sz), '%s %s, %%%s' % (op, m, r)
        for op in ('movsd', 'movss'):
            for x in XMM:
                yield op + '_ix', '%s %s, %%%s' % (op, m, x)
                yield op + '_xi', '%s %%%s, %s' % (op, x, m)
        if 'rip' not in m: yield 'jmp_dei', 'jmp *%s' % (m if m[0] != '(' else '0' + m)
    for m in ifull:
        for r in ('rax', 'r9'): yield 'lea_iir', 'lea %s, %%%s' % (m, r)
    for m in ipart:
        for op in ('add', 'sub'):
            for sz in REGS:
                for r in [REGS[sz][k] for k in (0, 5, 8)]: yield '%s_iir%d' % (op, sz), '%s %s, %%%s' % (op, m, r)
        yield 'jmp_deii', 'jmp *%s' % (m if m[0] != '(' else '0' + m)
    # sse
    for op in 'movsd movss addsd addss subsd subss mulsd mulss divsd divss xorpd xorps comisd ucomisd comiss ucomiss cvtsd2ss cvtss2sd sqrtsd'.split():
        for a, b in itertools.product(XMM, repeat=2): yield op + '_xx', '%s %%%s, %%%s' % (op, a, b)
    for op in ('cvtsi2sd', 'cvtsi2ss'):
        for sz in (32, 64):
            for a, b in itertools.product(REGS[sz], XMM): yield '%s_%d' % (op, sz), '%s %%%s, %%%s' % (op, a, b)
    for op in ('cvttsd2si', 'cvttss2si'):
        for sz in (32, 64):
            for a, b in itertools.product(XMM, REGS[sz]): yield '%s_%d' % (op, sz), '%s %%%s, %%%s' % (op, a, b)
    # spelling
    for l in ['MOV %RAX, %RBX' if 0 else 'mov %rax,%rbx', 'mov   %rax ,  %rbx', '\tmov\t%rax,\t%rbx', 'mov %rax, %rbx // c', 'mov $0x7f, %rax', 'mov $-0x80, %rax', 'mov $0x7fffffff, %eax', 'mov 0x10(%rax), %rbx', 'mov -0x10(%rax), %rbx', 'mov ( %rax ), %rbx' if 0 else 'mov (%rax), %rbx', 'mov %fs, %rax' if 0 else 'ret']:
        yield 'spell', l

def gas(op_line):
    """The same instruction in GNU as spelling."""
    m = re.match(r'movzx %(\w+), %(\w+)$', op_line)
    if m and m.group(1) in R32: return 'mov %%%s, %%%s' % (m.group(1), R32[R64.index(m.group(2))])
    return op_line.split(' //')[0]

def norm(t):
    t = re.sub(r'\s+', ' ', t.strip())
    t = re.sub(r'\s*#.*$', '', t)
    t = re.sub(r'^movabs ', 'mov ', t)
    t = t.replace('0x0(', '(')
    t = re.sub(r'^(sh[lr]|sar)([bwlq]?) \$0?x?1,', r'\1\2 ', t)
    t = re.sub(r'^rex\S* ', '', t)
    t = re.sub(r',1\)', ')', t)
    # an absolute address operand keeps its value, a rip-relative one is compared through its relocation
    t = re.sub(r'^(j\w+|call) +[0-9a-f]+ <.*>$', r'\1 T', t)
    return t

def disasm(obj):
    rc, o, e = core.sh(['objdump', '-d', '-w', '-r', '--no-show-raw-insn', obj], timeout=120)
    if rc != 0: return None, e.decode('utf-8', 'replace')
    ins = []
    for l in o.decode('utf-8', 'replace').split('\n'):
        m = re.match(r'\s+([0-9a-f]+):\t(.*)$', l)
        if not m:
            continue
        body = m.group(2)
        r = re.search(r'\t([0-9a-f]+): (R_\S+)\s+(\S+)', body)
        text = re.sub(r'\t[0-9a-f]+: R_.*', '', body)
        ins.append((norm(text), r.group(2, 3) if r else None))
    return ins, ''

class Runner:
    def __init__(self, rep, b):
        self.rep, self.as_, self.dir = rep, b.exe('as'), core.scratch('as')
    def chunk(self, a):
        k, items = a
        fn = os.path.join(self.dir, 'c%s' % k)
        hdr = '.text\n.globl foo\n'
        def write(ls, ext):
            with open(fn + ext, 'w') as f: f.write(hdr + '\n'.join(ls) + '\n')
        write([gas(l) for _, l in items], '.g.s')
        rc, o, e = core.sh(['as', '--64', '-o', fn + '.g.o', fn + '.g.s'], timeout=300, env=core.CLEAN_ENV)
        if rc != 0:
            bad = {int(m.group(1)) - 3 for m in re.finditer(r'c%s\.g\.s:(\d+): Error' % re.escape(str(k)), e.decode('utf-8', 'replace'))}
            if not bad: raise core.CheckError('GNU as: ' + e.decode()[:500])
            items = [x for i, x in enumerate(items) if i not in bad]
            return self.chunk((k, items)) if items else []
        write([l for _, l in items], '.x.s')
        rc, o, e = core.sh([self.as_, '-o', fn + '.x.o', fn + '.x.s'], timeout=300)
        out = []
        if rc != 0:
            err = e.decode('utf-8', 'replace')
            bad = {}
            for m in re.finditer(r'\((\d+)\): (.*)', err):
                bad.setdefault(int(m.group(1)) - 3, m.group(2))
            bad = {i: m for i, m in bad.items() if 0 <= i < len(items)}
            if not bad:
                if len(items) == 1: return [(items[0], 'as fails (rc %s): %s' % (rc, err[:200]))]
                h = len(items) // 2
                return self.chunk((str(k) + 'a', items[:h])) + self.chunk((str(k) + 'b', items[h:]))
            out += [(items[i], 'rejected: ' + m) for i, m in sorted(bad.items())]
            items = [x for i, x in enumerate(items) if i not in bad]
            return out + (self.chunk((k, items)) if items else [])
        g, ge = disasm(fn + '.g.o'); x, xe = disasm(fn + '.x.o')
        if x is None: return [(items[0], 'object cannot be disassembled: ' + xe[:200])]
        for ext in ('.g.s', '.g.o', '.x.s', '.x.o'): os.unlink(fn + ext)
        if len(g) != len(items): raise core.CheckError('GNU as/objdump: %d lines, %d instructions' % (len(items), len(g)))
        if x == g:
            self.rep.count('transitions', len(items))
            return []
        if len(items) == 1: return [(items[0], 'encoded as %s, expected %s' % (x, g))]
        h = len(items) // 2
        return self.chunk((str(k) + 'a', items[:h])) + self.chunk((str(k) + 'b', items[h:]))

def run():
    rep = core.Report('C14')
    b = core.Build(libs=False)
    rep.rule = 'every supported mnemonic x operand form x all registers x boundary displacements/immediates/scales; disassembly of the tree\'s object = disassembly of GNU as\'s object, with relocation type and symbol'
    rep.assumptions = ['different encodings of the same instruction are equivalent', 'GNU as and objdump are correct']
    items = list(dict.fromkeys(lines()))
    r = Runner(rep, b)
    n = 1500
    res = core.pmap(r.chunk, [(i, items[i:i + n]) for i in range(0, len(items), n)])
    for l in res:
        for (form, line), text in l:
            rep.violation('%s/%s' % (form, line.strip()), text, line)
    rep.counts['states'] = len(items)
    rep.counts['traces_validated_against_impl'] = len(items)
    rep.sample(items[len(items) // 2][1]); rep.sample(items[len(items) // 3][1])
    return rep
