"""Preprocessor lock-step: enumerated preprocessing inputs run through the tree's `cpp` and through gcc -E, compared as token sequences."""
import os, re
from . import core

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<str>(?:u8|[LuU])?"(?:\\.|[^"\\\n])*")
 |(?P<chr>[LuU]?'(?:\\.|[^'\\\n])*')
 |(?P<id>(?:[A-Za-z_$]|[^\x00-\x7f])(?:[A-Za-z0-9_$]|[^\x00-\x7f])*)
 |(?P<num>\.?[0-9](?:[eEpP][+-]|[A-Za-z0-9_.])*)
 |(?P<op>\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|\#\#|.)
''', re.X | re.S)

def tokens(text):
    return [m.group(0) for m in TOK.finditer(text) if m.lastgroup != 'ws']

MARK = re.compile(r'\b__mark_(\d+)__')

def split(text):
    text = re.sub(r'^#[^\n]*$', '', text, flags=re.M)
    out, pos, cur = {}, 0, None
    for m in MARK.finditer(text):
        if cur is not None: out[cur] = tokens(text[pos:m.start()])
        cur, pos = int(m.group(1)), m.end()
    if cur is not None: out[cur] = tokens(text[pos:])
    return out

class PpRunner:
    """cases: list of (id, text).  Names in `names` are #undef'd between cases, so the cases of a batch are independent."""
    def __init__(self, rep, build, names=(), batch=250, flags=(), post=None):
        self.rep, self.cpp, self.names, self.batch, self.flags = rep, build.exe('cpp'), list(names), batch, list(flags)
        self.dir = core.scratch('pp')
        self.undef = ''.join('#undef %s\n' % n for n in names)
    def text(self, cases, base):
        out = []
        for j, (cid, t) in enumerate(cases):
            out.append('__mark_%d__\n%s%s' % (base + j, t if t.endswith('\n') else t + '\n', self.undef))
        out.append('__mark_99999999__\n')
        return ''.join(out)
    def ref(self, cases, k):
        """Reference tokens per case, None where the reference rejects the case."""
        fn = os.path.join(self.dir, 'r%s.c' % k)
        src = self.text(cases, 0)
        with open(fn, 'w') as f: f.write(src)
        rc, o, e = core.sh(['gcc', '-E', '-P', '-std=gnu17', '-Wall', '-Wno-unused', '-pedantic-errors' if getattr(self, 'pedantic', False) else '-w', '-undef'] + self.flags + [fn], timeout=120, cwd=self.dir)
        bad = set()
        if rc != 0:
            starts = [0]; line = 0
            lines = src.split('\n'); pos = []
            for ln, l in enumerate(lines, 1):
                m = re.fullmatch(r'__mark_(\d+)__', l)
                if m and m.group(1) != '99999999': pos.append((ln, int(m.group(1))))
            for m in re.finditer(r'r%s\.c:(\d+):\d+: error' % re.escape(str(k)), e.decode('utf-8', 'replace')):
                ln = int(m.group(1)); cur = None
                for p, idx in pos:
                    if p <= ln: cur = idx
                if cur is not None: bad.add(cur)
            if not bad: raise core.CheckError('reference preprocessor failed: ' + e.decode('utf-8', 'replace')[:500])
        os.unlink(fn)
        if bad:
            good = [c for j, c in enumerate(cases) if j not in bad]
            self.rep.count('rejected_by_reference', len(bad))
            return self.ref(good, k) if good else ([], {})
        return cases, split(o.decode('utf-8', 'replace'))
    def got(self, cases, k):
        fn = os.path.join(self.dir, 'r%s.c' % k)
        with open(fn, 'w') as f: f.write(self.text(cases, 0))
        rc, o, e = core.sh([self.cpp] + self.flags + [fn], timeout=60, cwd=self.dir, mem_mb=2000)
        os.unlink(fn)
        return rc, split(o.decode('utf-8', 'replace')), e.decode('utf-8', 'replace')
    def chunk(self, args):
        k, cases = args
        cases, want = self.ref(cases, k)
        if not cases: return []
        return self.compare(cases, want, k)
    def compare(self, cases, want, k):
        rc, got, err = self.got(cases, k)
        bad = []
        if rc != 0:
            if len(cases) == 1:
                return [(cases[0], 'cpp failed (rc %s): %s' % (rc, err.strip()[:300]))]
            h = len(cases) // 2
            r = []
            for part, off in ((cases[:h], 0), (cases[h:], h)):
                w = {j: want[j + off] for j in range(len(part))}
                r += self.compare(part, w, k)
            return r
        for j, c in enumerate(cases):
            if got.get(j) != want.get(j):
                bad.append((c, 'got  %s\nwant %s' % (' '.join(got.get(j, ['<missing>'])), ' '.join(want.get(j, [])))))
            else:
                self.rep.count('transitions', len(want[j]))
        return bad
    def run(self, cases):
        cases = list(cases)
        chunks = [(i, cases[i:i + self.batch]) for i in range(0, len(cases), self.batch)]
        nref = [0]
        bad = [b for r in core.pmap(self.chunk, chunks) for b in r]
        # confirm alone: a case must fail on its own, not because of its neighbours in the batch
        conf = core.pmap(lambda kb: self.chunk(('s%d' % kb[0], [kb[1][0]])), list(enumerate(bad[:200])))
        for i, (c, text) in enumerate(bad):
            if i >= 200 or conf[i]:
                self.rep.violation(c[0], conf[i][0][1] if i < 200 else text, c[1])
            else:
                self.rep.violation('history:' + c[0], 'differs only after other inputs in the same file: ' + text, c[1])
        rej = self.rep.counts.get('rejected_by_reference', 0)
        self.rep.counts['states'] = self.rep.counts.get('states', 0) + len(cases) - rej
        self.rep.counts['rejected_by_reference'] = 0
        self.rep.counts['traces_validated_against_impl'] = self.rep.counts['states']
        if cases: self.rep.sample(cases[len(cases) // 2][1][:400])
