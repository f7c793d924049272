"""C31: the compiler driver: status, outputs and leftovers of every pipeline run.

Family L runs the real tools over every short list of inputs (kinds of good and faulty inputs) in every output mode.
Family W cuts off every output at every byte (a file-size limit), for every tool that writes a file.
Family T replaces the sub-tools by stubs that read, write and finish as told, and explores every combination of
behaviours in every order in which the processes of the pipeline can finish; the driver is the tree's own."""
import hashlib, itertools, os, resource, shutil, signal, subprocess, time
from vlib import core

GOOD = {'m', 'c', 's', 'o', 'a', 'l', 'L'}
FAULT = ['pe', 'ce', 'ae', 'ue', 'nf', 'ns', 'no', 'na', 'nl', 'bs', 'ux', 'dr', 'ni']
BIG = ''.join('int z%d(int a, int b) { return a * %d + b; }\n' % (i, i) for i in range(700))

def helper(i): return 'int h%d(void) { return %d; }\n' % (i, 1 << i)
def helper_s(i): return '\t.text\n\t.globl\th%d\nh%d:\n\tmov $%d, %%eax\n\tret\n' % (i, i, 1 << i)

class Ctx:
    def __init__(self, rep, b):
        self.rep, self.b = rep, b
        self.dir = core.scratch('drv')
        self.ref = {}
        self.pre = {}
    def tool(self, cmd, **k): return core.sh(cmd, timeout=30, **k)
    def prebuilt(self):
        """Object and archive of each helper, made with the tree's tools."""
        d = os.path.join(self.dir, 'pre'); os.mkdir(d)
        for i in range(3):
            src = os.path.join(d, 'h%d.c' % i)
            with open(src, 'w') as f: f.write(helper(i))
            o = os.path.join(d, 'h%d.o' % i); a = os.path.join(d, 'libh%d.a' % i)
            rc, _, e = self.tool([self.b.xcc, '-c', '-o', o, src])
            if rc != 0: raise core.TreeError('cannot compile a helper: %s' % e.decode('utf-8', 'replace'))
            rc, _, e = self.tool(['ar', 'rcs', a, o])
            if rc != 0: raise core.CheckError('ar: %s' % e.decode())
            self.pre[i] = (open(o, 'rb').read(), open(a, 'rb').read())

def item_files(kind, i, kinds, pre):
    """(argument words, {file: content}, name stem)"""
    n = 'f%d' % i
    if kind == 'm':
        defs = [j for j, k in enumerate(kinds) if k in GOOD - {'m'}]
        t = ''.join('int h%d(void);\n' % j for j in defs)
        t += 'int main(void) { return 64%s; }\n' % ''.join(' + h%d()' % j for j in defs)
        return [n + '.c'], {n + '.c': t}
    if kind == 'c': return [n + '.c'], {n + '.c': helper(i)}
    if kind == 's': return [n + '.s'], {n + '.s': helper_s(i)}
    if kind == 'o': return [n + '.o'], {n + '.o': pre[i][0]}
    if kind == 'a': return ['libq%d.a' % i], {'libq%d.a' % i: pre[i][1]}
    if kind == 'l': return ['-lq%d' % i], {'libq%d.a' % i: pre[i][1]}
    if kind == 'L': return ['-l', 'q%d' % i], {'libq%d.a' % i: pre[i][1]}
    if kind == 'pe': return [n + '.c'], {n + '.c': 'int e%d;\n%s\n#error stop\n' % (i, BIG)}
    if kind == 'ce': return [n + '.c'], {n + '.c': BIG + 'int e%d(void) { return undeclared_name; }\n' % i}
    if kind == 'ae': return [n + '.c'], {n + '.c': 'int e%d(void) { __asm("bogus %%rax"); return 0; }\n' % i + BIG}
    if kind == 'ue': return [n + '.c'], {n + '.c': 'int undefined_function(void);\nint e%d(void) { return undefined_function(); }\n' % i}
    if kind == 'nf': return [n + '.c'], {}
    if kind == 'ns': return [n + '.s'], {}
    if kind == 'no': return [n + '.o'], {}
    if kind == 'na': return [n + '.a'], {}
    if kind == 'nl': return ['-lnone%d' % i], {}
    if kind == 'bs': return [n + '.s'], {n + '.s': helper_s(i) + '\tbogus %rax\n'}
    if kind == 'ux': return [n + '.txt'], {n + '.txt': 'int e%d;\n' % i}
    if kind == 'dr': return [n + '.c'], {n + '.c/': None}
    if kind == 'ni': return [n + '.c'], {n + '.c': '#include "no_such_file.h"\nint e%d;\n' % i}

CSRC = {'m', 'c', 'pe', 'ce', 'ae', 'ue', 'nf', 'dr', 'ni'}
ASRC = {'s', 'ns', 'bs'}

def stage_result(kind, mode):
    """'ok', 'fail', None (not processed in this mode: either)"""
    if mode == 'link': return 'ok' if kind in GOOD else 'fail'
    if kind in CSRC:
        if kind in ('m', 'c', 'ue'): return 'ok'
        if kind in ('pe', 'nf', 'dr', 'ni'): return 'fail'
        if kind == 'ce': return 'ok' if mode == 'E' else 'fail'
        if kind == 'ae': return 'ok' if mode in ('E', 'S') else 'fail'
    if kind in ASRC:
        if mode in ('E', 'S'): return None
        return 'ok' if kind == 's' else 'fail'
    if kind == 'ux': return None if mode == 'E' else 'fail'
    if kind in ('o', 'a', 'l', 'L'): return 'ok'
    return None

def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as fp: out[os.path.relpath(p, d)] = fp.read()
    return out

def lists(thorough):
    kinds = sorted(GOOD) + FAULT
    for k in kinds: yield (k,)
    for p in itertools.product(kinds, repeat=2): yield p
    for p in itertools.product(sorted(GOOD) + (FAULT if thorough else ['ce', 'nf', 'bs']), repeat=3):
        nf = sum(k in FAULT for k in p)
        if nf <= 1 and (thorough or p.count('m') == 1): yield p

def link_order_ok(kinds):
    """Archives after the object that needs them (what an archive before its user does is not this property)."""
    if 'm' not in kinds: return True
    m = kinds.index('m')
    return all(not (k in ('a', 'l', 'L') and j < m) for j, k in enumerate(kinds))

def run_list(ctx, kinds, mode, sub, o, pre, optpos):
    cid = 'L/%s/%s%s%s%s%s' % ('+'.join(kinds), mode, '-o' if o else '', '-sub' if sub else '', '-pre' if pre else '', '-optlast' if optpos else '')
    d = os.path.join(ctx.dir, hashlib.sha1(cid.encode()).hexdigest()[:16])
    os.makedirs(os.path.join(d, 'sub'))
    src = os.path.join(d, 'sub') if sub else d
    words, names = [], []
    for i, k in enumerate(kinds):
        w, files = item_files(k, i, kinds, ctx.pre)
        names.append(w[0])
        if sub and not w[0].startswith('-'): w = ['sub/' + x for x in w]
        words += w
        for f, t in files.items():
            p = os.path.join(src, f)
            if t is None: os.mkdir(p.rstrip('/')); continue
            with open(p, 'wb') as fp: fp.write(t if isinstance(t, bytes) else t.encode())
    results = [stage_result(k, mode) for k in kinds]
    ext = {'c': '.o', 'S': '.s'}.get(mode)
    producing = [i for i, k in enumerate(kinds) if k in CSRC or (k in ASRC and mode == 'c')] if mode != 'link' else []
    if mode == 'link':
        outs = {('out' if o else 'a.out'): None}
    elif mode == 'E':
        outs = {'out': None} if o else {}
    elif o:
        outs = {'out': producing[0] if len(producing) == 1 else None}
    else:
        outs = {os.path.splitext(names[i])[0] + ext: i for i in producing}
    multi = o and mode != 'link' and len(producing) > 1
    OLD = b'previous contents\n'
    if pre:
        for f in outs:
            if not os.path.exists(os.path.join(d, f)):
                with open(os.path.join(d, f), 'wb') as fp: fp.write(OLD)
    before = snapshot(d)
    flags = ['-L', 'sub' if sub else '.']
    if mode != 'link': flags.append('-' + mode)
    if o: flags += ['-o', 'out']
    cmd = [ctx.b.xcc] + (words + flags if optpos else flags + words)
    rc, so, se = core.sh(cmd, timeout=30, cwd=d)
    after = snapshot(d)
    bad = []
    expect = None
    if multi: expect = False
    elif 'fail' in results: expect = False
    elif mode == 'link': expect = kinds.count('m') == 1
    elif None not in results: expect = True
    if rc == 'timeout': bad.append('does not terminate')
    elif rc not in (0, 1): bad.append('abnormal status %s' % rc)
    elif expect is True and rc != 0: bad.append('fails (status %s) although every step can succeed' % rc)
    elif expect is False and rc == 0: bad.append('reports success although a step fails')
    if rc not in (0, 'timeout') and not se.strip(): bad.append('no diagnostic')
    for f, t in before.items():
        if f not in outs and after.get(f) != t: bad.append('input %s changed' % f)
    for f in after:
        if f not in before and f not in outs: bad.append('stray file %s' % f)
    def refout(i):
        """The reference output of source i alone."""
        w, files = item_files(kinds[i], i, kinds, ctx.pre)
        (fn, t), = files.items()
        key = (mode, fn, t)
        if key not in ctx.ref:
            rd = os.path.join(d, 'ref%d' % i); os.mkdir(rd)
            os.makedirs(os.path.join(rd, 'sub'), exist_ok=True)
            with open(os.path.join(rd, fn), 'w') as fp: fp.write(t)
            r, so_, se_ = core.sh([ctx.b.xcc, '-' + mode, '-o', 'out', fn], timeout=30, cwd=rd)
            ctx.ref[key] = open(os.path.join(rd, 'out'), 'rb').read() if r == 0 else None
            shutil.rmtree(rd)
        return ctx.ref[key]
    if rc == 0 and expect is not False:
        for f, i in outs.items():
            if multi: continue
            if mode == 'link':
                if f not in after or after[f] == OLD: bad.append('no output %s' % f); continue
                st = os.stat(os.path.join(d, f)).st_mode
                if not st & 0o100: bad.append('%s is not executable' % f); continue
                want = 64 + sum(1 << j for j, k in enumerate(kinds) if k in GOOD - {'m'})
                r, _, _ = core.sh([os.path.join(d, f)], timeout=10, cwd=d)
                if r != want: bad.append('the program returns %s instead of %s' % (r, want))
            elif mode == 'E':
                pass
            elif i is not None and results[i] == 'ok':
                if f not in after: bad.append('no output %s' % f)
                elif after[f] != refout(i): bad.append('%s is not the output of compiling that source alone' % f)
        if mode == 'E' and producing and not sub and None not in results:
            want = b''.join(refout(i) or b'' for i in producing)
            got = after.get('out') if o else so
            if got != want: bad.append('preprocessed output differs from that of the sources alone')
        if mode in ('S', 'c') and not o and so: bad.append('unexpected standard output')
    elif rc != 0:
        for f, i in outs.items():
            if f not in after or (pre and after[f] == OLD): continue
            if f in before and after[f] == before[f]: continue
            ok_other = i is not None and results[i] == 'ok' and not multi and after[f] == refout(i)
            if not ok_other: bad.append('failed, but leaves output %s (%d bytes)' % (f, len(after[f])))
    shutil.rmtree(d, ignore_errors=True)
    return cid, bad, 'command: %s\nstatus %s\nstderr: %s' % (' '.join(['xcc'] + cmd[1:]), rc, se.decode('utf-8', 'replace')[:500])

# ---------------------------------------------------------------- family W

def limited(cmd, limit, cwd, out=None):
    def pre():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    f = open(os.path.join(cwd, out), 'wb') if out else subprocess.DEVNULL
    try:
        p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=pre, timeout=30, env=core.CLEAN_ENV)
        return p.returncode, p.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', b''
    finally:
        if out: f.close()

def family_w(ctx, thorough):
    b = ctx.b
    src = 'int h(int x) { return x * 3; }\nchar text[] = "some text";\nint main(void) { return h(14); }\n'
    big = src + BIG
    jobs = []
    def prep(text, fn):
        d = os.path.join(ctx.dir, 'w%d' % len(os.listdir(ctx.dir))); os.mkdir(d)
        with open(os.path.join(d, fn), 'w') as f: f.write(text)
        return d
    for tag, text in (('small', src), ('big', big)):
        d0 = prep(text, 'a.c')
        for cmd in ([b.xcc, '-S', '-o', 'a.s', 'a.c'], [b.xcc, '-c', '-o', 'a.o', 'a.c'], [b.wcc, '-c', '-o', 'w.o', 'a.c']):
            rc, _, e = core.sh(cmd, timeout=30, cwd=d0)
            if rc != 0: raise core.TreeError('%s: %s' % (cmd, e.decode('utf-8', 'replace')[:300]))
        for name, cmd, out, redir in (
                ('cpp', [b.exe('cpp'), 'a.c'], 'o.i', True),
                ('xcc-E', [b.xcc, '-E', '-o', 'o.i', 'a.c'], 'o.i', False),
                ('cc1', [b.exe('cc1'), 'a.c'], 'o.s', True),
                ('xcc-S', [b.xcc, '-S', '-o', 'o.s', 'a.c'], 'o.s', False),
                ('as', [b.exe('as'), '-o', 'o.o', 'a.s'], 'o.o', False),
                ('xcc-c', [b.xcc, '-c', '-o', 'o.o', 'a.c'], 'o.o', False),
                ('xcc', [b.xcc, '-o', 'o.x', 'a.c'], 'o.x', False),
                ('xcc-obj', [b.xcc, '-o', 'o.x', 'a.o'], 'o.x', False),
                ('wcc-E', [b.wcc, '-E', '-o', 'o.i', 'a.c'], 'o.i', False),
                ('wcc-c', [b.wcc, '-c', '-o', 'o.o', 'a.c'], 'o.o', False),
                ('wcc-link', [b.wcc, '-o', 'o.wasm', 'w.o'], 'o.wasm', False)):
            jobs.append((tag, d0, name, cmd, out, redir))
    def one(job):
        tag, d0, name, cmd, out, redir = job
        d = os.path.join(d0, name); os.mkdir(d)
        for f in os.listdir(d0):
            if os.path.isfile(os.path.join(d0, f)): shutil.copy(os.path.join(d0, f), d)
        p = os.path.join(d, out)
        rc, e = limited(cmd, 1 << 30, d, out if redir else None)
        if rc != 0: raise core.TreeError('%s fails without a limit: %s' % (name, e.decode('utf-8', 'replace')[:300]))
        full = open(p, 'rb').read()
        n = len(full)
        if n <= 700 or thorough and n <= 20000: pts = range(n)
        else:
            # every block boundary and its neighbours, both ends
            pts = sorted({x for k in range(0, n + 1, 4096 if thorough else 16384) for x in (k - 1, k, k + 1) if 0 <= x < n} | {1, n // 2, n - 2, n - 1})
        bad = []; cnt = 0
        for k in pts:
            if os.path.exists(p): os.unlink(p)
            rc, e = limited(cmd, k, d, out if redir else None)
            cnt += 1
            got = open(p, 'rb').read() if os.path.exists(p) else None
            if rc == 'timeout': bad.append((k, 'does not terminate'))
            elif rc == 0 and got != full: bad.append((k, 'status 0, but only %s of %d bytes are written' % (len(got) if got is not None else 'none', n)))
            elif rc != 0 and not redir and got is not None and name in ('xcc-E', 'xcc-S', 'xcc-c', 'xcc', 'xcc-obj'):
                bad.append((k, 'fails (status %s), but leaves a truncated output (%d of %d bytes)' % (rc, len(got), n)))
        return tag, name, cnt, bad
    for tag, name, cnt, bad in core.pmap(one, jobs):
        ctx.rep.count('write_failure_points', cnt)
        for k, t in bad:
            ctx.rep.violation('W/%s/%s/%d' % (tag, name, k), '%s %s output cut off at byte %d: %s' % (name, tag, k, t))

# ---------------------------------------------------------------- family T

STUB = r'''
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <libgen.h>
static const char *dir;
static int dead(const char *name) {
  char p[600], buf[256]; int pid = 0;
  snprintf(p, sizeof p, "%s/pid.%s", dir, name);
  FILE *f = fopen(p, "r"); if (!f) return 0;
  int n = fscanf(f, "%d", &pid); fclose(f);
  if (n != 1) return 0;
  snprintf(p, sizeof p, "/proc/%d/stat", pid);
  f = fopen(p, "r"); if (!f) return 1;
  size_t m = fread(buf, 1, sizeof buf - 1, f); fclose(f); buf[m] = 0;
  char *q = strrchr(buf, ')');
  return !q || q[2] == 'Z' || q[2] == 'X';
}
int main(int argc, char **argv) {
  char *me = basename(strdup(argv[0]));
  dir = getenv("STUB_DIR");
  char key[64]; snprintf(key, sizeof key, "STUB_%s", me);
  char *spec = getenv(key);   /* R W F X : read 0/A, write 0/s/b, output file 0/p/f, exit 0/1/k */
  char p[600], t[600];
  snprintf(t, sizeof t, "%s/tmp.%s", dir, me); snprintf(p, sizeof p, "%s/pid.%s", dir, me);
  FILE *f = fopen(t, "w"); fprintf(f, "%d\n", getpid()); fclose(f); rename(t, p);
  static char chunk[4096]; memset(chunk, 'x', sizeof chunk); chunk[4095] = '\n';
  if (spec[0] == 'A') { char b[4096]; while (read(0, b, sizeof b) > 0) ; }
  int n = spec[1] == 'b' ? 80 : spec[1] == 's' ? 1 : 0;
  for (int i = 0; i < n; ++i) if (write(1, chunk, sizeof chunk) < 0) exit(1);
  if (spec[2] != '0') {
    char *o = 0;
    for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "-o")) o = argv[i + 1];
    int fd = open(o ? o : "a.out", O_WRONLY | O_CREAT | O_TRUNC, 0755);
    if (fd < 0 || write(fd, "complete", spec[2] == 'f' ? 8 : 4) < 0) exit(1);
    close(fd);
  }
  char *order = strdup(getenv("STUB_ORDER"));
  for (char *q = strtok(order, ","); q && strcmp(q, me); q = strtok(0, ","))
    for (int i = 0; !dead(q) && i < 8000; ++i) usleep(500);
  if (spec[3] == 'k') kill(getpid(), SIGKILL);
  _exit(spec[3] - '0');
}
'''

CPP = ['0s00', '0b00', '0001', '0s01', '0b01', '000k', '0s0k']
CC1 = ['As00', 'Ab00', '0001', 'A001', '0s01', 'As01', 'Ab01', '000k', 'As0k']
AS = ['A0f0', '0001', 'A001', 'A0p1', '000k', 'A0pk', 'A0fk']
LD = ['00f0', '0001', '00p1', '00pk']

def feasible(order, beh):
    """Can the processes finish on their own in this order? (a reader to the end needs its writer gone, a writer of
    more than a pipe holds needs its reader)"""
    pos = {n: i for i, n in enumerate(order)}
    if 'cc1' in beh:
        if beh['cc1'][0] == 'A' and pos['cc1'] < pos['cpp']: return False
        if beh['cpp'][1] == 'b' and beh['cc1'][0] != 'A' and pos['cpp'] < pos['cc1']: return False
    if 'as' in beh:
        if beh['as'][0] == 'A' and pos['as'] < max(pos['cc1'], pos['cpp']): return False
        if beh['cc1'][1] == 'b' and beh['as'][0] != 'A' and pos['cc1'] < pos['as']: return False
        # cpp blocked by a compiler that is itself blocked
        if beh['cpp'][1] == 'b' and beh['cc1'][0] != 'A' and pos['cpp'] < pos['cc1']: return False
    return True

def schedules(thorough):
    for c in CPP:
        yield 'E', {'cpp': c}, ('cpp',)
    for c, k in itertools.product(CPP, CC1):
        for order in itertools.permutations(('cpp', 'cc1')):
            beh = {'cpp': c, 'cc1': k}
            if feasible(order, beh): yield 'S', beh, order
    for c, k, a in itertools.product(CPP, CC1, AS):
        nbad = (c[3] != '0') + (k[3] != '0') + (a[3] != '0')
        if not thorough and nbad > 2: continue
        for order in itertools.permutations(('cpp', 'cc1', 'as')):
            beh = {'cpp': c, 'cc1': k, 'as': a}
            if feasible(order, beh):
                yield 'c', beh, order
                if thorough or nbad <= 1: yield 'link', dict(beh, ld=LD[0]), order + ('ld',)
    for c, k in itertools.product(CPP[:2], CC1[:2]):
        for l in LD[1:]:
            yield 'link', {'cpp': c, 'cc1': k, 'as': AS[0], 'ld': l}, ('cpp', 'cc1', 'as', 'ld')
    # a tool that cannot be started
    for gone in ('cpp', 'cc1', 'as', 'ld'):
        for mode in ('E', 'S', 'c', 'link'):
            stages = {'E': ['cpp'], 'S': ['cpp', 'cc1'], 'c': ['cpp', 'cc1', 'as'], 'link': ['cpp', 'cc1', 'as', 'ld']}[mode]
            if gone in stages:
                for c, k in itertools.product(CPP[:2], CC1[:2]):
                    beh = {n: v for n, v in (('cpp', c), ('cc1', k), ('as', AS[0]), ('ld', LD[0])) if n in stages}
                    beh[gone] = None
                    yield mode, beh, ()

def alive(pid):
    try:
        with open('/proc/%d/stat' % pid) as f: return f.read().rsplit(')', 1)[1].split()[0] not in 'ZX'
    except OSError: return False

def run_schedule(ctx, stub, mode, beh, order, pre):
    cid = 'T/%s/%s/%s%s' % (mode, ','.join('%s=%s' % (n, beh[n] or 'gone') for n in beh), '<'.join(order) or '-', '/pre' if pre else '')
    d = os.path.join(ctx.dir, hashlib.sha1(cid.encode()).hexdigest()[:16])
    os.mkdir(d)
    bind = os.path.join(d, 'bin'); os.mkdir(bind)
    w = os.path.join(d, 'work'); os.mkdir(w)
    os.link(ctx.xcc_copy, os.path.join(bind, 'xcc'))
    env = dict(core.CLEAN_ENV, STUB_DIR=d, STUB_ORDER=','.join(order))
    for n, s in beh.items():
        if s is not None: os.link(stub, os.path.join(bind, n)); env['STUB_' + n] = s
    with open(os.path.join(w, 'a.c'), 'w') as f: f.write('int x;\n')
    OLD = b'previous'
    if pre:
        with open(os.path.join(w, 'out'), 'wb') as f: f.write(OLD)
    cmd = [os.path.join(bind, 'xcc'), '-o', 'out'] + ([] if mode == 'link' else ['-' + mode]) + ['a.c']
    rc, so, se = core.sh(cmd, timeout=8, cwd=w, env=env)
    bad = []
    want_ok = all(s is not None and s[3] == '0' for s in beh.values())
    if rc == 'timeout': bad.append('does not terminate')
    elif rc not in (0, 1): bad.append('abnormal status %s' % rc)
    elif want_ok and rc != 0: bad.append('fails although every stage succeeds')
    elif not want_ok and rc == 0: bad.append('reports success although a stage fails')
    if rc != 'timeout':
        t0 = time.time()
        left = []
        for n in beh:
            try: pid = int(open(os.path.join(d, 'pid.' + n)).read())
            except (OSError, ValueError): continue
            while alive(pid) and time.time() - t0 < 2: time.sleep(0.01)
            if alive(pid): left.append(n)
        if left: bad.append('processes left running: %s' % left)
    p = os.path.join(w, 'out')
    got = open(p, 'rb').read() if os.path.exists(p) else None
    if rc == 0 and want_ok:
        if mode in ('c', 'link') and got != b'complete': bad.append('output is %r' % got)
        if mode == 'E' and len(got or b'') != (4096 if beh['cpp'][1] == 's' else 80 * 4096): bad.append('output has %d bytes' % len(got or b''))
        if mode == 'S' and len(got or b'') != (4096 if beh['cc1'][1] == 's' else 80 * 4096): bad.append('output has %d bytes' % len(got or b''))
    elif rc == 1 and got is not None and not (pre and got == OLD):
        bad.append('failed, but leaves an output of %d bytes' % len(got))
    extra = set(os.listdir(w)) - {'a.c', 'out'}
    if extra: bad.append('stray files %s' % sorted(extra))
    shutil.rmtree(d, ignore_errors=True)
    return cid, bad, 'driver on stub tools (read/write/output-file/exit), finishing order %s\nstatus %s\nstderr: %s' % (order, rc, se.decode('utf-8', 'replace')[:500])

# ---------------------------------------------------------------- command line details

def family_d(ctx):
    """Standard input, special outputs, option spellings."""
    rep, b = ctx.rep, ctx.b
    good = b'int main(void) { return 7; }\n'
    def case(cid, args, want, stdin=None, outs=(), check=None, setup=None):
        d = os.path.join(ctx.dir, 'd-' + hashlib.sha1(cid.encode()).hexdigest()[:12]); os.mkdir(d)
        for n, t in (('a.c', good), ('b.c', b'int bb;\n'), ('bad.c', b'int main(void) { return zz; }\n'), ('t.txt', good), ('v.c', b'int main(void) { return V; }\n'), ('a.s', helper_s(0).encode())):
            with open(os.path.join(d, n), 'wb') as f: f.write(t)
        os.mkdir(os.path.join(d, 'inc'))
        with open(os.path.join(d, 'inc', 'h.h'), 'w') as f: f.write('#define V 9\n')
        if setup: setup(d)
        before = set(os.listdir(d))
        rc, so, se = core.sh([b.xcc] + args, timeout=30, cwd=d, input=stdin)
        rep.count('driver_runs')
        bad = []
        if (rc == 0) != want or rc not in (0, 1): bad.append('status %s, expected %s' % (rc, 'success' if want else 'failure'))
        new = set(os.listdir(d)) - before
        if want and new != set(outs): bad.append('new files %s, expected %s' % (sorted(new), sorted(outs)))
        if not want and new: bad.append('failed, but leaves %s' % sorted(new))
        if not bad and check:
            t = check(d, so)
            if t: bad.append(t)
        if bad: rep.violation('D/' + cid, '%s: %s\n%s' % (' '.join(['xcc'] + args), '; '.join(bad), se.decode('utf-8', 'replace')[:300]))
        shutil.rmtree(d, ignore_errors=True)
    def ran(exe, st):
        def f(d, so):
            rc, _, _ = core.sh([os.path.join(d, exe)], timeout=10, cwd=d)
            return None if rc == st else '%s returns %s instead of %s' % (exe, rc, st)
        return f
    case('stdin-link', ['-x', 'c', '-'], True, good, ['a.out'], ran('a.out', 7))
    case('stdin-link-o', ['-x', 'c', '-o', 'p', '-'], True, good, ['p'], ran('p', 7))
    case('stdin-c-o', ['-x', 'c', '-c', '-o', 'p.o', '-'], True, good, ['p.o'])
    case('stdin-S-o', ['-x', 'c', '-S', '-o', 'p.s', '-'], True, good, ['p.s'])
    case('stdin-E', ['-E', '-x', 'c', '-'], True, good, [], lambda d, so: None if b'return 7' in so else 'no output')
    case('stdin-bad', ['-x', 'c', '-c', '-o', 'p.o', '-'], False, b'int f(void) { return zz; }')
    case('stdin-notype', ['-c', '-o', 'p.o', '-'], False, good)
    case('x-c-file', ['-x', 'c', 't.txt'], True, None, ['a.out'], ran('a.out', 7))
    case('no-input', [], False)
    case('no-input-o', ['-o', 'p'], False)
    for sep in (True, False):
        D = lambda v: (['-D', v] if sep else ['-D' + v])
        case('define-%d' % sep, D('V=5') + ['v.c'], True, None, ['a.out'], ran('a.out', 5))
        case('define1-%d' % sep, D('V') + ['v.c'], True, None, ['a.out'], ran('a.out', 1))
        I = ['-I', 'inc'] if sep else ['-Iinc']
        def inc(d):
            with open(os.path.join(d, 'v.c'), 'w') as f: f.write('#include "h.h"\nint main(void) { return V; }\n')
        case('include-%d' % sep, I + ['v.c'], True, None, ['a.out'], ran('a.out', 9), setup=inc)
        case('out-%d' % sep, (['-o', 'p'] if sep else ['-op']) + ['a.c'], True, None, ['p'], ran('p', 7))
    case('include-missing', ['v.c'], False, setup=lambda d: open(os.path.join(d, 'v.c'), 'w').write('#include "h.h"\nint main(void) { return V; }\n') and None)
    for o in ('missing/p', 'inc'):
        for m in ([], ['-c'], ['-S'], ['-E']):
            case('badout-%s%s' % (o, ''.join(m)), m + ['-o', o, 'a.c'], False)
    def keep(name, special):
        """A failed or successful run leaves a special file at the output path in place."""
        for m in (['-c'], ['-S'], ['-E'], []):
            for src, want in (('bad.c', False),):
                if m == ['-E']: src = 'v.c'; args_x = ['-D']; 
                def setup(d): os.mkfifo(os.path.join(d, 'p'))
                d = os.path.join(ctx.dir, 'k%s%s' % (name, ''.join(m))); os.mkdir(d)
                with open(os.path.join(d, 'bad.c'), 'w') as f: f.write('#error x\n' if m == ['-E'] else 'int main(void) { return zz; }\n')
                if special == 'fifo': os.mkfifo(os.path.join(d, 'p'))
                else: os.mkdir(os.path.join(d, 'p'))
                fd = os.open(os.path.join(d, 'p'), os.O_RDONLY | os.O_NONBLOCK) if special == 'fifo' else -1
                rc, so, se = core.sh([b.xcc] + m + ['-o', 'p', 'bad.c'], timeout=20, cwd=d)
                rep.count('driver_runs')
                if fd >= 0: os.close(fd)
                t = []
                if rc != 1: t.append('status %s' % rc)
                if not os.path.exists(os.path.join(d, 'p')): t.append('the %s at the output path is removed' % special)
                if t: rep.violation('D/keep-%s%s' % (special, ''.join(m)), 'xcc %s -o p bad.c with p a %s: %s' % (' '.join(m), special, '; '.join(t)))
                shutil.rmtree(d)
    keep('f', 'fifo'); keep('d', 'directory')

def leftovers(): return {f for f in os.listdir('/tmp') if f.startswith('xcc-')}

def check(rep):
    rep.rule = ('family L: every list of up to 2 inputs (3 with at most one faulty one) over %d kinds of input x {-E, -S, -c, link} x {-o, none} x {output exists or not} on the real tools; '
                'family W: every output of every tool cut off at every byte (at the block boundaries for large outputs); '
                'family T: every combination of stage behaviours of the pipeline in every feasible finishing order under the real driver') % (len(GOOD) + len(FAULT))
    b = core.Build(libs=True, wcc=True)
    ctx = Ctx(rep, b)
    ctx.prebuilt()
    ctx.xcc_copy = os.path.join(ctx.dir, 'xcc.copy'); shutil.copy2(b.xcc, ctx.xcc_copy)
    tmp0 = leftovers()
    cases = []
    for kinds in lists(core.THOROUGH):
        for mode in ('E', 'S', 'c', 'link'):
            if mode == 'link' and not link_order_ok(kinds): continue
            if len(kinds) == 1:
                for sub, o, pre, op in itertools.product((0, 1), repeat=4): cases.append((kinds, mode, sub, o, pre, op))
            elif len(kinds) == 2:
                for o in (0, 1):
                    for sub in ((0, 1) if core.THOROUGH else (len(cases) & 1,)): cases.append((kinds, mode, sub, o, 0, 0))
            elif mode == 'link' or core.THOROUGH:
                cases.append((kinds, mode, 0, 1, 0, 0))
    for cid, bad, info in core.pmap(lambda c: run_list(ctx, *c), cases):
        rep.count('states'); rep.count('driver_runs')
        for t in bad: rep.violation(cid, t + '\n' + info)
    rep.sample('xcc f0.c -lq1 f2.s (main, library, assembly) linked; every other list of kinds likewise')
    family_d(ctx)
    family_w(ctx, core.THOROUGH)
    stub_c = os.path.join(ctx.dir, 'stub.c'); stub = os.path.join(ctx.dir, 'stub')
    with open(stub_c, 'w') as f: f.write(STUB)
    rc, o, e = core.sh(['gcc', '-O1', '-w', '-o', stub, stub_c])
    if rc != 0: raise core.CheckError('stub: ' + e.decode())
    sch = list({str(t): t for t in ((m, beh, o, pre) for m, beh, o in schedules(core.THOROUGH) for pre in ((0, 1) if core.THOROUGH else (0,)))}.values())
    res = core.pmap(lambda s: run_schedule(ctx, stub, *s), sch, n=2 * core.NCPU)
    again = [s for s, r in zip(sch, res) if any('terminate' in t for t in r[1])]
    res2 = dict(zip(map(str, again), core.pmap(lambda s: run_schedule(ctx, stub, *s), again, n=2)))
    for s, r in zip(sch, res):
        cid, bad, info = res2.get(str(s), r)
        rep.count('schedules')
        for t in bad: rep.violation(cid, t + '\n' + info)
    rep.sample('-c with cpp=0b00, cc1=Ab00, as killed without reading, finishing order as<cpp<cc1')
    new = leftovers() - tmp0
    for _ in range(20):    # files of runs that are still going on elsewhere disappear
        if not new: break
        time.sleep(0.2); new &= leftovers()
    if new: rep.violation('tmp-leftovers', 'temporary files left: %s' % sorted(new)[:5])
    rep.count('transitions', rep.counts.get('schedules', 0) * 3)
    rep.count('traces_validated_against_impl', rep.counts['driver_runs'] + rep.counts['schedules'])
    rep.assumptions += ['an archive placed before its user, and assembly or object inputs under -E/-S, have no required status',
                        'outputs of sources before the failing one may exist, and must then be complete']

def run():
    rep = core.Report('C31')
    check(rep)
    return rep
