#!/usr/bin/env python3
"""Builds the driver of one property from /repo's working tree with sanitizers, runs it in shards, judges what the
monitors reported and writes evidence/<id>.json.

    check.py P01                     tier and seed from VERIF_TIER / VERIF_SEED
    check.py P01 --case group:index  replays one case and shows everything it prints
    check.py P01 --build-only

Exit: 0 held, 1 with a VIOLATION line, 2 the check itself failed (no verdict).
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
JOBS = os.cpu_count() or 4

COMMON = ['-g', '-DNDEBUG', '-fno-omit-frame-pointer', '-w', '-pthread']
FLAVOURS = {
    # NDEBUG as the project builds it; the library's assertions are not part of any contract
    'asan': ['-O1', '-fsanitize=address,undefined,float-cast-overflow',
             '-fno-sanitize=nonnull-attribute,function,pointer-overflow',
             '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern'],
    'tsan': ['-O1', '-fsanitize=thread'],
    'plain': ['-O2', '-ftrivial-auto-var-init=pattern'],
}
ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=66:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:'
                    'malloc_context_size=12:quarantine_size_mb=48:max_malloc_fill_size=65536:detect_stack_use_after_return=0:'
                    'handle_abort=1:handle_segv=1:handle_sigfpe=1:handle_sigill=1:hard_rss_limit_mb=3500',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=66',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4',
}


HANG = threading.Event()


class CheckError(Exception):
    pass


class Refusal(Exception):
    """the driver's classes do not compile although the same driver with ordinary classes does"""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def tree_hash(pattern_dirs):
    files = []
    for d in pattern_dirs:
        for root, _, names in os.walk(d):
            files += [os.path.join(root, n) for n in names]
    return sha(*[x for f in sorted(files) for x in (os.path.relpath(f, '/'), read(f))])


def compile_all(prop, meta, flavour):
    """object files are cached under build/ by the hash of everything they are made of"""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    flags = FLAVOURS[flavour] + COMMON
    headers = tree_hash([os.path.join(REPO, 'include'), os.path.join(REPO, 'src', 'lib')])
    hh = sha(*[read(f) for f in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.h')) + glob.glob(os.path.join(VERIF, 'drivers', '*.h')))])
    jobs = []
    lib = sorted(glob.glob(os.path.join(REPO, 'src', 'lib', '**', '*.cpp'), recursive=True)) + \
        sorted(glob.glob(os.path.join(REPO, 'src', 'lib', '**', '*.c'), recursive=True))
    if not lib:
        raise CheckError('no library sources in ' + REPO)
    own = [os.path.join(VERIF, 'harness', 'common.cpp'), os.path.join(VERIF, 'harness', 'doc.cpp')] + \
        [os.path.join(VERIF, 'drivers', s) for s in meta['sources']]
    for src in lib + own:
        c = src.endswith('.c')
        cmd = (['clang', '-std=c99'] if c else ['clang++', '-std=c++17']) + flags + meta.get('flags', [])
        if os.path.dirname(src).endswith('drivers'):
            cmd += [meta.get('opt', '-O0')]      # mostly template instantiation: compile time dominates
        if not c:
            cmd += ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'harness')]
        key = sha(' '.join(cmd), headers, '' if src in lib else hh, src, read(src))
        out = os.path.join(BUILD, 'obj', key + '.o')
        jobs.append((src in own, src, cmd + ['-c', src, '-o'], out))
    todo = sorted([j for j in jobs if not os.path.exists(j[3])], key=lambda j: not j[0])

    def one(j):
        tmp = j[3] + '.%d.tmp' % os.getpid()
        p = subprocess.run(j[2] + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            os.rename(tmp, j[3])
        return (j[1], p.returncode, p.stdout)
    with ThreadPoolExecutor(JOBS) as ex:
        for src, rc, out in ex.map(one, todo):
            if rc and meta.get('ordinary') and os.path.dirname(src).endswith('drivers'):
                cmd = next(j[2] for j in jobs if j[1] == src)
                p = subprocess.run(cmd[:-1] + ['/dev/null', '-DORDINARY'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if p.returncode == 0:
                    raise Refusal(next((x for x in out.splitlines() if 'error:' in x), out[:400]))
            if rc:
                raise CheckError('compiling %s failed:\n%s' % (src, out[-6000:]))
    objs = [j[3] for j in jobs]
    for o in objs:
        os.utime(o)
    exe = os.path.join(BUILD, '%s-%s-%s' % (prop, flavour, sha(*objs)))
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        p = subprocess.run(['clang++'] + flags + objs + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError('linking failed:\n' + p.stdout[-4000:])
        os.rename(tmp, exe)
    os.utime(exe)
    prune()
    return exe


def prune():
    now = time.time()
    for pat, keep in (('obj/*.o', 400), ('P*-*', 60)):
        fs = [f for f in glob.glob(os.path.join(BUILD, pat)) if os.path.isfile(f)]
        fs.sort(key=lambda f: os.stat(f).st_mtime, reverse=True)
        for f in fs[keep:]:
            if now - os.stat(f).st_mtime > 1800:
                try:
                    os.unlink(f)
                except OSError:
                    pass


def mine(path):
    """integer constants of the sources: workload seeds, so that sizes near whatever thresholds the code uses are tried"""
    vals = set()
    for d in ('include', os.path.join('src', 'lib')):
        for root, _, names in os.walk(os.path.join(REPO, d)):
            for n in names:
                if n == 'powers.h' or 'fpconv' in root:
                    continue
                for m in re.finditer(rb'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?![\w.])', read(os.path.join(root, n))):
                    v = int(m.group(1), 0) if not re.match(rb'^0\d', m.group(1)) else int(m.group(1))
                    if 3 < v < 1 << 63:
                        vals.add(v)
                for m in re.finditer(rb'(\d+)\s*\*\s*(\d+)(?:\s*\*\s*(\d+))?', read(os.path.join(root, n))):
                    v = 1
                    for g in m.groups():
                        v *= int(g or 1)
                    if 3 < v < 1 << 40:
                        vals.add(v)
    with open(path, 'w') as f:
        f.write('\n'.join(map(str, sorted(vals))) + '\n')


FRAME = re.compile(r'^\s*#\d+\s+0x[0-9a-f]+\s+(?:in\s+)?(.*?)\s+(/\S+?):(\d+)', re.M)


def crash_key(err):
    """a stable name for a sanitizer report: what, and the innermost function of the library"""
    kind = 'crash'
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err) or re.search(r'WARNING: ThreadSanitizer: ([\w -]+?) \(', err) or \
        re.search(r'ERROR: ThreadSanitizer: ([\w-]+)', err)
    if m:
        kind = m.group(1).replace(' ', '-')
    else:
        m = re.search(r'runtime error: (.*)', err)
        if m:
            kind = 'ub-' + re.sub(r'[^a-z]+', '-', re.sub(r"'.*?'|0x\w+|-?\d[\d.e+]*", '', m.group(1)).lower()).strip('-')[:60]
        elif 'hard rss limit exhausted' in err:
            kind = 'memory-limit'
        elif 'terminate called' in err or 'terminating' in err:
            kind = 'terminate'
    fn = '?'
    for m in FRAME.finditer(err):
        if '/include/Srl/' in m.group(2) or '/src/lib/' in m.group(2):
            fn = m.group(1).replace('(anonymous namespace)', 'anonymous').replace('operator()', 'call')
            while re.search(r'<[^<>]*>|\([^()]*\)|\[[^\[\]]*\]', fn):
                fn = re.sub(r'<[^<>]*>|\([^()]*\)|\[[^\[\]]*\]', '', fn)
            fn = fn.replace(' const', '').strip().split(' ')[-1]
            break
    return 'sanitizer:%s@%s' % (kind, fn)


class Shard:
    def __init__(self, exe, meta, tier, seed, i, n, tmp, scale, cpu):
        self.exe, self.meta, self.tier, self.seed, self.i, self.n, self.tmp = exe, meta, tier, seed, i, n, tmp
        self.scale, self.cpu = scale, cpu
        self.viol, self.stats, self.inconclusive, self.notes = [], [], [], []

    def argv(self, extra):
        return [self.exe, '--seed', str(self.seed), '--tier', self.tier, '--mined', os.path.join(self.tmp, 'mined'),
                '--scale', str(self.scale)] + extra

    def env(self):
        e = dict(os.environ)
        e.update(ENV)
        e['LC_ALL'] = 'C.UTF-8'
        big = self.meta.get('memory_thorough') if self.tier == 'thorough' else None
        if big:                              # MB; cases that need more than everything else does
            e['ASAN_OPTIONS'] = re.sub(r'(max_allocation_size_mb|hard_rss_limit_mb)=\d+', r'\g<1>=%d' % big, e['ASAN_OPTIONS'])
        return e

    def once(self, extra, tag, timeout):
        out, err = (os.path.join(self.tmp, '%s.%s' % (tag, x)) for x in ('out', 'err'))
        with open(out, 'wb') as fo, open(err, 'wb') as fe:
            p = subprocess.Popen(self.argv(extra), stdout=fo, stderr=fe, env=self.env(), start_new_session=True, cwd=self.tmp)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 'timeout'
        txt = read(out).decode('utf-8', 'replace')
        return rc, txt, read(err)[-60000:].decode('utf-8', 'replace')

    def take(self, txt):
        for l in txt.split('\n'):
            if l.startswith('VIOL\t'):
                f = l.split('\t')
                if len(f) >= 4:
                    self.viol.append({'key': f[1], 'case': f[2], 'detail': f[3]})

    def run(self, limit):
        start, crashes, k = None, 0, 0
        deadline = time.time() + limit
        while True:
            tag = 's%d.%d' % (self.i, k)
            k += 1
            prog = os.path.join(self.tmp, tag + '.prog')
            stats = os.path.join(self.tmp, tag + '.stats')
            extra = ['--shard', '%d/%d' % (self.i, self.n), '--progress', prog, '--stats', stats, '--cpu', str(self.cpu)]
            if start:
                extra += ['--start-after', start]
            rc, txt, err = self.once(extra, tag, max(5, deadline - time.time()))
            self.take(txt)
            if os.path.exists(stats):
                try:
                    self.stats.append((json.loads(read(stats)), stats + '.distinct'))
                except ValueError:
                    pass
            if rc == 0 or rc == 1:
                return
            case = read(prog).split(b'\0')[0].decode() if os.path.exists(prog) else ''
            if rc == 'timeout':
                self.inconclusive.append('shard %d ran out of its %ds at %s' % (self.i, limit, case))
                return
            if rc == 70 or not case:
                raise CheckError('driver failed (exit %s): %s %s' % (rc, txt[-1000:], err[-2000:]))
            if rc == 77:
                # processor time of one case exceeded: decide on a second run of the case alone with twice the budget
                if HANG.is_set():
                    return              # one proof of it is enough, and each takes its time
                rc2, txt2, err2 = self.once(['--case', case, '--cpu', str(self.cpu * 2)], tag + 'h', self.cpu * 8)
                if rc2 == 77:
                    HANG.set()
                    self.viol.append({'key': 'hang:' + case.split(':')[0], 'case': case, 'detail': 'one case used more than %d s of processor time' % (self.cpu * 2)})
                elif rc2 not in (0, 1):
                    self.inconclusive.append('case %s: slow, then exit %s' % (case, rc2))
                else:
                    self.take(txt2)
                    self.inconclusive.append('case %s was slow' % case)
            elif rc == 66 or (isinstance(rc, int) and rc < 0) or rc in (134, 139):
                if rc == -9:
                    raise CheckError('driver was killed at ' + case)
                self.viol.append({'key': crash_key(err), 'case': case, 'detail': 'exit %s: %s' % (rc, err[:3500])})
            else:
                # std::terminate, exit() called by the library...
                self.viol.append({'key': 'exit:%s:%s' % (rc, case.split(':')[0]), 'case': case, 'detail': err[:3000]})
            crashes += 1
            if crashes >= 6 or len(self.viol) > 60:
                return
            start = case


def known(prop):
    r = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def refused(prop, meta, tier, seed, what, t0):
    """programs which the property promises to work are rejected by the compiler"""
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
                   'coverage': {'evaluations': 1, 'distinct_nontrivial': 1, 'rule': meta['rule'], 'samples': ['compile: ' + what]},
                   'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1}, f, indent=1)
        f.write('\n')
    replay = os.path.join(ev, '%s.replay0.json' % prop)
    with open(replay, 'w') as f:
        json.dump({'property': prop, 'key': 'compile', 'detail': what, 'command': 'python3 %s %s --build-only' % (os.path.join(VERIF, 'check.py'), prop)}, f, indent=1)
    print('%s: the classes of the driver do not compile, ordinary ones do: %s' % (prop, what))
    print('VIOLATION property=%s replay=%s' % (prop, replay))
    return 1


def main():
    a = sys.argv[1:]
    prop = a[0]
    meta = json.load(open(os.path.join(VERIF, 'drivers', 'drivers.json')))[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--seed' in a:
        seed = int(a[a.index('--seed') + 1])
    scale = a[a.index('--scale') + 1] if '--scale' in a else '1'
    flavours = meta.get('flavours', ['asan'])
    t0 = time.time()
    try:
        exes = {f: compile_all(prop, meta, f) for f in flavours}
    except Refusal as e:
        if '--build-only' in a:
            return 0            # for the check to report
        return refused(prop, meta, tier, seed, str(e), t0)
    t_build = time.time() - t0
    if '--build-only' in a:
        return 0
    tmp = tempfile.mkdtemp(prefix='vf-%s-' % prop)
    try:
        mine(os.path.join(tmp, 'mined'))
        if '--case' in a:
            s = Shard(exes[flavours[0]], meta, tier, seed, 0, 1, tmp, scale, 200)
            rc, txt, err = s.once(['--case', a[a.index('--case') + 1], '--cpu', '200'], 'case', 900)
            print(txt + err)
            return 0 if rc == 0 else 1
        cpu = meta.get('cpu_' + tier, meta.get('cpu', 20))
        limit = 600 if tier == 'quick' else 6 * 3600
        shards = []
        for f in flavours:
            n = meta.get('shards', JOBS)
            shards += [Shard(exes[f], meta, tier, seed, i, n, tmp if len(flavours) == 1 else os.path.join(tmp, f), scale, cpu) for i in range(n)]
            if len(flavours) > 1:
                os.makedirs(os.path.join(tmp, f), exist_ok=True)
                shutil.copy(os.path.join(tmp, 'mined'), os.path.join(tmp, f, 'mined'))
        with ThreadPoolExecutor(meta.get('parallel', JOBS)) as ex:
            list(ex.map(lambda s: s.run(limit), shards))

        viol, incon, ev, counters, samples, dist = [], [], 0, {}, [], set()
        for s in shards:
            viol += s.viol
            incon += s.inconclusive
            for st, dfile in s.stats:
                ev += st['evaluations']
                for k, v in st['counters'].items():
                    counters[k] = counters.get(k, 0) + v
                samples += [x for x in st['samples'] if x.split(':')[0] not in {y.split(':')[0] for y in samples}]
                b = read(dfile) if os.path.exists(dfile) else b''
                dist.update(b[i:i + 8] for i in range(0, len(b), 8))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    # a driver that observed nothing has no verdict
    for c in meta.get('must', []):
        if not viol and not counters.get(c):
            incon.append('the monitor observed no event "%s"' % c)
    if not viol and ev == 0:
        raise CheckError('no case ran')

    kn = known(prop)
    seen_known, new = set(), []
    for v in viol:
        k = next((k for k, _ in kn if k == v['key']), None)
        if k:
            seen_known.add(k)
        else:
            new.append(v)
    wall = time.time() - t0
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': ev, 'distinct_nontrivial': len(dist), 'rule': meta['rule'], 'samples': samples[:12] or ['none'],
            'observed': {k: counters[k] for k in sorted(counters)},
            'sanitizers': flavours, 'shards': len(shards), 'build_s': round(t_build, 1),
            'inconclusive': incon,
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    tmpf = os.path.join(VERIF, 'evidence', '.%s.%d' % (prop, os.getpid()))
    with open(tmpf, 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    os.rename(tmpf, os.path.join(VERIF, 'evidence', prop + '.json'))

    for k, what in kn:
        # listed findings are reported whether or not this run's sample met them
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if new:
        byk = {}
        for v in new:
            byk.setdefault(v['key'], []).append(v)
        for n, (k, vs) in enumerate(sorted(byk.items())):
            v = vs[0]
            replay = os.path.join(VERIF, 'evidence', '%s.replay%d.json' % (prop, n))
            with open(replay, 'w') as f:
                json.dump({'property': prop, 'key': k, 'case': v['case'], 'seed': seed, 'tier': tier, 'detail': v['detail'], 'times': len(vs),
                           'command': 'VERIF_SEED=%d VERIF_TIER=%s python3 %s %s --case %s' % (seed, tier, os.path.join(VERIF, 'check.py'), prop, v['case'])}, f, indent=1)
            print('%s: %s (%d times), case %s: %s' % (prop, k, len(vs), v['case'], v['detail'][:1200]))
            print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if incon:
        print('%s: no verdict: %s' % (prop, '; '.join(incon[:5])))
        return 2
    print('%s: held on %d cases, %d distinct, %.0f s (build %.0f s)' % (prop, ev, len(dist), wall, t_build))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except CheckError as e:
        print('check failed: %s' % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
