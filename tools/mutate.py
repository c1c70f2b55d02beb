#!/usr/bin/env python3
"""tools/mutate.py SCRATCH LOG [--files RE] [--sample N] [--seed S] [--hours H] [--workers W]: small changes of the library (operators, constants,
conditions, dropped statements), one at a time, in scratch copies; those which compile and pass the project's tests are shown to the checks
(an eighth of the quick run each, until one reports something). LOG gets one line per mutant: killed by the tests, by a check, or SURVIVED."""
import os, re, sys, json, random, subprocess, shutil, threading, time, glob
from concurrent.futures import ThreadPoolExecutor
A = sys.argv
W, LOG = A[1], A[2]
opt = lambda n, d: type(d)(A[A.index(n) + 1]) if n in A else d
FILES, SAMPLE, SEED, HOURS, WORKERS = opt('--files', r'src/lib/.*\.(cpp|c)$'), opt('--sample', 100000), opt('--seed', 1), opt('--hours', 3.0), opt('--workers', 8)
REPO, VERIF = '/repo', os.environ.get('VF_VERIF', '/verif')
SAN = ['-g1', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=nonnull-attribute,function,pointer-overflow', '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern', '-DNDEBUG']
ENV = dict(os.environ, ASAN_OPTIONS='exitcode=66:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:quarantine_size_mb=24:max_malloc_fill_size=65536:detect_stack_use_after_return=0:hard_rss_limit_mb=3000', UBSAN_OPTIONS='halt_on_error=1:exitcode=66', LC_ALL='C.UTF-8')
DR = json.load(open(VERIF + '/drivers/drivers.json'))
PROPS = [p for p in DR if 'tsan' not in DR[p].get('flavours', [])]

def sh(cmd, t=600, **k):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, start_new_session=True, **k)
        return p.returncode, p.stdout[-3000:].decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return 'timeout', ''

def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    # blank comments, strings, preprocessor lines
    def blank(m): return re.sub(r'[^\n]', ' ', m.group(0))
    s = re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'', blank, src, flags=re.S)
    s = re.sub(r'(?m)^[ \t]*#(?:[^\n]*\\\n)*[^\n]*', blank, s)
    s = re.sub(r'\bassert\s*\([^;]*;', blank, s)
    s = re.sub(r'(?m)^\s*template\s*<.*$|^.*\benable_if\b.*$|^.*static_assert.*$', blank, s)
    out = []
    def add(i, j, new, kind): out.append((i, j, new, kind))
    ops = [(r'(?<![<>=!\-+*/&|^])<=(?!=)', ['<']), (r'(?<![<>\-])>=(?!=)', ['>']), (r'==', ['!=']), (r'!=', ['==']),
           (r'(?<=[\w\)\] ]) < (?=[\w\(\-])', [' <= ']), (r'(?<=[\w\)\] ]) > (?=[\w\(\-])', [' >= ']),
           (r'&&(?= )', ['||']), (r'\|\|', ['&&']), (r'(?<=[\w\)\]]) \+ (?=[\w\(])', [' - ']), (r'(?<=[\w\)\]]) - (?=[\w\(])', [' + ']),
           (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']), (r'\+\+', ['--']), (r'(?<!-)--(?!-)', ['++']), (r' \* (?=\d|\w+\b(?![\s*&]*[,;)=]))', [' / ']),
           (r' << (?=\w)', [' >> ']), (r' >> (?=\w)', [' << ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r' & (?=\w|~)', [' | ']), (r' \| ', [' & ']),
           (r'\bcontinue;', ['break;']), (r'\bbreak;', [';'])]
    for rx, news in ops:
        for m in re.finditer(rx, s):
            for n in news: add(m.start(), m.end(), n, m.group(0).strip() + '->' + n.strip())
    for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?![\w.])', s):
        v = int(m.group(1), 0) if not re.match(r'0\d', m.group(1)) else int(m.group(1), 8)
        add(m.start(), m.end(), str(v + 1), 'const+1')
        if v > 0: add(m.start(), m.end(), str(v - 1), 'const-1')
    for m in re.finditer(r'\b(if|while)\s*\(', s):
        d, k = 1, m.end()
        while k < len(s) and d:
            d += s[k] == '('; d -= s[k] == ')'; k += 1
        c = src[m.end():k - 1]
        if '\n' in c and len(c) > 200 or ';' in c: continue
        add(m.end(), k - 1, '!(' + c + ')', 'negate')
        if m.group(1) == 'if' and not re.search(r'\bauto\b|[^=!<>]=[^=]', c): add(m.end(), k - 1, 'false && (' + c + ')', 'never'); add(m.end(), k - 1, 'true || (' + c + ')', 'always')
    for m in re.finditer(r'(?m)^[ \t]+((?:this->|\*|[A-Za-z_][\w:>.\-\[\]]*\s*(?:\(|=[^=]|[+\-|&*^]=|\+\+|--|\.|->))[^;{}\n]*;)[ \t]*$', s):
        t = m.group(1)
        if re.match(r'(return|using|typedef|case|default|goto|delete|else|public|private|struct|class|enum|static|const|extern|auto|template|for|while|if|throw)\b', t): continue
        if re.match(r'[\w:<>]+[\s*&]+\w+\s*(=|;|\()', t): continue        # declarations
        add(m.start(1), m.end(1), ';', 'drop')
    for m in re.finditer(r'(?m)^[ \t]+(throw\b[^;]*;)', s): add(m.start(1), m.end(1), ';', 'no throw')
    r = []
    for i, j, n, k in out:
        line = src.count('\n', 0, i) + 1
        r.append((path, line, k, src[:i] + n + src[j:], src.split('\n')[line - 1].strip()))
    return r

def setup():
    os.makedirs(W, exist_ok=True)
    shutil.rmtree(W + '/base', ignore_errors=True)
    subprocess.run('mkdir %s/base && cp -a %s/include %s/src %s/base/' % (W, REPO, REPO, W), shell=True, check=True)
    jobs = []
    for c in lib_srcs():
        jobs.append((c, 'plain')); jobs.append((c, 'san'))
    b = W + '/base'
    os.makedirs(b + '/o', exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        for c, f, (rc, out) in ex.map(lambda j: (j[0], j[1], compile_lib(b, j[0], j[1], b + '/o')), jobs):
            assert rc == 0, out
    build_tests(b, b + '/o')
    build_drivers(b, b + '/o')

def lib_srcs():
    return sorted(glob.glob(REPO + '/src/lib/*.cpp') + glob.glob(REPO + '/src/lib/fpconv/*.c'))
def oname(c, f): return re.sub(r'\W', '_', os.path.basename(c)) + '.' + f + '.o'
def compile_lib(root, c, f, o):
    rel = os.path.relpath(c, REPO)
    cc = c.endswith('.c')
    if f == 'plain': cmd = (['gcc', '-std=c99'] if cc else ['g++', '-std=c++17']) + ['-O1', '-DNDEBUG', '-w']
    else: cmd = (['clang', '-std=c99'] if cc else ['clang++', '-std=c++17']) + SAN + ['-w']
    return sh(cmd + ['-I' + root + '/include', '-c', os.path.join(root, rel), '-o', os.path.join(o, oname(c, f))])
TESTS = ['MaliciousInput', 'Misc', 'Serialize', 'Tests']
def build_tests(root, o):
    src = [x for x in glob.glob(REPO + '/src/tests/*.cpp')]
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(lambda c: sh(['g++', '-std=c++17', '-O0', '-w', '-DNDEBUG', '-I' + root + '/include', '-c', c, '-o', os.path.join(o, oname(c, 'test'))]), src))
    return all(r[0] == 0 for r in rs)
DSRC = sorted({s for p in PROPS for s in DR[p]['sources']})
def drv_obj(o, s): return os.path.join(o, s + '.drv.o')
def build_driver(root, o, s):
    d = VERIF + ('/harness/' if s in ('common.cpp', 'doc.cpp') else '/drivers/') + s
    fl = [x for p in PROPS if s in DR[p]['sources'] for x in DR[p].get('flags', [])]
    return sh(['clang++', '-std=c++17', '-w'] + SAN + (['-O0'] if 'drivers' in d else []) + fl + ['-I' + root + '/include', '-I' + VERIF + '/harness', '-c', d, '-o', drv_obj(o, s)])
def build_drivers(root, o, which=None):
    with ThreadPoolExecutor(8) as ex:
        for s, (rc, out) in zip(DSRC + ['common.cpp', 'doc.cpp'], ex.map(lambda s: build_driver(root, o, s), DSRC + ['common.cpp', 'doc.cpp'])):
            assert rc == 0, (s, out)

ORDER = {'PJson': ['P06', 'P07', 'P05', 'P23'], 'PMsgPack': ['P08', 'P09', 'P05', 'P23'], 'PSrl': ['P10', 'P05', 'P23', 'P15'], 'Heap': ['P17', 'P28'], 'Hash': ['P16'], 'ToolsBts': ['P19', 'P26'], 'ToolsStr': ['P18', 'P04', 'P25'],
         'fpconv': ['P25'], 'Node': ['P13', 'P27', 'P20'], 'Registration': ['P12'], 'In': ['P03', 'P23', 'P05'], 'Out': ['P03'], 'Union': ['P27'], 'Value': ['P04', 'P13'], 'TpTools': ['P04', 'P01'], 'Blocks': ['P04', 'P13'],
         'Resolve': ['P01', 'P14', 'P11', 'P12', 'P26'], 'Tree': ['P15', 'P13', 'P24'], 'BitWrap': ['P26'], 'Context': ['P01', 'P20'], 'Environment': ['P13', 'P15', 'P18'], 'String': ['P18'], 'Tools': ['P18'], 'Aux': ['P17', 'P18']}
tl = threading.local(); wid = iter(range(1000)); lock = threading.Lock(); END = time.time() + HOURS * 3600
def log(x):
    with lock:
        with open(LOG, 'a') as f: f.write(x + '\n')

def one(m):
    if time.time() > END: return
    path, line, kind, text, orig = m
    if not hasattr(tl, 'd'):
        with lock: tl.d = W + '/w%d' % next(wid)
        shutil.rmtree(tl.d, ignore_errors=True)
        subprocess.run('mkdir -p %s/o && cp -a %s/base/include %s/base/src %s/' % (tl.d, W, W, tl.d), shell=True, check=True)
    d, b = tl.d, W + '/base/o'
    f = os.path.join(d, path)
    tag = '%s:%d [%s] %s' % (path, line, kind, orig)
    header = path.startswith('include')
    try:
        open(f, 'w').write(text)
        srcs = lib_srcs() if header else [os.path.join(REPO, path)]
        for c in srcs:
            rc, out = compile_lib(d, c, 'plain', d + '/o')
            if rc != 0: log('nocompile ' + tag); return
        if header and not build_tests(d, d + '/o'): log('nocompile ' + tag); return
        lo = lambda fl: [os.path.join(d if c in srcs else W + '/base', 'o', oname(c, fl)) for c in lib_srcs()]
        exe = d + '/t'
        to = [os.path.join(d + '/o' if header else b, oname(c, 'test')) for c in glob.glob(REPO + '/src/tests/*.cpp')]
        rc, out = sh(['g++', '-o', exe] + to + lo('plain') + ['-pthread'])
        if rc != 0: log('nocompile ' + tag); return
        rc, out = sh([exe], 30, cwd=d)
        if rc != 0: log('tests ' + tag); return
        for c in srcs:
            rc, out = compile_lib(d, c, 'san', d + '/o')
            if rc != 0: log('nosan ' + tag); return
        if header: build_driver(d, d + '/o', 'common.cpp'); build_driver(d, d + '/o', 'doc.cpp')
        stem = os.path.basename(path).split('.')[0]
        first = [p for k, v in ORDER.items() if stem.startswith(k) for p in v]
        done = set()
        for p in first + [p for p in PROPS if p not in first]:
            if p in done: continue
            done.add(p)
            od = d + '/o' if header else b
            if header:
                for s in DR[p]['sources']: build_driver(d, od, s)
            rc, out = sh(['clang++'] + SAN + [drv_obj(od, s) for s in DR[p]['sources'] + ['common.cpp', 'doc.cpp']] + lo('san') + ['-o', exe, '-pthread'])
            if rc != 0: log('nolink %s %s %s' % (p, tag, out[-300:])); return
            t = time.time()
            rc, out = sh([exe, '--seed', '1', '--tier', 'quick', '--mined', W + '/mined', '--scale', '1', '--shard', '%d/8' % (line % 8), '--progress', d + '/prog', '--stats', d + '/stats', '--cpu', '20'], 300, cwd=d, env=ENV)
            v = [l for l in out.split('\n') if l.startswith('VIOL')]
            if p == 'P01' and rc == 1 and all('null-object' in l for l in v): continue
            if rc != 0:
                log('%s %s   (%s %s)' % (p, tag, rc, v[0][:120].replace('\t', ' ') if v else '')); return
        log('SURVIVED ' + tag)
    except Exception as e:
        log('error %s %r' % (tag, e))
    finally:
        shutil.copy(os.path.join(W, 'base', path), f)

def main():
    ms = []
    for root, _, names in os.walk(REPO):
        for n in sorted(names):
            p = os.path.relpath(os.path.join(root, n), REPO)
            if re.search(FILES, p) and 'powers.h' not in p and 'tests' not in p and p.split('/')[0] in ('src', 'include'): ms += mutants(p)
    random.Random(SEED).shuffle(ms)
    done = set()
    if os.path.exists(LOG):
        done = {re.sub(r'   \(.*', '', l.split(' ', 1)[1].rstrip('\n')) for l in open(LOG) if ' ' in l}
    ms = [m for m in ms if '%s:%d [%s] %s' % (m[0], m[1], m[2], m[4]) not in done][:SAMPLE]
    print(len(ms), 'mutants'); sys.stdout.flush()
    if '--list' in A: return
    setup()
    sys.path.insert(0, VERIF)
    import importlib; chk = importlib.import_module('check'); chk.mine(W + '/mined')
    print('ready'); sys.stdout.flush()
    with ThreadPoolExecutor(WORKERS) as ex: list(ex.map(one, ms))
main()
