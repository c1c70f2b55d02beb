#!/usr/bin/env python3
# tools/mkseed.py FILE: creates seeded/<id>/ from definitions: SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
import os, subprocess, sys, json, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d /tmp/srl-demo-XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -g %s-I include "$d/demo.cpp" _build/bin/libsrl.a -pthread -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
'''
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d = '/verif/seeded/' + s['id']
    w = tempfile.mkdtemp(prefix='mkseed-')
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
        subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (w, w), shell=True, check=True)
        for f, old, new in s['edits']:
            p = os.path.join(w, f); t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        patch = subprocess.run(['git', '-C', w, 'diff', '-U2'], check=True, capture_output=True, text=True).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO % (s.get('flags', '') + ' ' if s.get('flags') else ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(w)
    print('wrote', d)
