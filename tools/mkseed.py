#!/usr/bin/env python3
"""mkseed.py <id> <property> <edits.py>  - builds /verif/seeded/<id> from an edit description and verifies it.
edits.py defines: EDITS = [(file, old, new)...], DEMO = C++ text, NEEDS, BREAKS, optional FLAGS."""
import json, os, shutil, subprocess, sys, tempfile
sid, prop, ed = sys.argv[1:4]
ns = {}
exec(open(ed).read(), ns)
V = '/verif'
out = os.path.join(V, 'seeded', sid)
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
tmp = tempfile.mkdtemp(prefix='seed_')
subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' % tmp, shell=True)
subprocess.check_call('cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % tmp, shell=True)
for f, old, new in ns['EDITS']:
    p = os.path.join(tmp, f)
    s = open(p).read()
    k = ns.get('OCC', {}).get((f, old))
    n = s.count(old)
    assert n >= 1, (f, old, 'not found')
    if k is None:
        assert n == 1, (f, old, 'occurs %d times' % n)
        s = s.replace(old, new)
    elif k == 'all':
        s = s.replace(old, new)
    else:
        i = -1
        for _ in range(k + 1):
            i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
    open(p, 'w').write(s)
d = subprocess.check_output('cd %s && git diff' % tmp, shell=True)
open(out + '/patch.diff', 'wb').write(d)
open(out + '/demo.cpp', 'w').write(ns['DEMO'])
shutil.copytree(V + '/tools/demo_stubs', out + '/stubs')
open(out + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = the repository
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -g -O1 -w %s -DSTRING_NAMES=1 -DL1D_CACHE_LINE_SIZE=64 -I"$D/stubs" -I"$PWD" -I"$PWD/raftinc" "$D/demo.cpp" -o "$T/demo" -pthread || exit 2
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
''' % ns.get('FLAGS', '-fsanitize=address,undefined -fno-sanitize=vptr'))
os.chmod(out + '/demo.sh', 0o755)
json.dump(dict(property=prop, needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
r0 = subprocess.run([out + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
r1 = subprocess.run([out + '/demo.sh'], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print(sid, 'demo unchanged:', r0.returncode, 'patched:', r1.returncode)
if r0.returncode or not r1.returncode or r1.returncode == 2:
    print('   BAD', r0.stdout.decode(errors='replace')[-1500:], r1.stdout.decode(errors='replace')[-1500:])
c = subprocess.run([V + '/check.py', prop], env=dict(os.environ, VERIF_REPO=tmp, VERIF_EVIDENCE=tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print('   check', prop, 'rc', c.returncode, '|', '\n      '.join(c.stdout.decode(errors='replace').splitlines()[-5:]))
shutil.rmtree(tmp, ignore_errors=True)
