#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ from tools/seeds/*.py (not read by any check); usage: mkseeds.py [--test] [ID...]"""
import os, sys, json, subprocess, glob, tempfile, shutil, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SEEDS = {}
DEMO = r'''#!/bin/bash
# run in /repo after a build; exit 0 iff the property holds
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'cd /; rm -rf "$t"' EXIT
g++ -std=gnu++20 -g -O0 @FLAGS@ -DASIOEXT_STANDALONE=1 -DASIO_STANDALONE=1 -DASIOEXT_HEADER_ONLY=1 -I/repo/include "$d/demo.cpp" -o "$t/demo" -lpthread || exit 2
cd "$t" && timeout 60 ./demo
'''
PRE = r'''#include <cstdio>
#include <cstdlib>
#include <cstring>
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); std::exit(1); } } while (0)
'''
def seed(id, prop, edits, needs, breaks, demo, flags=''):
    assert id not in SEEDS
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags)

for f in sorted(glob.glob(R + '/tools/seeds/*.py')):
    exec(compile(open(f).read(), f, 'exec'))

def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def write(id):
    s = SEEDS[id]; d = f'{R}/seeded/{id}'; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        sh(f'git -C {REPO} archive HEAD include | tar -x -C {t}')
        sh(f'git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x', cwd=t)
        for (f, old, new) in s['edits']:
            p = f'{t}/include/asioext/{f}'; x = open(p).read()
            assert x.count(old) == 1, (id, f, x.count(old), old)
            open(p, 'w').write(x.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git diff', cwd=t).stdout)
    finally: shutil.rmtree(t)
    open(d + '/demo.cpp', 'w').write(PRE + s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO.replace('@FLAGS@', s['flags'])); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)

def test(id, build=True):
    s = SEEDS[id]; d = f'{R}/seeded/{id}'
    r = dict(id=id)
    assert not sh(f'git -C {REPO} status --porcelain').stdout.strip()
    r['clean_demo'] = subprocess.run([d + '/demo.sh'], cwd=REPO, capture_output=True, text=True).returncode
    a = sh(f'git -C {REPO} apply {d}/patch.diff')
    if a.returncode: r['apply'] = a.stderr; return r
    try:
        p = subprocess.run([d + '/demo.sh'], cwd=REPO, capture_output=True, text=True)
        r['bug_demo'] = p.returncode; r['out'] = (p.stdout + p.stderr)[-200:]
        c = subprocess.run(['python3', R + '/check.py', s['prop']], cwd=R, capture_output=True, text=True)
        r['check'] = c.returncode; r['viol'] = [l for l in c.stdout.splitlines() if 'VIOLATION' in l][:3]
        if build:
            b = sh('bash /opt/vp/build.sh'); r['build'] = b.returncode
            b = sh('bash /opt/vp/test.sh /tmp/seed.json'); r['tests'] = (b.stdout + b.stderr).strip().splitlines()[-1:] if 0 else b.stdout.strip()[-60:]
    finally: sh(f'git -C {REPO} checkout -- .')
    return r

if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    ids = a or list(SEEDS)
    for i in ids: write(i)
    if '--test' in sys.argv or '--fast' in sys.argv:
        for i in ids: print(json.dumps(test(i, '--fast' not in sys.argv)), flush=True)
