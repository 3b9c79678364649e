#!/usr/bin/env python3
"""Makes /verif/seeded/<id> out of the definitions in tools/bugs*.py, confirming each in a scratch copy of /repo.

usage: plant.py [id ...]      (all that are not there yet, when no id is given)
       plant.py -check [id ...]   run the checks against planted bugs (in a scratch copy, VERIF_REPO)
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, 'seeded')
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', HOME='/root', GOPATH='/root/go',
           PATH='/usr/local/go/bin:' + os.environ['PATH'])

DEMO = '''#!/bin/bash
# Exit 0 when the tree at $PWD behaves, 1 when it does not.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp "$here"/*.go "$d/"
cp "$repo/go.sum" "$d/" 2>/dev/null
printf 'module demo\\n\\ngo 1.18\\n\\nrequire github.com/infobloxopen/go-trees v0.0.0\\n\\nreplace github.com/infobloxopen/go-trees => %s\\n' "$repo" > "$d/go.mod"
cd "$d" || exit 3
go build RACE -o demo . || exit 3
timeout 200 ./demo
'''


def defs():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'bugs*.py'))):
        s = importlib.util.spec_from_file_location('b', f)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        for b in m.BUGS:
            assert b['id'] not in out, b['id']
            out[b['id']] = b
    return out


def copy():
    d = tempfile.mkdtemp(prefix='plant-')
    w = os.path.join(d, 'repo')
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    return d, w


def edit(w, b):
    for e in b['edits']:
        f = os.path.join(w, e[0])
        s = open(f).read()
        n = e[3] if len(e) > 3 else 1
        if s.count(e[1]) != n:
            raise ValueError('%s: %d times in %s:\n%s' % (b['id'], s.count(e[1]), e[0], e[1]))
        open(f, 'w').write(s.replace(e[1], e[2]))


def tests(w):
    p = subprocess.run(['go', 'test', '-vet=off', '-count=1', './...'], cwd=w, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode()


def demo(dst, w):
    p = subprocess.run(['bash', os.path.join(dst, 'demo.sh')], cwd=w, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode()[-600:]


def plant(b):
    d, w = copy()
    dst = os.path.join(SEEDED, b['id'])
    try:
        tmp = os.path.join(d, 'demo')
        os.mkdir(tmp)
        if 'sh' in b:
            open(os.path.join(tmp, 'demo.sh'), 'w').write(b['sh'])
        else:
            open(os.path.join(tmp, 'main.go'), 'w').write(b['demo'].lstrip())
            open(os.path.join(tmp, 'demo.sh'), 'w').write(DEMO.replace('RACE', '-race' if b.get('race') else ''))
        rc, out = demo(tmp, w)
        if rc != 0:
            return 'demo fails on the unchanged tree: %s %s' % (rc, out)
        edit(w, b)
        rc, out = tests(w)
        if rc != 0:
            return 'tests notice:\n' + '\n'.join(l for l in out.splitlines() if not l.startswith('ok') and 'no test files' not in l)[:200]
        rc, out = demo(tmp, w)
        if rc in (0, 3):
            return 'demo does not fail with the patch: %s %s' % (rc, out)
        diff = subprocess.check_output(['git', 'diff'], cwd=w).decode()
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(SEEDED, exist_ok=True)
        shutil.copytree(tmp, dst)
        open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        return 'planted (demo: %s)' % out.strip()[:150]
    finally:
        shutil.rmtree(d)


def check(b, props=None):
    d, w = copy()
    try:
        subprocess.check_call(['git', 'apply', os.path.join(SEEDED, b['id'], 'patch.diff')], cwd=w)
        res = []
        for p in props or [b['property']]:
            q = subprocess.run(['python3', os.path.join(V, 'bin', 'check.py'), p, os.environ.get('VERIF_TIER', 'quick')],
                               env=dict(ENV, VERIF_REPO=w, VERIF_SEED=os.environ.get('VERIF_SEED', '1')),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = q.stdout.decode().strip().splitlines()
            res.append('%s:%d%s' % (p, q.returncode, '' if q.returncode == 1 else ' ' + ' | '.join(o[-3:])[:300]))
            if q.returncode == 1:
                res[-1] += ' (%s)' % o[-2][:140]
        return '; '.join(res)
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    if a and a[0] == '-check':
        props = None
        if len(a) > 1 and a[1] == '-p':
            props, a = a[2].split(','), a[2:]
        ds = defs()
        for i in a[1:] or sorted(os.listdir(SEEDED)):
            print(i, check(ds[i], props), flush=True)
        return
    for i, b in defs().items():
        if a and i not in a or not a and os.path.exists(os.path.join(SEEDED, i)):
            continue
        try:
            print(i, plant(b), flush=True)
        except ValueError as e:
            print(e)


main()
