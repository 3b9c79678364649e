#!/usr/bin/env python3
"""Finds mutants which compile and pass the repository's tests.

usage: survivors.py MUTATE-BINARY OUT.jsonl WORKERS SHARE FILE...   (SHARE: part of mutants to try, 1 for all)
"""
import json, os, random, shutil, subprocess, sys, queue, threading
binary, out, workers, share = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
files = sys.argv[5:]
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', HOME='/root', GOPATH='/root/go',
           PATH='/usr/local/go/bin:' + os.environ['PATH'], GOMAXPROCS='2')
base = '/tmp/w/mut'
stable = set()
b = json.load(open('/opt/vp/BASELINE.json'))
muts = []
for f in files:
    for l in subprocess.run([binary, f], cwd='/repo', capture_output=True, text=True, check=True).stdout.splitlines():
        muts.append(json.loads(l))
r = random.Random(7)
if share < 1:
    muts = [m for m in muts if r.random() < share]
r.shuffle(muts)
q = queue.Queue()
for m in muts:
    q.put(m)
lock = threading.Lock()
stat = {'all': len(muts), 'broken': 0, 'killed': 0, 'survived': 0}
o = open(out, 'a')

def run(cmd, d, t=60):
    try:
        p = subprocess.run(['bash', '-c', 'ulimit -v 12000000; exec timeout -k 1 %d %s' % (t, cmd)], cwd=d, env=dict(ENV, GOCACHE=d + '-cache'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except Exception as e:
        return 99, str(e)

def work(i):
    d = '%s/w%d' % (base, i)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    run('go test -vet=off -count=1 ./...', d, 200)
    n = 0
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            break
        n += 1
        if n % 150 == 0:
            shutil.rmtree(d + '-cache', ignore_errors=True)
        p = os.path.join(d, m['file'])
        src = open(p, 'rb').read()
        open(p, 'wb').write(src[:m['From']] + m['New'].encode() + src[m['To']:])
        pkg = './' + os.path.dirname(m['file'])
        rc, so = run('go test -vet=off -count=1 -timeout 20s ' + pkg, d, 40)
        kind = 'survived'
        if rc != 0:
            kind = 'broken' if '[build failed]' in so or '[setup failed]' in so else 'killed'
        else:
            rc, so = run('go build ./... && go test -vet=off -count=1 -timeout 30s ./...', d, 100)
            if rc != 0:
                kind = 'broken' if '[build failed]' in so else 'killed'
        open(p, 'wb').write(src)
        with lock:
            stat[kind] += 1
            if kind == 'survived':
                o.write(json.dumps(m) + '\n')
                o.flush()
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(d + '-cache', ignore_errors=True)

ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
[t.start() for t in ts]
[t.join() for t in ts]
print(stat)
