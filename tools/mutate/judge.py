#!/usr/bin/env python3
"""Which checks catch mutants that pass the repository's tests?

usage: judge.py SURVIVORS.jsonl OUT.jsonl WORKERS [PROPERTY...]
Every mutant is put into a scratch copy of /repo; properties of its package are checked one by one until one is violated.
"""
import json, os, shutil, signal, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
src, out, workers = sys.argv[1], sys.argv[2], int(sys.argv[3])
SETS = {'strtree': 'C01 C17 C18 C24 C03 C22 C23', 'dltree': 'C02 C17 C18 C24 C03 C16 C22 C23', 'numtree': 'C04 C05 C06 C26 C17 C24 C18 C22 C23 C20',
        'iptree': 'C07 C08 C09 C10 C27 C22 C17 C18 C23', 'domain': 'C11 C12 C13 C14', 'domaintree': 'C14 C15 C16 C17 C18 C22 C23',
        'etc': 'C25 C21', 'uintX/strtree': 'C01 C20 C17 C18 C24 C03 C22 C23', 'uintX/domaintree': 'C14 C15 C16 C20 C17 C18 C22 C23',
        'uintX/iptree': 'C07 C08 C09 C10 C20 C27 C22 C17 C18 C23'}
done = set()
if os.path.exists(out):
    for l in open(out):
        m = json.loads(l)
        done.add((m['file'], m['From'], m['To'], m['New']))
todo = []
for l in open(src):
    m = json.loads(l)
    if (m['file'], m['From'], m['To'], m['New']) not in done:
        todo.append(m)

def work(i, todo):
    d = '/tmp/w/judge%d' % i
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d)
    os.environ['VERIF_REPO'] = d
    sys.path.insert(0, os.path.join(V, 'bin'))
    import vlib, props
    graphs, models = {}, set()
    keep = '/tmp/w/judge%d-keep' % i
    shutil.rmtree(keep, ignore_errors=True)
    os.mkdir(keep)
    design = vlib.Ctx.design
    def lazy(self, module, cfg=None, constants=None, lines=None, **kw):
        k = (module, cfg, json.dumps(constants or {}, sort_keys=True))
        if lines is None and k in models:
            return
        design(self, module, cfg, constants, lines, **kw)
        models.add(k)
    vlib.Ctx.design = lazy
    vlib.Ctx.log = lambda *a: None
    for m in todo:
        p = os.path.join(d, m['file'])
        s = open(p, 'rb').read()
        open(p, 'wb').write(s[:m['From']] + m['New'].encode() + s[m['To']:])
        pkg = os.path.dirname(m['file']).rstrip('0123456789') if m['file'].startswith('uintX') else os.path.dirname(m['file'])
        m['res'], t0 = {}, time.time()
        c = vlib.Ctx('C01', 'quick', 1)
        c._graphs.update(graphs)
        for prop in sys.argv[4:] or SETS[pkg].split():
            c.prop = prop
            try:
                props.CHECKS[prop](c)
                m['res'][prop] = 0
            except vlib.Violation as v:
                m['res'][prop] = 1
                m['say'] = str(v.what)[:300]
                break
            except Exception as e:
                m['res'][prop] = 2
                m['say'] = str(e)[-500:]
            for k, f in list(c._graphs.items()):
                if k not in graphs:
                    n = os.path.join(keep, 'g%d' % len(graphs))
                    shutil.move(f, n)
                    graphs[k] = c._graphs[k] = n
        m['s'] = round(time.time() - t0)
        c.cleanup()
        open(p, 'wb').write(s)
        with open(out, 'a') as o:
            o.write(json.dumps(m) + '\n')
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(keep, ignore_errors=True)

kids = []
for i in range(workers):
    pid = os.fork()
    if pid == 0:
        work(i, todo[i::workers])
        os._exit(0)
    kids.append(pid)
for k in kids:
    os.waitpid(k, 0)
