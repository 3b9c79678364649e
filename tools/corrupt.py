#!/usr/bin/env python3
"""How much does a trace specification see?  Records honest histories, tells one lie in each and counts lies it rejects.

usage: corrupt.py [hist|big|names] [number] [seed]
Lies are told about what the code answered (or was asked), never about derived things; a lie may be harmless (a wrong value
which nobody reads again), so rejection of all is not expected of "ins" and the like - but it is of every observation.
"""
import copy, collections, json, os, random, re, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
import vlib, props

def lie(r, tr, big):
    """One lie in trace tr; returns its name or None."""
    tr['ev'] = copy.deepcopy(tr['ev'])
    idx = list(range(len(tr['ev'])))
    r.shuffle(idx)
    for i in idx:
        e = tr['ev'][i]
        k = e.get('e')
        kinds = []
        if k in ('look', 'lookx') and e['q']:
            kinds = ['value', 'found', 'lost']
        elif k in ('enum',) and e['p']:
            kinds = ['missing', 'swapped', 'twice', 'value']
        elif k == 'del' and 'r' in e:
            kinds = ['flag']
        elif k == 'empty':
            kinds = ['flag']
        elif k in ('next',):
            kinds = ['value']
        elif k == 'foc' and 'r' in e:
            kinds = ['flag']
        r.shuffle(kinds)
        for what in kinds:
            if k in ('look', 'lookx'):
                q = e['q'][r.randrange(len(e['q']))]
                v = q[-1]
                if isinstance(v, list):
                    continue
                if what == 'value' and v != -1: q[-1] = v + 1
                elif what == 'found' and v == -1: q[-1] = 1
                elif what == 'lost' and v != -1: q[-1] = -1
                else: continue
            elif k == 'enum':
                p = e['p']
                j = r.randrange(len(p))
                if what == 'missing': del p[j]
                elif what == 'twice': p.insert(j, copy.deepcopy(p[j]))
                elif what == 'value': p[j][1] += 1
                elif what == 'swapped' and len(p) > 1:
                    j = r.randrange(len(p) - 1); p[j], p[j + 1] = p[j + 1], p[j]
                else: continue
            elif what == 'flag':
                if not isinstance(e['r'], bool): continue
                e['r'] = not e['r']
            elif k == 'next':
                if not isinstance(e.get('v'), int): continue
                e['v'] += 1
            return '%s: %s' % (k, what)
    return None

def main():
    mode = sys.argv[1] if len(sys.argv) > 1 else 'hist'
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 60
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    r = random.Random(seed)
    c = vlib.Ctx('C01', 'quick', seed)
    out = c.path('traces.json')
    if mode == 'hist':
        specs = [props.strs(4, 'grow', 'del', 'bad', 'stream')] + [props.hist(k, 6, 'grow', 'del', 'bad', 'stream', 'version')
                 for k in ('label', 'radix32', 'radix64', 'ip', 'dom')]
        c.vh('hist', specs, out)
        module = 'StoreTrace'
    else:
        c.vh('big', [{'kind': k, 'size': 300, 'n': 3, 'dot': False, 'impls': []}
                     for k in ('str', 'label', 'radix32', 'ip', 'dom')], out)
        module = 'BigTrace'
    data = json.load(open(out))
    jobs = []
    while len(jobs) < n:
        tr = copy.copy(r.choice(data))
        what = lie(r, tr, mode == 'big')
        if what is None:
            continue
        f = c.path('lie-%d.json' % len(jobs))
        json.dump([tr], open(f, 'w'))
        jobs.append((tr['kind'] + ' ' + what, f))
    def one(j):
        d = vlib.Ctx('C01', 'quick', seed)
        d.log = lambda *a: None
        st, _ = d.tlc(module, env={'TRACE': j[1]}, workers=1, tag='lie')
        d.cleanup()
        return st
    with ThreadPoolExecutor(4) as p:
        res = list(p.map(one, jobs))
    got = collections.Counter(); all_ = collections.Counter()
    for (w, f), st in zip(jobs, res):
        all_[w] += 1
        got[w] += st != 'ok'
        if st == 'ok':
            print('believed:', w, f)
    print('%d of %d lies are rejected (%s)' % (sum(got.values()), n, module))
    for w in sorted(all_):
        print('  %-28s %d of %d' % (w, got[w], all_[w]))
    if sum(got.values()) == n:
        c.cleanup()

main()
