#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from lines id|property|rc|seconds|...|last lines of the check.

usage: table.py FILE    (entries already in DESIGN.md stay unless FILE has them)"""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def how(text):
    for pat, s in ((r'huge histories: step|huge: step', 'huge histories (`HugeTrace`)'), (r'big histories: deadlock|big histories: step|big: step', 'big histories (`BigTrace`)'), (r'transition of (\w+)', r'graph of `%s`'),
                   (r'of a schedule', '`Schedules`'), (r'catalogues: ', 'recorded runs (`EtcTrace`)'),
                   (r'costs: ', 'measured costs (`CostTrace`)'), (r'depths: ', 'measured depths (`DepthTrace`)'),
                   (r'names: ', 'recorded calls (`NameTrace`)'), (r'NameParser.*text', 'texts of `NameParser`'),
                   (r'data race|DATA RACE', 'race detector'), (r'step \d+ of a branch|branching', '`Branches`'),
                   (r'histories: step|histories: deadlock', 'histories (`StoreTrace`)')):
        m = re.search(pat, text)
        if m:
            return s.replace('%s', m.group(1)) if '%s' in s else s
    m = re.findall(r'TLC (\w+)|(\w+)\(', text)
    return re.sub(r'\s+', ' ', text[-110:]).replace('|', '/')

def main():
    path = os.path.join(ROOT, 'DESIGN.md')
    doc = open(path).read()
    a, b = '<!-- planted -->\n', '<!-- /planted -->\n'
    rows = {}
    if a in doc:
        for line in doc[doc.index(a):doc.index(b)].split('\n'):
            m = re.match(r'\| (c\d\d-\S+) \| (.*) \| (C\d\d) \| (.*) \|$', line)
            if m:
                rows[m.group(1)] = (m.group(3), m.group(4))
    for line in open(sys.argv[1]):
        f = line.rstrip('\n').split('|')
        if len(f) > 4:
            rows[f[0]] = (f[1], how('|'.join(f[5:])) if f[2] == '1' else 'missed')
    out = [a.strip(), '| change | needs | check | caught by |', '|---|---|---|---|']
    for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        meta = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
        prop, by = rows.get(d, (meta['property'], '?'))
        needs = re.sub(r'\s+', ' ', meta['needs']).replace('|', '/')
        out.append('| %s | %s | %s | %s |' % (d, needs, prop, by))
    text = '\n'.join(out) + '\n' + b
    doc = doc[:doc.index(a)] + text + doc[doc.index(b) + len(b):] if a in doc else doc + '\n## Planted changes\n\n' + text
    open(path, 'w').write(doc)

main()
