"""Random template catalogues for the generator and records of what it makes of them."""
import json, os, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor

KEYS = ['x', 'yy', 'bits', 'ext', 'name', 'Long_Key1']
PIECES = ['a', 'b', 'tree', '.go', '-', ' ', 'ü', '0', '}', '%s', '$x', '#', "'", '"', '.', '_test', '\\', '&<>']
LINES = ['package p\n', '\n', '// {x}\n', 'func f() { return }\n', '\t"quoted"\n', '<a href="">&amp;</a>', 'é\u2028', "it's",
         '%d {', ' } ', '\r\n', 'x = ', 'one\r', 'zero\x00byte', '\ufeff', ' \n\n', '\f']
LONG = ['z' * 70000 + '\n', 'line\n' * 9000]
VALUES = ['8', '16', 'go', 'uint8', 'a b', 'é', '0', 'x.y', '-', 'value-with-long-text', "it's", '<&>', 'true']


def lit(x):
    return {'t': x, 'r': []}


def ref(keys):
    return {'t': '', 'r': keys}


def leaf_paths(d, at=(), lists=False):
    for k, v in d['m']:
        if v['m']:
            yield from leaf_paths(v, at + (k,), lists)
        elif ('l' in v) == lists:
            yield list(at + (k,))


# What is printed, how it is written, and whether it is false.
TYPED = [('true', 'true', 0), ('false', 'false', 1), ('1.5', '1.5', 0), ('-3', '-3', 0), ('1e+08', '100000000.0', 0), ('0', '0.0', 1),
         ('18446744073709551615', '18446744073709551615', 0), ('', '""', 1), ('-0.25', '-0.25', 0), ('~', "'~'", 0), ('text', 'text', 0),
         ('two words', 'two words  # and a comment', 0), ('a\nb\n', '|\n              a\n              b', 0), ('null', '"null"', 0)]


def scalar(r):
    if r.random() < 0.25:
        s, raw, no = r.choice(TYPED)
        v = {'s': s, 'm': [], 'raw': raw}
    else:
        v = {'s': r.choice(VALUES), 'm': []}
        no = v['s'] == '0'
    return dict(v, no=True) if no else v


def make_data(r, depth):
    m = []
    for k in r.sample(KEYS, r.randint(1, 4)):
        if depth > 0 and r.random() < 0.3:
            m.append([k, make_data(r, depth - 1)])
        else:
            m.append([k, scalar(r)])
    if depth > 0 and r.random() < 0.4:
        m.append(['list', {'s': '', 'm': [], 'l': [r.choice(VALUES) for _ in range(r.choice([0, 1, 2, 3, 12]))]}])
    return {'s': '', 'm': m}


def phrase(r, refs, lists, pieces):
    """Something more than a path of keys: other ways of saying the same, conditions, repetitions."""
    how = r.randint(0, 8)
    pieces = [x for x in pieces if not x.endswith('{')]
    if how == 0:
        return {'t': r.choice(['{{', '}}', '{{.x}}', 'a']), 'r': [], 'how': how}
    if how == 1:
        return {'t': r.choice(['', '|x|']), 'r': [], 'how': how}
    if how < 4 and lists:
        return {'t': '', 'r': r.choice(lists), 'k': r.choice(['range', 'range', 'if']), 'a': r.choice(pieces), 'b': r.choice(pieces), 'how': how}
    if not refs:
        return lit('a')
    if how < 6:
        return {'t': '', 'r': r.choice(refs), 'k': 'if', 'a': r.choice(pieces), 'b': r.choice(pieces), 'how': how}
    return {'t': '', 'r': r.choice(refs), 'how': how}


def source(t):
    """How a phrase is written."""
    path = '.' + '.'.join(t['r'])
    if t.get('k') == 'range':
        return '{{range %s}}%s{{.}}{{else}}%s{{end}}' % (path, t['a'], t['b'])
    if t.get('k') == 'if':
        if t['how'] % 2:
            return '{{if not %s}}%s{{else}}%s{{end}}' % (path, t['b'], t['a'])
        return '{{with %s}}%s{{else}}%s{{end}}' % (path, t['a'], t['b'])
    if t['how'] == 0:
        return '{{"%s"}}' % t['t']
    if t['how'] == 1:
        return '|\n {{- "x" -}} \t\n|' if t['t'] else '{{/* {{.none}} */}}'
    return {6: '{{print %s}}', 7: '{{$v := %s}}{{$v}}', 8: '{{%s | printf "%%v"}}'}[t['how']] % path


def tokens(r, refs, pieces, n, force, lists=()):
    out = []
    for _ in range(r.randint(1, n)):
        if r.random() < (0.2 if pieces is not PIECES else 0.08):
            p = phrase(r, refs, list(lists), pieces)
            if pieces is PIECES and p.get('how') == 1:
                continue
            out.append(p)
        elif refs and r.random() < 0.4:
            out.append(ref(r.choice(refs)))
        else:
            out.append(lit(r.choice(pieces)))
    if force and refs:
        out.insert(r.randint(0, len(out)), ref(r.choice(refs)))
    # A brace in front of a placeholder would make another one of it.
    for i in range(len(out) - 1):
        if 'how' not in out[i] and not out[i]['r'] and out[i]['t'].endswith('{'):
            out[i] = lit(out[i]['t'] + ' ')
    return out


def text(ts, r=None):
    s = ''
    for t in ts:
        if 'how' in t:
            s += source(t)
        elif t['r']:
            sp = r.choice(['', ' ']) if r else ''
            s += '{{' + sp + '.' + '.'.join(t['r']) + sp + '}}'
        else:
            s += t['t']
    return s


def get(d, keys):
    for k in keys:
        d = dict((a, b) for a, b in d['m'])[k]
    return d


def said(t, v):
    if 'k' not in t:
        return v['s']
    if t['k'] == 'if':
        return t['b'] if ('l' in v and not v['l'] or 'no' in v) else t['a']
    return ''.join(t['a'] + e for e in v['l']) if v['l'] else t['b']


def fill(ts, d):
    """What names are like (to see if instances clash)."""
    return ''.join(said(t, get(d, t['r'])) if t['r'] else t['t'] for t in ts)


def yaml(d, ind=0):
    out = []
    for k, v in d['m']:
        if v['m']:
            out.append(' ' * ind + k + ':\n' + yaml(v, ind + 2))
        elif 'l' in v:
            out.append(' ' * ind + k + ': [' + ', '.join(json.dumps(x, ensure_ascii=False) for x in v['l']) + ']\n')
        elif 'raw' in v:
            out.append(' ' * ind + k + ': ' + v['raw'] + '\n')
        else:
            s = v['s'] if v['s'].isdigit() and v['s'] != '016' else json.dumps(v['s'], ensure_ascii=False)
            out.append(' ' * ind + k + ': ' + s + '\n')
    return ''.join(out)


def make_case(r):
    """A catalogue with data, previous files and arguments; None if its instances clash."""
    inner = make_data(r, 2)
    kind = r.randint(0, 3)
    if kind == 0:
        data, sel = inner, []
    elif kind == 1:
        k = r.choice(['one', 'o', '1x', 'x'])
        data, sel = {'s': '', 'm': [[k, inner], ['two', make_data(r, 1)]]}, [k]
    else:
        data, sel = {'s': '', 'm': [['one', {'s': '', 'm': [['deep', inner], ['other', {'s': 'z', 'm': []}]]}]]}, ['one', 'deep']
    refs, lists = list(leaf_paths(inner)), list(leaf_paths(inner, (), True))
    spoil = r.random()
    nodata = False
    force = True
    if spoil < 0.08:
        sel = r.choice([['nobody'], ['one', 'nobody'], sel + ['nobody'], ['one', 'other', 'z'], ['On'], ['x ']])
    elif spoil < 0.14:
        nodata = True
    elif spoil < 0.22:
        force = False
    named = lambda f: tokens(r, refs, PIECES, 3, f)

    def name(f):
        while True:
            n = named(f)
            s, p = fill(n, inner), text(n)
            if s.strip('.') and p.strip('.') and len(p.encode()) < 200 and '/' not in p and not s.startswith('.etc'):
                return n
    # Directories the catalogue is in.
    above = [name(False) for _ in range(r.choice([0, 0, 0, 1, 2]))]
    if not force:
        above = [[lit('plain')] for _ in above]
    isfile = r.random() < 0.1
    if isfile:
        above = [[lit('up')] for _ in above]
    if force:
        root = name(True)
    else:
        root = [lit(r.choice(['tpl', 'a.b', 'ü', '}{']))]
    body = lambda: tokens(r, refs, LINES + (LONG if r.random() < 0.01 else []), 8, False, lists) if r.random() < 0.9 else []
    shape = r.random()
    tpl = []

    def grow(path, depth):
        tpl.append({'p': path, 'dir': True, 'c': []})
        names = set()
        count = r.randint(0, 3 if depth else 2)
        if shape < 0.02 and depth == 1:
            count = 130     # one directory with lots of files
        for i in range(count):
            n = name(False) + ([lit('%d' % i)] if count > 3 else [])
            if text(n) in names:
                continue
            names.add(text(n))
            if depth and count <= 3 and r.random() < 0.35:
                grow(path + [n], depth - 1)
            else:
                tpl.append({'p': path + [n], 'dir': False, 'c': body()})
    if isfile:
        tpl.append({'p': above + [root], 'dir': False, 'c': body()})
    else:
        if 0.02 <= shape < 0.04:
            # one directory in another
            path = above + [root]
            for _ in range(r.randint(9, 14)):
                tpl.append({'p': path, 'dir': True, 'c': []})
                path = path + [[ref(r.choice(refs))] if r.random() < 0.5 else [lit('d')]]
            grow(path, 0)
        else:
            grow(above + [root], 1 if shape < 0.02 else r.randint(0, 3))
    isref = lambda p: any(t['r'] for n in p for t in n)
    insts = [[fill(n, inner) for n in x['p']] for x in tpl]
    if len({tuple(i) for i in insts}) < len(insts) or any(not n.strip('.') for i in insts for n in i):
        return None
    # A file can't be where a directory of another instance is.
    for a, x in zip(insts, tpl):
        if not x['dir'] and any(len(b) > len(a) and b[:len(a)] == a for b in insts):
            return None
    pre = []
    for i in range(len(above)):
        if not isref(above[:i + 1]):
            pre.append({'p': [text(n) for n in above[:i + 1]], 'dir': True, 'c': ''})
    if r.random() < 0.5:
        pre.append({'p': ['.keep'], 'dir': False, 'c': 'not ours'})
    if r.random() < 0.5 and force:
        # Something has been generated here before.
        seen = {tuple(x['p']) for x in pre}
        for a, x in zip(insts, tpl):
            if r.random() < 0.6:
                for i in range(1, len(a)):
                    if tuple(a[:i]) not in seen:
                        seen.add(tuple(a[:i]))
                        pre.append({'p': a[:i], 'dir': True, 'c': ''})
                if tuple(a) not in seen:
                    seen.add(tuple(a))
                    pre.append({'p': a, 'dir': x['dir'], 'c': '' if x['dir'] else 'previous text\n' * r.randint(0, 60)})
    # There may be other things beside instances.
    if force and r.random() < 0.4:
        seen = {tuple(x['p']): x['dir'] for x in pre}
        for a, x in zip(insts, tpl):
            b = a + ['left.over']
            if x['dir'] and r.random() < 0.5 and not any(i[:len(b)] == b for i in insts) and all(seen.get(tuple(a[:i]), True) for i in range(1, len(a) + 1)):
                for i in range(1, len(a) + 1):
                    if tuple(a[:i]) not in seen:
                        seen[tuple(a[:i])] = True
                        pre.append({'p': a[:i], 'dir': True, 'c': ''})
                if r.random() < 0.3:
                    pre.append({'p': b, 'dir': True, 'c': ''})
                    b = b + ['older']
                pre.append({'p': b, 'dir': False, 'c': 'kept'})
                seen[tuple(b)] = False
    # Previous files must not be what templates are called.
    tp = {tuple(text(n) for n in x['p'][:i + 1]) for x in tpl for i in range(len(x['p']))}
    if any(tuple(x['p']) in tp and isref_path(x['p'], tpl) for x in pre):
        return None
    if r.random() < 0.3:
        pre = spoil_case(r, tpl, insts, pre, refs)
        if pre is None:
            return None
    return {'tpl': tpl, 'pre': pre, 'sel': sel, 'data': data, 'nodata': nodata}


def spoil_case(r, tpl, insts, pre, refs):
    """Makes a name or a text fail or puts something in the way of an instance; returns what is there before."""
    i = r.randrange(len(tpl))
    how = r.randint(0, 3)
    if how < 2:
        # Neither parsing nor execution of these gets to the end.
        path = '.' + '.'.join(r.choice(refs))
        bad = {'t': r.choice(['{{end}}', '{{nofunc}}', '{{template "none"}}', '{{' + path + '.deeper}}', '{{index ' + path + ' 99}}',
                              '{{if}}{{end}}', '{{slice ' + path + ' 99}}', '{{' + path + ' 1}}']), 'r': [], 'x': True}
        where = tpl[i]['p'][-1] if how == 0 or tpl[i]['dir'] else tpl[i]['c']
        where.insert(r.randint(0, len(where)), bad)
        return pre
    at = insts[i]
    if how == 2:
        # Something of another kind where the instance itself has to be...
        x = {'p': at, 'dir': not tpl[i]['dir'], 'c': '' if not tpl[i]['dir'] else 'in the way'}
    else:
        # ...or a file where one of directories above has to be.
        if len(at) < 2:
            return None
        x = {'p': at[:r.randint(1, len(at) - 1)], 'dir': False, 'c': 'in the way'}
    if any(tuple(text(n) for n in y['p'][:len(x['p'])]) == tuple(x['p']) for y in tpl):
        return None    # templates are there
    n = len(x['p'])
    out = [y for y in pre if y['p'] != x['p'] and (x['dir'] or y['p'][:n] != x['p'])]
    if not x['dir'] and any(y['p'] == x['p'][:k] and not y['dir'] for y in out for k in range(1, n)):
        return None
    for k in range(1, n):
        if not any(y['p'] == x['p'][:k] for y in out):
            out.append({'p': x['p'][:k], 'dir': True, 'c': ''})
    return out + [x]


def isref_path(p, tpl):
    for x in tpl:
        for i in range(len(x['p'])):
            if [text(n) for n in x['p'][:i + 1]] == p and (any(t['r'] for n in x['p'][:i + 1] for t in n) or i >= 0 and len(p) >= len(tpl[0]['p'])):
                return True
    return False


def run_case(binary, scratch, case, seed):
    r = random.Random(seed)
    os.makedirs(scratch)
    base = os.path.join(scratch, 'w', *['d'] * r.choice([0, 0, 0, 0, 1, 5, 9, 16, 30]))
    os.makedirs(base)
    tfiles = {}
    for x in case['tpl']:
        p = os.path.join(base, *[text(n) for n in x['p']])
        if x['dir']:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            tfiles[p] = text(x['c'], r)
            with open(p, 'w', newline='') as f:
                f.write(tfiles[p])
        q = p
        while q != base:
            tfiles.setdefault(q, None)
            q = os.path.dirname(q)
    for x in case['pre']:
        p = os.path.join(base, *x['p'])
        if x['dir']:
            os.makedirs(p, exist_ok=True)
            tfiles.pop(p, None)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w', newline='') as f:
                f.write(x['c'])
    data = os.path.join(scratch, 'data.yaml')
    how = r.randint(0, 3) if case['nodata'] else -1     # 0: no template is given, 1: it doesn't exist, others: no data
    if how > 1:
        bad = r.choice([None, '', '- 1\n- 2\n', 'just a text\n', 'a: [1\n', 'a: b: c\n', '\t- x', 8])
        if bad == 8:
            os.mkdir(data)
        elif bad is not None:
            with open(data, 'w', newline='') as f:
                f.write(bad)
    else:
        with open(data, 'w', newline='') as f:
            f.write(yaml(case['data']))
    rel = os.path.join(*[text(n) for n in case['tpl'][0]['p']])
    arg = r.choice([rel, './' + rel, os.path.join(base, rel), rel + ('/' if case['tpl'][0]['dir'] else ''), './/' + rel])
    if how == 1:
        arg = os.path.join(os.path.dirname(arg.rstrip('/')), '{{.' + '.'.join(r.choice(list(leaf_paths(case['data'])))) + '}}.none')
    args = [] if how == 0 else ['-t', arg]
    cwd = base
    if case['tpl'][0]['dir'] and (how == 0 or how < 0 and r.random() < 0.1):
        # From the inside.
        cwd = os.path.join(base, rel)
        if how < 0:
            args[1] = arg = r.choice(['.', './', '../' + os.path.basename(rel), './.'])
    p = subprocess.run([binary] + args + ['-d', data, '-s', '.'.join(case['sel'])], cwd=cwd, timeout=60,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    post, intact, seen = [], True, set()
    for d, ds, fs in os.walk(base):
        for n in ds + fs:
            q = os.path.join(d, n)
            isdir = n in ds
            c = ''
            if not isdir:
                with open(q, newline='', errors='surrogateescape') as f:
                    c = f.read()
            if q in tfiles:
                seen.add(q)
                if isdir != (tfiles[q] is None) or not isdir and c != tfiles[q]:
                    intact = False
            else:
                post.append({'p': os.path.relpath(q, base).split('/'), 'dir': isdir, 'c': c.encode('utf8', 'replace').decode()})
    if seen != set(tfiles):
        intact = False
    shutil.rmtree(scratch)
    return dict(case, post=post, intact=intact, exit=p.returncode, arg=arg, err=p.stderr.decode('utf8', 'replace')[-200:])


def record(binary, scratch, n, seed, chunk=10):
    r = random.Random(seed * 7919 + 13)
    cases = []
    while len(cases) < n:
        c = make_case(r)
        if c:
            cases.append(c)
    with ThreadPoolExecutor(8) as ex:
        done = list(ex.map(lambda i: run_case(binary, os.path.join(scratch, 'c%d' % i), cases[i], seed * 100003 + i), range(n)))
    return [{'impls': ['etc'], 'kind': 'etc', 'note': 'cases from %d' % i, 'ev': done[i:i + chunk]} for i in range(0, n, chunk)]
