"""What is done to decide each property."""
import json
import os
import catalogue
import vlib

CHECKS = {}
CMPS = ['lex', 'rev', 'len', 'fold', 'first', 'lexc', 'one']


def check(f):
    CHECKS[f.__name__] = f
    return f


def hist(kind, n, *profiles, **kw):
    d = {'kind': kind, 'n': n, 'profiles': list(profiles)}
    d.update(kw)
    return d


def wide(kinds, n, **kw):
    """A few long histories of big trees."""
    return [strs(n, 'wide') if k == 'str' else hist(k, n, 'wide', **kw) for k in kinds]


def strs(n, *profiles):
    return hist('str', n, *profiles, cmps=CMPS)


STR = ['strtree', 'strtree8', 'strtree16', 'strtree32', 'strtree64']
DOM = ['domaintree', 'domaintree8', 'domaintree16', 'domaintree32', 'domaintree64']
RADIXES = ['radix32', 'radix64']
# Sizes and numbers of big histories.
BIG = [(300, 2), (3000, 1)]
HUGE = [(300, 30), (3000, 6), (20000, 1)]
RADIX = ['numtree32', 'numtree64']


SEEDS = {'flat': '{{}, {2, 3}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}}', 'tree': '{{}, {3, 4, 5}, {1, 2, 3, 4, 5, 6, 7}}'}
SEEDS['domain'] = SEEDS['tree']


def branching(c, shapes=('flat', 'tree', 'domain'), need='', impls=(), some=2, repo=vlib.REPO):
    """All histories of three steps on versions of a few contents; longer ones of fewer keys in the thorough tier."""
    for shape in shapes:
        const = {'NCLS': 11 if shape == 'flat' else 7, 'SEEDS': SEEDS[shape], 'UPD': 'TRUE' if shape == 'tree' else 'FALSE'}
        fewer = 4 if shape == 'flat' else 12
        # (keys: ends and the middle of the tree; a domain, one below it and one beside it)
        if c.quick:
            touch = {'flat': '{1, 4, 10}', 'tree': '{1, 3, 5}', 'domain': '{1, 2, 3}'}[shape]
            c.branches(shape, dict(const, TOUCH=touch, DEPTH=3), some=fewer * some // 2, need=need, impls=impls, repo=repo)
            continue
        for touch in ('{1, 5}', '{6, 7, 10}') if shape == 'flat' else ('{1, 3}', '{2, 4}', '{3, 5}'):
            c.branches(shape, dict(const, TOUCH=touch, DEPTH=4, Slot='{1, 2, 3, 4, 5}'), some=6 * some, need=need, impls=impls, repo=repo)


def rb(c, impls, quick=9, thorough=12, some=0):
    c.graph('RBTree', 'rb', constants={'MaxN': c.pick(quick, thorough)}, impls=impls, some=some)


def radix_graph(c):
    c.graph('Radix', 'radix', [2], {'W': 2, 'MaxN': 7, 'GARBAGE': 'TRUE'}, impls=RADIX, deep=not c.quick)
    c.graph('Radix', 'radix', [3], {'W': 3, 'MaxN': c.pick(3, 4), 'GARBAGE': 'FALSE'}, impls=RADIX, some=c.pick(2, 0))
    if not c.quick:
        c.graph('Radix', 'radix', [4], {'W': 4, 'MaxN': 3, 'GARBAGE': 'FALSE'}, impls=RADIX)


IP = ['iptree', 'iptree8', 'iptree16', 'iptree32', 'iptree64']


def ip_graph(c, only=None):
    """Both halves of IP trees: networks of one half as in the radix model, networks about /64 as in the two-level ones."""
    ip = only or IP
    if not only:
        c.graph('Radix', 'radix', [2], {'W': 2, 'MaxN': 7, 'GARBAGE': 'FALSE'}, impls=ip)
    c.graph('IPTree', 'ip2', [2, 1], {'WM': 2, 'WL': 1, 'MaxN': 3, 'VARIANT': '"any"'}, impls=ip)
    c.graph('IPTree', 'ip2', [1, 2], {'WM': 1, 'WL': 2, 'MaxN': 3, 'VARIANT': '"any"'}, impls=ip, some=c.pick(2, 0))
    if not only:
        c.design('IPTree', constants={'WM': 2, 'WL': 1, 'MaxN': 3, 'VARIANT': '"uint"'}, tag='IPTree(uint)')
    if not c.quick:
        c.graph('IPTree', 'ip2', [2, 2], {'WM': 2, 'WL': 2, 'MaxN': 3, 'VARIANT': '"any"'}, impls=ip)
        if not only:
            c.design('IPTree', constants={'WM': 2, 'WL': 2, 'MaxN': 3, 'VARIANT': '"uint"'}, tag='IPTree(uint,2,2,3)')
            c.graph('Radix', 'radix', [3], {'W': 3, 'MaxN': 3, 'GARBAGE': 'FALSE'}, impls=ip)


def dom_graph(c):
    c.graph('DomainTrie', 'dom', [2, 2], {'L': 2, 'D': 2, 'MaxN': 7}, impls=DOM, some=c.pick(2, 0))
    c.graph('DomainTrie', 'dom', [2, 3], {'L': 2, 'D': 3, 'MaxN': 3}, impls=DOM, some=c.pick(15, 3))
    if not c.quick:
        c.graph('DomainTrie', 'dom', [3, 2], {'L': 3, 'D': 2, 'MaxN': 4}, impls=DOM, some=4)


@check
def C01(c):
    rb(c, STR)
    c.histories([strs(c.pick(140, 1400), 'grow', 'mix', 'branch', 'del', 'look')] + wide(['str'], c.pick(7, 70)))
    c.big(['str'], c.pick(BIG, HUGE))
    c.huge(['str'])
    c.huge(['str'], size=c.pick(400, 900), long=70000)


@check
def C02(c):
    rb(c, ['dltree'], 10, 13)
    c.histories([hist('label', c.pick(150, 1500), 'grow', 'mix', 'enum', 'look', 'inp', 'del')] + wide(['label'], c.pick(3, 30)))
    c.big(['label'], c.pick(BIG, HUGE))
    c.huge(['label'])


@check
def C03(c):
    c.design('RBTree', constants={'MaxN': c.pick(10, 13)}, tag='RBTree')
    c.depths({'N': c.pick(4000, 8000), 'Rounds': c.pick(12, 48), 'Climbs': c.pick(6, 32), 'Steps': c.pick(500, 2500)})


def radix(c, n, *profiles):
    radix_graph(c)
    c.big(RADIXES, c.pick(BIG, HUGE))
    c.histories([hist('radix32', n, *profiles), hist('radix64', n, *profiles)] + wide(['radix32', 'radix64'], c.pick(2, 20)))


@check
def C04(c):
    radix(c, c.pick(100, 1000), 'look', 'mix', 'grow', 'inp', 'bad')
    c.huge(RADIXES)


@check
def C05(c):
    branching(c, ['tree'], 'del', RADIX)
    radix(c, c.pick(100, 1000), 'del', 'grow', 'mix', 'branch')


@check
def C06(c):
    radix(c, c.pick(100, 1000), 'enum', 'grow', 'del', 'inp')
    c.huge(RADIXES)


@check
def C07(c):
    ip_graph(c)
    c.histories([hist('ip', c.pick(150, 1500), 'look', 'mix', 'grow', 'bad', 'inp')] + wide(['ip'], c.pick(2, 20)))
    c.big(['ip'], c.pick(BIG, HUGE))
    c.huge(['ip'], impls=['iptree', 'iptree32'])


@check
def C08(c):
    ip_graph(c)
    branching(c, ['tree'], 'del', IP, some=10)
    c.histories([hist('ip', c.pick(150, 1500), 'del', 'grow', 'mix', 'branch')] + wide(['ip'], c.pick(2, 20)))
    c.big(['ip'], c.pick(BIG, HUGE))


@check
def C09(c):
    ip_graph(c)
    c.histories([hist('ip', c.pick(150, 1500), 'enum', 'mix', 'grow', 'inp')] + wide(['ip'], c.pick(2, 20)))
    c.big(['ip'], c.pick(BIG, HUGE))
    c.huge(['ip'])


@check
def C10(c):
    ip_graph(c, ['iptree'])
    branching(c, ['tree'], 'upd', ['iptree'])
    c.histories([hist('ip', c.pick(200, 2000), 'upd', 'upd', 'upd', 'mix', impls=['iptree'])] + wide(['ip'], c.pick(3, 30), impls=['iptree']))
    c.big(['ip'], c.pick(BIG, HUGE), impls=['iptree'])


EDGES = '{0, 32, 33, 46, 48, 50, 53, 54, 57, 58, 64, 65, 90, 91, 92, 96, 97, 122, 123, 126, 127, 255}'


def texts(c, part):
    """Every short text over an alphabet: the parser model prints what it means, package domain has to agree."""
    c.design('NameParser', cfg='NameParserSmall.cfg', tag='NameParser (small limits)')
    for alphabet, size in (('{97, 66, 46, 92, 48, 50, 53, 54}', c.pick(5, 6)), (EDGES, c.pick(3, 4)),
                           ('{97, 46, 92, 50, 53}', c.pick(6, 8))):
        c.texts(part, alphabet, size)


@check
def C11(c):
    texts(c, 'name')
    c.names(['name'], c.pick(1500, 15000))


@check
def C12(c):
    texts(c, 'label')
    c.names(['label'], c.pick(1000, 10000))


@check
def C13(c):
    c.design('NameParser', cfg='NameParserSmall.cfg', tag='NameParser (small limits)')
    c.names(['walk'], c.pick(2500, 25000))


@check
def C14(c):
    dom_graph(c)
    c.histories([hist('dom', c.pick(150, 1500), 'look', 'mix', 'grow', 'inp', 'del')] + wide(['dom'], c.pick(2, 20)))
    c.big(['dom'], c.pick(BIG, HUGE))
    c.huge(['dom'], impls=['domaintree', 'domaintree8'])


@check
def C15(c):
    dom_graph(c)
    branching(c, ['domain'], 'dsub', DOM, some=6)
    c.histories([hist('dom', c.pick(150, 1500), 'del', 'grow', 'mix', 'branch')] + wide(['dom'], c.pick(2, 20)))
    c.big(['dom'], c.pick(BIG, HUGE))


@check
def C16(c):
    dom_graph(c)
    rb(c, DOM, 8, 11)
    c.histories([hist('dom', c.pick(150, 1500), 'enum', 'mix', 'grow', 'inp', 'del')] + wide(['dom'], c.pick(2, 20)))
    c.big(['dom'], c.pick(BIG, HUGE))
    c.huge(['dom'])


KINDS = ['label', 'radix32', 'radix64', 'ip', 'dom']


def structures(c):
    """Every kind of tree through every transition of its model."""
    rb(c, [], 8, 11)
    c.graph('Radix', 'radix', [2], {'W': 2, 'MaxN': 7, 'GARBAGE': 'FALSE'})
    c.graph('IPTree', 'ip2', [2, 1], {'WM': 2, 'WL': 1, 'MaxN': 3, 'VARIANT': '"any"'}, some=c.pick(2, 0))
    c.graph('DomainTrie', 'dom', [2, 2], {'L': 2, 'D': 2, 'MaxN': 7}, some=c.pick(4, 0))
    if not c.quick:
        radix_graph(c)
        ip_graph(c)
        dom_graph(c)


def radix_heap(c):
    """The algorithm of radix trees cell by cell: no operation on values writes a cell which existed before."""
    c.design('RadixHeap')
    if not c.quick:
        c.design('RadixHeap', constants={'W': 3, 'MaxN': 3, 'GARBAGE': 'FALSE'}, tag='RadixHeap W = 3')


@check
def C17(c):
    n = c.pick(50, 500)
    c.design('StoreMC')
    radix_heap(c)
    structures(c)
    branching(c, some=4)
    c.histories([strs(n, 'branch', 'branch', 'mix')] + [hist(k, n, 'branch', 'branch', 'mix') for k in KINDS])
    c.big(['str'] + KINDS, c.pick([(300, 2)], [(300, 20), (3000, 2)]))


@check
def C18(c):
    n = c.pick(50, 500)
    c.design('StoreMC')
    radix_heap(c)
    structures(c)
    branching(c, need='inp', some=4)
    c.histories([strs(n, 'inp', 'inp', 'grow')] + [hist(k, n, 'inp', 'inp', 'grow') for k in KINDS])


@check
def C19(c):
    c.design('RBConc', constants={'MaxN': c.pick(3, 5)}, tag='RBConc')
    st, out = c.tlc('RBConc', constants={'INPLACE': 'TRUE', 'MaxN': 2}, tag='RBConc (in place, has to fail)')
    if st != 'invariant':
        raise vlib.CheckError('in-place insertion into a shared version goes unnoticed by RBConc')
    n = c.pick(5, 60)
    c.concurrent([{'kind': 'str', 'cmps': CMPS, 'n': c.pick(7, 63), 'g': 6}] + [{'kind': k, 'n': n, 'g': 6} for k in KINDS])


@check
def C20(c):
    n = c.pick(90, 900)
    c.graph('RBTree', 'rb', constants={'MaxN': c.pick(8, 11)}, impls=STR + DOM)
    c.graph('DomainTrie', 'dom', [2, 2], {'L': 2, 'D': 2, 'MaxN': 7}, impls=DOM, some=c.pick(6, 0))
    c.graph('Radix', 'radix', [2], {'W': 2, 'MaxN': 7, 'GARBAGE': 'FALSE'}, impls=IP)
    c.histories([hist('str', n, 'mix', 'grow', 'enum', 'bad', 'wide', cmps=CMPS, agree=True),
                 hist('ip', n, 'mix', 'del', 'enum', 'look', 'bad', 'inp', 'branch', agree=True),
                 hist('dom', n, 'mix', 'del', 'enum', 'look', 'bad', 'inp', 'branch', agree=True)])


@check
def C21(c):
    gen = c.regenerated()
    n = c.pick(70, 700)
    c.graph('RBTree', 'rb', constants={'MaxN': c.pick(8, 11)}, impls=STR[1:] + DOM[1:], repo=gen)
    c.graph('DomainTrie', 'dom', [2, 2], {'L': 2, 'D': 2, 'MaxN': 7}, impls=DOM[1:], some=c.pick(4, 0), repo=gen)
    c.graph('Radix', 'radix', [2], {'W': 2, 'MaxN': 7, 'GARBAGE': 'FALSE'}, impls=IP[1:], repo=gen)
    c.graph('IPTree', 'ip2', [2, 1], {'WM': 2, 'WL': 1, 'MaxN': 3, 'VARIANT': '"any"'}, impls=IP[1:], repo=gen)
    c.histories([hist('str', n, 'grow', 'mix', 'inp', 'branch', 'stream', 'dot', cmps=CMPS, impls=STR[1:]),
                 hist('ip', n, 'mix', 'del', 'look', 'enum', 'bad', 'branch', 'inp', 'stream', impls=IP[1:]),
                 hist('dom', n, 'mix', 'del', 'look', 'enum', 'branch', 'inp', 'stream', impls=DOM[1:])], repo=gen)
    c.big(['str'], c.pick([(700, 1)], BIG), impls=STR[1:], repo=gen)
    c.big(['ip'], c.pick([(700, 1)], BIG), impls=IP[1:], repo=gen)
    c.big(['dom'], c.pick([(700, 1)], BIG), impls=DOM[1:], repo=gen)
    os.environ['VH_IMPLS'] = ','.join(STR[1:] + IP[1:] + DOM[1:])
    c.schedules(c.pick(1, 2), repo=gen)
    branching(c, impls=STR[1:] + IP[1:] + DOM[1:], some=c.pick(12, 3), repo=gen)
    c.depths({'N': c.pick(1500, 8000), 'Rounds': c.pick(3, 36), 'Climbs': c.pick(1, 12), 'Steps': c.pick(200, 2000)}, repo=gen)
    c.costs([{'Kind': k, 'Cmp': 'lex', 'Size': c.pick(4000, 30000), 'Ops': c.pick(16, 200)} for k in ('str', 'ip', 'dom')], repo=gen)
    c.concurrent([{'kind': 'str', 'cmps': ['lex', 'len'], 'n': c.pick(2, 20), 'g': 4}] +
                 [{'kind': k, 'n': c.pick(2, 20), 'g': 4} for k in ('ip', 'dom')], repo=gen)
    os.environ['VH_SPOIL'] = '1'
    c.histories([hist('ip', n // 2, 'mix', 'inp', 'del', 'bad', 'stream', 'enum')], repo=gen)


@check
def C22(c):
    n = c.pick(60, 600)
    c.design('StoreMC')
    c.histories([strs(n // 2, 'bad')] + [hist(k, n, 'bad', 'bad', 'mix') for k in KINDS])


@check
def C23(c):
    n = c.pick(50, 600)
    c.design('Streams', constants={'SHAPE': 3}, tag='Streams(3)')
    for shape in c.pick([1], [1, 2]):
        c.design('Streams', constants={'SHAPE': shape}, tag='Streams(%d)' % shape)
    c.schedules(c.pick(1, 2))
    c.histories([strs(n, 'stream', 'nested', 'stream')] + [hist(k, n, 'stream', 'nested') for k in KINDS])
    c.big(['str'] + KINDS, c.pick([(1500, 1)], [(300, 20), (3000, 3), (20000, 1)]))


@check
def C24(c):
    n = c.pick(120, 1200)
    c.design('Dump', constants={'MaxN': c.pick(6, 9)}, tag='Dump')
    c.histories([strs(c.pick(105, 1050), 'dot')] + [hist(k, n, 'dot') for k in ('label', 'radix32', 'radix64')])
    c.big(['str', 'label', 'radix32', 'radix64'], c.pick([(60, 4), (700, 2), (3000, 1)], [(60, 40), (700, 20), (3000, 6), (20000, 1)]), dot=True)


@check
def C25(c):
    c.design('Etc', constants={'Deep': c.pick('FALSE', 'TRUE')}, tag='Etc')
    binary = c.path('etc')
    c.run(['go', 'build', '-o', binary, './etc'], cwd=vlib.REPO, env=vlib.go_env(), what='building etc')
    traces = catalogue.record(binary, c.path('scratch'), c.pick(600, 6000), c.seed)
    f = c.path('etc.json')
    json.dump(traces, open(f, 'w'))
    ev = [e for t in traces for e in t['ev']]
    c.extra['catalogues'] = {'runs': len(ev), 'refused': sum(e['exit'] != 0 for e in ev), 'templates': sum(len(e['tpl']) for e in ev)}
    c.validate('catalogues', f, module='EtcTrace', count=len(ev))
    c.samples.append({'run of etc': ev[0]})


@check
def C28(c):
    c.design('RBTree', constants={'MaxN': c.pick(9, 12)}, tag='RBTree')
    radix_heap(c)
    c.costs([{'Kind': k, 'Cmp': m, 'Size': n, 'Ops': c.pick(40, 300)} for n in c.pick([8000], [6000, 30000])
             for k, m in [('str', 'lex'), ('str', 'len'), ('label', ''), ('radix32', ''), ('radix64', ''), ('ip', ''), ('dom', '')]])


@check
def C26(c):
    n = c.pick(120, 1200)
    c.design('StoreMC')
    c.histories([hist('radix32', n, 'focus'), hist('radix64', n, 'focus')])


@check
def C27(c):
    os.environ['VH_SPOIL'] = '1'    # memory of arguments and results is overwritten
    n = c.pick(120, 1200)
    c.graph('IPTree', 'ip2', [2, 1], {'WM': 2, 'WL': 1, 'MaxN': 3, 'VARIANT': '"any"'}, impls=IP)
    c.histories([hist('ip', n, 'mix', 'inp', 'upd', 'del', 'bad', 'stream', 'enum')])
    c.big(['ip'], c.pick([(700, 1)], HUGE))


@check
def C29(c):
    os.environ['VH_KEEP'] = '1'     # values which tell if they are still in memory
    n = c.pick(30, 400)
    c.design('StoreMC')
    generic = ['strtree', 'dltree', 'numtree32', 'numtree64', 'iptree', 'domaintree']
    c.histories([hist('str', n, 'kept', cmps=CMPS, impls=generic)] + [hist(k, n, 'kept', impls=generic) for k in KINDS])


TECH = 'TLA+ specification checked with TLC; recorded histories of the real code validated against it by TLC'
NOTE = ('Every recorded execution of the real code is explained step by step by the specification; inputs and histories are '
        'bounded and seeded, so this is model checking of the specification plus conformance of sampled executions. Trusts TLC, '
        'the Go toolchain and the harness adapters.')

_GRAPH = ('TLC explores {model} exhaustively ({bound}) and checks the property on it; every transition of that state graph is then '
          'replayed against {impl} and the answers must be those of the model. ')
_HIST = ('Seeded histories of the real code (small ones with many versions, big ones with thousands of entries) are validated '
         'step by step by TLC against {trace}. ')
_TRUST = 'Exhaustive within the bounds, sampled beyond them. Trusts TLC, the Go toolchain and the adapters of the harness.'


def _meta(model, bound, impl, trace='Store (StoreTrace, BigTrace)', more=''):
    return ('TLA+ model %s explored by TLC, its state graph replayed on the real code; trace validation with TLC' % model,
            _GRAPH.format(model=model, bound=bound, impl=impl) + _HIST.format(trace=trace) + more + _TRUST)


_RBB = 'every tree that up to 9 keys (12 thorough) can make'
_RXB = 'all prefixes of 2 bits at both ends of the key with garbage bits, sets of 3 bits'
_IPB = 'all networks of a few bits around each half and around /64'
_DMB = 'all sets of names of 2 labels to depth 2, some of depth 3'

META = {
    'C01': _meta('RBTree', _RBB, 'all string trees under 7 comparisons'),
    'C02': _meta('RBTree', _RBB, 'dltree'),
    'C03': ('TLA+ model RBTree: TLC shows the logarithmic bound is inductive over all its trees; measured depths of the real trees '
            'are validated by TLC against the same bound',
            'The bound of the model is exhaustive for small trees. Comparisons (or steps of reflection where there is no '
            'comparison to count) in real trees are measured after seeded adversarial histories of thousands of operations and must '
            'keep 2*log2(n+1)+2. ' + _TRUST),
    'C04': _meta('Radix', _RXB, 'both numeric trees'),
    'C05': _meta('Radix', _RXB, 'both numeric trees'),
    'C06': _meta('Radix', _RXB, 'both numeric trees'),
    'C07': _meta('IPTree and Radix', _IPB, 'all five network trees'),
    'C08': _meta('IPTree and Radix', _IPB, 'all five network trees'),
    'C09': _meta('IPTree and Radix', _IPB, 'all five network trees'),
    'C10': _meta('IPTree', _IPB, 'iptree'),
    'C11': ('TLA+ model NameParser: TLC enumerates every short text with its meaning and package domain must agree; trace '
            'validation of long texts', 'Exhaustive for all texts up to 6 bytes over small alphabets, seeded for names up to the '
            'limits of 63 and 255 bytes and for mutations of those; every answer is judged by TLC. ' + _TRUST),
    'C12': ('TLA+ models NameParser and Label: TLC enumerates every short text with its meaning and package domain must agree; '
            'trace validation of long texts', 'As for C11, for single labels, their readable forms and comparisons. ' + _TRUST),
    'C13': ('Trace validation with TLC against the TLA+ model of names (Label, NameTrace)',
            'Seeded names over all byte values and lengths up to the limits: every accessor has to tell about the same sequence of '
            'labels which TLC derives from the text. ' + _TRUST),
    'C14': _meta('DomainTrie', _DMB, 'all five domain trees'),
    'C15': _meta('DomainTrie', _DMB, 'all five domain trees'),
    'C16': _meta('DomainTrie and RBTree', _DMB, 'all five domain trees'),
    'C17': _meta('StoreMC, Branches, RBTree, Radix, IPTree and DomainTrie', 'every transition and short branching histories, with the version before it looked at again after it',
                 'every kind of tree'),
    'C18': _meta('StoreMC, Branches, RBTree, Radix, IPTree and DomainTrie', 'every transition made both ways, short branching histories with in-place steps', 'every kind of tree'),
    'C19': ('TLA+ model RBConc (cells and interleavings) explored by TLC; concurrent histories of the real code under the race '
            'detector validated by TLC',
            'RBConc shows on all interleavings of two threads that path copying never writes a shared cell (and a negative control '
            'fails). Schedules of the real code are those the Go scheduler makes, six goroutines at a time, under the race '
            'detector; their answers must be those of the specification. ' + _TRUST),
    'C20': _meta('RBTree, DomainTrie and Radix', 'as for C01, C05 and C14', 'every value width', more='All widths have to make '
                 'identical histories with values which lose something when truncated. '),
    'C21': ('As for C20, on packages which are generated from the templates of the working tree by the generator of the working '
            'tree', 'The generated code must compile with the harness and meet the same models and trace specifications. ' + _TRUST),
    'C22': ('Trace validation with TLC against the TLA+ specification Store where degenerate keys have a meaning (Keys)',
            'Seeded histories where nearly half of arguments are degenerate: nil trees, nil, foreign or malformed networks, '
            'lengths out of range, invalid names. A panic or a lack of answer is an event no specification explains. ' + _TRUST),
    'C23': ('TLA+ model Streams (channels, producers, consumers) explored by TLC; its schedules replayed on the real code; trace '
            'validation', 'All interleavings of small producers and consumers in the model; every schedule of consuming and '
            'modifying a tree is executed by the real code; goroutines left behind are counted. ' + _TRUST),
    'C24': ('TLA+ model Dump (numbering of a breadth-first walk) explored by TLC for all small shapes; real dumps are parsed and '
            'judged by TLC', 'Dumps of the real trees are parsed by the rules of DOT; TLC decides whether nodes and edges make '
            'exactly the tree of the history, for trees of up to thousands of entries. ' + _TRUST),
    'C26': ('TLA+ specification Store (with parts of versions, StoreMC) checked with TLC; trace validation of histories where nodes '
            'of the real trees are used as trees', _HIST.format(trace='Store (StoreTrace)') + _TRUST),
    'C27': _meta('IPTree', _IPB, 'all five network trees', more='All memory which is passed to the trees or comes from them is '
                 'overwritten right after the call. '),
    'C29': ('TLA+ specification Store checked with TLC; trace validation of histories in which values tell whether they are still in '
            'memory (StoreTrace)', 'After steps of seeded histories the garbage collector is run and the values which survive must be '
            'exactly those that live versions of the specification hold. ' + _TRUST),
    'C28': ('TLA+ model RBTree: TLC shows on all its trees how many cells an operation makes; measured allocations of the real '
            'trees are validated by TLC against that bound (CostTrace)',
            'The number of cells is exhaustive for small trees of the model. Objects and bytes which operations on real trees of '
            'thousands of entries allocate must keep a bound several times above it and far below the size of the tree. ' + _TRUST),
    'C25': ('TLA+ model Etc (walk of a catalogue) explored by TLC; runs of the real generator on seeded catalogues validated by '
            'TLC (EtcTrace)', 'Directory trees, data and templates are seeded; the resulting tree, contents and exit status of every '
            'run must be the ones the specification gives. Runs stay in a scratch directory. ' + _TRUST),
}
