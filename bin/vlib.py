"""Common parts of checks: building the harness, running TLC and the harness, reporting."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
EVIDENCE = os.path.join(VERIF, 'evidence')


class CheckError(Exception):
    """The check itself could not be carried out."""


class Violation(Exception):
    def __init__(self, what, detail):
        Exception.__init__(self, what)
        self.what, self.detail = what, detail


def go_env():
    env = dict(os.environ)
    env.update(HOME=env.get('HOME') or '/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off',
               GOPATH=env.get('GOPATH') or '/root/go', GO111MODULE='on')
    env['PATH'] = '/usr/local/go/bin:/usr/local/bin:' + env.get('PATH', '/usr/bin:/bin')
    for k in ('GOOS', 'GOARCH'):
        env.pop(k, None)
    return env


class Ctx:
    """A run of a check for one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.parts = [], [], []
        self.extra = {}
        self._bin = {}
        self._graphs = {}

    @property
    def quick(self):
        return self.tier != 'thorough'

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        return os.path.join(self.work, name)

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ------------------------------------------------------------ building

    def run(self, cmd, cwd=None, env=None, timeout=600, check=True, what=''):
        try:
            p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('%s: no end in %ss' % (what or cmd[0], timeout))
        if check and p.returncode != 0:
            raise CheckError('%s failed (%d):\n%s\n%s' % (
                what or cmd[0], p.returncode, p.stdout.decode('utf8', 'replace')[-3000:],
                p.stderr.decode('utf8', 'replace')[-6000:]))
        return p

    def harness(self, race=False, repo=REPO):
        """Build the harness against the tree in repo."""
        key = (race, repo)
        if key in self._bin:
            return self._bin[key]
        n = len(self._bin)
        src = self.path('src%d' % n)
        os.mkdir(src)
        for f in os.listdir(HARNESS):
            if f.endswith('.go') or f in ('go.mod', 'go.sum'):
                shutil.copy(os.path.join(HARNESS, f), src)
        mod = os.path.join(src, 'go.mod')
        s = open(mod).read().replace('=> /repo', '=> ' + repo)
        open(mod, 'w').write(s)
        # Whatever /repo needs is what the harness needs.
        shutil.copy(os.path.join(repo, 'go.sum'), os.path.join(src, 'go.sum'))
        out = self.path('vh%d' % n)
        cmd = ['go', 'build', '-o', out]
        if race:
            cmd.append('-race')
        if os.environ.get('GOCOVERDIR'):    # to see what of the code the checks reach (tools/cover.sh)
            cmd += ['-cover', '-coverpkg=./...,github.com/infobloxopen/go-trees/...']
        t = time.time()
        self.run(cmd + ['.'], cwd=src, env=go_env(), timeout=800, what='building harness')
        self.log('harness is built in %.1fs%s' % (time.time() - t, ' (race)' if race else ''))
        self._bin[key] = out
        return out

    def regenerated(self):
        """A copy of the repository where packages made from templates are made again."""
        gen = self.path('gen')
        shutil.copytree(REPO, gen, ignore=lambda d, names: [n for n in names if n == '.git'], symlinks=True)
        ux = os.path.join(gen, 'uintX')
        tpls = sorted(n for n in os.listdir(ux) if '{{' in n)
        sels = re.findall(r'(?m)^([A-Za-z0-9_]+):', open(os.path.join(ux, 'uintX.yaml')).read())
        if not tpls or not sels:
            raise CheckError('no templates or no widths')
        for n in os.listdir(ux):
            if os.path.isdir(os.path.join(ux, n)) and n not in tpls:
                shutil.rmtree(os.path.join(ux, n))
        etc = self.path('etc-gen')
        self.run(['go', 'build', '-o', etc, './etc'], cwd=gen, env=go_env(), what='building etc')
        for t in tpls:
            for s in sels:
                p = self.run([etc, '-s', s, '-d', 'uintX.yaml', '-t', './' + t], cwd=ux, check=False)
                if p.returncode != 0:
                    raise Violation('generator fails on %s with %s' % (t, s),
                                    {'stderr': p.stderr.decode('utf8', 'replace')[-3000:]})
        made = sorted(n for n in os.listdir(ux) if os.path.isdir(os.path.join(ux, n)) and n not in tpls)
        self.extra['generated'] = made
        p = self.run(['go', 'build', './uintX/...'], cwd=gen, env=go_env(), check=False)
        if p.returncode != 0:
            raise Violation('generated packages do not compile', {'packages': made,
                                                                  'stderr': p.stderr.decode('utf8', 'replace')[-3000:]})
        self.harness()           # compiles with the committed packages
        try:
            self.harness(repo=gen)
        except CheckError as e:
            raise Violation('generated packages are not usable like the committed ones', {'packages': made, 'error': str(e)[-3000:]})
        return gen

    # ------------------------------------------------------------ harness

    def vh(self, mode, spec=None, out=None, inp=None, race=False, repo=REPO, timeout=600, only=None, env=None,
           seed=None, args=()):
        """Run the harness; a crash inside of the code under test, once reproduced, is a violation."""
        binary = self.harness(race, repo)
        prog = self.path('progress')

        def once(only, deep):
            cmd = [binary, '-mode', mode, '-seed', str(self.seed if seed is None else seed), '-progress', prog]
            if spec is not None:
                cmd += ['-spec', json.dumps(spec)]
            if out:
                cmd += ['-out', out]
            if inp:
                cmd += ['-in', inp]
            if only:
                cmd += ['-only', only]
            cmd += list(args)
            e = go_env()
            e.update(env or {})
            if deep:
                e['VH_DEEP'] = '1'
            try:
                p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
                return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
            except subprocess.TimeoutExpired as x:
                return 'timeout', '', (x.stderr or b'').decode('utf8', 'replace')

        rc, so, se = once(only, False)
        if rc == 0:
            return so
        if 'WARNING: DATA RACE' in se:
            reports = se.split('==================')
            ours = [r for r in reports if 'WARNING: DATA RACE' in r and 'github.com/infobloxopen/go-trees' in r]
            if ours:
                raise Violation('data race in the code under test', {'mode': mode, 'spec': spec, 'seed': self.seed,
                                                                     'reports': ours[:3]})
        if rc == 2 and 'harness:' in se or 'github.com/infobloxopen/go-trees' not in se:
            raise CheckError('harness %s failed (%s):\n%s\n%s' % (mode, rc, so[-2000:], se[-6000:]))
        where = open(prog, 'rb').read(512).decode('utf8', 'replace').strip() if os.path.exists(prog) else ''
        self.log('harness died (%s) at %s, confirming' % (rc, where))
        rc2, so2, se2 = once(only or where.split(' step ')[0], True)
        where2 = open(prog, 'rb').read(512).decode('utf8', 'replace').strip()
        if rc2 == 0 or 'github.com/infobloxopen/go-trees' not in se2:
            rc2, so2, se2 = once(only, True)
            where2 = open(prog, 'rb').read(512).decode('utf8', 'replace').strip()
            if rc2 == 0 or 'github.com/infobloxopen/go-trees' not in se2:
                raise CheckError('harness %s died once (%s) at %s and not again:\n%s' % (mode, rc, where, se[-4000:]))
        raise Violation('code under test brings the process down', {
            'mode': mode, 'spec': spec, 'seed': self.seed, 'where': where2, 'stderr': se2[:6000]})

    # ------------------------------------------------------------ TLC

    def tlc(self, module, cfg=None, env=None, timeout=800, workers=8, lines=None, heap=None, constants=None,
            extra=(), tag=None, again=False):
        """Run TLC. Returns (status, output): status is ok, deadlock, invariant, property, postcondition, assert."""
        cfgfile = os.path.join(SPEC, cfg or module + '.cfg')
        if constants:
            txt = open(cfgfile).read()
            for k, v in constants.items():
                txt, n = re.subn(r'(?m)^(\s*(?:CONSTANTS?\s+)?)%s\s*(=|<-)\s*.*$' % re.escape(k), r'\g<1>%s = %s' % (k, v), txt)
                if n != 1:
                    raise CheckError('no constant %s in %s' % (k, cfgfile))
            cfgfile = self.path('%s-%d.cfg' % (module, len(self.parts)))
            open(cfgfile, 'w').write(txt)
        md = tempfile.mkdtemp(prefix='md', dir=self.work)
        e = dict(os.environ)
        e.update(env or {})
        jopts = '-XX:+UseParallelGC -Xmx%s -Xss16m' % (heap or '8g')
        e['JAVA_TOOL_OPTIONS'] = jopts
        cmd = ['tlc', '-config', cfgfile, '-workers', str(workers), '-metadir', md, '-noGenerateSpecTE'] + list(extra) + [
            os.path.join(SPEC, module + '.tla')]
        t = time.time()
        outname = self.path('tlc-%s-%d.out' % (module, len(self.parts)))
        with open(outname, 'wb') as f:
            p = subprocess.Popen(cmd, cwd=self.work, env=e, stdout=f, stderr=subprocess.STDOUT)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                raise CheckError('TLC on %s: no end in %ss' % (module, timeout))
        head, tail = [], []
        n = 0
        with open(outname, errors='replace') as f:
            for line in f:
                if line.startswith('"@') or line.startswith('@'):
                    n += 1
                    if lines is not None:
                        lines(line)
                    continue
                # Traces to errors may be long; what is wrong is said before them and statistics after.
                if len(head) < 500:
                    head.append(line)
                    continue
                tail.append(line)
                if len(tail) > 3000:
                    del tail[:1000]
        out = ''.join(head + tail)
        m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        shutil.rmtree(md, ignore_errors=True)
        if rc == 0 and 'No error has been found' in out:
            st = 'ok'
        elif 'Deadlock reached' in out:
            st = 'deadlock'
        elif re.search(r'Invariant \S+ is violated', out):
            st = 'invariant'
        elif re.search(r'(Action property|Temporal properties|Property) .*violated', out) or 'is violated' in out:
            st = 'property'
        else:
            if rc < 0 or rc >= 128:
                if n == 0 and not again:
                    self.log('TLC %s was ended (%d): once more' % (tag or cfg or module, rc))
                    return self.tlc(module, cfgfile, env, timeout, workers, lines, heap, None, extra,
                                    tag or cfg or module, again=True)
            raise CheckError('TLC on %s (%s) failed (%d):\n%s' % (module, cfg, rc, out[-5000:]))
        self.states += dist
        self.transitions += gen
        self.parts.append({'part': tag or cfg or module, 'states': dist, 'generated': gen, 'wall_s': round(time.time() - t, 1)})
        self.log('TLC %s: %s, %d states, %d generated in %.1fs' % (tag or cfg or module, st, dist, gen, time.time() - t))
        return st, out

    def design(self, module, cfg=None, constants=None, lines=None, timeout=800, extra=(), tag=None, heap=None, workers=8):
        """A model which has to be free of errors on its own: nothing of the code takes part."""
        st, out = self.tlc(module, cfg, constants=constants, lines=lines, timeout=timeout, extra=extra, tag=tag, heap=heap,
                           workers=workers)
        if st != 'ok':
            raise CheckError('model %s (%s) is broken: %s\n%s' % (module, cfg, st, out[-5000:]))

    # ------------------------------------------------------------ trace validation

    def validate(self, name, traces, module='StoreTrace', cfg=None, explain=None, timeout=800, count=None):
        """All recorded traces have to be behaviours of the trace specification."""
        data = json.load(open(traces))
        if not data:
            raise CheckError('no traces in %s' % traces)
        st, out = self.tlc(module, cfg, env={'TRACE': traces}, timeout=timeout, tag=name)
        if st == 'ok':
            self.traces += count if count is not None else sum(len(t.get('impls', [1])) for t in data)
            return data
        if st not in ('deadlock', 'invariant'):
            raise CheckError('%s: unexpected outcome %s\n%s' % (name, st, out[-4000:]))
        ts = re.findall(r'(?m)^/\\ t = (\d+)', out)
        ls = re.findall(r'(?m)^/\\ l = (\d+)', out)
        if not ts or not ls:
            raise CheckError('%s: cannot find the rejected trace\n%s' % (name, out[-4000:]))
        t, l = int(ts[-1]) - 1, int(ls[-1])
        tr = data[t]
        ev = tr.get('ev', [])
        bad = ev[l] if l < len(ev) else None
        if l == 0 and bad is None:
            raise CheckError('%s: trace %d has nothing to explain\n%s' % (name, t, out[-4000:]))
        detail = {'how': '%s rejects event %d of the trace' % (module, l + 1), 'impls': tr.get('impls'),
                  'note': tr.get('note'), 'kind': tr.get('kind'), 'cmp': tr.get('cmp'), 'seed': self.seed, 'event': bad,
                  'keys': readable_keys(tr.get('keys')), 'outs': readable_keys(tr.get('outs')),
                  'before': ev[max(0, l - 40):l], 'model_state': out[out.rfind('State '):][:3000], 'trace': tr}
        if explain:
            detail['explain'] = explain(tr, l)
        raise Violation('%s: step %d of %s (%s) is not what the specification allows: %s' % (
            name, l + 1, tr.get('note'), ', '.join(tr.get('impls', [])), json.dumps(bad)[:400]), detail)

    def histories(self, specs, name='histories', seed=None, repo=REPO):
        out = self.path('hist-%d.json' % len(self.parts))
        self.vh('hist', specs, out, repo=repo, seed=seed)
        stats = json.load(open(out + '.stats'))
        data = self.validate(name, out)
        if stats['differ']:
            raise Violation('implementations answer differently: %s' % '; '.join(stats['differ'][:5]), {'traces': [
                t for t in data if any(d.startswith(t['note'] + ':') for d in stats['differ'][:2])]})
        self.extra.setdefault('histories', []).append({'part': name, **stats})
        if data and len(self.samples) < 2:
            tr = data[len(data) // 2]
            self.samples.append({'validated trace of': tr['impls'], 'note': tr['note'], 'events': tr['ev'][:12]})
        os.remove(out)
        return data

    def big(self, kinds, sizes, dot=False, cmps=(), impls=(), repo=REPO):
        """Histories with thousands of entries; sizes are pairs of number of keys and number of histories."""
        specs = []
        for k in kinds:
            for size, n in sizes:
                d = {'kind': k, 'size': size, 'n': n, 'dot': dot, 'impls': list(impls)}
                if k == 'str':
                    d['cmps'] = list(cmps or ['lex', 'len', 'rev'])
                specs.append(d)
        out = self.path('big-%d.json' % len(self.parts))
        self.vh('big', specs, out, repo=repo)
        self.extra.setdefault('big histories', []).append(json.load(open(out + '.stats')))
        self.validate('big histories', out, module='BigTrace')
        os.remove(out)

    def huge(self, kinds, size=70001, impls=(), repo=REPO, long=0):
        """Histories with more entries than 16 bits can count, or with longer keys."""
        out = self.path('huge-%d.json' % len(self.parts))
        self.vh('huge', [{'kind': k, 'size': size, 'impls': list(impls), 'long': long} for k in kinds], out, repo=repo)
        self.extra.setdefault('huge histories', []).append(json.load(open(out + '.stats')))
        self.validate('huge histories', out, module='HugeTrace')
        os.remove(out)

    def depths(self, spec, repo=REPO):
        """Depths of search trees after adversarial histories."""
        out = self.path('depth.json')
        self.vh('depth', spec, out, repo=repo)
        st = self.extra['measured depths'] = json.load(open(out + '.stats'))
        data = self.validate('depths', out, module='DepthTrace', count=st['measurements'])
        self.samples.append({'measured': data[0]['impls'], 'note': data[0]['note'], 'events': data[0]['ev'][-40:-36]})

    def costs(self, specs, repo=REPO):
        """What operations on big trees allocate."""
        out = self.path('cost.json')
        self.vh('cost', specs, out, repo=repo)
        st = self.extra['measured costs'] = json.load(open(out + '.stats'))
        data = self.validate('costs', out, module='CostTrace', count=st['measurements'])
        self.samples.append({'measured': data[0]['impls'], 'note': data[0]['note'], 'events': data[0]['ev'][:4]})

    def concurrent(self, specs, repo=REPO):
        out = self.path('conc.json')
        self.vh('conc', specs, out, race=True, repo=repo, env={'GORACE': 'halt_on_error=0 exitcode=66'}, timeout=700)
        stats = json.load(open(out + '.stats'))
        data = self.validate('concurrent', out)
        self.extra['concurrent'] = stats
        self.samples.append({'seen by a goroutine': data[-1]['impls'], 'note': data[-1]['note'], 'events': data[-1]['ev'][-8:]})

    # ------------------------------------------------------------ names

    def texts(self, part, alphabet, size):
        f = self.path('texts.lines')
        tag = 'NameParser(%s, %d)' % (alphabet, size)
        with open(f, 'w') as o:
            self.design('NameParser', constants={'Alphabet': alphabet, 'MaxText': size, 'EMIT': 'TRUE'}, lines=o.write, tag=tag)
        out = self.path('texts.json')
        self.vh('texts', {'Parts': [part], 'File': f}, out)
        r = json.load(open(out))
        os.remove(f)
        if r['bad']:
            raise Violation('%s: %s' % (r['bad'][0]['what'], json.dumps(r['bad'][0])[:600]), r['bad'])
        if not r['texts']:
            raise CheckError('no texts')
        self.traces += r['texts']

    def names(self, parts, n):
        out = self.path('names.json')
        self.vh('names', {'Parts': parts, 'N': n}, out)
        ev = json.load(open(out + '.stats'))['events']
        data = self.validate('names', out, module='NameTrace', count=ev)
        self.samples.append({'validated': data[0]['ev'][3]})

    def schedules(self, derive, repo=REPO):
        f = self.path('schedules.lines')
        with open(f, 'w') as o:
            self.design('Schedules', constants={'EMIT': 'TRUE', 'NDerive': derive}, lines=o.write, tag='Schedules(%d)' % derive)
        out = self.path('sched.json')
        self.vh('sched', {'File': f}, out, repo=repo)
        r = json.load(open(out))
        if r['bad']:
            b = r['bad'][0]
            raise Violation('step %d of a schedule of enumerations on %s: %s' % (b['step'], b['impl'], b['what']), r['bad'])
        if not r['runs']:
            raise CheckError('no schedules')
        self.traces += r['runs']
        self.extra['schedules'] = {'schedules': r['schedules'], 'runs': r['runs']}

    # ------------------------------------------------------------ replay of graphs

    def graph(self, module, kind, p=(), constants=None, impls=(), some=0, deep=False, repo=REPO, timeout=800):
        """Check a structural model, print its transitions and make the real trees do all of them."""
        const = dict(constants or {}, EMIT='TRUE')
        tag = '%s(%s)' % (module, ', '.join('%s=%s' % (k, v) for k, v in const.items() if k != 'EMIT'))
        if tag in self._graphs:
            f = self._graphs[tag]
        else:
            f = self.path('graph-%d.lines' % len(self.parts))
            with open(f, 'w') as o:
                self.design(module, constants=const, lines=o.write, tag=tag, timeout=timeout)
            self._graphs[tag] = f
        out = self.path('graph.json')
        spec = [{'file': f, 'kind': kind, 'p': list(p), 'impls': list(impls), 'some': some, 'deep': deep}]
        t = time.time()
        self.vh('graph', spec, out, repo=repo, timeout=timeout)
        r = json.load(open(out))
        if r['bad']:
            b = r['bad'][0]
            raise Violation('transition of %s on %s: %s' % (module, b['family'], b['what']),
                            {'model': module, 'constants': const, 'seed': self.seed, 'violations': r['bad'][:10]})
        if not r['families'] or not r['stats'].get('transitions'):
            raise CheckError('nothing of %s is replayed' % tag)
        self.traces += r['stats']['transitions']
        self.extra.setdefault('replayed', []).append(
            {'model': tag, 'families': len(r['families']), 'family_names': r['families'][:8], **r['stats']})
        if len(self.samples) < 4:
            self.samples.append({'replayed': tag, 'as': r['families'][0], 'transition': sample_line(f)})
        self.log('%s on %d families: %d transitions, %d lookups in %.1fs' % (
            tag, len(r['families']), r['stats']['transitions'], r['stats']['lookups'], time.time() - t))

    def branches(self, shape, constants, impls=(), some=0, fams=0, need='', repo=REPO, timeout=800):
        """All short branching histories of module Branches, carried out on the real trees."""
        const = dict({'SHAPE': '"%s"' % shape, 'EMIT': 'TRUE'}, **constants)
        tag = 'Branches(%s)' % ', '.join('%s=%s' % (k, v) for k, v in const.items() if k != 'EMIT')
        if tag in self._graphs:
            f = self._graphs[tag]
        else:
            f = self.path('branches-%d.lines' % len(self.parts))
            with open(f, 'w') as o:
                self.design('Branches', constants=const, lines=o.write, tag=tag, timeout=timeout)
            self._graphs[tag] = f
        out = self.path('branches.json')
        t = time.time()
        self.vh('branches', [{'file': f, 'shape': shape, 'impls': list(impls), 'some': some, 'fams': fams, 'need': need}], out, repo=repo,
                timeout=timeout)
        r = json.load(open(out))
        if r['bad']:
            b = r['bad'][0]
            raise Violation('step %d of a branching history on %s: %s' % (b['step'], b['family'], b['what']),
                            {'model': 'Branches', 'constants': const, 'seed': self.seed, 'violations': r['bad'][:5]})
        if not r['families'] or not r['steps']:
            raise CheckError('nothing of %s is replayed' % tag)
        self.traces += r['histories']
        self.extra.setdefault('branching', []).append(
            {'model': tag, 'histories_of_model': r['total'], 'histories': r['histories'], 'steps': r['steps'],
             'families': len(r['families'])})
        self.log('%s on %d families: %d of %d histories, %d steps in %.1fs' % (
            tag, len(r['families']), r['histories'], r['total'] * len(r['families']), r['steps'], time.time() - t))

    # ------------------------------------------------------------ reporting

    def evidence(self, violations=0, level='model_checking', assumptions=()):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples[:6] or ['none'],
               'parts': self.parts}
        cov.update(self.extra)
        os.makedirs(EVIDENCE, exist_ok=True)
        json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
                   'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2),
                   'violations': violations},
                  open(os.path.join(EVIDENCE, self.prop + '.json'), 'w'), indent=1, default=str)


def sample_line(f):
    n = 0
    with open(f) as g:
        for line in g:
            if line.startswith('"@e'):
                n += 1
                if n == 200:
                    break
    return json.loads(line)[2:][:600]


def readable_keys(keys):
    out = []
    for k in keys or []:
        if not isinstance(k, dict):
            out.append(k)
            continue
        out.append('%s %r%s%s' % (k['f'], bytes(k['b']), '/%d' % k['n'] if k['f'] == 'n' else '',
                                  ' mask %s' % bytes(k['m']).hex() if k['f'] == 'i' else ''))
    return out


def main(prop, tier, checks):
    seed = int(os.environ.get('VERIF_SEED') or '1')
    if prop not in checks:
        print('no check for', prop)
        return 2
    ctx = Ctx(prop, tier, seed)
    try:
        checks[prop](ctx)
        ctx.evidence()
        print('OK property=%s states=%d transitions=%d traces=%d wall=%.1fs' % (
            prop, ctx.states, ctx.transitions, ctx.traces, time.time() - ctx.t0))
        return 0
    except Violation as v:
        ctx.evidence(violations=1)
        os.makedirs(EVIDENCE, exist_ok=True)
        replay = os.path.join(EVIDENCE, '%s-violation.json' % prop)
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'what': v.what, 'detail': v.detail,
                   'rerun': 'VERIF_SEED=%d python3 bin/check.py %s %s' % (seed, prop, tier)},
                  open(replay, 'w'), indent=1, default=str)
        print(v.what)
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    except CheckError as e:
        print('CHECK ERROR property=%s: %s' % (prop, e))
        return 2
    finally:
        ctx.cleanup()
