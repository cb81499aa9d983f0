#!/usr/bin/env python3
"""Decides one property:  check.py <ID> quick|thorough   or   check.py replay <file>
                          check.py setup

Stages: (1) design models: TLC checks the specification of the mechanism;
(2) TLC generates scenarios from a specification where the check has one;
(3) a Go driver, built against /repo's working tree, runs the sessions and
records them; (4) TLC validates every recorded session against the
specification.  A session the specification does not allow is a violation.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, random

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

TLA = '/opt/veriftools/tla'
JARS = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
REPLAYS = os.path.join(HERE, 'replays')
KNOWN = json.load(open(os.path.join(HERE, 'known_findings.json')))


class Broken(Exception):
    pass


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cfg = CHECKS[prop]
        self.dir = tempfile.mkdtemp(prefix=f'verif-{prop}-')
        self.t0 = time.time()
        self.states = self.trans = 0
        self.models = []
        self.notes = []

    # ---------- tools ----------
    def sh(self, cmd, timeout, **kw):
        try:
            return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  text=True, errors='replace', **kw)
        except subprocess.TimeoutExpired as e:
            raise Broken(f'timeout: {" ".join(map(str, cmd))[:200]}') from e

    def prepare(self):
        self.cls = os.path.join(self.dir, 'cls')
        os.mkdir(self.cls)
        jd = os.path.join(HERE, 'spec/java/verif')
        r = self.sh(['javac', '-cp', f'{TLA}/tla2tools.jar', '-d', self.cls] +
                    [os.path.join(jd, f) for f in sorted(os.listdir(jd)) if f.endswith('.java')], 120)
        if r.returncode:
            raise Broken('javac: ' + r.stdout[-2000:])

    def env_go(self):
        e = dict(os.environ)
        out = self.sh(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], 60).stdout
        for kv in out.split('\0'):
            if '=' in kv:
                k, v = kv.split('=', 1)
                e[k] = v
        e['GOFLAGS'] = '-mod=mod' if False else e.get('GOFLAGS', '').replace('-mod=vendor', '')
        e['VDIR'] = self.dir
        return e

    def build(self):
        self.drv = os.path.join(self.dir, 'driver')
        cmd = ['go', 'build', '-o', self.drv]
        ov = self.cfg.get('overlay')
        if ov:  # adds a file to a package of /repo that exports what the driver needs
            path = os.path.join(self.dir, 'overlay.json')
            with open(path, 'w') as f:
                json.dump({'Replace': {'/repo/' + k: os.path.join(HERE, v) for k, v in ov.items()}}, f)
            cmd += ['-overlay', path, '-tags', self.cfg['tags']]
        r = self.sh(cmd + ['./cmd/' + self.cfg['cmd']], 600,
                    cwd=os.path.join(HERE, 'driver'), env=self.env_go())
        if r.returncode:
            raise Broken('driver does not build against /repo:\n' + r.stdout[-3000:])
        for tag in self.cfg.get('variants', ()):  # the same sessions on another build of the code
            r = self.sh(['go', 'build', '-o', self.drv + '-' + tag, '-tags', tag, './cmd/' + self.cfg['cmd']], 600,
                        cwd=os.path.join(HERE, 'driver'), env=self.env_go())
            if r.returncode:
                raise Broken(f'driver does not build with {tag} against /repo:\n' + r.stdout[-3000:])

    def tlc(self, module, config, env=None, workers=8, timeout=800, heap='8g', extra=(), deque=False):
        md = tempfile.mkdtemp(dir=self.dir)
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss512m',
               '-Dtlc2.overrides.TLCOverrides=verif.Overrides:tlc2.overrides.TLCOverrides',
               f'-Djava.io.tmpdir={md}', '-cp', f'{self.cls}:{JARS}', 'tlc2.TLC',
               '-metadir', md, '-noGenerateSpecTE', '-workers', str(workers), '-config', config, *extra, module]
        e = dict(os.environ)
        e.update(env or {})
        r = self.sh(cmd, timeout, cwd=os.path.join(HERE, 'spec'), env=e)
        shutil.rmtree(md, ignore_errors=True)
        return r

    @staticmethod
    def counts(out):
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        return (int(m[-1][0]), int(m[-1][1])) if m else None

    # ---------- stages ----------
    def model(self, m):
        """A design model: it must check, or the specification itself is broken."""
        module, config = m['module'], m.get('cfg_' + self.tier, m.get('cfg', m['module'] + '.cfg'))
        extra = ['-deadlock'] if not m.get('deadlock') else []
        sim = m.get('sim_' + self.tier, m.get('sim'))
        if sim:
            extra += ['-simulate', f'num={sim[0]}', '-depth', str(sim[1]), '-seed', str(self.seed)]
        t = time.time()
        r = self.tlc(module, config, timeout=m.get('timeout', 600), extra=extra, workers=m.get('workers', 8))
        c = self.counts(r.stdout)
        if r.returncode and not m.get('expect_violation'):
            raise Broken(f'design model {module}/{config} does not check:\n' + r.stdout[-3000:])
        if m.get('expect_violation') and f'{m["expect_violation"]} is violated' not in r.stdout:
            raise Broken(f'the mutant model {module}/{config} was not refuted:\n' + r.stdout[-3000:])
        if c is None:
            m2 = re.findall(r'The number of states generated: (\d+)', r.stdout)
            c = (int(m2[-1]), int(m2[-1])) if m2 else (0, 0)
        if not m.get('expect_violation'):
            self.trans += c[0]
            self.states += c[1]
        self.models.append({'model': f'{module}/{config}', 'states': c[1], 'transitions': c[0],
                            'expected': m.get('expect_violation') and 'refuted: ' + m['expect_violation'] or 'holds',
                            'wall_s': round(time.time() - t, 1)})

    def generate(self):
        """Scenarios TLC derives from a specification; one JSON value per line."""
        g = self.cfg.get('gen')
        if not g:
            return None
        path = os.path.join(self.dir, 'scen.ndjson')
        n = 0
        with open(path, 'w') as f:
            for s in (g if isinstance(g, list) else [g]):
                extra = ['-deadlock']
                sim = s.get('sim_' + self.tier, s.get('sim'))
                if sim:
                    extra += ['-simulate', f'num={sim[0]}', '-depth', str(sim[1]), '-seed', str(self.seed)]
                config = s.get('cfg_' + self.tier, s.get('cfg', s['module'] + '.cfg'))
                r = self.tlc(s['module'], config, workers=1, extra=extra, timeout=s.get('timeout', 400))
                if r.returncode:
                    raise Broken(f'generator {config}:\n' + r.stdout[-3000:])
                c = self.counts(r.stdout)
                if c:
                    self.trans += c[0]
                    self.states += c[1]
                seen = set()
                for line in r.stdout.splitlines():
                    if line.startswith('"') and line.endswith('"') and line not in seen:
                        seen.add(line)
                        f.write(json.dumps(json.loads(json.loads(line))) + '\n')
                        n += 1
                self.models.append({'model': f'{s["module"]}/{config}', 'scenarios': len(seen),
                                    'states': c[1] if c else 0, 'transitions': c[0] if c else 0})
        if n == 0:
            raise Broken('the generator produced no scenario')
        return path

    def drive(self, scen, only=None, out='trace.ndjson', workers=None, timeout=840, variant=None):
        """Sessions of a variant have ids that start with its name."""
        tags = self.cfg.get('variants', ())
        if variant is None and only:
            variant = next((g for g in tags if only.startswith(g + '-')), None)
        elif variant is None and tags:
            r, path = self.drive(scen, None, out, workers, timeout, '')
            for g in tags:
                r2, more = self.drive(scen, None, g + '-' + out, workers, timeout, g)
                for a, b in ((more, path), (more + '.progress', path + '.progress')):
                    if os.path.exists(a):
                        with open(b, 'a') as f:
                            f.write(open(a).read())
                r = r if r.returncode else r2
            return r, path
        out = os.path.join(self.dir, out)
        cmd = [self.drv + ('-' + variant if variant else ''), '-prop', self.prop, '-tier', self.tier, '-seed', str(self.seed), '-out', out]
        if scen:
            cmd += ['-scen', scen]
        if only:
            cmd += ['-only', only]
        if workers:
            cmd += ['-workers', str(workers)]
        for p in (out, out + '.progress'):
            if os.path.exists(p):
                os.remove(p)
        r = self.sh(cmd, timeout, env=self.env_go())
        return r, out

    def drive_all(self, scen):
        """Run every session.  A session that takes the process down (fatal log,
        fatal error, no end) is itself an observation: run it alone to confirm."""
        crashed, skip = {}, []
        r, out = self.drive(scen, timeout=self.cfg.get('drive_timeout', 800) if self.tier == 'quick' else 6 * 3600)
        if r.returncode == 0:
            return out, crashed
        started, ended = [], set()
        try:
            for l in open(out + '.progress'):
                k, _, i = l.rstrip('\n').partition(' ')
                if k == 'start':
                    started.append(i)
                elif k == 'end':
                    ended.add(i)
                elif k == 'timeout':
                    started.insert(0, i)
        except FileNotFoundError:
            pass
        flight = []
        for i in started:
            if i not in ended and i not in flight:
                flight.append(i)
        for i in flight[:9]:
            r2, o2 = self.drive(scen, only=i, out='one.ndjson', workers=1, timeout=450)
            if r2.returncode:
                crashed[i] = f'exit {r2.returncode}: ' + r2.stdout[-600:]
                break
        if not crashed:
            r, out = self.drive(scen, workers=2)
            if r.returncode == 0:
                return out, crashed
            raise Broken(f'driver failed (exit {r.returncode}):\n' + r.stdout[-3000:])
        return None, crashed

    REJ = re.compile(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+),\s*("(?:[^"\\]|\\.)*")\s*>>', re.S)

    def validate(self, trace):
        rejects = []
        lines = open(trace).read().splitlines()
        total = len(lines)
        if total == 0:
            raise Broken('no session recorded')
        self.sessions = [json.loads(l) for l in lines]
        cur = list(range(total))
        exact = True
        for attempt in range(6):
            p = os.path.join(self.dir, f'v{attempt}.ndjson')
            with open(p, 'w') as f:
                for i in cur:
                    f.write(lines[i] + '\n')
            spec = self.cfg['spec']
            r = self.tlc(spec, self.cfg.get('spec_cfg', 'Trace.cfg'), env={'VTRACE': p}, extra=['-deadlock'],
                         timeout=850 if self.tier == 'quick' else 6 * 3600)
            found = [(m.group(1), int(m.group(2)), m.group(3)) for m in self.REJ.finditer(r.stdout)]
            c = self.counts(r.stdout)
            if r.returncode == 0 and c:
                rejects += found
                want = sum(len(self.sessions[i]['ev']) + 1 for i in cur)
                if not found and exact and not self.cfg.get('nondet') and c[1] != want:
                    raise Broken(f'trace validation visited {c[1]} states, expected {want}')
                if r.stdout.count('"REJECT"') != len(found):
                    raise Broken('could not parse a rejection:\n' + r.stdout[:3000])
                self.trans += c[0]
                self.states += c[1]
                return rejects
            # an observation the specification cannot even be evaluated on
            m = re.findall(r'^/\\ s = (\d+)', r.stdout, re.M)
            ml = re.findall(r'^/\\ l = (\d+)', r.stdout, re.M)
            if not m or 'Error:' not in r.stdout:
                raise Broken('trace validation failed:\n' + r.stdout[-2500:])
            bad = cur[int(m[-1]) - 1]
            rejects.append((self.sessions[bad]['id'], int(ml[-1]) if ml else 0,
                            json.dumps('not in the vocabulary of the specification: ' +
                                       ' '.join(re.findall(r'^Error: (.*)$', r.stdout, re.M))[:300])))
            self.notes.append('specification could not be evaluated on ' + self.sessions[bad]['id'])
            cur.remove(bad)
            if not cur:
                return rejects
        return rejects

    # ---------- the whole ----------
    def main(self, only=None):
        viol = []
        try:
            self.prepare()
            self.build()
            if not only:
                for m in self.cfg.get('mc', []):
                    if m.get('tier', self.tier) == self.tier:
                        self.model(m)
            scen = self.generate()
            if only:
                r, out = self.drive(scen, only=only)
                crashed = {only: r.stdout[-600:]} if r.returncode else {}
                if r.returncode:
                    out = None
            else:
                out, crashed = self.drive_all(scen)
            for i, msg in crashed.items():
                viol.append((i, 0, 'the process ended: ' + msg, None))
            self.sessions = []
            if out:
                for i, l, exp in self.validate(out):
                    s = next(x for x in self.sessions if x['id'] == i)
                    viol.append((i, l, exp, s))
            return self.report(viol, only)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def report(self, viol, only):
        known = {(k['property'], k['session']): k for k in KNOWN.get('open', [])}
        news = []
        hit = set()
        for i, l, exp, s in viol:
            k = known.get((self.prop, i))
            if k:
                hit.add(i)
                print(f'KNOWN-FINDING: property={self.prop} {k["what"]}')
            else:
                news.append((i, l, exp, s))
        for (p, i), k in known.items():
            if p == self.prop and i not in hit and not only:
                self.notes.append('known finding not reproduced: ' + i)
        if not only:
            self.evidence(len(news))
        if not news:
            print(f'{self.prop} {self.tier}: {len(self.sessions)} sessions validated, {self.states} states, '
                  f'{round(time.time() - self.t0, 1)} s')
            return 0
        os.makedirs(REPLAYS, exist_ok=True)
        for n, (i, l, exp, s) in enumerate(sorted(news, key=lambda x: x[0])):
            if n >= 5:
                print(f'... and {len(news) - n} more sessions: ' + ' '.join(sorted(x[0] for x in news)[5:])[:4000])
                break
            path = os.path.join(REPLAYS, f'{self.prop}-{re.sub(r"[^A-Za-z0-9_.-]", "_", i)}.json')
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'session': i, 'event': l,
                           'expected': exp, 'recorded': s}, f)
            ev = json.dumps(s['ev'][l - 1])[:400] if s and 0 < l <= len(s['ev']) else ''
            print(f'session {i} event {l}: recorded {ev} expected {str(exp)[:300]}')
            print(f'VIOLATION property={self.prop} replay={path}', flush=True)
        return 1

    def evidence(self, nviol):
        kinds = {}
        for s in self.sessions:
            kinds[s['k']] = kinds.get(s['k'], 0) + 1
        rnd = random.Random(self.seed)
        samples = []
        for s in rnd.sample(self.sessions, min(4, len(self.sessions))):
            j = json.dumps(s)
            samples.append(s if len(j) < 1500 else {'id': s['id'], 'k': s['k'], 'excerpt': j[:1200]})
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.cfg.get('level', 'model_checking'),
            'coverage': {
                'states': self.states, 'transitions': self.trans,
                'traces_validated_against_impl': len(self.sessions),
                'events_validated': sum(len(s['ev']) for s in self.sessions),
                'sessions_by_kind': kinds, 'models': self.models, 'samples': samples or ['none'],
                'explanation': self.cfg.get('covers', ''),
            },
            'assumptions': self.cfg.get('assumes', []) + self.notes,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': nviol,
        }
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def setup():
    """The evaluation overrides agree with the definitions they stand for."""
    r = Run(next(iter(CHECKS)), 'quick', 1)
    try:
        r.prepare()
        o = r.tlc('OverridesCheck', 'OverridesCheck.cfg', extra=['-deadlock'], timeout=1500)
        print(o.stdout[-600:])
        return 0 if o.returncode == 0 else 2
    finally:
        shutil.rmtree(r.dir, ignore_errors=True)


def main():
    if len(sys.argv) == 2 and sys.argv[1] == 'setup':
        return setup()
    if sys.argv[1] == 'replay':
        d = json.load(open(sys.argv[2]))
        return Run(d['property'], d['tier'], d['seed']).main(only=d['session'])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    return Run(sys.argv[1], tier, int(os.environ.get('VERIF_SEED', '1') or 1)).main()


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as e:
        print('CHECK BROKEN:', e)
        sys.exit(2)
