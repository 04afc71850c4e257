"""Orchestration shared by every check: TLC runs, driver runs, verdicts, evidence.

A check is:  model check a design specification (TLC, exhaustive)  ->  obtain behaviours
(generated by TLC from the specification and/or by a seeded generator)  ->  execute them on
the real lop code in a child process, recording one event per public call  ->  validate the
recorded events against the specification with TLC.  TLC decides; this file only moves data.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(ROOT, 'specs')
LOP_PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')      # another tree only when trying out planted changes
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class Run:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.level = level
        self.t0 = time.time()
        base = os.path.join(ROOT, 'work')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + '-', dir=base)
        self.states = 0
        self.transitions = 0
        self.traces = 0          # behaviours validated against the implementation
        self.events = 0          # events validated
        self.samples = []
        self.cov = {}
        self.mc = []             # what was model checked
        self.assumptions = []
        self.viol = []           # (key, replay payload, message)
        self.thorough = self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def note(self, k, v):
        self.cov[k] = v

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, consts=None, invariants=(), properties=(), constraints=(),
            action_constraints=(), postcondition=None, view=None, spec='Spec', env=None, workers=4,
            simulate=None, depth=None, timeout=600, deadlock=False, coverage=False, heap='3g',
            symmetry=None, count=True, tag=''):
        cfg = ['SPECIFICATION ' + spec]
        for k, v in (consts or {}).items():
            cfg.append('CONSTANT %s %s %s' % (k, '<-' if str(v).startswith('<-') else '=', str(v).replace('<-', '').strip()))
        cfg += ['INVARIANT ' + i for i in invariants]
        cfg += ['PROPERTY ' + i for i in properties]
        cfg += ['CONSTRAINT ' + i for i in constraints]
        cfg += ['ACTION_CONSTRAINT ' + i for i in action_constraints]
        if postcondition: cfg.append('POSTCONDITION ' + postcondition)
        if view: cfg.append('VIEW ' + view)
        if symmetry: cfg.append('SYMMETRY ' + symmetry)
        cfg.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
        wd = tempfile.mkdtemp(prefix='tlc-%s-' % module, dir=self.dir)
        cfgf = os.path.join(wd, module + '.cfg')
        with open(cfgf, 'w') as f: f.write('\n'.join(cfg) + '\n')
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Djava.io.tmpdir=' + wd, '-cp', CP, 'tlc2.TLC',
               '-metadir', os.path.join(wd, 'meta'), '-config', cfgf, '-workers', str(workers), '-noGenerateSpecTE']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 20)]
        cmd += ['-seed', str(self.seed)]
        if coverage: cmd += ['-coverage', '1']
        cmd.append(module + '.tla')
        e = dict(os.environ); e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop('JAVA_TOOL_OPTIONS', None)
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPECS, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out: %s' % module)
        out = r.stdout.decode(errors='replace')
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out) or \
            re.findall(r'(\d+) states generated \(.*?\), (\d+) distinct', out)
        gen = dist = 0
        if m: gen, dist = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r'(?:The number of states generated|states checked)[: ]+([\d,]+)', out)
            if m: gen = int(m[-1].replace(',', ''))
            m = re.findall(r'([\d,]+) states checked', out)
            if m: gen = int(m[-1].replace(',', ''))
        res = dict(module=module, rc=r.returncode, out=out, generated=gen, distinct=dist,
                   wall=round(time.time() - t, 2), dir=wd, coverage=parse_coverage(out) if coverage else None)
        if os.environ.get('VERIF_DEBUG'):
            print('TLC %s rc=%d gen=%d dist=%d %.1fs %s' % (module, r.returncode, gen, dist, res['wall'], tag), file=sys.stderr)
        if count:
            self.states += dist
            self.transitions += gen
        return res

    def model_check(self, module, what, **kw):
        """Exhaustive run of a design specification.  Any error is an error of the model."""
        kw.setdefault('workers', 8)
        kw.setdefault('coverage', True)
        never_ok = kw.pop('never_ok', ())
        res = self.tlc(module, **kw)
        if res['rc'] != 0 or 'No error has been found' not in res['out']:
            sys.stderr.write(res['out'][-6000:])
            raise MachineryError('model checking %s failed' % module)
        never = [a for a, n in (res['coverage'] or {}).items() if n == 0 and a not in never_ok]
        if never:
            raise MachineryError('vacuous model: actions never taken in %s: %s' % (module, never))
        self.mc.append(dict(module=module, what=what, states=res['distinct'], transitions=res['generated'],
                            properties=list(kw.get('invariants', ())) + list(kw.get('properties', ())),
                            actions=res['coverage'], wall_s=res['wall']))
        return res

    def generate(self, module, out_name='gen', simulate=None, depth=None, limit=None, **kw):
        """Behaviours written by TLC (one JSON value per line through CSVWrite into IOEnv.OUT)."""
        out = os.path.join(self.dir, out_name + '.ndjson')
        if os.path.exists(out): os.remove(out)
        env = dict(kw.pop('env', {}) or {}); env['OUT'] = out
        kw.setdefault('workers', 1)
        c = kw.get('consts') or {}
        drawn = int(c.get('Num', 0) or c.get('Count', 0))
        if drawn and not simulate and c.get('Mode') != '"all"':
            # random draws follow the seed only in simulation: one long behaviour, one value per step
            simulate, depth = 1, drawn + 1
        res = self.tlc(module, env=env, simulate=simulate, depth=depth, **kw)
        if res['rc'] != 0:
            sys.stderr.write(res['out'][-6000:])
            raise MachineryError('generation from %s failed' % module)
        vals, seen = [], set()
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    line = line.strip()
                    if not line or line in seen: continue
                    seen.add(line)
                    vals.append(decode(line))
        want = drawn or simulate or 0
        if len(vals) * 4 < want or not vals:
            raise MachineryError('generation from %s gave %d of %d behaviours' % (module, len(vals), want))
        if limit is not None and len(vals) > limit:
            step = len(vals) / limit
            vals = [vals[int(i * step)] for i in range(limit)]
        return vals

    # ------------------------------------------------------------------ driver
    def drive(self, driver, behs, shards=8, beh_timeout=30, wall=500):
        """Execute behaviours on the real code.  behs: list of dict(acts=[...], ...).
        Returns the list of events (each with tid = index in behs)."""
        n = len(behs)
        shards = max(1, min(shards, n))
        files = []
        for s in range(shards):
            p = os.path.join(self.dir, 'in-%s-%d-%d.ndjson' % (driver, s, int(time.time() * 1e6)))
            with open(p, 'w') as f:
                for i in range(s, n, shards):
                    f.write(json.dumps(dict(behs[i], id=i)) + '\n')
            files.append(p)
        deadline = time.time() + wall
        with cf.ThreadPoolExecutor(shards) as ex:
            parts = list(ex.map(lambda p: self._drive_shard(driver, p, beh_timeout, deadline), files))
        ev = [e for p in parts for e in p]
        ev.sort(key=lambda e: e['tid'])  # stable: order within a behaviour is kept
        return ev

    def _drive_shard(self, driver, path, beh_timeout, deadline):
        ids = [json.loads(l)['id'] for l in open(path)]
        events, start, bad = [], 0, 0
        while start < len(ids) and bad < 3:
            out = path + '.out%d' % start
            scratch = tempfile.mkdtemp(prefix='cwd-', dir=self.dir)
            env = child_env(scratch)
            cmd = [LOP_PY, os.path.join(ROOT, 'harness', 'driver.py'), driver, path, out, str(start), str(beh_timeout), str(self.seed)]
            limit = max(5, deadline - time.time())
            why = None
            try:
                r = subprocess.run(cmd, cwd=scratch, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, timeout=limit)
                if r.returncode == 3:
                    sys.stderr.write(r.stderr.decode(errors='replace')[-3000:])
                    raise MachineryError('driver %s failed' % driver)
                if r.returncode != 0: why = 'crash'
                err = r.stderr.decode(errors='replace')[-2000:]
            except subprocess.TimeoutExpired:
                why, err = 'timeout', ''
            done = 0
            if os.path.exists(out):
                cur = []
                with open(out) as f:
                    for line in f:
                        if not line.endswith('\n'): break
                        e = json.loads(line)
                        if e.get('ev') == '__done__':
                            events += cur; cur = []; done += 1
                        else: cur.append(e)
                os.remove(out)
            shutil.rmtree(scratch, ignore_errors=True)
            if why is None: break
            if start + done >= len(ids): break
            if os.environ.get('VERIF_DEBUG'): sys.stderr.write('driver %s: %s\n%s\n' % (driver, why, err))
            events.append(dict(tid=ids[start + done], i=0, ev='crash', why=why))
            bad += 1
            start += done + 1
            if time.time() > deadline: break
        return events

    # ------------------------------------------------------------------ trace validation
    def validate(self, module, events, consts=None, chunks=None, timeout=600, keep=True):
        """Check recorded events against a trace specification.  The trace specification appends
        {"l": line, "v": [failed clauses]} to IOEnv.VERDICTS and must consume every event."""
        if not events: return []
        if chunks is None: chunks = 1 if len(events) < 1500 else min(6, 1 + len(events) // 1500)
        tids = sorted({e['tid'] for e in events})
        per = max(1, (len(tids) + chunks - 1) // chunks)
        groups = [set(tids[i:i + per]) for i in range(0, len(tids), per)]
        bytid = {}
        for e in events: bytid.setdefault(e['tid'], []).append(e)
        def one(g):
            todo, out = sorted(g), []
            for attempt in range(4):
                evs = [e for t in todo for e in bytid[t]]
                if not evs: break
                d = tempfile.mkdtemp(prefix='trace-', dir=self.dir)
                tf, vf = os.path.join(d, 'trace.ndjson'), os.path.join(d, 'verdicts.ndjson')
                with open(tf, 'w') as f:
                    for e in evs: f.write(json.dumps(e) + '\n')
                res = self.tlc(module, consts=consts, spec='TraceSpec', postcondition='Consumed',
                               env=dict(TRACE=tf, VERDICTS=vf), workers=1, timeout=timeout, count=False, heap='2g')
                ok = res['rc'] == 0 and 'No error has been found' in res['out']
                # an event outside the domain of the specification (an index nothing has, a result of another
                # shape): no behaviour of the specification has it, so it is reported as a deviation
                stuck = not ok and not re.search('StackOverflow|OutOfMemory|GC overhead', res['out']) and 0 < res['distinct'] <= len(evs) and \
                    re.search(r'The error occurred when TLC was evaluating|TLC threw an unexpected exception', res['out'])
                if not ok and not stuck:
                    sys.stderr.write(res['out'][-5000:])
                    raise MachineryError('trace validation %s did not complete (trace %s)' % (module, tf))
                if os.path.exists(vf):
                    for line in open(vf):
                        j = decode(line)
                        out.append((evs[j['l'] - 1], sorted(j['v'])))
                self.states += res['distinct']; self.transitions += res['generated']
                if ok: break
                bad = evs[res['distinct'] - 1]
                out.append((bad, ['outside the specification']))
                todo = todo[todo.index(bad['tid']) + 1:]
            return out
        with cf.ThreadPoolExecutor(4) as ex:
            res = [v for part in ex.map(one, groups) for v in part]
        self.traces += len(tids)
        self.events += len(events)
        return res

    # ------------------------------------------------------------------ verdicts
    def violation(self, what, payload):
        self.viol.append((what, payload))

    def report(self, verdicts, behs, only=None):
        """Turn verdict lines into violations (one per behaviour), honouring `only`: the clauses
        that belong to this property (other clauses are other properties' business)."""
        seen = set()
        for e, clauses in verdicts:
            cl = [c for c in clauses if only is None or c == 'outside the specification' or any(c == o or c.startswith(o) for o in only)]
            if not cl or e['tid'] in seen: continue
            seen.add(e['tid'])
            self.violation('; '.join(cl), dict(behaviour=behs[e['tid']], event=e, clauses=cl))

    def finish(self):
        kf = known_findings(self.pid)
        unlisted, listed = [], []
        for what, payload in self.viol:
            key = (payload.get('behaviour') or {}).get('key')
            hit = [k for k in kf if k.get('status') == 'finding' and key is not None and k.get('key') == key
                   and all(c in k.get('clauses', []) for c in payload.get('clauses', [what]))]
            (listed if hit else unlisted).append((what, payload, hit))
        for k in kf:
            if k.get('status') == 'finding' and any(k in h for _, _, h in listed):
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated_against_impl=self.events, samples=self.samples[:5] or ['(none)'],
                   model_checked=self.mc)
        cov.update(self.cov)
        ev = dict(property=self.pid, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick', seed=self.seed,
                  level=self.level, coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(unlisted))
        outd = ROOT if REPO == '/repo' else REPO + '.out'
        os.makedirs(os.path.join(outd, 'evidence'), exist_ok=True)
        with open(os.path.join(outd, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        rc = 0
        if unlisted:
            rdir = os.path.join(outd, 'replays'); os.makedirs(rdir, exist_ok=True)
            for n, (what, payload, _) in enumerate(unlisted[:5]):
                p = os.path.join(rdir, '%s-%d.json' % (self.pid, n))
                with open(p, 'w') as f: json.dump(dict(payload, property=self.pid, what=what, seed=self.seed), f, indent=1)
                print('VIOLATION property=%s replay=%s' % (self.pid, p))
                print('  %s' % what)
            if len(unlisted) > 5: print('  (%d more)' % (len(unlisted) - 5))
            rc = 1
        else:
            print('%s: held; %d states, %d behaviours (%d events) validated against the implementation, %.1fs'
                  % (self.pid, self.states, self.traces, self.events, time.time() - self.t0))
        self.cleanup()
        return rc

    def cleanup(self):
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)


def decode(line):
    j = json.loads(line)
    return json.loads(j) if isinstance(j, str) else j


def child_env(scratch):
    return {'PATH': '/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', 'HOME': scratch, 'TMPDIR': scratch,
            'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': scratch,
            'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'NUMBA_NUM_THREADS': '1',
            'PYTHONPATH': os.path.join(REPO, 'src') + ':' + os.path.join(ROOT, 'harness'), 'PYTHONWARNINGS': 'ignore'}


def parse_coverage(out):
    """action name -> number of times taken, from the last coverage report."""
    res = {}
    last = out.rfind('The coverage statistics')
    for m in re.finditer(r'<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)(?: \([\d ]+\))?>: (\d+):(\d+)', out[last if last >= 0 else 0:]):
        if m.group(1).startswith('Init'): continue
        res[m.group(1)] = res.get(m.group(1), 0) + int(m.group(4))
    return res


def known_findings(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k['property'] == pid]
