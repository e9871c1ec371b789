"""Shared machinery: running TLC, collecting verdicts, evidence and replay files."""
import contextlib
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    """Something is wrong with the check itself."""


class Hang(Exception):
    """Code under test did not return in time."""


@contextlib.contextmanager
def time_limit(seconds):
    def handler(signum, frame):
        raise Hang(f'no answer within {seconds}s')
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.findall(r'Progress: (\d+) states checked, (\d+) traces generated', out)
        if m and not self.generated:
            self.generated = int(m[-1][0])
        self.ok = rc == 0

    @property
    def violation(self):
        return 'is violated' in self.out or 'Temporal properties were violated' in self.out \
            or 'Deadlock reached' in self.out


def tlc(module, cfg, *, env=None, workers=8, timeout=800, args=(), check=True, heap='4g'):
    """Runs TLC on spec/<module>.tla.

    cfg: text of the configuration, or the name of a .cfg file in spec/.
    """
    with tempfile.TemporaryDirectory(prefix='tlc-') as tmp:
        if '\n' in cfg:
            path = os.path.join(tmp, f'{module}.cfg')
            with open(path, 'w') as f:
                f.write(cfg)
        else:
            path = os.path.join(SPEC, cfg)
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', f'-Djava.io.tmpdir={tmp}',
               '-cp', CP, 'tlc2.TLC', '-config', path, '-metadir', os.path.join(tmp, 'states'),
               '-workers', str(workers), '-noGenerateSpecTE', *map(str, args),
               os.path.join(SPEC, f'{module}.tla')]
        e = dict(os.environ, **{k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise MachineryError(f'TLC {module} timed out: {(x.stdout or b"")[-2000:]}')
    res = TlcResult(p.stdout, p.returncode)
    if check and not res.ok:
        raise MachineryError(f'TLC {module} failed (rc {p.returncode}):\n{p.stdout[-6000:]}')
    return res


class Ctx:
    """One run of one check."""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.extra = {}
        self.assumptions = []
        self.tmp = tempfile.mkdtemp(prefix=f'verif-{prop}-')
        self.thorough = tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- design-level model checking -------------------------------------------------
    def model(self, module, cfg, **kwargs):
        """Exhaustive TLC run of the specification itself: a failure here is a failure
        of the design or the spec, not of the code, so it is a machinery error."""
        t = time.time()
        res = tlc(module, cfg, **kwargs)
        self.states += res.distinct
        self.transitions += res.generated
        self.extra.setdefault('design_runs', []).append(
            dict(module=module, distinct=res.distinct, generated=res.generated,
                 wall_s=round(time.time() - t, 1)))
        return res

    # -- trace validation --------------------------------------------------------------
    def validate(self, module, traces, *, consts=None, clauses=None, workers=1, timeout=800,
                 extra_cfg='', shards=None, env=None, heap='3g', spec='TraceSpec'):
        """Validates traces (lists of event dicts) against spec/<module>.tla.

        Each trace is a list of events.  The module reads IOEnv.TRACE (ndjson; one event
        a line, each with its trace number in "t", first event of a trace flagged by a new
        "t") and writes the failing clauses to IOEnv.OUT as a JSON list of
        [line, clause name].
        """
        traces = [t for t in traces if t]
        if not traces:
            return []
        total = sum(map(len, traces))
        if shards is None:
            shards = max(1, min(8, total // 400))
        groups = [[] for _ in range(shards)]
        sizes = [0] * shards
        for i, tr in sorted(enumerate(traces), key=lambda x: -len(x[1])):
            j = sizes.index(min(sizes))
            groups[j].append((i, tr))
            sizes[j] += len(tr)
        cfg = [f'SPECIFICATION {spec}', 'INVARIANT Verdict', 'CHECK_DEADLOCK FALSE']
        if consts:
            cfg.append('CONSTANTS')
            cfg += [f'  {k} = {v}' for k, v in consts.items()]
        cfg = '\n'.join(cfg) + '\n' + extra_cfg + '\n'

        def run(j):
            if not groups[j]:
                return [], 0
            path = os.path.join(self.tmp, f'trace-{module}-{j}-{time.time_ns()}.ndjson')
            out = path + '.out'
            where = []
            with open(path, 'w') as f:
                for i, tr in groups[j]:
                    for k, ev in enumerate(tr):
                        f.write(json.dumps(dict(ev, t=i), separators=(',', ':')) + '\n')
                        where.append((i, k))
            res = tlc(module, cfg, env=dict(env or {}, TRACE=path, OUT=out), workers=workers,
                      timeout=timeout, heap=heap)
            if not os.path.exists(out):
                raise MachineryError(f'{module}: no verdict written\n{res.out[-3000:]}')
            with open(out) as f:
                bad = json.load(f)
            os.remove(path)
            os.remove(out)
            if res.generated < len(where):
                raise MachineryError(f'{module}: only {res.generated} states for {len(where)} events')
            return [(where[line - 1], name) for line, name in bad], res.generated

        from concurrent.futures import ThreadPoolExecutor
        fails = []
        with ThreadPoolExecutor(shards) as ex:
            for bad, gen in ex.map(run, range(shards)):
                fails += bad
                self.transitions += gen
                self.states += gen
        self.traces += len(traces)
        self.events += total
        mine = []
        for (i, k), name in sorted(fails, key=lambda x: (x[0], x[1])):
            if clauses is None or name.split('.')[0] in clauses or name in clauses:
                mine.append((i, k, name))
        seen = set()
        for i, k, name in mine:
            if name in seen or len(seen) > 4:
                continue
            seen.add(name)
            self.violation(name, dict(module=module, trace=traces[i][:k + 1], event=traces[i][k]))
        return mine

    def known_findings(self):
        """{id: (clauses, text)} of this property's recorded findings."""
        out = {}
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) id=(\S+) clauses=(\S+) (.*)', line)
                if m and m.group(1) == self.prop:
                    out[m.group(2)] = (set(m.group(3).split(',')), m.group(4))
        return out

    def findings(self, module, replays, **kwargs):
        """Replays specific histories: {id: function giving the trace}.  The clauses that a
        recorded finding lists are reported as known; anything else is a violation."""
        known = self.known_findings()
        for name, fn in replays.items():
            trace = fn()
            keep, self.violations = self.violations, []
            self.validate(module, [trace], clauses={self.prop}, shards=1, **kwargs)
            got, self.violations = self.violations, keep
            clauses, text = known.get(name, (set(), ''))
            if any(w in clauses for w, _ in got):
                self.known.append(f'{name}: {text}')
            self.violations += [(w, d) for w, d in got if w not in clauses]

    # -- results --------------------------------------------------------------------------
    def violation(self, what, detail=None):
        self.violations.append((what, detail))

    def sample(self, x):
        if len(self.samples) < 5:
            self.samples.append(x)

    def finish(self, level='model_checking'):
        shutil.rmtree(self.tmp, ignore_errors=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   events_validated=self.events,
                   samples=self.samples or ['(none)'], **self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=cov, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations), assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for line in self.known:
            print(f'KNOWN-FINDING: property={self.prop} {line}')
        if not self.violations:
            with contextlib.suppress(FileNotFoundError):
                os.remove(os.path.join(VERIF, 'evidence', 'replay', f'{self.prop}.json'))
            print(f'OK property={self.prop} tier={self.tier} states={self.states} '
                  f'traces={self.traces} events={self.events} wall={ev["wall_s"]}s')
            return 0
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', 'replay', f'{self.prop}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed,
                           violations=[dict(what=w, detail=d) for w, d in self.violations[:20]]),
                      f, indent=1, default=str)
        for w, d in self.violations[:10]:
            print(f'VIOLATION property={self.prop} replay={path} {w}')
        return 1


def h8(*xs):
    return hashlib.sha256(repr(xs).encode()).hexdigest()[:8]


_FN = None


def _call(x):
    return _FN(x)


def parallel(fn, items, procs=8, timeout=600):
    """Maps fn over items in forked processes; fn must return picklable data."""
    import multiprocessing as mp
    if procs == 1 or len(items) <= 1:
        return [fn(x) for x in items]
    global _FN
    _FN = fn          # inherited by the forked workers, so fn may be a closure
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(items))) as pool:
        res = pool.map_async(_call, items, chunksize=max(1, len(items) // (procs * 8)))
        try:
            return res.get(timeout)
        except mp.TimeoutError:
            pool.terminate()
            raise Hang(f'workers did not finish within {timeout}s')


def exc_name(e):
    return type(e).__name__
