"""Conformance harness: records what /repo's code does, lets TLC judge it against the
specification in /verif/spec, and reports.

The Python side only *drives* the library and *encodes* what it observed; every verdict is a set
of clause names printed by a TLC trace specification (spec/Trace_*.tla) or the outcome of a TLC
model-checking run (spec/MC_*.tla)."""
import json
import os
import re
import shutil
import signal as _signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = max(1, min(8, os.cpu_count() or 1))

for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import numpy as np  # noqa: E402


# ------------------------------------------------------------------ encoding
def num(x):
    x = float(x)
    if x != x:
        return 'NaN'
    if x == float('inf'):
        return 'Infinity'
    if x == float('-inf'):
        return '-Infinity'
    return repr(x)


NONE = {'k': 'none', 'sh': [], 'd': [], 'e': ''}


def other(name):
    return {'k': 'other', 'sh': [], 'd': [], 'e': str(name)}


def exc(e):
    return {'k': 'exc', 'sh': [], 'd': [], 'e': e if isinstance(e, str) else type(e).__name__}


def enc(v):
    """A Python value as a Tensor record (see spec/Tensor.tla)."""
    if v is None:
        return dict(NONE)
    if isinstance(v, dict) and set(v) == {'k', 'sh', 'd', 'e'}:
        return v
    try:
        a = np.asarray(v)
        if a.dtype.kind not in 'buif':
            return other(type(v).__name__ + ':' + str(a.dtype))
        return {'k': 't', 'sh': list(a.shape), 'd': [num(x) for x in a.ravel(order='C')], 'e': ''}
    except Exception as e:                                        # ragged lists...
        return other(type(v).__name__)


def get(obj, name):
    """Attribute of an object as a Tensor record; a failing access is an observation too."""
    if isinstance(obj, Raised):
        return exc(obj.name)
    try:
        v = getattr(obj, name)
    except Exception as e:
        return exc(e)
    return enc(v)


class Raised:
    """Stands for the result of a call that raised."""

    def __init__(self, e):
        self.name = type(e).__name__
        self.msg = str(e)[:300]

    def __repr__(self):
        return f'Raised({self.name}: {self.msg})'


class CallTimeout(Exception):
    pass


def _alarm(*_):
    raise CallTimeout()


class Call:
    """Outcome of one call: value (or Raised), warning categories."""

    def __init__(self, fn, *a, _timeout=60, **k):
        self.warnings, self.wmsg = [], []
        old = _signal.signal(_signal.SIGALRM, _alarm)
        _signal.alarm(_timeout)
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                try:
                    self.value = fn(*a, **k)
                except Exception as e:
                    self.value = Raised(e)
            self.warnings = [x.category.__name__ for x in w]
            self.wmsg = [str(x.message)[:200] for x in w]
        finally:
            _signal.alarm(0)
            _signal.signal(_signal.SIGALRM, old)

    @property
    def ok(self):
        return not isinstance(self.value, Raised)


def call(fn, *a, **k):
    return Call(fn, *a, **k).value


def enc_mrq(m):
    """A MultiResolutionQuantity: k, keys, v, nj, formalism, gamint, nrep."""
    base = {'k': 'mrq', 'e': '', 'keys': [], 'v': [], 'nj': [], 'formalism': '', 'gamint': dict(NONE),
            'nrep': dict(NONE)}
    if m is None:
        base['k'] = 'none'
        return base
    if isinstance(m, Raised):
        base.update(k='exc', e=m.name)
        return base
    try:
        keys = [int(k) for k in m.values]
        base['keys'] = keys
        base['v'] = [enc(m.values[k]) for k in keys]
        base['nj'] = [enc(m.nj[k]) if k in m.nj else dict(NONE) for k in keys]
        base['formalism'] = str(m.formalism)
        base['gamint'] = get(m, 'gamint')
        base['nrep'] = get(m, 'nrep')
    except Exception as e:
        base.update(k='exc', e=type(e).__name__)
    return base


def rng(*key):
    """Independent generator per scenario, determined by VERIF_SEED and the scenario's key."""
    import zlib
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    return np.random.default_rng([seed, zlib.crc32(repr(key).encode())])


# ---------------------------------------------------------------------- TLC
class MachineryError(Exception):
    pass


def ensure_build():
    cls = os.path.join(BUILD, 'Num.class')
    src = os.path.join(SPEC, 'Num.java')
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(['javac', '-cp', JARS, '-d', BUILD, src], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError('javac: ' + r.stdout + r.stderr)


_tlcver = re.compile(r'([0-9,]+) states generated, ([0-9,]+) distinct states found')


def run_tlc(module, cfg=None, env=None, workers=1, timeout=800, extra=(), heap='3g', cwd=None):
    """Runs TLC; returns (exit code, stdout, generated, distinct)."""
    ensure_build()
    meta = tempfile.mkdtemp(prefix='tlc_')
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    # the CDS/JIT settings only shorten start-up
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m',
           '-XX:TieredStopAtLevel=4', f'-DTLA-Library={SPEC}', f'-Djava.io.tmpdir={meta}', '-cp', f'{BUILD}:{JARS}', 'tlc2.TLC',
           '-config', cfg or module + '.cfg', '-workers', str(workers), '-metadir', meta, '-deadlock',
           '-noGenerateSpecTE', *extra, module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=cwd or SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out, code = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or '')
        code = -9
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    g = d = 0
    for m in _tlcver.finditer(out):
        g, d = int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))
    return code, out, g, d


_rec = re.compile(r'^"REC (\d+) (.*)"$')


def judge(module, records, env=None, timeout=800):
    """Validates records with the trace specification `module`.  Returns
    (verdicts, generated, distinct): verdicts[i] is the list of violated clauses of record i."""
    verdicts = [None] * len(records)
    gen = dis = 0
    start = 0
    tmp = tempfile.mkdtemp(prefix='trace_')
    try:
        while start < len(records):
            path = os.path.join(tmp, 'trace.ndjson')
            with open(path, 'w') as f:
                for r in records[start:]:
                    f.write(json.dumps({k: v for k, v in r.items() if not k.startswith('_')}) + '\n')
            code, out, g, d = run_tlc(module, env=dict(env or {}, TRACE=path), timeout=timeout)
            gen += g
            dis += d
            n = 0
            for line in out.splitlines():
                m = _rec.match(line.strip())
                if m:
                    i = int(m.group(1)) - 1
                    verdicts[start + i] = json.loads(m.group(2).replace('\\"', '"'))
                    n = max(n, i + 1)
            if code == 0 and n == len(records) - start:
                break
            parse_error = 'Parsing or semantic analysis failed' in out or 'Could not parse' in out
            evaluated = 'rror' in out and not parse_error and code not in (-9, 137) \
                and 'OutOfMemory' not in out and ('State 1: <Init' in out or n > 0)
            if not evaluated or start + n >= len(records):
                raise MachineryError(f'TLC on {module} ended with code {code}:\n' + out[-4000:])
            # the specification could not be evaluated on record start+n: the observed value is
            # outside of the domain the specification describes
            msg = out[out.find('rror') - 1:][:1500]
            verdicts[start + n] = ['Unevaluable']
            records[start + n]['_tlc'] = msg
            start = start + n + 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return verdicts, gen, dis


# ------------------------------------------------------------------- context
def _run_scenario(job):
    fn, args = job
    warnings.simplefilter('ignore')
    t = time.time()
    r = fn(*args)
    recs = r if isinstance(r, list) else [r]
    for x in recs:
        x.setdefault('_scenario', f'{fn.__name__}{args!r}')
    return recs, time.time() - t


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.notes = {}
        self.clauses = {}
        self.models = []
        self.assumptions = []
        self._mc, self._mcruns, self._pool = None, [], None

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- design level ---------------------------------------------------
    def models_check(self, runs):
        """runs: list of (module, cfg or None, workers).  Every one must finish without error: an
        error here is an error of the specification, not of the code.  They run in the background
        and are collected at the end; the thorough tier uses MODULE_big.cfg where it exists."""
        self.pool()
        if self._mc is None:
            self._mc = ThreadPoolExecutor(max_workers=2)
        for module, cfg, workers in runs:
            big = module + '_big.cfg'
            if self.thorough and cfg is None and os.path.exists(os.path.join(SPEC, big)):
                cfg = big
            self._mcruns.append((module, cfg, self._mc.submit(
                lambda m=module, c=cfg, w=workers: (time.time(), run_tlc(m, c, workers=w, extra=('-coverage', '1'),
                                                                         timeout=3000), time.time()))))

    def collect_models(self):
        for module, cfg, fut in self._mcruns:
            t0, (code, out, g, d), t1 = fut.result()
            if code != 0:
                raise MachineryError(f'model {module}/{cfg} fails with code {code}:\n' + out[-5000:])
            never = sorted(set(re.findall(r'^<(\w+) line[^>]*>: 0:0\s*$', out, re.M)))
            self.states += d
            self.transitions += g
            self.models.append({'model': cfg or module, 'distinct_states': d, 'generated': g,
                                'actions_never_taken': never, 'wall_s': round(t1 - t0, 1)})
        self._mcruns = []

    # -- conformance ----------------------------------------------------
    def pool(self):
        """The processes that drive the library.  They are forked before this process has any thread: a fork that
        copies a lock another thread is holding never gets it."""
        if self._pool is None:
            if self._mc is not None:
                self.collect_models()
                self._mc.shutdown()
                self._mc = None
            self._pool = ProcessPoolExecutor(max_workers=NCPU)
            list(self._pool.map(int, range(NCPU)))
        return self._pool

    def record(self, jobs):
        """jobs: list of (function, args); each returns a record or a list of records."""
        out = [None] * len(jobs)
        ok = True
        try:
            ex = self.pool()
            futs = {ex.submit(_run_scenario, j): i for i, j in enumerate(jobs)}
            for f in as_completed(futs):
                i = futs[f]
                try:
                    out[i] = f.result()[0]
                except Exception as e:
                    if type(e).__name__ == 'BrokenProcessPool':
                        raise
                    if isinstance(e, MachineryError) or isinstance(e, MemoryError):
                        raise
                    # calls into the library are caught where they are made (vlib.call): what fails here is
                    # the use of a returned value, whose type or shape is not what the property promises
                    out[i] = []
                    self.violation(self.prop + '.unusable-result', {
                        '_scenario': f'{jobs[i][0].__name__}{jobs[i][1]!r}',
                        'trace': ''.join(traceback.format_exception(e))})
        except MachineryError:
            raise
        except Exception as e:
            if type(e).__name__ == 'BrokenProcessPool':
                self._pool.shutdown(wait=False)
                self._pool = None
                self.violation('process-crash', {'what': 'the interpreter died while driving the library',
                                                 'jobs': [repr(j) for j in jobs]})
                return [r for o in out if o for r in o]
            raise
        return [r for o in out for r in o]

    def judge(self, module, records, prefix=None, timeout=800, weight=None):
        """Validate records with TLC in parallel shards; clauses not starting with `prefix`
        (a string or tuple of strings) belong to another property and are ignored."""
        if not records:
            return
        weight = weight or (lambda r: len(json.dumps(r)) if len(records) < 4000 else 1)
        k = min(NCPU, len(records))
        shards = [[] for _ in range(k)]
        load = [0] * k
        for w, i in sorted(((weight(r), i) for i, r in enumerate(records)), reverse=True):
            s = load.index(min(load))
            shards[s].append(i)
            load[s] += w + 1
        shards = [sorted(s) for s in shards if s]
        verd = [None] * len(records)
        with ThreadPoolExecutor(max_workers=k) as ex:
            res = list(ex.map(lambda s: judge(module, [records[i] for i in s], timeout=timeout), shards))
        for s, (v, g, d) in zip(shards, res):
            self.transitions += g
            self.states += d
            for i, x in zip(s, v):
                verd[i] = x
        for r, v in zip(records, verd):
            self.traces += 1
            mine = [c for c in v if prefix is None or c == 'Unevaluable' or c.startswith(prefix)]
            for c in mine:
                self.violation(c, r, module)
        if len(self.samples) < 6:
            r = records[len(records) // 2]
            self.samples.append({'module': module, 'scenario': r.get('_scenario'),
                                 'record': json.dumps({k: v for k, v in r.items()})[:600]})
        self.notes.setdefault('records_per_trace_spec', {})
        d = self.notes['records_per_trace_spec']
        d[module] = d.get(module, 0) + len(records)
        return verd

    def violation(self, clause, record, module=None):
        sig = f'{clause}@{record.get("_known", "")}' if isinstance(record, dict) and record.get('_known') else None
        if sig and sig in known_findings(self.prop):
            self.known.append((sig, known_findings(self.prop)[sig]))
            return
        self.violations.append((clause, record, module))

    # -- end ---------------------------------------------------------------
    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples,
               'models': self.models, **self.notes}
        ev = {'property': self.prop, 'tier': 'thorough' if self.thorough else 'quick', 'seed': self.seed,
              'level': 'model_checking', 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        seen = {}
        for sig, text in self.known:
            if sig not in seen:
                seen[sig] = 1
                print(f'KNOWN-FINDING: property={self.prop} {text}')
        if not self.violations:
            print(f'OK property={self.prop} traces={self.traces} states={self.states} '
                  f'wall={ev["wall_s"]}s')
            return 0
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        byclause = {}
        for c, r, m in self.violations:
            byclause.setdefault(c, []).append((r, m))
        for n, (c, rs) in enumerate(sorted(byclause.items())):
            path = os.path.join(VERIF, 'replays', f'{self.prop}_{re.sub("[^A-Za-z0-9_.]", "_", c)}.json')
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'clause': c, 'trace_spec': rs[0][1], 'count': len(rs),
                           'seed': self.seed, 'records': [r for r, _ in rs[:3]]}, f, indent=1, default=str)
            if n < 12:
                print(f'VIOLATION property={self.prop} replay={path}')
                print(f'  clause {c}: {len(rs)} record(s), e.g. {rs[0][0].get("_scenario")}')
        return 1


_known_cache = {}


def known_findings(prop):
    """signature -> text for the 'finding:' lines of known_findings.txt ('fixed:' lines suppress nothing)."""
    if not _known_cache:
        _known_cache[None] = {}
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'finding: property=(\S+) sig=(\S+) (.*)', line.strip())
                if m:
                    _known_cache.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return _known_cache.get(prop, {})


def main(prop, run):
    ctx = Ctx(prop)
    try:
        run(ctx)
        ctx.collect_models()
        return ctx.finish()
    except MachineryError as e:
        print('MACHINERY ERROR', e, file=sys.stderr)
        if ctx.violations:      # what was already established stands
            return ctx.finish()
        return 2
    finally:
        if ctx._pool is not None:
            ctx._pool.shutdown(wait=True, cancel_futures=True)
