"""Replays histories of Purity.tla: calls on a shared heap of objects."""
import copy
import hashlib
import importlib
import json
import os
import pickle
import re
import struct
import numpy as np
import gen
from scen_wavelet import make_signal
from vlib import MachineryError, Raised, call, rng, run_tlc


def behaviours(num, depth, seed):
    code, out, g, d = run_tlc('Gen_Purity', env={'DEPTH': str(depth)},
                              extra=('-simulate', f'num={num}', '-depth', str(depth + 2), '-seed', str(seed)))
    bs = [json.loads(m.group(1).replace('\\"', '"')) for m in (re.match(r'^"BEH (.*)"$', x.strip()) for x in out.splitlines()) if m]
    if len(bs) < num:
        raise MachineryError('Gen_Purity: ' + out[-2000:])
    return bs[:num]


# ------------------------------------------------------------- values of objects
def walk(v, leaf, depth=0, seen=None):
    """structure of a value; numbers go to leaf()"""
    if v is None or isinstance(v, (str, bool, np.bool_, bytes)):
        return repr(v)
    if isinstance(v, Raised):
        return 'exc:' + v.name
    if isinstance(v, np.ndarray):
        return leaf(v)
    if isinstance(v, (int, float, complex, np.number)):
        return leaf(np.asarray(v))
    if isinstance(v, dict):
        return '{' + ','.join(walk(k, leaf, depth + 1) + ':' + walk(x, leaf, depth + 1) for k, x in v.items()) + '}'
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + '[' + ','.join(walk(x, leaf, depth + 1) for x in v) + ']'
    if depth > 8 or not type(v).__module__.startswith('pymultifracs'):
        return '<' + type(v).__name__ + '>'
    return '<' + type(v).__name__ + ' ' + ','.join(k + '=' + walk(x, leaf, depth + 1) for k, x in sorted(vars(v).items()) if not k.startswith('_')) + '>'


def digest(v):
    h = hashlib.sha1()

    def leaf(a):
        a = np.asarray(a)
        if a.dtype.kind == 'O':
            return 'obj'
        h.update(str(a.dtype).encode() + str(a.shape).encode() + a.tobytes())
        return '#'
    h.update(walk(v, leaf).encode())
    return h.hexdigest()


def canonical(v):
    """(structure, all numbers) of a value"""
    nums = []

    def leaf(a):
        a = np.asarray(a)
        if a.dtype.kind not in 'biufc':
            return str(a.dtype)
        nums.append(np.ravel(a).astype(complex))
        return str(a.shape)
    s = walk(v, leaf)
    return s, np.concatenate(nums) if nums else np.zeros(0, complex)


class Values:
    """interns values, numbers compared up to rounding"""

    def __init__(self):
        self.by = {}
        self.n = 0

    def of(self, v):
        return self.canonical(*canonical(v))

    def canonical(self, s, d):
        for k, e in self.by.setdefault(s, []):
            if len(e) == len(d) and close(d, e):
                return k
        self.n += 1
        self.by[s].append((self.n, d))
        return self.n


def close(a, b):
    with np.errstate(all='ignore'):
        na, nb = np.isnan(a), np.isnan(b)
        if (na != nb).any():
            return False
        a, b = a[~na], b[~na]
        fin = np.isfinite(a) & np.isfinite(b)
        if (a[~fin] != b[~fin]).any():
            return False
        a, b = a[fin], b[fin]
        s = max(np.abs(a).max(initial=0), np.abs(b).max(initial=0))
        return bool((np.abs(a - b) <= 1e-9 * (np.abs(a) + np.abs(b)) + 1e-12 * s).all())


def rngstate():
    s = np.random.get_state()
    return hashlib.sha1(repr(s[0]).encode() + s[1].tobytes() + repr(s[2:]).encode()).hexdigest()


AMBIENT = {'skip': ('backend', 'backend_fallback')}


def ambient():
    """settings of the process that belong to the caller"""
    import locale
    import random
    import sys
    import warnings
    import decimal
    import matplotlib
    rc = matplotlib.rcParams
    return repr((np.geterr(), np.geterrcall(), sorted(np.get_printoptions().items(), key=str), [(f[0], str(f[1]), f[2], str(f[3]), f[4]) for f in warnings.filters],
                 random.getstate(), os.getcwd(), sorted(os.environ.items()), locale.setlocale(locale.LC_ALL), str(decimal.getcontext()),
                 [(k, dict.__getitem__(rc, k)) for k in sorted(rc) if k not in AMBIENT['skip']], sys.getrecursionlimit(), tuple(sys.path)))


def observed(fn, seen):
    """fn, noting the settings before and after; equal where the call had to import something (which may set its own)"""
    def f(*a):
        import sys
        m0, s0 = len(sys.modules), ambient()
        try:
            return fn(*a)
        finally:
            seen[:] = [s0, ambient() if len(sys.modules) == m0 else s0]
    return f


# ------------------------------------------------------------- calls without a past
def _send(fd, b):
    b = struct.pack('<q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def take(n):
        out = b''
        while len(out) < n:
            c = os.read(fd, min(n - len(out), 1 << 20))
            if not c:
                raise EOFError
            out += c
        return out
    return take(struct.unpack('<q', take(8))[0])


class Zygote:
    """A process that has imported the library and never called it; every request is answered by a fork of it."""

    def __init__(self):
        if STATE['called']:
            raise MachineryError('zygote made too late')
        OPS = ops()
        rq, wq = os.pipe()
        rr, wr = os.pipe()
        if os.fork() == 0:
            try:
                os.close(wq)
                os.close(rr)
                while True:
                    b = _recv(rq)
                    pid = os.fork()
                    if pid == 0:
                        os._exit(self.answer(OPS, b, wr))
                    _, st = os.waitpid(pid, 0)
                    if st:
                        _send(wr, b'')
            finally:
                os._exit(0)
        os.close(rq)
        os.close(wr)
        self.w, self.r = wq, rr

    @staticmethod
    def answer(OPS, b, wr):
        try:
            op, p, args, state = pickle.loads(b)
            np.random.set_state(state)
            r = call(OPS[op], p, *args)
            out = pickle.dumps((canonical(r), rngstate()))
        except BaseException:
            return 1
        _send(wr, out)
        return 0

    def ask(self, op, p, args, state):
        """(structure, numbers), random state after the call; None if the arguments can not be sent"""
        try:
            b = pickle.dumps((op, p, args, state))
        except Exception:
            return None
        _send(self.w, b)
        a = _recv(self.r)
        return pickle.loads(a) if a else None


STATE = {'called': False, 'zygote': None}


# -------------------------------------------------------------------- operations
def ops():
    import matplotlib
    matplotlib.use('Agg')
    from pymultifracs.bivariate import bivariate_analysis, bivariate_analysis_full
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction
    from pymultifracs.signal import Signal
    L = gen.lib()
    F, M = importlib.import_module('pymultifracs.simul.fbm'), importlib.import_module('pymultifracs.simul.mrw')
    U = L.utils
    P = [None, np.inf, 2.]
    W = lambda p: dict(p_exp=P[p - 1], wt_name=['db1', 'db2', 'db2'][p - 1], j1=1, j2=[4, None, 3][p - 1],
                       gamint=[.5, 0., 1.][p - 1], normalization=[1, 2, 1][p - 1], weighted=p != 2)
    w = lambda p: p != 2
    jj = lambda p: [(1, 3), (1, 2), (2, 3)][p - 1]
    A = lambda v: np.atleast_1d(np.asarray(v))

    def session(p, x, q):
        s = Signal(x, 10.)
        a = s.estimate_wavelet_psd(p), s.estimate_welch_psd(64), s.wavelet_analysis(1, 3, 1, 0., w(p), 'db2', P[p - 1])
        return a, s.mf_analysis(q, 2, p != 2), s.hurst(), s.hmin(), s.fractal_analysis(2, (.1, 4.)), s.data

    def linreg(p, x, y):
        # one well conditioned column: values in [-1, 1] (some missing) with weights in [1, 2]
        x, y = (np.real(A(v)).astype(float).ravel(order='C') for v in (x, y))
        n = min(len(x), len(y), 60)
        x, y = x[:n], np.abs(y[:n])
        with np.errstate(all='ignore'):
            x, y = x / np.nanmax(np.abs(x[np.isfinite(x)]), initial=1.), y / np.nanmax(y[np.isfinite(y)], initial=1.)
        x[np.isinf(x)], y[~np.isfinite(y)] = 1., 0.
        x = 1. + x                                       # no column that is nothing but rounding errors
        return U.linear_regression(np.arange(1., n + 1)[:, None], x[:, None], y[:, None] + 1., p == 2)

    def psd(x):
        return x if isinstance(x, tuple) else (np.arange(1., 5), np.arange(1., 5))

    def fr(p, a):
        return U.fixednansum(a.reshape(-1, 1) if a.ndim == 1 else a, axis=0)

    def plotsig(p, x):
        s = Signal(x, 10., ['log2', 'log', 'log2'][p - 1])
        return s.plot_psd(64, None, p)

    def plotfr(p, x):
        if p == 1:
            return L.fractal.plot_fractal(x, 10., 'log2', (.1, 4.), 2, 64)
        return Signal(x, 10.).plot_fractal(2, (.1, 4.), 64)
    NS = 64
    return {
        'wavelet': lambda p, x: L.wavelet_analysis(x, **W(p)), 'wavelet2': lambda p, x: L.wavelet_analysis(x, **W(p)),
        'coefs': lambda p, t: t.wt_coefs, 'leaders': lambda p, t: t.wt_leaders or t.wt_coefs,
        'coefs2': lambda p, t: t.wt_coefs, 'leaders2': lambda p, t: t.wt_leaders or t.wt_coefs,
        'structure': lambda p, m, q: L.StructureFunction(m, q, *jj(p), w(p)),
        'structure2': lambda p, m, q: L.StructureFunction.from_dict(dict(mrq=m, q=q, j1=1, j2=2, weighted=w(p), n_cumul=3)),
        'cumulants': lambda p, m: L.Cumulants(m, p + 1, *jj(p), w(p)), 'cumulants2': lambda p, m: L.Cumulants(m, p + 1, 1, 2, w(p)),
        'spectrum': lambda p, m, q: L.MultifractalSpectrum(m, *jj(p), w(p), q),
        'spectrum2': lambda p, m, q: L.MultifractalSpectrum(m, 1, 2, w(p), q),
        'hmin': lambda p, m: L.estimate_hmin(m, *jj(p), w(p), warn=False, return_y=p == 3),
        'hmin2': lambda p, m: L.estimate_hmin(m, 1, 2, w(p), p == 1), 'hurst': lambda p, m: L.compute_hurst(m, *jj(p), w(p)),
        'njinterv': lambda p, m: (m.get_nj_interv(*jj(p)), m.get_nj(), m.nrep),
        'mf': lambda p, t, q: L.mfa.mf_analysis(t.wt_coefs, t.wt_leaders, t.j2_eff, 1, w(p), p, q),
        'minimal': lambda p, t, q: L.mfa.minimal_mf_analysis(t.wt_coefs, t.wt_leaders, t.j2_eff, 1, w(p), p, q),
        'mf_l': lambda p, t, q: L.mfa.mf_analysis(t.wt_coefs, t.wt_leaders, t.j2_eff, 1, w(p), p, q),
        'minimal_l': lambda p, t, q: L.mfa.minimal_mf_analysis(t.wt_coefs, t.wt_leaders, t.j2_eff, 1, w(p), p, q),
        'full_l': lambda p, x, q: L.mfa.mf_analysis_full(x, 1, 3, p_exp=P[p - 1], q=q, n_cumul=2, minimal=p == 2),
        'bi_l': lambda p, a, b, q1, q2: bivariate_analysis(a, b, 1, w(p), p, q1, q2),
        'session_l': session,
        'full': lambda p, x, q: L.mfa.mf_analysis_full(x, 1, 3, p_exp=P[p - 1], q=q, n_cumul=2, minimal=p == 3),
        'full2': lambda p, x, q: L.mfa.mf_analysis_full(x, 1, 3, p_exp=P[p - 1], q=q if p > 1 else None, weighted=w(p)),
        'bicumulants': lambda p, a, b: BiCumulants(a, b, p, *jj(p), w(p)),
        'bistructure': lambda p, a, b, q1, q2: BiStructureFunction(a, b, *jj(p), q1, q2, w(p)),
        'bi': lambda p, a, b: bivariate_analysis(a, b, 1, w(p), p, None if p == 1 else [0, 1, 2], None),
        'bifull': lambda p, x, y: bivariate_analysis_full(x, y, 1, 3, p_exp=P[p - 1], n_cumul=2),
        'legendre': lambda p, b: b.compute_legendre((0, 1 + p), 12),
        'attributes': lambda p, c: (c.c1, c.c2, c.C1, c.C2, c.M, c.m, c.j, c.get_nj()),
        'biattr': lambda p, b: (b.c10, b.c01, b.c11, b.C11, b.rho_mf, b.RHO_MF, b.get_nj_interv(1, 2)),
        'intercept': lambda p, s: (s.get_intercept(), s.H, s.nj), 'welch': lambda p, x: L.psd.welch_estimation(x, 10., [64, 33, 128][p - 1]),
        'wpsd': lambda p, x: L.psd.wavelet_estimation(x, 10., p), 'beta': lambda p, s: L.fractal.estimate_beta(*s, (.05, 4.), ['log2', 'log', 'log2'][p - 1]),
        'fractal': lambda p, x: L.fractal.fractal_analysis(x, 10., p, (.1, 4.)), 'session': session, 'linreg': linreg,
        'power': lambda p, a: U.fast_power(a, [0, 3, 2][p - 1]), 'nansum': fr,
        'nanmax': lambda p, a: U.fixednanmax(a.reshape(-1, 1), axis=p % 2), 'qlog': lambda p: U.build_q_log(.1 * p, 5, 4),
        'plot_sf': lambda p, s: s.plot(ignore_q0=p != 2, nrow=p + 1), 'plot_scal': lambda p, s: s.plot_scaling(), 'plot_cum': lambda p, c: c.plot(),
        'plot_spec': lambda p, s: s.plot(), 'plot_hmin': lambda p, m: L.estimation.plot_hmin(m, *jj(p), w(p), False),
        'plot_bicum': lambda p, b: b.plot() and None, 'plot_bisf': lambda p, b: b.plot() and None, 'plot_psd': plotsig, 'plot_fractal': plotfr,
        'logplot': lambda p, a, b: L.psd.log_plot([psd(a)[0], psd(b)[0]], [psd(a)[1], psd(b)[1]], ['a', 'b'], log='log', lowpass_freq=[np.inf, 4, 2][p - 1]),
        'fgn_z': lambda p, z: F.fgn((NS, 2), [.3, .7, .5][p - 1], z0=z), 'fbm_z': lambda p, z: F.fbm((NS, 2), .4, p, z0=z)[:, 0],
        'chol_z': lambda p, z: F.fgn((NS, 2), [.3, .7, .5][p - 1], method='chol', z0=z),
        'mrw_z': lambda p, a, b: M.mrw((NS, 2), .7, .2, [NS, 20, 5][p - 1], z0=(a, b))[:, 0],
        'mrwchol_z': lambda p, a, b: M.mrw((NS, 2), .7, .2, [NS, 20, 5][p - 1], method='chol', z0=(a, b))[:, 1],
        'mrwcumul_z': lambda p, a, b: M.mrw_cumul((NS, 2), .7, -.03 * p, 20, z0=(a, b))[:, 0],
        'skewconv': lambda p, e: M.skewness_convolution(e, .5 * p, .7), 'skewdumb': lambda p, e: M.skewness_convolution_dumb(e[:12], .5 * p, .7),
        'fracint': lambda p, x: M.fract_int_2d(x, p / 2),
        'fgn': lambda p: F.fgn([150, 160, 140][p - 1], .8), 'fbm': lambda p: F.fbm(150, [.3, .7, .5][p - 1]),
        'fgnchol': lambda p: F.fgn(140, [.3, .7, .5][p - 1], 2., 1., 'chol'), 'fbm2': lambda p: F.fbm((150, p), .6),
        'mrw': lambda p: M.mrw([150, 151, 150][p - 1], .7, .2, 150 if p == 1 else 40, 1, ['cme', 'cme', 'chol'][p - 1]),
        'mrwcumul': lambda p: M.mrw_cumul(150, .75, -.02 * p, 100), 'mrw2': lambda p: M.mrw((150, 2), .7, .1 * p, 90),
        'mrw_half': lambda p, z: M.mrw((NS, 2), .7, .2, 30, z0=(z, None) if p == 1 else (None, z))[:, 0],
        'skewed': lambda p: M.skewed_mrw(150, .7, .2, 100, .1, do_mirror=p == 3)[0 if p == 3 else slice(None)],
        'mrw2D': lambda p: M.mrw2D(([12, (13, 2), 10][p - 1]), .6, .2, 8)[p % 2],
    }


def initial(g):
    def sig(n, R):
        x = np.cumsum(make_signal(g, n, R, 'walk'), axis=0)
        if g.random() < .4:
            k = int(g.integers(0, n))
            x[k:k + 3] = np.nan
        return x
    n = int(g.integers(140, 170))
    z = lambda: g.normal(size=(126, 2)) + 1j * g.normal(size=(126, 2))
    a = g.normal(size=(9,))
    a[int(g.integers(9))] = np.nan if g.random() < .5 else 0.
    L = gen.lib()
    x, y = sig(n, 1), sig(n, 1)
    y[np.isnan(x)] = np.nan
    x[np.isnan(y)] = np.nan
    k = int(g.integers(3))
    T = lambda v: L.wavelet_analysis(v, [np.inf, 2., None][k], 'db2', 1, None)
    t, u, v = T(x), T(y), T(sig(n, 2))
    m = lambda a: a.wt_leaders if a.wt_leaders is not None and k == 0 else a.wt_coefs
    return [x[:, 0].copy(), y[:, 0].copy(), sig(n, 2), np.array([0., 1., 2.]), np.array([2., -1., .5, 3.]), a, g.normal(size=9), z(), z(),
            g.normal(size=(64, 2)), g.normal(size=(64, 2)), g.normal(size=(12, 12, 2)),
            t, u, m(t), m(u), m(v), [2, 1, 3], [0., 2., -1., .5]]


def history(i, beh):
    import matplotlib.pyplot as plt
    OPS = ops()
    if STATE['zygote'] is None:
        STATE['zygote'] = Zygote()
    STATE['called'] = True
    zyg = STATE['zygote']
    g = rng('purity', i)
    heap = initial(g)
    V = Values()
    ids = {}
    intern = lambda s: ids.setdefault(s, len(ids) + 1)
    keep = list(heap)
    cls0 = [V.of(v) for v in heap]
    exact0 = [intern(digest(v)) for v in heap]
    events, saved = [], {}
    np.random.seed(int(g.integers(2 ** 31)))
    for k, s in enumerate(beh):
        if s['seed'] and s['rep']:
            np.random.set_state(saved[s['rep']])
        saved[k + 1] = np.random.get_state()
        args = [heap[a - 1] for a in s['args']]
        skip = any(isinstance(a, Raised) for a in args)
        if s['copy'] and not skip:
            args = [copy.deepcopy(a) for a in args]
            args = [np.asfortranarray(a) if isinstance(a, np.ndarray) and g.random() < .3 else a for a in args]
        r0 = intern(rngstate())
        f = None
        if not skip and not s['op'].startswith(('plot_', 'logplot')):
            f = zyg.ask(s['op'], s['p'], args, np.random.get_state())
        if skip:
            # an argument does not exist (the call that should have made it raised): nothing is called
            r, r1, seen = Raised(Exception()), r0, ['', '']
        else:
            seen = []
            r = call(observed(OPS[s['op']], seen), s['p'], *args)
            r1 = intern(rngstate())
        plt.close('all')
        exact1 = [intern(digest(v)) for v in heap]
        heap.append(r)
        e = {'op': s['op'], 'p': s['p'], 'args': s['args'], 'rng0': r0, 'rng1': r1, 'amb0': intern(seen[0]), 'amb1': intern(seen[1]), 'raised': isinstance(r, Raised), 'res': V.of(r),
             'exact1': exact1 + [intern(digest(r))]}
        e['fresh'], e['freshrng1'] = (V.canonical(*f[0]), intern(f[1])) if f else (0, 0)
        if isinstance(r, Raised):
            e['_msg'] = r.msg
        events.append(e)
    return {'op': 'history', 'cls0': cls0, 'exact0': exact0, 'events': events, '_raised': sum(e['raised'] for e in events)}


def histories(chunk):
    return [dict(history(i, b), _scenario=f'history {i}: ' + ' '.join(f"{s['op']}/{s['p']}{s['args']}" for s in b)) for i, b in chunk]
