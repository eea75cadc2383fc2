"""Executes the configurations of Repr.tla: the same numbers, stored differently."""
import importlib
import json
import os
import re
import tempfile
import numpy as np
import gen
import vlib
from scen_purity import rngstate, walk
from scen_wavelet import make_signal
from vlib import Raised, call, enc, rng


def configs():
    code, out, g, d = vlib.run_tlc('Gen_Repr')
    cs = [json.loads(m.group(1).replace('\\"', '"')) for m in (re.match(r'^"CFG (.*)"$', x) for x in out.splitlines()) if m]
    if code or not cs:
        raise vlib.MachineryError('Gen_Repr: ' + out[-2000:])
    return sorted(cs, key=lambda c: json.dumps(c, sort_keys=True)), g, d


# ---------------------------------------------------------------- representations
def strided(a):
    b = np.full(tuple(3 * n for n in a.shape), 7, a.dtype)
    v = b[tuple(slice(1, None, 3) for _ in a.shape)]
    v[...] = a
    return v


def readonly(a):
    a = a.copy()
    a.setflags(write=False)
    return a


def memmap(a):
    fd, f = tempfile.mkstemp(prefix='vrepr_')
    os.close(fd)
    try:
        m = np.memmap(f, dtype=a.dtype, mode='w+', shape=a.shape)
        m[...] = a
        m.flush()
        return np.memmap(f, dtype=a.dtype, mode='r', shape=a.shape)
    finally:
        os.unlink(f)


single = lambda a: a.astype(np.complex64 if a.dtype.kind == 'c' else np.float32)
REPS = {'': lambda a: a.copy(), 'F': np.asfortranarray, 'strided': strided, 'reversed': lambda a: a[::-1].copy()[::-1], 'readonly': readonly,
        'transposed': lambda a: np.ascontiguousarray(a.T).T, 'bigendian': lambda a: a.astype(a.dtype.newbyteorder('>')), 'memmap': memmap,
        'int64': lambda a: a.astype(np.int64), 'int32': lambda a: a.astype(np.int32), 'int16': lambda a: a.astype(np.int16),
        'longdouble': lambda a: a.astype(np.longdouble), 'single': single, 'short': single, 'list': lambda a: a.tolist(),
        'intlist': lambda a: [int(v) for v in a], 'uint16': lambda a: a.astype(np.uint16),
        'mixedlist': lambda a: [int(v) if v == int(v) else float(v) for v in a]}


def scalar(kind):
    def K(v):
        if isinstance(v, tuple):
            return tuple(map(K, v))
        if v is None or isinstance(v, str) or kind == '':
            return v
        if isinstance(v, bool):
            return np.bool_(v) if kind != 'float' else v
        if isinstance(v, int):
            return {'numpy': np.int64, 'numpy32': np.int32, 'float': int}[kind](v)
        if kind == 'float' and np.isfinite(v) and v == int(v):
            return int(v)                              # 2.0 given as 2
        return {'numpy': np.float64, 'numpy32': np.float32, 'float': float}[kind](v)
    return K


# -------------------------------------------------------------------------- calls
def ops():
    from pymultifracs.bivariate import bivariate_analysis, bivariate_analysis_full
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction
    from pymultifracs.signal import Signal
    L = gen.lib()
    F, M = importlib.import_module('pymultifracs.simul.fbm'), importlib.import_module('pymultifracs.simul.mrw')
    U, P = L.utils, L.psd
    PE = [None, np.inf, 2.]

    def W(K, p, j2=3):
        return dict(p_exp=K(PE[p - 1]), wt_name=['db1', 'db2', 'db2'][p - 1], j1=K(1), j2=K(j2), gamint=K([.5, 0., 1.][p - 1]),
                    normalization=K([1., 2., 1.][p - 1]), weighted=K(p != 2))
    w = lambda K, p: K(p != 2)
    jj = lambda K, p: (K([1, 1, 2][p - 1]), K([3, 2, 3][p - 1]))

    def mf(minimal):
        def f(K, p, x, q):
            t = L.wavelet_analysis(x, **W(K, p))
            fn = L.mfa.minimal_mf_analysis if minimal else L.mfa.mf_analysis
            return fn(t.wt_coefs, t.wt_leaders, t.j2_eff, K(1), w(K, p), K(p + 1), q)
        return f

    def bi(K, p, x, y, q1, q2):
        kw = W(K, p)
        return bivariate_analysis(L.wavelet_analysis(x, **kw), L.wavelet_analysis(y, **kw), K(1), w(K, p), K(p + 1), q1, q2)

    def session(K, p, x, q):
        s = Signal(x, K(8.))
        a = s.estimate_wavelet_psd(K(p)), s.estimate_welch_psd(K(64)), s.wavelet_analysis(K(1), K(3), K(1), K(.5), w(K, p), 'db2', K(PE[p - 1]))
        return a, s.mf_analysis(q, K(2), w(K, p)), s.hurst(), s.hmin(), s.fractal_analysis(K(2), K((.25, 3.)))

    def legendre(K, p, a, b):
        return BiCumulants(a, b, K(2), *jj(K, 1), w(K, p)).compute_legendre(K((0, 1 + p)), K(10))

    N = 64
    return {
        'wavelet': lambda K, p, x: L.wavelet_analysis(x, **W(K, p)), 'wavelet2': lambda K, p, x: L.wavelet_analysis(x, **W(K, p)),
        'mf': mf(False), 'minimal': mf(True),
        'full': lambda K, p, x, q: L.mfa.mf_analysis_full(x, K(1), K(3), p_exp=K(PE[p - 1]), gamint=K(1.), q=q, n_cumul=K(2)),
        'full2': lambda K, p, x, q: L.mfa.mf_analysis_full(x, K(1), K(3), p_exp=K(PE[p - 1]), gamint=K(1.), q=q, n_cumul=K(3), minimal=K(p == 2), weighted=w(K, p)),
        'structure': lambda K, p, m, q: L.StructureFunction(m, q, *jj(K, p), w(K, p)),
        'structure2': lambda K, p, m, q: L.StructureFunction(m, q, *jj(K, p), w(K, p)).get_intercept(),
        'cumulants': lambda K, p, m: L.Cumulants(m, K(p + 1), *jj(K, p), w(K, p)),
        'cumulants2': lambda K, p, m: L.Cumulants(m, K(p), *jj(K, p), w(K, p)),
        'spectrum': lambda K, p, m, q: L.MultifractalSpectrum(m, *jj(K, p), w(K, p), q),
        'spectrum2': lambda K, p, m, q: L.MultifractalSpectrum(m, *jj(K, p), w(K, p), q),
        'hmin': lambda K, p, m: L.estimate_hmin(m, *jj(K, p), w(K, p), K(False), K(p == 2)),
        'hurst': lambda K, p, m: L.compute_hurst(m, *jj(K, p), w(K, p)),
        'bistructure': lambda K, p, a, b, q1, q2: BiStructureFunction(a, b, *jj(K, p), q1, q2, w(K, p)),
        'bicumulants': lambda K, p, a, b: BiCumulants(a, b, K(p), *jj(K, p), w(K, p)), 'legendre': legendre,
        'bi': bi, 'bifull': lambda K, p, x, y: bivariate_analysis_full(x, y, K(1), K(3), p_exp=K(PE[p - 1]), gamint=K(1.), n_cumul=K(2)),
        'welch': lambda K, p, x: P.welch_estimation(x, K(8.), K([64, 32, 128][p - 1])),
        'wpsd': lambda K, p, x: P.wavelet_estimation(x, K(8.), K(p)),
        'beta': lambda K, p, f, s: L.fractal.estimate_beta(f, s, K((1., 20.)), ['log2', 'log', 'log2'][p - 1]),
        'fractal': lambda K, p, x: L.fractal.fractal_analysis(x, K(8.), K(p), K((.25, 3.))), 'session': session,
        'linreg': lambda K, p, x, y, c: U.linear_regression(x, y, c, K(p == 2)),
        'power': lambda K, p, a: U.fast_power(a, K([0, 3, 2][p - 1])), 'nanmax': lambda K, p, a: U.fixednanmax(a, axis=p % 2),
        'nansum': lambda K, p, a: U.fixednansum(a, axis=p % 2),
        'scales': lambda K, p, f: (L.fractal.scale2freq(f, K(8.)) if hasattr(L.fractal, 'scale2freq') else U.scale2freq(f, K(8.)), U.freq2scale(f, K(8.))),
        'fgn': lambda K, p, a: F.fgn(K((N, 2)), K([.25, .75, .5][p - 1]), K(2.), K(.5) if p > 1 else None, 'cme', a),
        'fbm': lambda K, p, a: F.fbm(K((N, 2)), K([.25, .75, .5][p - 1]), K(2.), z0=a),
        'chol': lambda K, p, a: F.fgn(K((N, 2)), K([.25, .75, .5][p - 1]), method='chol', z0=a),
        'mrw': lambda K, p, a, b: M.mrw(K((N, 2)), K(.75), K(.125), K([N, 20, 5][p - 1]), K(2.), z0=(a, b)),
        'mrwchol': lambda K, p, a, b: M.mrw(K((N, 2)), K(.75), K(.125), K([N, 20, 5][p - 1]), method='chol', z0=(a, b)),
        'mrwcumul': lambda K, p, a, b: M.mrw_cumul(K((N, 2)), K(.75), K(-.0625), K(20), z0=(a, b)),
        'skewconv': lambda K, p, e: M.skewness_convolution(e, K(.5 * p), K(.75)), 'fracint': lambda K, p, x: M.fract_int_2d(x, K(p / 2)),
        'drawn': lambda K, p: (F.fgn(K([32, (32, 2), (32, 1)][p - 1]), K(.75)), F.fbm(K((16, 2)), K(.5), method='chol'), M.mrw(K([32, (32, 2), (32, 1)][p - 1]), K(.75), K(.25), K(20)),
                               M.mrw_cumul(K(32), K(.75), K(-.125), K(16)), M.skewed_mrw(K(32), K(.75), K(.25), K(20), K(.25)), M.mrw2D(K([8, (8, 2), (9, 1)][p - 1]), K(.5), K(.25), K(6))),
        'qlog': lambda K, p: U.build_q_log(K(.125 * p), K(5), K(4)),
    }


def arguments(g, kinds, reps):
    """The numbers: exact in every representation asked for.  Signals use the whole range of short integers; they are no
    whole numbers for wider types (whole numbers have coefficients that vanish but for rounding)."""
    n = int(g.integers(140, 200))
    out, done = [], []
    for k, rep in zip(kinds, reps):
        if k in ('sig', 'sig2', 'pair'):
            x = make_signal(g, n, 2, 'walk')
            if rep in ('int16', 'uint16'):
                x = (x - x.min()) / np.ptp(x) * 65000
                x = np.round(x - 32500 if rep == 'int16' else x)
            elif rep == 'longdouble':
                x = x + g.normal(size=x.shape)
            else:
                x = np.round(x * 8)
            out.append(x if k == 'sig2' else x[:, 0])
        elif k in ('q', 'ql', 'q1', 'q2'):
            # several orders; 2 first or last or absent
            q = [[0., 1., 2., 3.], [2., -1., 1., 4.], [-2., 1., 3., 5.]][int(g.integers(3))]
            if not rep.startswith('int'):
                q[int(g.integers(1, 4))] = [.5, 2.5, -1.5][int(g.integers(3))]
            out.append(np.array(q))
        elif k in ('mrq', 'mrq2'):
            r = 2 if k == 'mrq2' else 1
            out.append([np.round(np.abs(g.normal(size=(c, r))) * 8 + 1) / 8 for c in (57, 27, 12)])
        elif k == 'arr':
            a = np.round(g.normal(size=14) * 8) / 8
            out.append(a)
        elif k == 'mat':
            a = np.round(g.normal(size=(7, 2)) * 8) / 8
            a[int(g.integers(7)), 0] = np.nan
            out.append(a)
        elif k in ('col', 'weights'):
            a = np.round(g.normal(size=(7, 2)) * 8) / 8
            out.append(abs(a) + 1 if k == 'weights' else a if 'x' in done else a + 8 * np.arange(7)[:, None])
            done.append('x')
        elif k == 'freq':
            out.append(np.arange(1, 33) / 8 if int(g.integers(2)) else np.arange(1., 33) / 4)
        elif k == 'psd':
            out.append(np.round(np.abs(g.normal(size=32)) * 64 + 1))
        elif k == 'noise':
            out.append((np.round(g.normal(size=(126, 2)) * 8) + 1j * np.round(g.normal(size=(126, 2)) * 8)) / 8)
        elif k == 'white':
            out.append(np.round(g.normal(size=(64, 2)) * 8))
        elif k == 'field':
            out.append(np.round(g.normal(size=(12, 12, 2)) * 8))
    return out


def stored(kind, rep, a):
    if kind in ('mrq', 'mrq2'):
        m = gen.lib().MRQ('wavelet leader', .5)
        for j, v in enumerate(a):
            m.add_values(REPS[rep](v), j + 1)
        return m
    return REPS[rep](a)


def same(x, y):
    if isinstance(y, list):
        return x == y
    return np.array_equal(np.asarray(x), np.asarray(y), equal_nan=np.asarray(y).dtype.kind in 'fc')


def outcome(r):
    """structure and numbers of a result; the type of a number is not part of it"""
    if isinstance(r, Raised):
        return {'raised': r.name, 's': r.msg, 'v': [], 'rng': ''}
    v = []

    def leaf(a):
        a = np.asarray(a)
        if a.dtype.kind == 'c':
            v.append(enc(a.real))
            v.append(enc(a.imag))
        elif a.dtype.kind in 'biuf':
            v.append(enc(a.astype(float)))
        else:
            return str(a.dtype)
        return '#'
    # an array, a list and a tuple of numbers are the same numbers
    s = walk(plain(r), leaf)
    return {'raised': '', 's': s, 'v': v, 'rng': rngstate()}


def plain(v, depth=0):
    if isinstance(v, (bool, np.bool_)):
        return float(v)
    if isinstance(v, dict):
        return {str(k): plain(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        if v and all(isinstance(x, (int, float, np.number)) for x in v):
            return np.array(v, float)
        return [type(v).__name__ if hasattr(v, '_fields') else ''] + [plain(x, depth + 1) for x in v]
    if depth < 8 and type(v).__module__.startswith('pymultifracs'):
        return [type(v).__name__] + [[k, plain(x, depth + 1)] for k, x in sorted(vars(v).items()) if not k.startswith('_')]
    return v


def mixed(cs, kinds, per):
    """every argument and the scalars in a representation of their own"""
    g = rng('reprmix')
    some = lambda k: [''] + sorted(r for r in {r for c in cs for kk, r in zip(kinds[c['call']], c['reps']) if kk == k and r})
    reps = {k: some(k) for ks in kinds.values() for k in ks}
    sc = sorted({c['scalar'] for c in cs})
    return [{'call': c, 'p': p, 'reps': [str(g.choice(reps[k])) for k in kinds[c]], 'scalar': str(g.choice(sc))}
            for c in sorted(kinds) for p in (1, 2, 3) for _ in range(per)]


def one(i, c, kinds):
    OPS = ops()
    g = rng('repr', i)
    args = arguments(g, kinds, c['reps'])
    if 'freq' in kinds and c['reps'][0] == 'int64':
        args[0] = np.round(args[0] * 8)
    seed = int(g.integers(2 ** 31))
    K = scalar(c['scalar'])

    def run(reps, K):
        a = [stored(k, r, x) for k, r, x in zip(kinds, reps, args)]
        np.random.seed(seed)
        r = outcome(call(OPS[c['call']], K, c['p'], *a))
        kept = []
        for k, x, y in zip(kinds, a, args):
            if k in ('mrq', 'mrq2'):
                kept.append(bool(all(same(x.values[j + 1], v) for j, v in enumerate(y))))
            else:
                kept.append(bool(same(x, y.tolist() if isinstance(x, list) else y)))
        return r, kept
    p, _ = run([''] * len(kinds), scalar(''))
    o, kept = run(c['reps'], K)
    return {'op': 'repr', 'call': c['call'], 'p': c['p'], 'reps': c['reps'], 'scalar': c['scalar'], 'plain': p, 'other': o, 'kept': kept}


def batch(items):
    return [dict(one(i, c, k), _scenario=f'repr {i} {json.dumps(c)}') for i, c, k in items]
