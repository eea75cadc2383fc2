"""Scenario building blocks shared by the checks: inputs and recorders of real calls."""
import numpy as np
from vlib import Call, Raised, call, enc, enc_mrq, get, num, rng, NONE, exc  # noqa: F401


def lib():
    import pymultifracs  # noqa: F401
    from pymultifracs import (cumulants, estimation, mfa, mfspectrum, multiresquantity, psd,
                              structurefunction, utils, wavelet, fractal_analysis)
    import types
    return types.SimpleNamespace(
        MRQ=multiresquantity.MultiResolutionQuantity, StructureFunction=structurefunction.StructureFunction,
        Cumulants=cumulants.Cumulants, MultifractalSpectrum=mfspectrum.MultifractalSpectrum,
        estimate_hmin=estimation.estimate_hmin, compute_hurst=estimation.compute_hurst,
        linear_regression=utils.linear_regression, utils=utils, mfa=mfa, wavelet=wavelet, psd=psd,
        wavelet_analysis=wavelet.wavelet_analysis, fractal=fractal_analysis, estimation=estimation)


# ------------------------------------------------------------------- inputs
Q_POOL = [-5.0, -3.0, -2.5, -2.0, -1.0, -0.5, -0.3, 0.0, 0.1, 0.5, 0.7, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 6.0, 7.0,
          8.0, 9.0, 10.0, 11.0, 12.0]


def pick_q(g, n=None, pool=Q_POOL, force=()):
    n = n or int(g.integers(1, 8))
    q = list(g.choice(pool, size=min(n, len(pool)), replace=False)) + [f for f in force]
    if len(pool) > 12 and g.random() < .35:          # beyond the usual values
        q += list(g.uniform(-14, 18, 2) if min(pool) < 0 else g.uniform(.001, 18, 2))
        q += [[2.00001, .9998, .5002, 3e-4][int(abs(q[-1]) * 1000) % 4]]      # next to a special one
    q = list(dict.fromkeys(float(x) for x in q))
    g.shuffle(q)
    return np.array(q)


FORMALISMS = ['wavelet coef', 'wavelet leader', 'wavelet p-leader']


def nan_pattern(g, n, R, kind):
    m = np.zeros((n, R), bool)
    for r in range(R):
        if kind == 'border':
            a, b = int(g.integers(0, max(1, n // 4))), int(g.integers(0, max(1, n // 4)))
            m[:a, r] = True
            if b:
                m[n - b:, r] = True
        elif kind == 'random':
            m[:, r] = g.random(n) < g.choice([0.05, 0.3, 0.7])
        elif kind == 'gap':
            a = int(g.integers(0, n))
            m[a:a + int(g.integers(1, max(2, n // 2))), r] = True
        # keep at least two valid entries
        keep = g.choice(n, size=min(n, 2), replace=False)
        m[keep, r] = False
    return m


def synth_values(g, J, R, zeros=False, nan='mixed', nmax=60, positive=False):
    vals = []
    n = int(g.integers(max(4, nmax // 3), nmax + 1))
    for j in range(J):
        nj = max(3, n) if g.random() < .8 else int(g.integers(3, nmax + 1))
        n = n // 2 if g.random() < .9 else n
        x = np.exp(g.normal(0, g.choice([0.3, 1.0, 1.5]), (nj, R))) * 2. ** (j * g.uniform(-.5, 1.0, R))
        special = g.random()
        if special < .1:                # exact powers of two, including 1
            x = 2. ** np.round(np.log2(x))
        elif special < .2:              # small integers, many ties
            x = np.clip(np.round(x * 3), 1, None)
        elif special < .3:              # a few coefficients of magnitude exactly 1
            x[g.random((nj, R)) < .2] = 1.
        if not positive:
            x *= g.choice([-1., 1.], (nj, R))
        if zeros:
            z = g.random((nj, R)) < .15
            z[0] = False
            x[z] = 0.
        kind = g.choice(['none', 'border', 'random', 'gap']) if nan == 'mixed' else nan
        mask = nan_pattern(g, nj, R, kind)
        if zeros:
            mask[0] = False
        x[mask] = np.nan
        vals.append(x)
    if g.random() < .25:            # very small or very large amplitudes
        amp = 10. ** g.uniform(-14, 12)
        vals = [v * amp for v in vals]
    return vals


def make_mrq(vals, formalism='wavelet coef', gamint=0.0):
    m = lib().MRQ(formalism, gamint)
    for j, v in enumerate(vals):
        m.add_values(v.copy(), j + 1)
    return m


def spec_mrq(vals, formalism, gamint):
    """The quantity as the specification sees it: built from the raw values, not from the object."""
    return {'keys': list(range(1, len(vals) + 1)), 'v': [enc(v) for v in vals], 'formalism': formalism,
            'gamint': enc(float(gamint))}


def scale_range(g, J):
    if J <= 2:
        return 1, J
    j1 = int(g.integers(1, J)) if g.random() < .7 else 1
    j2 = int(g.integers(j1 + 1, J + 1)) if g.random() < .7 else J
    return j1, j2


# ---------------------------------------------------------------- recorders
def base(op, prop, res):
    return {'op': op, 'prop': prop, 'raised': res.name if isinstance(res, Raised) else '',
            '_msg': getattr(res, 'msg', '')}


def header(o):
    if isinstance(o, Raised):
        return {}
    try:
        nj = [enc(o.nj[k]) for k in o.nj]
    except Exception as e:
        nj = [exc(e)]
    return {'j': get(o, 'j'), 'nrep': get(o, 'nrep'), 'formalism': str(getattr(o, 'formalism', '?')), 'nj': nj}


def out_structure(o):
    return dict(header(o), **{k: get(o, k) for k in ('values', 'logvalues', 'zeta', 'intercept', 'H', 'gamint')},
                getint=enc(call(lambda: o.get_intercept())))


def rec_structure(mrq, spec, q, j1, j2, weighted, R):
    o = call(lib().StructureFunction, mrq, q, j1, j2, weighted)
    return dict(base('structure', 'C08', o), mrq=spec, q=enc(np.asarray(q, float)), j1=j1, j2=j2,
                weighted=bool(weighted), R=R, out=out_structure(o))


def out_cumulants(o, n_cumul):
    return dict(header(o), c=[get(o, f'c{m}') for m in range(1, n_cumul + 1)],
                C=[get(o, f'C{m}') for m in range(1, n_cumul + 1)], M=get(o, 'M'),
                beyond=[get(o, a) for k in ({0, n_cumul + 1, 9} if n_cumul < 9 else {0}) for a in (f'c{k}', f'C{k}')],
                **{k: get(o, k) for k in ('values', 'log_cumulants', 'slope', 'intercept', 'var_log_cumulants', 'm')})


def rec_cumulants(mrq, spec, n_cumul, j1, j2, weighted, R):
    o = call(lib().Cumulants, mrq, n_cumul, j1, j2, weighted)
    return dict(base('cumulants', 'C09', o), mrq=spec, n_cumul=n_cumul, j1=j1, j2=j2, weighted=bool(weighted), R=R,
                out=out_cumulants(o, n_cumul))


def out_spectrum(o):
    return dict(header(o), **{k: get(o, k) for k in ('U', 'V', 'Dq', 'hq')})


def rec_spectrum(mrq, spec, q, j1, j2, weighted, R):
    o = call(lib().MultifractalSpectrum, mrq, j1, j2, weighted, q)
    return dict(base('spectrum', 'C10', o), mrq=spec, q=enc(np.asarray(q, float)), j1=j1, j2=j2,
                weighted=bool(weighted), R=R, out=out_spectrum(o))


def rec_hmin(mrq, spec, j1, j2, weighted, R, return_y):
    o = call(lib().estimate_hmin, mrq, j1, j2, weighted, return_y=return_y)
    rec = dict(base('hmin', 'C11', o), mrq=spec, j1=j1, j2=j2, weighted=bool(weighted), R=R)
    if isinstance(o, tuple) and len(o) == (3 if return_y else 2):
        rec['out'] = {'slope': enc(o[0]), 'intercept': enc(o[1]), 'y': enc(o[2]) if return_y else NONE}
    else:
        rec['out'] = {'slope': exc('shape'), 'intercept': exc('shape'), 'y': NONE}
    return rec


def rec_hurst(mrq, spec, j1, j2, weighted, R):
    o = call(lib().compute_hurst, mrq, j1, j2, weighted)
    rec = dict(base('hurst', 'C08', o), mrq=spec, j1=j1, j2=j2, weighted=bool(weighted), R=R)
    if isinstance(o, tuple) and len(o) == 3:
        rec['out'] = {'hurst': enc(o[0]), 'logS': enc(o[2])}
    else:
        rec['out'] = {'hurst': exc('shape'), 'logS': exc('shape')}
    return rec


def rec_linreg(x, y, w, var):
    o = call(lib().linear_regression, x, y, w, return_variance=True) if var else \
        call(lib().linear_regression, x, y, w)
    rec = dict(base('linreg', 'C07', o), x=enc(x), y=enc(y), w=enc(w))
    n = 3 if var else 2
    if isinstance(o, tuple) and len(o) == n:
        rec.update(a=enc(o[0]), b=enc(o[1]), var=enc(o[2]) if var else NONE)
    else:
        rec.update(a=exc('shape'), b=exc('shape'), var=NONE)
    return rec
