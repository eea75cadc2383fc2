"""Scenarios for the estimators of one multiresolution quantity."""
import numpy as np
import gen
from vlib import rng


def quantity(g, zeros=False, Jmax=8, nmax=60):
    J = int(g.integers(2, Jmax + 1))
    R = int(g.choice([1, 1, 2, 3, 4]))
    if Jmax == 8 and g.random() < .12:               # many realisations, many scales
        R, J, nmax = int(g.integers(5, 13)), int(g.integers(2, 14)), nmax // 2
    form = str(g.choice(gen.FORMALISMS))
    vals = gen.synth_values(g, J, R, zeros=zeros, nmax=nmax, positive=form != 'wavelet coef')
    gamint = float(g.choice([0.0, 0.0, 0.5, 1.0, -0.5, 0.3]))
    return J, R, vals, gen.make_mrq(vals, form, gamint), gen.spec_mrq(vals, form, gamint)


def structure(i):
    g = rng('structure', i)
    zeros = i % 6 == 5
    J, R, vals, mrq, spec = quantity(g, zeros)
    j1, j2 = gen.scale_range(g, J)
    pool = [q for q in gen.Q_POOL if q > 0] if zeros else gen.Q_POOL
    q = gen.pick_q(g, pool=pool, force=[2.0] if i % 2 else [])
    if i % 5 == 3:
        q = np.array(sorted({int(abs(x)) for x in q} | {3}))                 # integer dtype
    if i % 7 == 4:
        q = [int(x) for x in g.choice([1, 3, 4, 5, 6, 7, 8, 9, 10, 11], 4, replace=False)]    # python ints, no 2
    return gen.rec_structure(mrq, spec, q, j1, j2, bool(i % 3), R)


def structure_onebyone(i):
    """every exponent of the pool and every integer up to 12, on its own, for one quantity"""
    g = rng('structure1', i)
    J, R, vals, mrq, spec = quantity(g, Jmax=4, nmax=20)
    out = []
    for q in gen.Q_POOL + [-4.0, -1.5, 0.25, 1.25, 2.00001, 1.9999, 1.0002, .4999, 2e-4, -3e-4, -1.0001]:
        out.append(gen.rec_structure(mrq, spec, np.array([q]), 1, J, True, R))
    for k in (1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12):
        out.append(gen.rec_structure(mrq, spec, [k], 1, J, False, R))
    return out


def cumulants(i):
    g = rng('cumulants', i)
    J, R, vals, mrq, spec = quantity(g)
    j1, j2 = gen.scale_range(g, J)
    return gen.rec_cumulants(mrq, spec, 1 + i % 9, j1, j2, bool((i // 2) % 2), R)


def spectrum(i):
    g = rng('spectrum', i)
    zeros = i % 6 == 5
    J, R, vals, mrq, spec = quantity(g, zeros)
    j1, j2 = gen.scale_range(g, J)
    pool = [q for q in gen.Q_POOL if q > 0] if zeros else gen.Q_POOL
    q = gen.pick_q(g, pool=pool, force=[0.0] if i % 3 == 0 and not zeros else [])
    if i % 5 == 3:
        q = np.array(sorted({int(x) for x in q} - ({0} if zeros else set()) | {3}))
    return gen.rec_spectrum(mrq, spec, q, j1, j2, bool(i % 2), R)


def hmin(i):
    g = rng('hmin', i)
    J, R, vals, mrq, spec = quantity(g, zeros=i % 4 == 3)
    j1, j2 = gen.scale_range(g, J)
    return gen.rec_hmin(mrq, spec, j1, j2, bool(i % 2), R, bool((i // 2) % 2))


def hurst(i):
    g = rng('hurst', i)
    J, R, vals, mrq, spec = quantity(g, zeros=i % 4 == 3)
    j1, j2 = gen.scale_range(g, J)
    return gen.rec_hurst(mrq, spec, j1, j2, bool(i % 2), R)


def linreg(i):
    g = rng('linreg', i)
    n = int(g.integers(2, 12))
    R = int(g.choice([1, 1, 2, 3, 5]))
    if i % 3 == 0:
        x = np.tile(np.arange(1, n + 1)[:, None] + int(g.integers(0, 5)), (1, R))
    else:
        x = np.sort(g.normal(0, 3, (n, R)), axis=0) + np.arange(n)[:, None]
    if i % 2:
        w = g.integers(1, [10, 2000, 2000, 10 ** 6][int(g.integers(4))], (n, R))
    else:
        w = np.exp(g.normal(0, 2, (n, R))) * 10. ** float(g.choice([0, 0, 0, -9, 9]))
    if i % 7 == 0:
        w = np.ones((n, R))
    y = g.normal(0, 10, (n, R))
    if i % 5 == 1:
        y = x * g.normal(0, 2, R) + g.normal(0, 5, R)         # exact lines
    return gen.rec_linreg(x, y, w, bool(i % 4 != 3))


def large(i, what):
    """realistic sizes: thousands of coefficients per scale"""
    g = rng('large', what, i)
    R = int(g.choice([1, 2, 3]))
    n, J = int(g.integers(600, 7000)), int(g.integers(6, 12))
    if i % 8 == 5:
        R, n = 1, int(g.integers(33000, 70000))
    form = str(g.choice(gen.FORMALISMS))
    s = g.uniform(-.3, 1.2, R)
    vals = []
    for j in range(J):
        x = np.exp(g.normal(0, .8, (max(3, n >> j), R))) * 2. ** (s * j)
        if form == 'wavelet coef':
            x *= g.choice([-1., 1.], x.shape)
        m = gen.nan_pattern(g, len(x), R, str(g.choice(['none', 'border', 'random', 'gap'])))
        m[g.permutation(len(x))[:3]] = False
        vals.append(np.where(m, np.nan, x))
    gamint = float(g.choice([0., .5, 1.]))
    mrq, spec = gen.make_mrq(vals, form, gamint), gen.spec_mrq(vals, form, gamint)
    j1, j2 = gen.scale_range(g, J)
    w = bool(i % 2)
    q = gen.pick_q(g, 2, force=[2.])
    if what == 'structure':
        return gen.rec_structure(mrq, spec, q, j1, j2, w, R)
    if what == 'cumulants':
        return gen.rec_cumulants(mrq, spec, int(g.integers(2, 6)), j1, j2, w, R)
    if what == 'spectrum':
        return gen.rec_spectrum(mrq, spec, q, j1, j2, w, R)
    return gen.rec_hmin(mrq, spec, j1, j2, w, R, True)


def dead(i, what):
    """some realisations vanish altogether at some scales, in or out of the range"""
    g = rng('dead', what, i)
    J, R = int(g.integers(3, 8)), int(g.choice([1, 2, 3]))
    form = str(g.choice(gen.FORMALISMS))
    vals = gen.synth_values(g, J, R, zeros=False, nmax=40, positive=form != 'wavelet coef')
    for _ in range(int(g.integers(1, 3))):
        v, r = vals[int(g.integers(J))], int(g.integers(R))
        v[:, r] = np.where(np.isnan(v[:, r]), np.nan, 0.)
    gamint = float(g.choice([0., .5]))
    mrq, spec = gen.make_mrq(vals, form, gamint), gen.spec_mrq(vals, form, gamint)
    j1, j2 = gen.scale_range(g, J)
    w = bool(i % 2)
    q = gen.pick_q(g, pool=[q for q in gen.Q_POOL if q > 0])
    if what == 'structure':
        return gen.rec_structure(mrq, spec, q, j1, j2, w, R)
    if what == 'cumulants':
        return gen.rec_cumulants(mrq, spec, int(g.integers(1, 5)), j1, j2, w, R)
    if what == 'spectrum':
        return gen.rec_spectrum(mrq, spec, q, j1, j2, w, R)
    if what == 'hurst':
        return gen.rec_hurst(mrq, spec, j1, j2, w, R)
    return gen.rec_hmin(mrq, spec, j1, j2, w, R, True)


def large_structure(i):
    """few realistic sizes: more scales, more coefficients"""
    g = rng('lstructure', i)
    J = 10
    vals = [np.where(g.random((max(3, 1500 >> j), 2)) < .03, np.nan,
                     g.normal(size=(max(3, 1500 >> j), 2)) * 2. ** (.6 * j)) for j in range(J)]
    for v in vals:
        v[:2] = 1.3
    mrq, spec = gen.make_mrq(vals), gen.spec_mrq(vals, 'wavelet coef', 0.0)
    k = i % 4
    if k == 0:
        return gen.rec_structure(mrq, spec, np.array([-1., 0., 1., 2., 3.]), 3, 9, True, 2)
    if k == 1:
        return gen.rec_cumulants(mrq, spec, 4, 2, 10, True, 2)
    if k == 2:
        return gen.rec_spectrum(mrq, spec, np.array([-1., 0., 1., 2.]), 3, 10, True, 2)
    return gen.rec_hmin(mrq, spec, 3, 10, True, 2, True)
