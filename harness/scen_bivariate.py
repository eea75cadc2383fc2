"""Scenarios for the estimators of two multiresolution quantities."""
import numpy as np
import gen
from gen import base, header
from vlib import Raised, call, enc, get, rng


def pair(g, J, form, nmax=60, Rmask='same'):
    """two correlated quantities with the same missing positions"""
    v1 = gen.synth_values(g, J, 1, nmax=nmax, positive=form != 'wavelet coef')
    rho, v2 = g.uniform(-.95, .95), []
    for a in v1:
        la = np.log(np.abs(a))
        z = g.normal(size=a.shape)
        b = np.exp(rho * la + np.sqrt(1 - rho ** 2) * z * g.choice([.3, 1.]) + g.normal() * .3)
        if form == 'wavelet coef':
            s = np.sign(a) if g.random() < .5 else -np.sign(a)
            s = np.where(g.random(a.shape) < .3, -s, s)
            b = b * s
        b[np.isnan(a)] = np.nan
        v2.append(b)
    return v1, v2


def signals(g):
    from scen_wavelet import make_signal
    L = gen.lib()
    n = int(g.integers(100, 300))
    x = make_signal(g, n, 1, 'walk')
    y = g.uniform(-1, 1) * x + make_signal(g, n, 1, 'noise')
    p = [None, np.inf, 2][int(g.integers(3))]
    t = [L.wavelet_analysis(s, p_exp=p, wt_name='db2', j1=1, j2=3, normalization=1, gamint=.5, weighted=None) for s in (x, y)]
    m = [(u.wt_leaders if p is not None else u.wt_coefs) for u in t]
    J = min(len(m[0].values), len(m[1].values))
    return [m[0].values[j] for j in range(1, J + 1)], [m[1].values[j] for j in range(1, J + 1)], m[0].formalism, J


def quantities(g):
    J = int(g.integers(2, 7))
    form = str(g.choice(gen.FORMALISMS))
    if g.random() < .015:                            # realistic sizes
        J = int(g.integers(5, 12))
        v1, v2 = pair(g, J, form, nmax=int(g.integers(600, 5000)))
    elif g.random() < .25:
        v1, v2, form, J = signals(g)
    else:
        v1, v2 = pair(g, J, form)
    gi = float(g.choice([0., .5, 1.]))
    return J, form, gi, v1, v2, gen.make_mrq(v1, form, gi), gen.make_mrq(v2, form, gi)


def common(op, prop, o, J, form, gi, v1, v2, j1, j2, w):
    return dict(base(op, prop, o), v1=[enc(v) for v in v1], v2=[enc(v) for v in v2], formalism=form, gamint=enc(gi),
                j1=j1, j2=j2, weighted=w)


SA = ('logvalues', 'zeta', 'intercept', 'coherence', 'gamint')


def structure(i):
    from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction
    g = rng('bistructure', i)
    J, form, gi, v1, v2, m1, m2 = quantities(g)
    j1, j2 = gen.scale_range(g, J)
    w = bool(i % 2)
    pool = [-2., -1., -.5, 0., .3, .5, 1., 1.5, 2., 3., 4.] + list(g.uniform(-6, 8, 3))
    mode = i % 4
    if mode == 0:
        q1 = gen.pick_q(g, 2, pool, (0., 1., 2.))
        q2 = gen.pick_q(g, 1, pool, (0., 1., 2.))
    elif mode == 1:
        q1 = gen.pick_q(g, 3, pool)
        q2 = gen.pick_q(g, 2, pool, (0., 1., 2.))
    elif mode == 2:
        q1 = g.permutation(np.array([0, 1, 2, 3]))
        q2 = g.permutation(np.array([0, 1, 2]))
    else:
        q1, q2 = gen.pick_q(g, 3, pool, (0.,)), gen.pick_q(g, 3, pool)
    L = gen.lib()
    o = call(BiStructureFunction, m1, m2, j1, j2, q1, q2, w)
    rec = common('bistructure', 'C15', o, J, form, gi, v1, v2, j1, j2, w)
    if rec['raised']:
        return rec
    s = call(BiStructureFunction, m2, m1, j1, j2, q2, q1, w)
    f = call(BiStructureFunction, m1, m1, j1, j2, q1, q1, w)
    rec.update(q1=enc(np.asarray(q1, float)), q2=enc(np.asarray(q2, float)))
    for k, x in (('out', o), ('swap', s), ('self', f)):
        rec[k] = dict(header(x) or {'j': 0, 'nj': [], 'formalism': ''}, **{a: get(x, a) for a in SA})
    for k, m, q in (('u1', m1, q1), ('u2', m2, q2)):
        rec[k] = {'zeta': get(call(L.StructureFunction, m, q, j1, j2, w), 'zeta')}
    return rec


def joint(i):
    """quantities with equal valid counts but different missing positions"""
    from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction
    g = rng('joint', i)
    J = int(g.integers(2, 6))
    form = str(g.choice(gen.FORMALISMS))
    v1, v2 = [], []
    for j in range(J):
        n = int(g.integers(8, 60))
        k = int(g.integers(0, n // 3))
        a, b = (np.exp(g.normal(0, 1, (n, 1))) for _ in range(2))
        if form == 'wavelet coef':
            a, b = a * g.choice([-1., 1.], a.shape), b * g.choice([-1., 1.], b.shape)
        for x in (a, b):
            x[g.choice(n, k, replace=False)] = np.nan
        v1.append(a)
        v2.append(b)
    gi = float(g.choice([0., .5, 1.]))
    m1, m2 = gen.make_mrq(v1, form, gi), gen.make_mrq(v2, form, gi)
    j1, j2 = gen.scale_range(g, J)
    pool = [-1., .5, 1., 1.5, 2., 3.] + list(g.uniform(-6, 8, 2))
    q1, q2 = gen.pick_q(g, 2, pool), gen.pick_q(g, 3, pool)
    o = call(BiStructureFunction, m1, m2, j1, j2, q1, q2, False)
    rec = common('bijoint', 'C15', o, J, form, gi, v1, v2, j1, j2, False)
    if not rec['raised']:
        rec.update(q1=enc(q1), q2=enc(q2), out={a: get(o, a) for a in SA})
    return rec


CA = ('values', 'log_cumulants', 'slope', 'intercept', 'm', 'RHO_MF', 'rho_mf')


def cumulants(i):
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    g = rng('bicumulants', i)
    J, form, gi, v1, v2, m1, m2 = quantities(g)
    j1, j2 = gen.scale_range(g, J)
    w, M = bool(i % 2), [1, 2, 2, 3, 3, 4, 5][i % 7]
    L = gen.lib()
    o = call(BiCumulants, m1, m2, M, j1, j2, w)
    rec = common('bicumulants', 'C16', o, J, form, gi, v1, v2, j1, j2, w)
    if rec['raised']:
        return rec
    s = call(BiCumulants, m2, m1, M, j1, j2, w)
    f = call(BiCumulants, m1, m1, M, j1, j2, w)
    rec['n_cumul'] = M
    for k, x in (('out', o), ('swap', s), ('self', f)):
        rec[k] = dict(header(x) or {'j': 0, 'nj': [], 'formalism': ''}, **{a: get(x, a) for a in CA})
    rec['attrs'] = [{'m1': a, 'm2': b, 'c': get(o, f'c{a}{b}'), 'C': get(o, f'C{a}{b}')}
                    for a in range(M + 1) for b in range(M + 1)]
    for k, m in (('u1', m1), ('u2', m2)):
        rec[k] = {'log_cumulants': get(call(L.Cumulants, m, M, j1, j2, w), 'log_cumulants')}
    lo, hi, n = [(0., 1.5, 100), (-1., 1., 7), (.2, 2., 12)][int(g.integers(3))] if i % 10 == 0 else \
        [(0., 1.5, 11), (-1., 1., 7), (.2, 2., 5)][int(g.integers(3))]
    from vlib import num
    if M >= 2:
        r = call(o.compute_legendre) if (lo, hi, n) == (0., 1.5, 100) else call(o.compute_legendre, (lo, hi), n)
        ok = isinstance(r, tuple) and len(r) == 2
        rec['leg'] = {'n': n, 'lo': num(lo), 'hi': num(hi), 'h': enc(r[0] if ok else None), 'L': enc(r[1] if ok else None)}
    return rec
