"""Pairs of analyses related by a symmetry (Trace_Sym)."""
import numpy as np
import gen
from scen_wavelet import make_signal, gaps, levels, scales_available
from vlib import Call, Raised, call, enc, enc_mrq, get, num, rng, NONE, exc

ABSENT = {'present': False}


def part(mrq, v, j1, j2, weighted):
    """one MFractalVar, with the intercepts the named tuple does not hold"""
    if v is None:
        return dict(ABSENT)
    L = gen.lib()
    s, c, sp = getattr(v, 'structure', None), getattr(v, 'cumulants', None), getattr(v, 'spectrum', None)
    h = call(L.estimate_hmin, mrq, j1, j2, weighted, warn=False)
    hu = call(L.compute_hurst, mrq, j1, j2, weighted)
    return {'present': True, 'cond': '1.0', 'q': get(s, 'q'), 'logvalues': get(s, 'logvalues'), 'zeta': get(s, 'zeta'),
            'intercept': get(s, 'intercept'), 'H': get(s, 'H'), 'C': get(c, 'values'), 'c': get(c, 'log_cumulants'),
            'cint': get(c, 'intercept'), 'cvar': get(c, 'var_log_cumulants'), 'U': get(sp, 'U'), 'V': get(sp, 'V'),
            'Dq': get(sp, 'Dq'), 'hq': get(sp, 'hq'), 'hmin': get(v, 'hmin'),
            'hint': enc(h[1]) if isinstance(h, tuple) else exc('hmin'), 'hurst': enc(hu[0]) if isinstance(hu, tuple) else exc('hurst')}


def analyse(x, q, n_cumul, keep, **kw):
    """wavelet_analysis + mf_analysis, encoded; returns (record, name of the exception or '')"""
    L = gen.lib()
    t = call(L.wavelet_analysis, x, **kw)
    if isinstance(t, Raised):
        return None, 'wavelet_analysis.' + t.name
    m = call(L.mfa.mf_analysis, t.wt_coefs, t.wt_leaders, t.j2_eff, j1=kw['j1'], weighted=kw['weighted'],
             n_cumul=n_cumul, q=q)
    if isinstance(m, Raised):
        return None, 'mf_analysis.' + m.name
    out = {'coefs': enc_mrq(t.wt_coefs), 'leaders': enc_mrq(t.wt_leaders), 'eta': enc(t.eta_p), 'j2_eff': enc(t.j2_eff),
           'R': 1 if x.ndim == 1 else x.shape[1],
           'dwt': part(t.wt_coefs, m.dwt, kw['j1'], t.j2_eff, kw['weighted']),
           'lwt': part(t.wt_leaders, m.lwt, kw['j1'], t.j2_eff, kw['weighted'])}
    if not keep:
        out['coefs']['v'] = out['leaders']['v'] = []
    return out, ''


def setting(g, nmax, gap=True, R=None, wts=('db1', 'db2', 'db3', 'db4', 'sym4', 'db6')):
    """a signal and parameters inside of the domain (at least two scales, j1 < j2)"""
    for _ in range(200):
        wt = str(g.choice(wts))
        n = int(np.exp(g.uniform(np.log(150), np.log(nmax))))
        r = R or int(g.choice([1, 1, 2, 3]))
        x = make_signal(g, n, r, str(g.choice(['noise', 'walk', 'mixed', 'spike'])))
        if gap and g.random() < .35:
            x = gaps(g, x, str(g.choice(['one', 'edge', 'gap'])))
        J = scales_available(x, wt, True) if n < 5000 else levels(n, wt) - 1
        if J >= 2:
            break
    p = [None, np.inf, 2, 1, 4, 1.5][int(g.integers(6))]
    j1 = int(g.integers(1, J))
    j2 = [None, J, 10][int(g.integers(3))]
    kw = dict(p_exp=p, wt_name=wt, j1=j1, j2=j2, gamint=float(g.choice([0., .5, 1., -.3])),
              normalization=[1, 2, 1.5][int(g.integers(3))], weighted=bool(g.integers(2)))
    q = gen.pick_q(g, 4, pool=[-2., -1., -.5, 0., .5, 1., 1.5, 2., 3., 4.], force=[2.0] if g.random() < .7 else [])
    if j2 == 10 and J > 10:
        kw['j2'] = 10
    return x, wt, J, kw, q, int(g.integers(1, 6))


def pair(prop, kind, x, y, kw, kwy, q, M, keep, **extra):
    A, e1 = analyse(x, q, M, keep, **kw)
    B, e2 = analyse(y, q, M, keep, **kwy)
    r = {'prop': prop, 'kind': kind, 'raised': e1 or e2, 'A': A or {}, 'B': B or {}, '_kw': repr((kw, kwy)), **extra}
    return r


def amplitude(i, nmax=1500, prop='C12'):
    g = rng('amp', i, nmax)
    x, wt, J, kw, q, M = setting(g, nmax)
    c = float(g.choice([-1., 2., 1e-5, 1e6, -3.7, .013, 7., 1e-15, 2. ** -50, -1e12, 2. ** 40]))
    return pair(prop, 'amplitude', x, x * c, kw, kw, q, M, x.shape[0] < 400, c=num(c))


def trend(i, nmax=1500):
    g = rng('trend', i, nmax)
    x, wt, J, kw, q, M = setting(g, nmax, wts=('db1', 'db2', 'db3', 'db4', 'db6', 'db5'))
    deg = int(wt[2:]) - 1
    t = np.linspace(-1, 1, x.shape[0])[:, None]
    sd = np.nanstd(np.diff(x, axis=0), axis=0)
    tr = sum(g.normal() * t ** k for k in range(deg + 1)) + np.zeros_like(t)
    r = pair('C12', 'same', x, x + 3 * sd * tr, kw, kw, q, M, False)
    # conditioning: the trend leaves rounding errors, which matter where a coefficient is nearly zero
    t = call(gen.lib().wavelet_analysis, x, **kw)
    if r['A'] and not isinstance(t, Raised):
        eps = 1e-15 * (np.nanmax(np.abs(3 * sd * tr)) + np.nanmax(np.abs(x)))
        delta = max(eps * 2. ** (j * (1 - 1 / kw['normalization'] + kw['gamint'])) / np.nanmin(np.abs(v))
                    for j, v in t.wt_coefs.values.items())
        for k in ('dwt', 'lwt'):
            if r['A'][k]['present']:
                r['A'][k]['cond'] = num(float(np.clip(delta / 1e-11, 1., 1e4)))
    return r


def gamint(i, nmax=1500):
    g = rng('gam', i, nmax)
    x, wt, J, kw, q, M = setting(g, nmax)
    d = float(g.choice([.5, 1., -.25, 2., .1]))
    return pair('C12', 'gamint', x, x, kw, dict(kw, gamint=kw['gamint'] + d), q, M, x.shape[0] < 400, g=num(d))


def columns(i, nmax=1500):
    """every realisation on its own, and a reordered selection of the realisations"""
    g = rng('cols', i, nmax)
    many = i % 12 == 7                                 # many realisations, up to more than samples
    x, wt, J, kw, q, M = setting(g, 260 if many else nmax, R=int(g.choice([17, 24, 40, 300])) if many else int(g.choice([2, 3, 4, 5])))
    R = x.shape[1]
    kw['j2'] = int(g.integers(kw['j1'] + 1, J + 1)) if g.random() < .8 else J
    if i % 3 == 0:
        x[:, g.integers(0, R)] *= 10. ** g.integers(-6, 7)
    if kw['p_exp'] is not None and np.isfinite(kw['p_exp']):
        kw['gamint'] = abs(kw['gamint']) + 1.           # eta > 0 for all, so that no correction is skipped
    keep = x.shape[0] < 400
    A, e1 = analyse(x, q, M, keep, **kw)
    if A and A['eta']['k'] == 't' and min(map(float, A['eta']['d'])) <= 0:
        kw['gamint'] += 3.
        A, e1 = analyse(x, q, M, keep, **kw)
    if A and A['eta']['k'] == 't' and min(map(float, A['eta']['d'])) <= 0:
        return []
    out = []
    perm = g.permutation(R)
    for sel in [[r] for r in (range(R) if R < 17 else [0, R - 1, *g.integers(1, R - 1, 3)])] + [list(perm)]:
        y = x[:, sel]
        if len(sel) == 1 and g.random() < .5:
            y = y[:, 0]
        B, e2 = analyse(y, q, M, keep, **kw)
        # sub-record of A: the realisations in sel, in that order: B's realisation k is A's sel[k]
        out.append({'prop': 'C06', 'kind': 'column', 'raised': e1 or e2, 'A': {} if A is None else select(A, sel), 'B': B or {},
                    'map': list(range(1, len(sel) + 1)), '_kw': repr(kw)})
    return out


def select(A, sel):
    """realisations `sel` of a recorded result (pure re-indexing of the record's last axis)"""
    def s(t):
        if not isinstance(t, dict) or t.get('k') != 't' or not t['sh'] or t['sh'][-1] != A['R']:
            return t
        a = np.array(t['d'], dtype=object).reshape(t['sh'])[..., sel]
        return {'k': 't', 'sh': list(a.shape), 'd': [str(v) for v in a.ravel()], 'e': ''}
    out = dict(A, R=len(sel))
    for p in ('dwt', 'lwt'):
        out[p] = {k: (v if k == 'q' else s(v)) for k, v in A[p].items()}
    for p in ('coefs', 'leaders'):
        out[p] = dict(A[p], v=[s(t) for t in A[p]['v']], nj=[s(t) for t in A[p]['nj']])
    out['eta'] = s(A['eta'])
    return out


def estimators(mrq, q, M, j1, j2, weighted):
    L = gen.lib()
    s = call(L.StructureFunction, mrq, q, j1, j2, weighted)
    c = call(L.Cumulants, mrq, M, j1, j2, weighted)
    sp = call(L.MultifractalSpectrum, mrq, j1, j2, weighted, q)
    h = call(L.estimate_hmin, mrq, j1, j2, weighted, warn=False)
    hu = call(L.compute_hurst, mrq, j1, j2, weighted)
    for o in (s, c, sp, h, hu):
        if isinstance(o, Raised):
            return None, o.name
    return {'present': True, 'cond': '1.0', 'q': get(s, 'q'), 'logvalues': get(s, 'logvalues'), 'zeta': get(s, 'zeta'),
            'intercept': get(s, 'intercept'), 'H': get(s, 'H'), 'C': get(c, 'values'), 'c': get(c, 'log_cumulants'),
            'cint': get(c, 'intercept'), 'cvar': get(c, 'var_log_cumulants'), 'U': get(sp, 'U'), 'V': get(sp, 'V'),
            'Dq': get(sp, 'Dq'), 'hq': get(sp, 'hq'), 'hmin': enc(h[0]), 'hint': enc(h[1]), 'hurst': enc(hu[0])}, ''


def missing(i):
    """the same coefficients with missing entries inserted and / or in another order"""
    g = rng('missing', i)
    J, R = int(g.integers(2, 8)), int(g.choice([1, 2, 3]))
    form = str(g.choice(gen.FORMALISMS))
    vals = gen.synth_values(g, J, R, nan='none' if i % 2 else 'mixed', nmax=int(g.choice([12, 60, 200])), positive=form != 'wavelet coef')
    kind = ['insert', 'permute', 'both'][i % 3]
    new = []
    for v in vals:
        cols = []
        extra = int(g.integers(0, 15)) if kind != 'permute' else 0
        for r in range(R):
            col = v[:, r]
            if kind != 'insert':
                col = g.permutation(col)
            pos = np.sort(g.integers(0, len(col) + 1, extra))
            if g.random() < .25:
                pos[:] = len(col)
            elif g.random() < .25:
                pos[:] = 0
            cols.append(np.insert(col, pos, np.nan))
        new.append(np.stack(cols, axis=1))
    q = gen.pick_q(g, 5, pool=[-2., -1., -.5, 0., .5, 1., 1.5, 2., 3., 4.], force=[0.0, 2.0][:i % 3])
    j1, j2 = gen.scale_range(g, J)
    w = bool(g.integers(2))
    M = int(g.integers(1, 6))
    a, b = gen.make_mrq(vals, form), gen.make_mrq(new, form)
    A, e1 = estimators(a, q, M, j1, j2, w)
    B, e2 = estimators(b, q, M, j1, j2, w)
    return {'prop': 'C13', 'kind': 'values', 'raised': e1 or e2, 'A': A or {}, 'B': B or {}, 'R': R,
            'njA': [enc(a.nj[j]) for j in a.nj], 'njB': [enc(b.nj[j]) for j in b.nj], '_kw': kind}


def bimissing(i):
    """the same pairs of coefficients with pairs of missing entries inserted and / or in another joint order"""
    import scen_bivariate as b
    from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    g = rng('bimissing', i)
    J, form, gi, v1, v2, m1, m2 = b.quantities(g)
    kind = ['insert', 'permute', 'both'][i % 3]
    w1, w2 = [], []
    for a, c in zip(v1, v2):
        o = np.arange(len(a)) if kind == 'insert' else g.permutation(len(a))
        a, c = np.asarray(a)[o], np.asarray(c)[o]
        if kind != 'permute':
            pos = np.sort(g.integers(0, len(a) + 1, int(g.integers(0, 12))))
            if g.random() < .3:
                pos[:] = g.choice([0, len(a)])
            a, c = np.insert(a, pos, np.nan, axis=0), np.insert(c, pos, np.nan, axis=0)
        w1.append(a)
        w2.append(c)
    j1, j2 = gen.scale_range(g, J)
    w, M = bool(g.integers(2)), int(g.integers(1, 5))
    pool = [-2., -1., -.5, 0., .3, .5, 1., 1.5, 2., 3.]
    f = (0., 1., 2.) if i % 2 else ()
    q1, q2 = gen.pick_q(g, 2, pool, f), gen.pick_q(g, 2, pool, f)
    n1, n2 = gen.make_mrq(w1, form, gi), gen.make_mrq(w2, form, gi)
    out, err = [], ''
    for x, y in ((m1, m2), (n1, n2)):
        s = call(BiStructureFunction, x, y, j1, j2, q1, q2, w)
        c = call(BiCumulants, x, y, M, j1, j2, w)
        err = err or next((o.name for o in (s, c) if isinstance(o, Raised)), '')
        out.append({**{k: get(s, k) for k in ('logvalues', 'zeta', 'intercept', 'coherence')},
                    'C': get(c, 'values'), 'c': get(c, 'log_cumulants'), 'cslope': get(c, 'slope'), 'cint': get(c, 'intercept'),
                    'RHO_MF': get(c, 'RHO_MF'), 'rho_mf': get(c, 'rho_mf')})
    # conditioning of the correlations: smallest variance against the squared magnitude of the logarithms
    la = [np.log(np.abs(v[~np.isnan(v)])) for v in (*v1, *v2)]
    var = min(np.var(x) for x in la)
    c2 = out[0]['c']
    d = np.array(c2['d'], float).reshape(c2['sh']) if c2['k'] == 't' else np.zeros((1, 1))
    lm = max(np.max(np.abs(x)) for x in la) + 1
    prod = abs(d[2, 0] * d[0, 2]) if d.shape[0] > 2 else 1.
    scale = 1 + lm ** 2 / max(var, 1e-30) + lm ** 4 / max(prod, 1e-30)
    return {'prop': 'C13', 'kind': 'bivalues', 'raised': err, 'A': out[0], 'B': out[1], 'rhoscale': num(scale),
            'cumscale': num(lm ** max(2, M) * .01),
            # no correlation where a quantity is constant at a scale, or the product of variances is not positive
            'rhook': [bool(min(np.var(np.log(np.abs(x[~np.isnan(x)]))) for x in (a, c)) > 1e-11 * lm ** 2) for a, c in zip(v1, v2)],
            'rhomfok': bool(d.shape[0] > 2 and d[2, 0] * d[0, 2] > 1e-16 * lm ** 4),
            'njA': [enc(m1.nj[j]) for j in m1.nj], 'njB': [enc(n1.nj[j]) for j in n1.nj], '_kw': kind}
