"""Quantities and signals with known multifractal parameters (Multifractal.tla, Trace_Multifractal)."""
import numpy as np
import gen
from vlib import Call, Raised, call, enc, get, num, rng

QP = [-3., -2., -1., -.5, 0., .25, .5, 1., 1.5, 2., 3., 4., 5., 6.]
UA = {'structure': ('logvalues', 'zeta', 'intercept', 'H'), 'cumulants': ('values', 'log_cumulants'),
      'spectrum': ('U', 'V', 'Dq', 'hq')}
BA = {'structure': ('logvalues', 'zeta', 'coherence'), 'cumulants': ('values', 'log_cumulants', 'RHO_MF', 'rho_mf')}


def products(m, d):
    p = np.ones(1)
    for _ in range(d):
        p = (p[:, None] * np.asarray(m)[None]).ravel()
    return p


def quantity(g, j):
    return products(g['m'], g['top'] - j) * 2. ** (g['s'] * j + g['t'])


def spec_gen(g):
    return {'m': [num(x) for x in g['m']], 'top': g['top'], 's': num(g['s']), 't': num(g['t'])}


def multipliers(g, b, signed):
    kind = g.random()
    if kind < .15:                                       # monofractal
        m = np.full(b, g.uniform(.4, 1.3))
    elif kind < .3:
        m = g.permutation(np.r_[1., g.uniform(.3, 1.6, b - 1)])
    else:
        m = g.uniform(.35, 1.5, b)
    if signed:
        m = m * g.choice([-1., 1.], b)
    return m


def exponents(g, two=True, lo=-10.):
    q = list(g.choice(QP, int(g.integers(1, 6)), replace=False))
    q += [float(x) for x in g.choice([g.uniform(lo, 12.), np.round(g.uniform(-3, 8), 1), 8., 10., g.uniform(-.2, .2)], int(g.integers(0, 4)), replace=False)]
    if two and 2. not in q:
        q.append(2.)
    q = np.array(q)
    g.shuffle(q)
    return q


def obj(o, attrs):
    if isinstance(o, Raised) or o is None:
        return {}
    return {a: get(o, a) for a in attrs}


def var(v):
    if v is None or isinstance(v, Raised):
        return {'k': 'none' if v is None else 'exc', 'structure': {}, 'cumulants': {}, 'spectrum': {}, 'hmin': {}}
    d = {f: obj(getattr(v, f, None), UA[f]) for f in UA}
    return dict(d, k='var', hmin=get(v, 'hmin'))


def base(op, r):
    return {'op': op, 'prop': 'C27', 'raised': r.name if isinstance(r, Raised) else '', '_msg': getattr(r, 'msg', '')}


def fill(g, cols, signs):
    """columns of one scale -> array with shuffled rows and missing entries"""
    n = len(cols[0])
    pad = int(g.integers(0, 6)) if g.random() < .6 else 0
    out = np.full((n + pad, len(cols)), np.nan)
    for r, c in enumerate(cols):
        pos = g.permutation(n + pad)[:n]
        out[pos, r] = c * (g.choice([-1., 1.], n) if signs else 1.)
    return out


def mrq(i):
    """multiplicative cascades given as multiresolution quantities to mf_analysis"""
    g = rng('mrq', i)
    L = gen.lib()
    b = [2, 2, 3, 4][i % 4]
    deep = {2: 8, 3: 5, 4: 4}[b]
    top = int(g.integers(4, deep + 1))
    J = int(g.integers(3, top)) if top > 4 else 3
    R = int(g.choice([1, 1, 2, 3]))
    forms = ['wavelet coef', str(g.choice(gen.FORMALISMS[1:]))]
    gi = float(g.choice([0., .5, 1.]))
    gens, quant = [], []
    for f in forms:
        G = [dict(m=np.abs(multipliers(g, b, False)), top=top, s=float(g.uniform(-.5, 1.2)), t=float(g.uniform(-3, 3))) for _ in range(R)]
        m = L.MRQ(f, gi)
        for j in range(1, J + 1):
            m.add_values(fill(g, [quantity(x, j) for x in G], f == 'wavelet coef'), j)
        gens.append(G)
        quant.append(m)
    j1, j2 = gen.scale_range(g, J)
    w, M, q = bool(i % 2), int(g.integers(1, 8)), exponents(g, i % 5 > 0)
    r = call(L.mfa.mf_analysis, quant[0], quant[1] if i % 3 else None, j2, j1, w, M, q)
    rec = base('uni', r)
    rec.update(gens=[[spec_gen(x) for x in G] for G in gens], J=J, R=R, q=enc(q), M=M, gamint=num(gi), leaders='full' if i % 3 else 'none',
               _kw=repr((b, top, J, j1, j2, w)))
    if not rec['raised']:
        rec['dwt'], rec['lwt'] = var(getattr(r, 'dwt', None)), var(getattr(r, 'lwt', None))
    return rec


def wsignal(gn, norm, gamint, left, right, signs):
    """the samples whose Haar coefficients are the cascade, between missing samples"""
    low = np.zeros(1)
    for j in range(gn['top'], 0, -1):
        f = 2. ** (j * (.5 - 1. / norm) + gamint * j)
        d = quantity(gn, j) / f
        if signs is not None:
            d = d * signs[j]
        up = np.empty(2 * len(low))
        up[0::2], up[1::2] = (low - d) / np.sqrt(2), (low + d) / np.sqrt(2)
        low = up
    u = 2 ** (gn['top'] - 2)
    return np.r_[np.full(left * u, np.nan), low, np.full(right * u, np.nan)]


def wgen(g, top, kind):
    while True:
        m = np.abs(multipliers(g, 2, False))
        if kind == 'mono':
            m = np.full(2, m[0])
        s = float(g.uniform(-.3, .9))
        h = s - np.log2(m.max())
        if h > .02 and h < 2.:
            return dict(m=m, top=top, s=s, t=float(g.uniform(-2, 2)))


def signal(i):
    """the same from the signal on: the Haar coefficients of the signal are the cascade"""
    g = rng('wsignal', i)
    L = gen.lib()
    from pymultifracs.signal import Signal
    top = int(g.integers(6, 9))
    J = top - 2
    R = int(g.choice([1, 1, 2, 3]))
    kind = ['none', 'mono', 'sup', 'p', 'p'][i % 5]
    norm = int(g.choice([1, 2]))
    gi = float(g.choice([0., .25, .5, 1.]))
    G = [wgen(g, top, kind) for _ in range(R)]
    left, right = int(g.integers(2, 4)), int(g.integers(2, 4))
    sg = [None if g.random() < .2 else {j: g.choice([-1., 1.], 2 ** (top - j)) for j in range(1, top + 1)} for _ in range(R)]
    x = np.stack([wsignal(G[r], norm, gi, left, right, sg[r]) for r in range(R)], axis=1)
    p = {'none': None, 'mono': np.inf, 'sup': np.inf, 'p': float(g.choice([.5, 1., 2., 3.]))}[kind]
    j1, j2 = gen.scale_range(g, J)
    if g.random() < .3:
        j2 = J
    w, M = bool(i % 2), int(g.integers(1, 6))
    q = exponents(g, lo=-4.)
    if kind == 'p' and p not in q:
        q = np.r_[q, p]
    kw = dict(normalization=norm, gamint=gi, weighted=w, wt_name=str(g.choice(['db1', 'haar'])), p_exp=p)
    xs = x[:, 0] if R == 1 and i % 2 else x
    api = ['full', 'steps', 'signal'][int(g.integers(3))]
    over = j2 if j2 < J else int(g.integers(J, J + 2))            # a request beyond the available scales gives J
    t = Call(L.wavelet_analysis, xs, j1=j1, j2=over, **kw).value
    if api == 'full':
        r = Call(L.mfa.mf_analysis_full, xs, j1, over, q=q, n_cumul=M, **kw).value
    elif api == 'signal':
        r = Call(Signal(xs, 1.).mf_analysis_full, j1, over, q=q, n_cumul=M, **kw).value
    elif isinstance(t, Raised):
        r = t
    else:
        r = Call(L.mfa.mf_analysis, t.wt_coefs, t.wt_leaders, t.j2_eff, j1, w, M, q).value
    rec = base('uni', r)
    rec.update(gens=[[spec_gen(a) for a in G]] * 2, J=J, R=R, q=enc(q), M=M, gamint=num(gi), leaders=kind, p=num(p or 0.), _kw=repr((kw, api, j1, j2)),
               eta=get(t, 'eta_p'))
    if not rec['raised']:
        rec['dwt'], rec['lwt'] = var(getattr(r, 'dwt', None)), var(getattr(r, 'lwt', None))
        # the complete range of scales is not reported by the objects of the signal path when fewer have enough coefficients
    return rec


def bivar(v):
    if v is None:
        return {'k': 'none', 'structure': {}, 'cumulants': {}}
    return dict({f: obj(getattr(v, f, None), BA[f]) for f in BA}, k='var')


def distinct(g, b):
    while True:
        m = g.uniform(.35, 1.5, b)
        if np.var(np.log(m)) > .02:
            return m


def bimrq(i):
    """pairs of cascades on a common tree, from the quantities or from the signals"""
    from pymultifracs.bivariate import bivariate_analysis, bivariate_analysis_full
    g = rng('bimrq', i)
    L = gen.lib()
    src = ['mrq', 'signal'][i % 2]
    b = 2 if src == 'signal' else int(g.choice([2, 3, 4]))
    top = int(g.integers(6, 9)) if src == 'signal' else int(g.integers(4, {2: 9, 3: 6, 4: 5}[b]))
    J = top - 2 if src == 'signal' else top - 1
    gi = float(g.choice([0., .5, 1.]))
    # what makes the product of two coefficients signed: the digits
    A, B = [dict(m=distinct(g, b) * (g.choice([-1., 1.], b) if src == 'mrq' and i % 4 < 2 else 1.), top=top, s=float(g.uniform(.2, .6)),
                 t=float(g.uniform(-1, 1))) for _ in range(2)]
    sgn = float(g.choice([-1., 1.]))
    M, w = int(g.integers(1, 6)), bool((i // 2) % 2)
    q1, q2 = [np.array(g.permutation([0., 1., 2.] + list(g.choice([-1., .5, 1.5, 3.], int(g.integers(0, 3)), replace=False)))) for _ in range(2)]
    j1, j2 = gen.scale_range(g, J)
    lead = False
    if src == 'mrq':
        ms = []
        for f in ['wavelet coef', 'wavelet leader']:
            a, c = L.MRQ(f, gi), L.MRQ(f, gi)
            for j in range(1, J + 1):
                x, y = quantity(A, j), quantity(B, j)
                n = len(x)
                pad = int(g.integers(0, 5))
                pos = g.permutation(n + pad)[:n]
                u, v = np.full((n + pad, 1), np.nan), np.full((n + pad, 1), np.nan)
                s = g.choice([-1., 1.], n)
                u[pos, 0], v[pos, 0] = (x * s, sgn * y * s) if f == 'wavelet coef' else (np.abs(x), np.abs(y))
                a.add_values(u, j)
                c.add_values(v, j)
            ms.append((a, c))
        from pymultifracs.wavelet import WaveletTransform
        import inspect
        T = [WaveletTransform(wt_coefs=ms[0][k], wt_leaders=ms[1][k], j2_eff=j2 if k else J, eta_p=None) for k in (0, 1)]
        r = call(bivariate_analysis, T[0], T[1], j1, w, M, q1, q2)
        lead = True
    else:
        norm = int(g.choice([1, 2]))
        S = {j: g.choice([-1., 1.], 2 ** (top - j)) for j in range(1, top + 1)}
        l, h = int(g.integers(0, 3)), int(g.integers(2, 4))
        x = wsignal(A, norm, gi, l, h, S)
        y = sgn * wsignal(B, norm, gi, l, h, S)
        r = Call(bivariate_analysis_full, x, y, j1, j2, normalization=norm, gamint=gi, weighted=w, wt_name='db1', q1=q1, q2=q2, n_cumul=M).value
    rec = base('bi', r)
    rec.update(a=spec_gen(A), b=spec_gen(B), sign=num(sgn), J=J, M=M, q1=enc(q1), q2=enc(q2), lead=lead, _kw=repr((src, b, top, j1, j2, w)))
    if not rec['raised']:
        rec['dwt'], rec['lwt'] = bivar(getattr(r, 'dwt', None)), bivar(getattr(r, 'lwt', None))
    return rec


def spectrum(i):
    """wavelet spectrum and its slope for a signal with exactly scaling Haar coefficients"""
    g = rng('wpsd', i)
    L = gen.lib()
    from pymultifracs.signal import Signal
    top = int(g.integers(6, 9))
    G = wgen(g, top, 'any')
    S = {j: g.choice([-1., 1.], 2 ** (top - j)) for j in range(1, top + 1)}
    x = wsignal(G, 1, .5, int(g.integers(0, 3)), int(g.integers(2, 4)), S)
    fs = float(g.choice([1., 100., 2.5, 512.]))
    log = str(g.choice(['log2', 'log']))
    J = top - 2
    lo = int(g.integers(1, J - 1))
    hi = int(g.integers(lo + 1, J + 1))
    band = (.75 * fs / 2. ** hi * .9, .75 * fs / 2. ** lo * 1.1)
    if i % 2:
        s = Signal(x, fs, log)
        r = call(s.fractal_analysis, 1, band)
        p = s.wt_psd
    else:
        r = call(L.fractal.fractal_analysis, x, fs, 1, band, log)
        p = call(L.psd.wavelet_estimation, x, fs, 1)
    rec = base('psd', r)
    rec.update(g=spec_gen(G), J=J, fs=num(fs), log=log)
    if not rec['raised']:
        rec.update(psd=get(p, 'psd'), freq=get(p, 'freq'), beta=get(r, 'beta'), logC=get(r, 'log_C'))
    return rec
