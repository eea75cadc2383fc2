"""Scenarios for wavelet_analysis (Trace_Cascade)."""
import numpy as np
import gen
from vlib import Call, Raised, call, enc, enc_mrq, get, num, rng, NONE, exc

WAVELETS = ['db1', 'db2', 'db3', 'db4', 'db5', 'db6', 'db8', 'db10', 'sym4', 'sym5', 'coif1', 'coif2', 'haar', 'sym8',
            'bior2.2', 'bior3.1', 'dmey']


def any_wavelet(g):
    import pywt
    pool = [w for w in pywt.wavelist(kind='discrete') if pywt.Wavelet(w).dec_len <= 44]
    return str(g.choice(pool))


P_POOL = [2, 1, 0.5, 4, 3, 1.5, 2.0, 0.25, 8, 6, 5, 0.7, 10.0, 2.5, 3.5, 7, 1.25, 3.7, 9]


def make_signal(g, n, R, kind):
    if kind == 'noise':
        x = g.normal(size=(n, R))
    elif kind == 'walk':
        x = np.cumsum(g.normal(size=(n, R)), axis=0)
    elif kind == 'mixed':
        x = g.normal(size=(n, R)) * 10. ** g.uniform(-4, 4, R)
    elif kind == 'int':
        x = g.integers(-3, 4, (n, R)).astype(float)
    elif kind == 'steps':                            # plateaus: many exact zeros and ties
        x = np.repeat(g.integers(-2, 3, (n // 16 + 1, R)), 16, axis=0)[:n].astype(float)
    elif kind == 'dyadic':                           # magnitudes that are exact powers of two
        x = 2. ** g.integers(-6, 7, (n, R)) * g.choice([-1., 1.], (n, R))
    elif kind == 'spike':
        x = 1e-3 * g.normal(size=(n, R))
        for r in range(R):
            x[g.integers(0, n, 3), r] += g.normal(0, 50, 3)
    else:
        t = np.linspace(-1, 1, n)[:, None]
        x = g.normal(size=(n, R)) + 20 * t + 5 * t ** 2
    return x


def gaps(g, x, kind):
    n, R = x.shape
    for r in range(R):
        k = kind if kind != 'some' else str(g.choice(['none', 'one', 'gap', 'many']))
        if k == 'one':
            x[g.integers(0, n), r] = np.nan
        elif k == 'gap':
            a = int(g.integers(0, n))
            x[a:a + int(g.integers(1, max(2, n // 6))), r] = np.nan
        elif k == 'many':
            x[g.integers(0, n, int(g.integers(2, 6))), r] = np.nan
        elif k == 'edge':
            x[:int(g.integers(0, 5)), r] = np.nan
            x[n - int(g.integers(1, 5)):, r] = np.nan
    return x


def record(x, one_d=False, p_exp=None, wt_name='db3', j1=1, j2=10, gamint=0.0, normalization=1, weighted=True,
           copy=True):
    import pywt
    L = gen.lib()
    w = pywt.Wavelet(wt_name)
    kw = dict(p_exp=p_exp, wt_name=wt_name, j1=j1, j2=j2, gamint=gamint, normalization=normalization,
              weighted=weighted)
    arg = x[:, 0] if one_d else x
    c = Call(L.wavelet_analysis, arg.copy() if copy else arg, **kw)
    o = c.value
    rec = {'op': 'wavelet', 'raised': o.name if isinstance(o, Raised) else '', '_msg': getattr(o, 'msg', ''),
           'n': int(x.shape[0]), 'R': int(x.shape[1]), 'hi': [num(v) for v in w.dec_hi],
           'lo': [num(v) for v in w.dec_lo], 'signal': enc(x),
           'form': 'wavelet coef' if p_exp is None else 'wavelet leader' if np.isinf(p_exp) else 'wavelet p-leader',
           'p': num(2.0 if p_exp is None else p_exp), 'norm': num(normalization), 'gamint': num(gamint),
           'j1': int(j1), 'j2': 'none' if j2 is None else num(j2), 'weighted': bool(weighted),
           'userwarnings': c.warnings.count('UserWarning'), 'dlevel': enc(call(L.wavelet.decomposition_level, x.shape[0], wt_name)),
           '_kw': repr(kw)}
    if rec['raised']:
        rec['out'] = {'coefs': enc_mrq(o), 'leaders': enc_mrq(o), 'j2_eff': exc('x'), 'eta': exc('x')}
    else:
        rec['out'] = {'coefs': enc_mrq(getattr(o, 'wt_coefs', None)), 'leaders': enc_mrq(getattr(o, 'wt_leaders', None)),
                      'j2_eff': get(o, 'j2_eff'), 'eta': get(o, 'eta_p')}
    return rec


def levels(n, wt_name):
    import pywt
    L = pywt.Wavelet(wt_name).dec_len
    k = 0
    while (L + 1) * 2 ** (k + 1) <= n:
        k += 1
    return k if n >= L + 1 else -1


def scales_available(x, wt_name, leaders):
    """The scales the analysis will report, from the masks alone (mirror of Cascade, only used to
    choose j1, j2 inside of the domain)."""
    import pywt
    L = pywt.Wavelet(wt_name).dec_len
    c = (L - 1) // 2
    J = levels(x.shape[0], wt_name)
    v = ~np.isnan(x)
    sv = None
    for j in range(1, J + 1):
        n = v.shape[0]
        o = np.zeros((n, v.shape[1]), bool)
        for k in range(L - 1, n - L + 1):
            o[k] = v[max(0, k + c - L + 1):k + c + 1].all(axis=0)
        v = o[1::2]
        if v.sum(0).min() < 3:
            return j - 1
        if leaders:
            sv = v if sv is None else v | sv[0:2 * len(v):2] | sv[1:2 * len(v):2]
            ld = sv[:-2] | sv[1:-1] | sv[2:]
            if ld.sum(0).min() < 3:
                return j - 1
    return max(J, 0)


def general(i, forms=('coef', 'leader', 'p'), nmax=1600, tag='wav', gapfree=False):
    g = rng(tag, i)
    form = forms[i % len(forms)]
    wt = str(g.choice(WAVELETS[:-1] if g.random() < .97 else WAVELETS))
    if g.random() < .25:
        wt = any_wavelet(g)
    for _ in range(50):
        import pywt
        L = pywt.Wavelet(wt).dec_len
        n = int(np.exp(g.uniform(np.log(L + 1), np.log(max(nmax, 4 * L)))))
        if g.random() < .15:                         # around the level boundaries
            k = int(g.integers(1, 6))
            n = (L + 1) * 2 ** k + int(g.integers(-1, 2))
        R = int(g.choice([1, 1, 2, 3])) if g.random() < .92 else int(g.integers(4, 9))
        wide = form != 'p' and L <= 12 and g.random() < .06
        if wide:                                     # more realisations than samples
            n = int(g.integers(2 * (L + 1), 2 * (L + 1) + 16))
            R = n + int(g.integers(1, 12))
        if (n * R > nmax * 1.5 and not wide) or n < L + 1:
            continue
        x = make_signal(g, n, R, str(g.choice(['noise', 'walk', 'mixed', 'int', 'spike', 'trend', 'steps', 'dyadic'])))
        if g.random() < .12:                         # units: very small or very large amplitudes
            x = x * 10. ** (g.uniform(-18, 18) if form != 'p' else g.uniform(-9, 9))
        if not gapfree:
            x = gaps(g, x, str(g.choice(['none', 'none', 'none', 'some', 'one', 'gap', 'edge'])))
        if form != 'p':
            break
        J = scales_available(x, wt, True)
        if J >= 2:
            break
    p_exp = None if form == 'coef' else np.inf if form == 'leader' else \
        P_POOL[int(g.integers(len(P_POOL)))] if g.random() < .8 else round(float(np.exp(g.uniform(-1.5, 2.3))), 2)
    j1, j2 = 1, [10, None, 3, 2.5, 4.0, 2, 1, 12, 0, np.int64(3), np.float32(3.5)][int(g.integers(11))]
    if form == 'p':
        J = scales_available(x, wt, True)
        j2 = [10, None, J, J - .5 if J > 2 else J, J + 1, max(2, J - 1)][int(g.integers(6))]
        e = J if j2 is None else int(min(J, j2))
        j1 = int(g.integers(1, e)) if e > 1 else 1
    return record(x, one_d=R == 1 and bool(g.integers(2)), p_exp=p_exp, wt_name=wt, j1=j1, j2=j2,
                  gamint=float(g.choice([0, 0, .5, 1, 1.5, -.5, .25, 2, -2.5, 3.5, -1.25])),
                  normalization=[1, 1, 2, 0.5, 1.5, np.inf, 3][int(g.integers(7))], weighted=bool(g.integers(2)))


def coef_only(i, nmax=1600):
    return general(i, ('coef',), nmax, 'coef')


def leaders(i, nmax=1600):
    return general(i, ('leader',), nmax, 'leader')


def pleaders(i, nmax=1600):
    return general(i, ('p',), nmax, 'pleader')


def large(i):
    """many scales: single realisation of a few thousand samples"""
    g = rng('large', i)
    n = int(g.integers(1500, 3000))
    wt = str(g.choice(['db1', 'db2', 'db3', 'db4']))
    x = make_signal(g, n, 1, 'walk' if i % 2 else 'noise')
    if i % 3 == 2:
        x = gaps(g, x, 'one')
    p = [None, np.inf, 2, 1][i % 4]
    return record(x, one_d=bool(i % 2), p_exp=p, wt_name=wt, j1=2, j2=[None, 10, 7][i % 3],
                  gamint=[0.0, 0.5][i % 2])


def long(i, forms=(None, np.inf, 2, 1)):
    """long records (several tens of thousands of samples), with and without missing values"""
    g = rng('long', i)
    n = int(np.exp(g.uniform(np.log(3000), np.log(40000))))
    wt = str(g.choice(['db1', 'db2', 'db3', 'db4', 'sym4', 'coif1']))
    x = make_signal(g, n, 1, str(g.choice(['noise', 'walk', 'spike'])))
    x = gaps(g, x, str(g.choice(['none', 'one', 'gap', 'many', 'edge'])))
    return record(x, one_d=bool(i % 2), p_exp=forms[i % len(forms)], wt_name=wt, j1=int(g.integers(1, 4)),
                  j2=[None, 10, 7][i % 3], gamint=[0.0, 0.5, 1.0][int(g.integers(3))])


def layouts(i, forms=('coef', 'leader', 'p')):
    """the same kind of signal as another array type: integers, single precision, other strides, read-only"""
    g = rng('layout', i)
    n, R = int(g.integers(200, 500)), int(g.integers(1, 4))
    form = forms[i % len(forms)]
    p = None if form == 'coef' else np.inf if form == 'leader' else [2, 1, 3][int(g.integers(3))]
    kind = ['int16', 'int64', 'int32', 'float32', 'fortran', 'strided', 'readonly', 'reversed', 'uint8', 'bool',
            'bigendian'][int(g.integers(11))]
    x = np.round(make_signal(g, n, R, 'walk') * 8)
    y = {'int16': lambda: x.astype(np.int16), 'int64': lambda: x.astype(np.int64), 'int32': lambda: x.astype(np.int32),
         'float32': lambda: x.astype(np.float32), 'fortran': lambda: np.asfortranarray(x),
         'strided': lambda: np.repeat(np.repeat(x, 3, axis=0), 2, axis=1)[::3, ::2],
         'readonly': lambda: x.copy(), 'reversed': lambda: x[::-1].copy()[::-1],
         'uint8': lambda: (x % 256).astype(np.uint8), 'bool': lambda: x > np.median(x),
         'bigendian': lambda: x.astype('>f8')}[kind]()
    if kind == 'readonly':
        y.setflags(write=False)
    r = record(y, one_d=R == 1 and bool(g.integers(2)), p_exp=p, wt_name=str(g.choice(['db2', 'db3', 'sym4'])),
               j1=1, j2=[None, 10, 3][int(g.integers(3))], gamint=float(g.choice([0, .5, 1])),
               normalization=[1, 2, .5][int(g.integers(3))], weighted=bool(g.integers(2)), copy=False)
    r['_kw'] += ' ' + kind
    return r


def polynomial(i):
    """polynomials of degree < number of vanishing moments: no detail at any scale"""
    g = rng('poly', i)
    nm = int(g.integers(1, 8))
    n = int(g.integers(150, 400))
    t = np.linspace(-1, 1, n)[:, None]
    x = sum(g.normal() * 10 * t ** k for k in range(nm)) + np.zeros((n, 1))
    r = record(x, wt_name=f'db{nm}', j2=None)
    r['op'] = 'polynomial'
    return r


def boundary_lengths(i):
    """all lengths around the level and count boundaries of one wavelet"""
    wt = ['db1', 'db2', 'db3', 'db5', 'sym4', 'db8'][i % 6]
    import pywt
    L = pywt.Wavelet(wt).dec_len
    g = rng('bl', i)
    out = []
    for n in [L + 1, L + 2, 2 * L, 2 * L + 1, 3 * L, 3 * L + 3] + [(L + 1) * 2 ** k + d for k in (1, 2, 3, 4) for d in (-1, 0, 1)]:
        if L + 1 <= n < 260:
            x = g.normal(size=(n, 1))
            for p in (None, np.inf):
                out.append(record(x, p_exp=p, wt_name=wt, j2=[None, 10, 2][int(g.integers(3))]))
            if scales_available(x, wt, True) >= 2:
                out.append(record(x, p_exp=2, wt_name=wt, j2=None))
    return out
