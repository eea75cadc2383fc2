"""Scenarios for the synthesis functions."""
import numpy as np
from vlib import Raised, call, enc, num, rng


def base(op, prop, *rs):
    bad = [r for r in rs if isinstance(r, Raised)]
    return {'op': op, 'prop': prop, 'raised': bad[0].name if bad else '', '_msg': bad[0].msg if bad else ''}


def simul():
    from pymultifracs.simul import fbm as f, mrw as m
    return f, m


def mods():
    import importlib
    return importlib.import_module('pymultifracs.simul.fbm'), importlib.import_module('pymultifracs.simul.mrw')


def pickH(g):
    return float(g.choice([.1, .3, .5, .7, .8, .9, .95, float(g.uniform(.02, .98))]))


def noise_basis(N, method):
    if method == 'chol':
        return np.eye(N)
    m = 2 * N - 2
    return np.concatenate([np.eye(m), 1j * np.eye(m)], axis=1)


def gram(i):
    F, _ = mods()
    g = rng('gram', i)
    method = ['cme', 'chol'][i % 2]
    N = int(g.integers(2, 21))
    H, sigma = pickH(g), float(g.choice([1., 1., 2., .5, 10.]))
    dt = [None, None, 1., .25, 3., .01][int(g.integers(6))]
    z = noise_basis(N, method)
    kw = dict(sigma=sigma, dt=dt, method=method, z0=z)
    if dt is None and g.random() < .5:
        del kw['dt']
    if sigma == 1 and g.random() < .5:
        del kw['sigma']
    r = call(F.fgn, (N, z.shape[1]), H, **kw)
    return dict(base('gram', 'C22', r), N=N, H=num(H), sigma=num(sigma), dt=num(1 / N if dt is None else dt), method=method,
                basis=z.shape[1], out=enc(None if isinstance(r, Raised) else r))


def gram_large(i):
    """long series: the rows of the matrix at a few times only"""
    F, _ = mods()
    g = rng('gramlarge', i)
    method = ['cme', 'chol'][i % 2]
    N = int(np.exp(g.uniform(np.log(21), np.log(600))))
    if g.random() < .3:
        N = 2 ** int(np.round(np.log2(N))) + int(g.integers(-1, 2))
    H, sigma = pickH(g), float(g.choice([1., 2.5]))
    dt = [None, 1., .25][int(g.integers(3))]
    z = noise_basis(N, method)
    r = call(F.fgn, (N, z.shape[1]), H, sigma=sigma, dt=dt, method=method, z0=z)
    idx = np.unique(np.concatenate([[0, 1, N // 2, N - 2, N - 1], g.integers(0, N, 4)]))
    if not isinstance(r, Raised) and np.shape(r) != (N, z.shape[1]):
        r = np.zeros((0, 0))
    return dict(base('gramlarge', 'C22', r), N=N, H=num(H), sigma=num(sigma), dt=num(1 / N if dt is None else dt), method=method,
                basis=z.shape[1], idx=[int(k) for k in idx], out=enc(None if isinstance(r, Raised) else r[idx] if r.size else r))


def gram_long(i):
    """series of thousands of samples: a few rows of the matrix, from one part of the basis of the noise after another"""
    F, _ = mods()
    g = rng('gramlong', i)
    method = ['cme', 'chol', 'cme'][i % 3]
    N = int(g.integers(1100, 4200)) if method == 'cme' else int(g.integers(601, 1400))
    if g.random() < .4:
        N = 2 ** int(np.log2(N)) + int(g.integers(-1, 2))
    H, sigma, dt = pickH(g), float(g.choice([1., 2.5])), [None, 1., .25][int(g.integers(3))]
    m = 2 * N - 2 if method == 'cme' else N
    idx = np.unique(np.concatenate([[0, 1, N - 1], g.integers(0, N, 2)]))
    rows, bad = [], None
    for c in ((1, 1j) if method == 'cme' else (1,)):
        for k in range(0, m, 1024):
            w = min(1024, m - k)
            z = np.zeros((m, w), complex if method == 'cme' else float)
            z[k + np.arange(w), np.arange(w)] = c
            r = call(F.fgn, (N, w), H, sigma=sigma, dt=dt, method=method, z0=z)
            if isinstance(r, Raised):
                bad = r
                break
            rows.append(np.asarray(r)[idx] if np.shape(r) == (N, w) else np.zeros((len(idx), 0)))
    rec = base('gramlarge', 'C22', *([bad] if bad else []))
    return dict(rec, N=N, H=num(H), sigma=num(sigma), dt=num(1 / N if dt is None else dt), method=method,
                basis=m * (2 if method == 'cme' else 1), idx=[int(k) for k in idx], out=enc(None if bad else np.concatenate(rows, axis=1)))


def sample(i):
    F, _ = mods()
    g = rng('sample', i)
    method = ['cme', 'chol'][i % 2]
    N, R = int(g.integers(3, 9)), 3000
    H, sigma = pickH(g), float(g.choice([1., 3.]))
    dt = [None, 1., .5][int(g.integers(3))]
    np.random.seed(int(g.integers(2 ** 31)))
    r = call(F.fgn, (N, R), H, sigma, dt, method)
    return dict(base('sample', 'C22', r), N=N, R=R, H=num(H), sigma=num(sigma), dt=num(1 / N if dt is None else dt), method=method,
                out=enc(None if isinstance(r, Raised) else r))


def linear(i):
    F, _ = mods()
    g = rng('linear', i)
    method = ['cme', 'chol'][i % 2]
    N, R = int(g.integers(3, 65)), int(g.integers(1, 4))
    m = 2 * N - 2 if method == 'cme' else N
    c = 1j if method == 'cme' else 0
    z1, z2 = (g.normal(size=(m, R)) + c * g.normal(size=(m, R)) for _ in range(2))
    a, b, H = float(g.normal()), float(g.normal()), pickH(g)
    f = lambda z: call(F.fgn, (N, z.shape[1]), H, 2., .5, method, z)
    x, y, xy = f(z1), f(z2), f(a * z1 + b * z2)
    cols = [f(z1[:, k:k + 1]) for k in range(R)]
    rec = dict(base('linear', 'C22', x, y, xy, *cols), a=num(a), b=num(b))
    if not rec['raised']:
        rec.update(x=enc(x), y=enc(y), xy=enc(xy), cols=enc(np.concatenate(cols, axis=1)))
    return rec


def shape(i):
    F, _ = mods()
    g = rng('shape', i)
    method = ['cme', 'chol'][i % 2]
    N, R = int(g.integers(2, 80)), [0, 1, 2, 5][(i // 2) % 4]
    sh = N if R == 0 else (N, R)
    H = pickH(g)
    m = (2 * N - 2) if method == 'cme' else N
    if (i // 8) % 2:
        z = g.normal(size=(m, max(R, 1))) + (1j * g.normal(size=(m, max(R, 1))) if method == 'cme' else 0)
        a, b = call(F.fgn, sh, H, method=method, z0=z), call(F.fbm, sh, H, method=method, z0=z)
    else:
        np.random.seed(i)
        a = call(F.fgn, sh, H, method=method)
        np.random.seed(i)
        b = call(F.fbm, sh, H, method=method)
    rec = dict(base('shape', 'C22', a, b), N=N, R=R)
    if not rec['raised']:
        rec.update(fgn=enc(a), fbm=enc(b))
    return rec


def rejects(i):
    F, M = mods()
    out = []

    def rej(prop, what, f, *a, **k):
        r = call(f, *a, **k)
        out.append({'op': 'reject', 'prop': prop, 'what': what, 'raised': '', 'res': r.name if isinstance(r, Raised) else 'value'})
    for H in (-.1, 1.1, -1e-9, 1 + 1e-9, 7, float('nan')):
        for f in (F.fgn, F.fbm):
            for m in ('cme', 'chol'):
                rej('C22', 'H', f, 16, H, method=m)
        rej('C23', 'mrw.H', M.mrw, 64, H, .2, 16)
        rej('C23', 'mrw.H', M.mrw, (64, 2), H, .2, 16, method='chol')
        rej('C23', 'skewed.H', M.skewed_mrw, 64, H, .2, 16)
    for f in (F.fgn, F.fbm):
        rej('C22', 'method', f, 16, .7, method='xyz')
        rej('C22', 'method', f, (16, 2), .7, 1, None, 'CME')
    for L in (65, 64.5, 1000):
        rej('C23', 'mrw.L', M.mrw, 64, .7, .2, L)
        rej('C23', 'mrw.L', M.mrw, (64, 3), .7, .2, L, method='chol')
        rej('C23', 'mrw_cumul.L', M.mrw_cumul, 64, .7, -.02, L)
        rej('C23', 'skewed.L', M.skewed_mrw, 64, .7, .2, L)
    rej('C23', 'skewed.L.dt', M.skewed_mrw, 64, .7, .2, 40, dt=.5)
    rej('C23', 'mrw.method', M.mrw, 64, .7, .2, 16, method='xyz')
    rej('C23', 'mrw_cumul.H', M.mrw_cumul, 64, 1.3, -.02, 16)
    rej('C23', 'mrw_cumul.H', M.mrw_cumul, 64, .01, -.05, 16)
    # a second cumulant above zero is the one of no process: refused, or nothing finite is returned
    for k in range(4):
        with np.errstate(all='ignore'):
            r = call(M.mrw_cumul, [64, (32, 2)][k % 2], .3, [.04, 1e-9][k // 2], 16)
        some = not isinstance(r, Raised) and bool(np.isfinite(np.asarray(r)).any())
        out.append({'op': 'reject', 'prop': 'C23', 'what': 'mrw_cumul.c2', 'raised': '', 'res': 'value' if some else 'none'})
    return out


def pickL(g, N, lo=2, short=True):
    # up to 1 (no dependence) only for the methods that allow a constant log-volatility
    if g.random() < .2:
        return float(g.choice([.5, .9, 1., 1.5, 1.99] if short else [1.5, 1.99]))
    return float(g.choice([N, int(g.integers(lo, N + 1)), np.round(g.uniform(lo, N), 2)]))


def mrwgram(i):
    F, M = mods()
    g = rng('mrwgram', i)
    method = ['cme', 'chol'][i % 2]
    N = int(g.integers(3, 17)) if i % 10 else int(g.integers(17, 49))
    H, sigma, lam = pickH(g), float(g.choice([1., 2.])), float(g.choice([.1, .3, .5]))
    L = pickL(g, N, short=method == 'cme')
    B = noise_basis(N, method)
    zw = np.concatenate([B, np.zeros((B.shape[0], 1))], axis=1)
    R = zw.shape[1]
    ze = g.normal(size=(B.shape[0], R)) + (1j * g.normal(size=(B.shape[0], R)) if method == 'cme' else 0)
    e = call(F.fgn, (N, R), H, sigma, None, method, ze)
    kw = dict(sigma=sigma, method=method)
    if sigma == 1 and i % 3 == 0:
        del kw['sigma']
    r = call(M.mrw, (N, R), H, lam, L, z0=(ze, zw), **kw)
    rec = dict(base('mrwgram', 'C23', e, r), N=N, basis=R - 1, lam=num(lam), L=num(L), method=method)
    if not rec['raised']:
        rec.update(e=enc(e), out=enc(r))
    return rec


def mrwlong(i):
    """as mrwgram, hundreds of samples: a few rows"""
    F, M = mods()
    g = rng('mrwlong', i)
    method = ['cme', 'chol'][i % 2]
    N = int(g.integers(100, 700)) if method == 'cme' else int(g.integers(100, 900))
    if g.random() < .4:
        N = 2 ** int(np.log2(N)) + int(g.integers(-1, 2))
    H, sigma, lam = pickH(g), float(g.choice([1., 2.])), float(g.choice([.1, .3]))
    L = pickL(g, N, short=method == 'cme')
    B = noise_basis(N, method)
    zw = np.concatenate([B, np.zeros((B.shape[0], 1))], axis=1)
    R = zw.shape[1]
    ze = g.normal(size=(B.shape[0], R)) + (1j * g.normal(size=(B.shape[0], R)) if method == 'cme' else 0)
    e = call(F.fgn, (N, R), H, sigma, None, method, ze)
    r = call(M.mrw, (N, R), H, lam, L, z0=(ze, zw), sigma=sigma, method=method)
    rec = dict(base('mrwlong', 'C23', e, r), N=N, basis=R - 1, lam=num(lam), L=num(L), method=method)
    if not rec['raised']:
        e, r = np.asarray(e), np.asarray(r)
        ok = e.shape == r.shape == (N, R)
        idx = np.unique(np.concatenate([[0, 1, N - 1], g.integers(0, N, 2)]))
        rec.update(idx=[int(k) for k in idx], e=enc(e[idx] if ok else np.zeros(0)), out=enc(r[idx] if ok else np.zeros(0)),
                   before=enc(np.concatenate([np.zeros((1, R)), r])[idx] if ok else np.zeros(0)))
    return rec


def volsample(i):
    """noise drawn by the library"""
    F, M = mods()
    g = rng('volsample', i)
    N, R = int(g.integers(3, 8)), 1500
    H, lam = pickH(g), float(g.choice([.2, .4]))
    if i % 2:
        L = pickL(g, N)
        ze = g.normal(size=(2 * N - 2, R)) + 1j * g.normal(size=(2 * N - 2, R))
        e = call(F.fgn, (N, R), H, z0=ze)
        np.random.seed(i)
        r = call(M.mrw, (N, R), H, lam, L, z0=(ze, None))
        rec = dict(base('volsample', 'C23', e, r), src='mrw', N=N, R=R, lam=num(lam), L=num(L), r=num(.5))
    else:
        dt = [1, .5, 2.][(i // 2) % 3]
        L = pickL(g, N) * dt
        np.random.seed(i)
        p = call(M.skewed_mrw, (N, R), H, 0.0, L, 0, 1, 1, dt)
        np.random.seed(i)
        r = call(M.skewed_mrw, (N, R), H, lam, L, 0, 1, 1, dt)
        e = p if isinstance(p, Raised) else np.diff(p, axis=0, prepend=np.zeros((1, R)))
        rec = dict(base('volsample', 'C23', p, r), src='skewed', N=N, R=R, lam=num(lam), L=num(L / dt), r=num(1.))
    if not rec['raised']:
        rec.update(e=enc(e), out=enc(r))
    return rec


def same(i):
    F, M = mods()
    g = rng('simsame', i)
    N, R = int(g.integers(4, 65)), [0, 1, 3][i % 3]
    sh = N if R == 0 else (N, R)
    method = ['cme', 'chol'][(i // 3) % 2]
    L, H = pickL(g, N, short=method == 'cme'), pickH(g)
    kw = {}
    if i % 4:
        kw['sigma'] = 3.
    if method == 'chol' or i % 4 == 2:
        kw['method'] = method
    m = (2 * N - 2) if method == 'cme' else N
    if (i // 2) % 2:
        kw['z0'] = tuple(g.normal(size=(m, max(R, 1))) + (1j * g.normal(size=(m, max(R, 1))) if method == 'cme' else 0) for _ in range(2))
    c2 = -float(g.choice([.01, .05, .1]))
    c1 = float(g.uniform(-c2, 1))
    np.random.seed(i)
    a = call(M.mrw_cumul, sh, c1, c2, L, **kw)
    np.random.seed(i)
    b = call(M.mrw, sh, c1 + c2, np.sqrt(-c2), L, **kw)
    out = [dict(base('same', 'C23', a, b), what='mrw_cumul', a=enc(None if isinstance(a, Raised) else a),
                b=enc(None if isinstance(b, Raised) else b))]
    if not isinstance(a, Raised):
        out.append({'op': 'same', 'prop': 'C23', 'raised': '', 'what': 'mrw.shape', 'a': enc(np.array(a.shape)),
                    'b': enc(np.array([N] if R == 0 else [N, R]))})
    if method == 'cme':
        # no intermittency: the walk is a fBm with the same noise
        z = [g.normal(size=(2 * N - 2, max(R, 1))) + 1j * g.normal(size=(2 * N - 2, max(R, 1))) for _ in range(2)]
        a, b = call(M.mrw, sh, H, 0., L, z0=(z[0], z[1])), call(F.fbm, sh, H, z0=z[0])
        out.append(dict(base('same', 'C23', a, b), what='mrw.lam0', a=enc(None if isinstance(a, Raised) else a),
                        b=enc(None if isinstance(b, Raised) else b)))
        # a realisation depends on its own noise only
        if R > 1:
            a = call(M.mrw, sh, H, .3, L, z0=(z[0], z[1]))
            k = int(g.integers(R))
            b = call(M.mrw, (N, 1), H, .3, L, z0=(z[0][:, k:k + 1], z[1][:, k:k + 1]))
            out.append(dict(base('same', 'C23', a, b), what='mrw.columns', a=enc(None if isinstance(a, Raised) else a[:, k:k + 1]),
                            b=enc(None if isinstance(b, Raised) else b)))
    return out


def skew(i):
    _, M = mods()
    g = rng('skew', i)
    N, R = int(g.integers(3, 9)), [0, 1, 2, 3][i % 4]
    sh = N if R == 0 else (N, R)
    flat = bool(i % 3)
    dt = float(g.choice([1., .5, 2.]))
    H, sigma = pickH(g), float(g.choice([1., .5]))
    lam, L = (0., dt) if flat else (.3, dt * pickL(g, N))
    beta = float(g.choice([1., .5, 0., 2.]))
    K0, K0b = float(g.choice([.3, .5, 1.])), float(g.choice([.2, .7]))
    al, alb = float(g.choice([1., .5, .2])), float(g.choice([.7, 1.3]))

    def run(K, a, mirror=False):
        np.random.seed(1000 + i)
        return call(M.skewed_mrw, sh, H, lam, L, K, a, sigma, dt, beta, mirror)
    p, one, two, mir = run(0, 1.), run(K0, al), run(K0b, alb), run(K0, al, True)
    rec = dict(base('skew', 'C23', p, one, two, mir), N=N, R=max(R, 1), flat=flat, K0=num(K0), K0b=num(K0b), alpha=num(al),
               alphab=num(alb), dt=num(dt), beta=num(beta), H=num(H), sigma=num(sigma))
    if rec['raised']:
        return rec
    if not (isinstance(mir, tuple) and len(mir) == 2):
        rec['raised'] = 'mirror'
        return rec
    shp = [{'op': 'same', 'prop': 'C23', 'raised': '', 'what': 'skewed.shape', 'a': enc(np.array(np.shape(x))),
            'b': enc(np.array([N] if R == 0 else [N, R]))} for x in (p, one, mir[0], mir[1])]
    col = lambda x: enc(np.reshape(x, (N, -1)))
    rec.update(plain=col(p), one=col(one), two=col(two), mirror=col(mir[1]))
    shp.append({'op': 'same', 'prop': 'C23', 'raised': '', 'what': 'skewed.mirror.first', 'a': enc(mir[0]), 'b': enc(one)})
    return [rec] + shp


def skewconv(i):
    _, M = mods()
    g = rng('skewconv', i)
    N, R = int(g.integers(1, 20)), int(g.integers(1, 4))
    e = g.normal(size=(2 * N, R))
    K0, al, be, dt = float(g.choice([1., .3])), float(g.choice([1., .5, 2.])), float(g.choice([1., 0., .5])), float(g.choice([1., 2., .1]))
    out = []
    # the direct variant receives the N last values; before them nothing happened
    for what, f, x, e in (('convolution', M.skewness_convolution, e, e),
                          ('convolution.direct', M.skewness_convolution_dumb, e[N:], np.concatenate([0 * e[N:], e[N:]]))):
        r = call(f, x, K0, al, be, dt)
        out.append(dict(base('skewconv', 'C23', r), what=what, N=N, R=R, e=enc(e), K0=num(K0), alpha=num(al), beta=num(be), dt=num(dt),
                        out=enc(None if isinstance(r, Raised) else r)))
    return out


def field(i):
    _, M = mods()
    g = rng('field', i)
    n, R = [4, 5, 6, 7, 8, 3][i % 6], [0, 1, 2][(i // 6) % 3]
    H, lam = pickH(g), float(g.choice([.1, .4]))
    np.random.seed(i)
    r = call(M.mrw2D, n if R == 0 else (n, R), H, lam, float(g.choice([2., 3.5, n])))
    rec = dict(base('field', 'C23', r), N=n + n % 2, R=max(R, 1), H=num(H))
    if not rec['raised']:
        if not (isinstance(r, tuple) and len(r) == 2):
            rec['raised'] = 'shape'
        else:
            rec.update(B=enc(r[0]), X=enc(r[1]))
    return rec


def fieldsample(i):
    """the field drawn many times: its log-volatility"""
    _, M = mods()
    g = rng('fieldsample', i)
    N, R = [4, 4, 6, 4][i % 4], 3000
    lam, sigma = float(g.choice([.5, .8, 1.])), float(g.choice([1., 1., .5, 3.]))
    L = float(g.choice([N, 3., 2.5, float(np.round(g.uniform(2, N), 2))]))
    kw = {} if sigma == 1 and i % 2 else {'sigma': sigma}
    H = pickH(g)
    np.random.seed(i)
    r = call(M.mrw2D, (N, R), H, lam, L, **kw)
    rec = dict(base('fieldsample', 'C23', r), N=N, R=R, lam=num(lam), L=num(L), sigma=num(sigma))
    if not rec['raised']:
        if not (isinstance(r, tuple) and len(r) == 2):
            rec['raised'] = 'shape'
        else:
            rec.update(X=enc(r[1]))
    return rec
