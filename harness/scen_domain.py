"""Executes the request classes of Domain.tla on the real functions."""
import importlib
import json
import re
import numpy as np
import gen
import vlib
from scen_wavelet import gaps, levels, make_signal, scales_available
from vlib import Call, Raised, call, enc, num, rng


def requests():
    code, out, g, d = vlib.run_tlc('Gen_Domain')
    reqs = []
    for line in out.splitlines():
        m = re.match(r'^"REQ (.*)"$', line)
        if m:
            reqs.append(json.loads(m.group(1).replace('\\"', '"')))
    if code or not reqs:
        raise vlib.MachineryError('Gen_Domain: ' + out[-2000:])
    return sorted(reqs, key=lambda c: json.dumps(c, sort_keys=True)), g, d


def rec(r, c, **facts):
    w = [x for x in c.warnings if 'Deprecation' not in x and x != 'FutureWarning']
    return {'op': 'domain', 'req': r, 'raised': c.value.name if isinstance(c.value, Raised) else '', 'warns': w,
            'facts': facts, '_msg': getattr(c.value, 'msg', ''), '_wmsg': c.wmsg[:4]}


def simul():
    return importlib.import_module('pymultifracs.simul.fbm'), importlib.import_module('pymultifracs.simul.mrw')


def H_of(g, h):
    return {'neg': -float(g.choice([.5, 1., 3.])), 'justneg': -float(g.choice([1e-9, 1e-3])), 'zero': [0, 0.][int(g.integers(2))],
            'low': float(g.uniform(.05, .45)), 'half': .5, 'high': float(g.uniform(.55, .95)), 'one': [1, 1.][int(g.integers(2))],
            'justabove': 1 + float(g.choice([1e-9, 1e-3])), 'above': float(g.choice([1.5, 2., 10.])), 'nan': np.nan}[h]


def L_of(g, c, N):
    return {'one': 1, 'short': int(g.integers(2, N)), 'equal': N, 'justabove': N + float(g.choice([1e-6, .5, 1.])),
            'above': N + int(g.integers(1, 5)), 'twice': 2 * N}[c]


METH = {'cme': 'cme', 'chol': 'chol', 'unknown': 'davies', 'upper': 'CME', 'empty': ''}


def do(r, key):
    return globals()['do_' + r['op'].split('_')[0]](r, rng('domain', json.dumps(r, sort_keys=True), key))


def chunk(reqs, key):
    out = []
    for r in reqs:
        x = do(r, key)
        x['_scenario'] = f'{r!r} #{key}'
        out.append(x)
    return out


def do_mrq(r, g):
    name = None if r['name'] == 'none' else r['name']
    return rec(r, Call(gen.lib().MRQ, name, float(g.choice([0., .5, 1.]))))


def do_qlog(r, g):
    v = lambda s: {'neg': -float(g.uniform(.01, 5)), 'zero': [0, 0., -0.][int(g.integers(3))], 'pos': float(g.uniform(.3, 8)),
                   'tiny': float(g.choice([1e-12, 1e-3]))}[s]
    return rec(r, Call(gen.lib().utils.build_q_log, v(r['lo']), v(r['hi']), 1 if r['n'] == 'one' else int(g.integers(2, 20))))


def do_fgn(r, g):
    F, _ = simul()
    N = int(g.integers(4, 65))
    kw = {'method': METH[r['method']]}
    if r['method'] == 'cme' and g.random() < .5:
        kw = {}
    if g.random() < .5:
        kw['sigma'] = float(g.choice([1., 2., .5]))
    return rec(r, Call(getattr(F, r['op']), N if r['shape'] == 'int' else (N, int(g.integers(1, 4))), H_of(g, r['H']), **kw))


do_fbm = do_fgn


def do_mrw(r, g):
    _, M = simul()
    N = int(g.integers(8, 65))
    shape = N if r['shape'] == 'int' else (N, int(g.integers(1, 4)))
    kw = {'method': METH[r['method']]}
    if r['method'] == 'cme' and g.random() < .5:
        kw = {}
    H, L, lam = H_of(g, r['H']), L_of(g, r['L'], N), float(g.choice([.1, .3]))
    if r['op'] == 'mrw':
        return rec(r, Call(M.mrw, shape, H, lam, L, **kw))
    c2 = -lam ** 2
    c1 = H - c2
    if H in (0., 1.) and c1 + c2 != H:                # keep the sum on the boundary exactly
        c2 = -.25
        c1 = H + .25
    return rec(r, Call(M.mrw_cumul, shape, c1, c2, L, **kw))


def do_skewed(r, g):
    _, M = simul()
    N = int(g.integers(8, 65))
    shape = N if r['shape'] == 'int' else (N, int(g.integers(1, 4)))
    dt = 1 if r['dt'] == 'one' else .5
    kw = {} if dt == 1 and g.random() < .5 else {'dt': dt}
    return rec(r, Call(M.skewed_mrw, shape, H_of(g, r['H']), float(g.choice([.1, .3])), L_of(g, r['L'], N) * dt, K0=.1,
                       do_mirror=r['mirror'], **kw))


def do_wavelet(r, g):
    L = gen.lib()
    wt = str(g.choice(['db1', 'db2', 'db3', 'sym4']))
    if r['size'] != 'long':
        import pywt
        n1 = pywt.Wavelet(wt).dec_len + 1
        n = int(g.integers(n1, 2 * n1)) if r['size'] == 'short' else int(g.integers(1, n1))
        x = make_signal(g, n, int(g.integers(1, 3)), 'noise')
        M = int(np.floor(np.log2(n / n1)))
    for _ in range(400) if r['size'] == 'long' else ():
        R = 2 if r['eta'] == 'some' else int(g.integers(1, 3))
        n = int(g.integers(60, 700))
        if r['eta'] == 'some':
            x = np.stack([make_signal(g, n, 1, 'noise')[:, 0], make_signal(g, n, 1, 'walk')[:, 0]], axis=1)
        elif r['eta'] == 'neg':
            x = np.diff(make_signal(g, n + 1, R, 'noise'), axis=0)
        elif r['eta'] == 'pos':
            x = np.cumsum(make_signal(g, n, R, 'walk'), axis=0)
        else:
            x = make_signal(g, n, R, str(g.choice(['noise', 'walk'])))
        if r['gap']:
            x = gaps(g, x, str(g.choice(['one', 'gap'])))
        M, J = levels(n, wt), scales_available(x, wt, True)
        if J >= 3:
            break
    else:
        if r['size'] == 'long':
            raise AssertionError('no signal')
    R = x.shape[1]
    J = 3 if r['size'] != 'long' else J
    top = M if r['size'] == 'long' else 0
    j2 = {'none': None, 'below': int(g.integers(2, max(3, min(J, M - 1) + 1))), 'at': M, 'above1': top + 1, 'above': top + int(g.integers(2, 9)),
          'float_at': float(M), 'float_above': top + float(g.choice([.5, 1., .25]))}[r['j2']]
    if r['j2'] == 'below' and M <= 2:
        j2 = M
    p = {'none': None, 'inf': np.inf, 'finite': [2, 1, .5, 4.][int(g.integers(4))]}[r['p']]
    c = Call(L.wavelet_analysis, x[:, 0] if R == 1 and g.random() < .5 else x, p_exp=p, wt_name=wt, j1=1, j2=j2, weighted=bool(g.integers(2)))
    o = c.value
    ok = not isinstance(o, Raised)
    return rec(r, c, eta=enc(getattr(o, 'eta_p', None)), j2_eff=enc(getattr(o, 'j2_eff', None) if ok else None),
               j2='Infinity' if j2 is None else num(j2), M=num(M))


def quantity(g, sign):
    """a quantity whose suprema decay (neg), are constant (zero) or grow (pos) with the scale"""
    R, J = int(g.integers(1, 4)), int(g.integers(3, 7))
    if sign == 'someneg':
        R = int(g.integers(2, 4))
    e = {'neg': -np.ones(R), 'zero': np.zeros(R), 'pos': np.ones(R), 'someneg': np.where(np.arange(R) == g.integers(R), -1., 1.)}[sign]
    vals = []
    for j in range(J):
        v = g.uniform(-1, 1, (80 >> j if j < 4 else 5, R))
        v[int(g.integers(len(v)))] = g.choice([-1., 1.])
        vals.append(v * 2. ** (j * e * float(g.uniform(.3, 1) if sign != 'zero' else 0)))
    if sign != 'zero' and g.random() < .5:
        for v in vals:
            k = np.nanargmin(np.abs(v[:, 0]))
            v[k, 0] = np.nan
    return gen.make_mrq(vals, str(g.choice(['wavelet coef', 'wavelet leader']))), J


def do_hmin(r, g):
    import matplotlib.pyplot as plt
    L = gen.lib()
    w = r['weighted']
    tag = {'_known': 'negative-silent'} if r['sign'] in ('neg', 'someneg') and r['warn'] != 'no' else {}
    if r['via'] in ('mf', 'full', 'Signal'):
        for _ in range(100):
            n = int(g.integers(200, 700))
            x = make_signal(g, n, 1, 'noise')
            x = np.diff(x, axis=0) if r['sign'] == 'neg' else np.cumsum(np.cumsum(x, axis=0), axis=0)
            p = [None, np.inf][int(g.integers(2))]
            t = L.wavelet_analysis(x, p, 'db3', 1, 4)
            ms = [m for m in (t.wt_coefs, t.wt_leaders) if m is not None]
            h = [call(L.estimate_hmin, m, 1, t.j2_eff, w, warn=False) for m in ms]
            if any(isinstance(v, Raised) for v in h) or all((np.min(v[0]) < 0) == (r['sign'] == 'neg') for v in h):
                break
        if r['via'] == 'mf':
            c = Call(L.mfa.mf_analysis, t.wt_coefs, t.wt_leaders, t.j2_eff, 1, w, 2, [2])
        elif r['via'] == 'full':
            c = Call(L.mfa.mf_analysis_full, x, 1, 4, weighted=w, p_exp=p)
        else:
            from pymultifracs.signal import Signal
            c = Call(Signal(x, 10.).mf_analysis_full, 1, 4, 1, 0., w, 'db3', p)
        if isinstance(c.value, Raised):
            return dict(rec(r, c, values=[]), **tag)
        return dict(rec(r, c, values=[enc(v.hmin) for v in c.value if v is not None]), **tag)
    m, J = quantity(g, r['sign'])
    kw = {'default': {}, 'yes': {'warn': True}, 'no': {'warn': False}}[r['warn']]
    if r['via'] == 'plot':
        ref = call(L.estimate_hmin, m, 1, J, w, warn=False)
        c = Call(L.estimation.plot_hmin, m, 1, J, w, **kw)
        plt.close('all')
        # what matplotlib's non-interactive backend says about show() is not the library's
        keep = [i for i, s in enumerate(c.wmsg) if 'non-interactive' not in s and 'cannot be shown' not in s]
        c.warnings, c.wmsg = [c.warnings[i] for i in keep], [c.wmsg[i] for i in keep]
        vals = [] if isinstance(ref, Raised) else [enc(ref[0])]
    else:
        if r['via'] == 'return_y':
            kw['return_y'] = True
        c = Call(L.estimate_hmin, m, 1, J, w, **kw)
        vals = [] if isinstance(c.value, Raised) else [enc(c.value[0])]
    return dict(rec(r, c, values=vals), **tag)


def do_signal(r, g):
    from pymultifracs.signal import Signal
    n = int(g.integers(300, 600))
    s = Signal(np.cumsum(np.cumsum(g.normal(size=n))), 10.)
    b = r['before']
    if b == 'psd':
        call(s.estimate_wavelet_psd)
        call(s.estimate_welch_psd, 64)
    elif b == 'fractal':
        call(s.fractal_analysis)
    elif b == 'failed':
        call(s.wavelet_analysis, 1, 4, 1, 0., True, 'nosuchwavelet', None)
    elif b == 'wavelet':
        call(s.wavelet_analysis, 1, 4, 1, 0., True, 'db2', [None, np.inf][int(g.integers(2))])
    args = ([2], 2) if r['est'] == 'mf_analysis' else ()
    return rec(r, Call(getattr(s, r['est']), *args))


def do_analysis(r, g):
    from pymultifracs.signal import Signal
    from pymultifracs.bivariate import bivariate_analysis, bivariate_analysis_full
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction
    L = gen.lib()
    fn, w = r['fn'], r['weighted']
    R = 1 if fn in ('bi', 'bifull', 'welch', 'fractal', 'beta', 'signal') else r['R']
    p = {'none': None, 'inf': np.inf, 'finite': [2, 1, .5][int(g.integers(3))]}[r['p']]
    wt = str(g.choice(['db2', 'db3']))
    for _ in range(300):
        n = int(g.integers(250, 700))
        x = np.cumsum(make_signal(g, n, R, 'walk'), axis=0) * 10. ** float(g.uniform(-3, 3))
        y = np.cumsum(make_signal(g, n, R, 'walk'), axis=0)
        if r['gap'] and fn not in ('welch',):
            k = int(g.integers(0, n - 10))
            x[k:k + int(g.integers(1, 9))] = np.nan
            y[np.isnan(x)] = np.nan
        J = min(scales_available(x, wt, True), levels(n, wt))
        if J >= 3:
            t = call(L.wavelet_analysis, x, p, wt, 1, J, 0., 1, w)
            if isinstance(t, Raised):
                break
            h = [call(L.estimate_hmin, m, 1, J, w, warn=False) for m in (t.wt_coefs, t.wt_leaders) if m is not None]
            if all(isinstance(v, Raised) or np.min(v[0]) > 0 for v in h):
                break
    q = [[2], np.array([-2., -1, 0., 1., 2.]), np.array([.3, 2., 3.5, 4.]), np.array([-1, 2, 3])][int(g.integers(4))]
    qa = np.asarray(q, float)
    M = int(g.integers(1, 5))
    m = t.wt_leaders if p is not None and not isinstance(t, Raised) else getattr(t, 'wt_coefs', None)
    k = dict(normalization=[1, 2][int(g.integers(2))], weighted=w, wt_name=wt)
    c = {
        'structure': lambda: Call(L.StructureFunction, m, qa, 1, J, w),
        'cumulants': lambda: Call(L.Cumulants, m, M, 1, J, w),
        'spectrum': lambda: Call(L.MultifractalSpectrum, m, 1, J, w, qa),
        'hurst': lambda: Call(L.compute_hurst, t.wt_coefs, 1, J, w),
        'full': lambda: Call(L.mfa.mf_analysis_full, x, 1, J, p_exp=p, q=q, n_cumul=M, **k),
        'minimal': lambda: Call(L.mfa.mf_analysis_full, x, 1, J, p_exp=p, q=q, n_cumul=M, minimal=True, **k),
        'welch': lambda: Call(L.psd.welch_estimation, x[:, 0], 10., [64, 4096, 33][int(g.integers(3))]),
        'wpsd': lambda: Call(L.psd.wavelet_estimation, x, 10., int(g.integers(1, int(wt[2]) + 1)), J),
        'beta': lambda: Call(L.fractal.estimate_beta, np.linspace(0, 5, 33), g.uniform(.1, 9, 33), (.0 if g.random() < .5 else .3, 4.)),
        'fractal': lambda: Call(L.fractal.fractal_analysis, x[:, 0], 10., 2, (.01, 4.)),
        'bi': lambda: _bicall(L, m, y, p, wt, J, w, M, g),
        'bifull': lambda: Call(bivariate_analysis_full, x, y, 1, J, weighted=w, wt_name=wt, p_exp=p,
                               q1=[None, [0, 1, 2], np.array([-1., .5, 2.])][int(g.integers(3))], n_cumul=1),
        'scale': lambda: Call(L.utils.scale2freq, [3, np.arange(1, 9), np.array([1., 2.5])][int(g.integers(3))], [10, 512.][int(g.integers(2))]),
        'signal': lambda: _signal(Signal, x[:, 0] if g.random() < .5 else x, J, w, wt, p, q, M),
    }[fn]()
    return rec(r, c)


def _bicall(L, m, y, p, wt, J, w, M, g):
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction
    u = call(L.wavelet_analysis, y, p, wt, 1, J, 0., 1, w)
    m2 = u.wt_leaders if p is not None else u.wt_coefs
    if g.random() < .5:
        return Call(BiCumulants, m, m2, 1, 1, J, w)
    return Call(BiStructureFunction, m, m2, 1, J, np.array([0., 1., 2., -.5]), np.array([2., 1., 0., 1.5]), w)


def _signal(Signal, x, J, w, wt, p, q, M):
    def f():
        s = Signal(x, 10.)
        s.wavelet_analysis(1, J, 1, 0., w, wt, p)
        s.mf_analysis(np.asarray(q), M)
        s.hurst()
        s.hmin()
        s.estimate_wavelet_psd(2, J)
        return True
    return Call(f)
