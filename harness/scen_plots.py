"""Draws results with the library's plotting methods and reads the canvas back."""
import json
import os
import re
import tempfile
import warnings
import numpy as np
import gen
from scen_wavelet import make_signal
from vlib import Raised, call, enc, get, num, rng

NUMBER = re.compile(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)')


def numbers(s):
    return [num(float(x)) for x in NUMBER.findall(s.replace('\N{MINUS SIGN}', '-'))]


def last(s):
    n = numbers(s)
    return n[-1] if n else 'NaN'


def seq(a):
    return [num(x) for x in np.ravel(np.ma.filled(np.ma.asarray(a, float), np.nan))]


def canvas(figs=None):
    import matplotlib.pyplot as plt
    out = []
    for f in (figs or [plt.figure(n) for n in plt.get_fignums()]):
        for ax in f.axes:
            leg = ax.get_legend()
            ent = [t.get_text() for t in leg.get_texts()] if leg is not None else []
            yl = ax.get_ylabel()
            out.append({'ylab': numbers(yl), 'text': yl, 'title': ax.get_title(), 'xlab': ax.get_xlabel(),
                        'lines': [{'x': seq(l.get_xdata()), 'y': seq(l.get_ydata())} for l in ax.get_lines()],
                        'legend': [last(e) for e in ent], 'entries': ent})
    return out


def base(op, r, panels):
    return {'op': op, 'raised': r.name if isinstance(r, Raised) else '', '_msg': getattr(r, 'msg', ''), 'panels': panels}


def quantity(g, form=None, R=1):
    J = int(g.integers(3, 8))
    vals = gen.synth_values(g, J, R, nan=str(g.choice(['none', 'border', 'random'])), nmax=50)
    return gen.make_mrq(vals, form or str(g.choice(gen.FORMALISMS)), float(g.choice([0., .5]))), J


def plotted(g, d, f, *a, **kw):
    """calls f, sometimes with a file name; what was put into the file is what is on the canvas in the end"""
    from matplotlib.figure import Figure
    name, u = os.path.join(d, f'f{len(os.listdir(d))}.png'), g.random()
    true, got = Figure.savefig, []

    def spy(fig, fname, *a, **k):
        got.append([str(fname), canvas([fig])])
        return true(fig, fname, *a, **k) if u < .08 else None
    if u < .5:
        kw['filename'] = name
    Figure.savefig = spy
    try:
        r = call(f, *a, **kw)
    finally:
        Figure.savefig = true
    if isinstance(r, Raised):
        return r, 'none'
    if u >= .5:
        return r, 'none' if not got else 'unasked'
    if [x[0] for x in got] != [name] or u < .08 and not (os.path.exists(name) and os.path.getsize(name)):
        return r, 'missing'
    return r, 'none' if json.dumps([p for p in got[0][1] if p['lines']]) == json.dumps([p for p in canvas() if p['lines']]) else 'other'


def structure(i):
    import matplotlib.pyplot as plt
    g = rng('plot.structure', i)
    L = gen.lib()
    m, J = quantity(g)
    j1, j2 = gen.scale_range(g, J)
    n = [1, 2, 3, 4, 5, 7, 9][i % 7]
    q = gen.pick_q(g, n, force=(0.,) if g.random() < .6 else ())
    if i % 11 == 0:
        q = np.array([0.])
    if i % 13 == 0:
        q = np.array([0., 2.])
    o = call(L.StructureFunction, m, q, j1, j2, bool(g.integers(2)))
    kw = {}
    if g.random() < .5:
        kw['nrow'] = int(g.integers(1, 6))
    ign = True
    if g.random() < .4:
        ign = kw['ignore_q0'] = bool(g.integers(2))
    plt.close('all')
    out = []
    with tempfile.TemporaryDirectory() as d:
        for rep in range(1 + int(g.random() < .3)):           # repeated calls redraw
            r, saved = plotted(g, d, o.plot, figsize=(4, 3), **kw)
            rec = dict(base('structure', r, canvas()), saved=saved)
            rec.update({k: get(o, k) for k in ('q', 'j', 'logvalues', 'zeta', 'intercept')}, j1=j1, j2=j2, ignore_q0=ign)
            # a result with no exponent to show has no panels to check
            if not (ign and list(q) == [0.]):
                out.append(rec)
        plt.close('all')
        if len(q) > 1:
            r, saved = plotted(g, d, o.plot_scaling)
            out.append(dict(base('scaling', r, canvas()), saved=saved, q=get(o, 'q'), zeta=get(o, 'zeta')))
    plt.close('all')
    return out


def cumulants(i):
    import matplotlib.pyplot as plt
    g = rng('plot.cumulants', i)
    L = gen.lib()
    m, J = quantity(g)
    j1, j2 = gen.scale_range(g, J)
    M = 1 + i % 7
    o = call(L.Cumulants, m, M, j1, j2, bool(g.integers(2)))
    kw = {} if g.random() < .5 else {'nrow': int(g.integers(1, 6))}
    if g.random() < .3:
        kw['fignum'] = int(g.integers(1, 5))
    plt.close('all')
    out = []
    with tempfile.TemporaryDirectory() as d:
        for rep in range(1 + int(g.random() < .3)):
            r, saved = plotted(g, d, o.plot, **kw)
            rec = dict(base('cumulants', r, canvas()), saved=saved)
            rec.update({k: get(o, k) for k in ('m', 'j', 'values', 'slope', 'intercept', 'log_cumulants')}, j1=j1, j2=j2)
            out.append(rec)
    plt.close('all')
    return out


def spectrum(i):
    import matplotlib.pyplot as plt
    g = rng('plot.spectrum', i)
    L = gen.lib()
    m, J = quantity(g)
    j1, j2 = gen.scale_range(g, J)
    o = call(L.MultifractalSpectrum, m, j1, j2, bool(g.integers(2)), gen.pick_q(g, None))
    plt.close('all')
    kw = {}
    with tempfile.TemporaryDirectory() as d:
        if g.random() < .4:
            kw['ax'] = plt.figure().add_subplot()
            if g.random() < .5:
                plt.figure()                              # another figure is the current one
        if g.random() < .3:
            kw.update(fmt='r.', label='x')
        r, saved = plotted(g, d, o.plot, **kw)
        rec = dict(base('spectrum', r, canvas()), saved=saved, hq=get(o, 'hq'), Dq=get(o, 'Dq'))
    plt.close('all')
    return rec


def pair(g):
    J = int(g.integers(3, 7))
    a = gen.synth_values(g, J, 1, nan='none', nmax=50)
    b = [v * np.exp(g.normal(0, .5, v.shape)) for v in a]
    f = str(g.choice(gen.FORMALISMS))
    return gen.make_mrq(a, f), gen.make_mrq(b, f), J


def bistructure(i):
    import matplotlib.pyplot as plt
    from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction
    g = rng('plot.bistructure', i)
    a, b, J = pair(g)
    j1, j2 = gen.scale_range(g, J)
    q1, q2 = gen.pick_q(g, 1 + i % 3, pool=[0., 1., 2., 3., -1., .5]), gen.pick_q(g, 1 + (i // 3) % 3, pool=[0., 1., 2., 3., -1., .5])
    o = call(BiStructureFunction, a, b, j1, j2, q1, q2, bool(g.integers(2)))
    plt.close('all')
    r = call(o.plot)
    rec = base('bistructure', r, canvas())
    rec.update({k: get(o, k) for k in ('q1', 'q2', 'j', 'logvalues', 'zeta', 'intercept')}, j1=j1, j2=j2)
    plt.close('all')
    return rec


def bicumulants(i):
    import matplotlib.pyplot as plt
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    g = rng('plot.bicumulants', i)
    a, b, J = pair(g)
    j1, j2 = gen.scale_range(g, J)
    M = 1 + i % 4
    o = call(BiCumulants, a, b, M, j1, j2, bool(g.integers(2)))
    plt.close('all')
    r = call(o.plot)
    rec = base('bicumulants', r, canvas())
    rec.update({k: get(o, k) for k in ('j', 'values', 'slope', 'intercept', 'log_cumulants')}, j1=j1, j2=j2, M=M)
    plt.close('all')
    return rec


def legendre(i):
    """the joint spectrum surface: it must be drawn for c20, c02 < 0"""
    import matplotlib.pyplot as plt
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    g = rng('plot.legendre', i)
    a, b, J = pair(g)
    o = call(BiCumulants, a, b, 2, 1, J, False)
    if not isinstance(o, Raised):
        c20, c02 = -g.uniform(.02, .2), -g.uniform(.02, .2)
        c10, c01 = g.uniform(.4, .9, 2)
        if i % 3 == 2:                                   # regularities beyond the default window
            c10, c01 = g.uniform(-.5, 2.5) + g.uniform(-.2, .2, 2)
        o.log_cumulants[:] = [[0, c01, c02], [c10, .3 * np.sqrt(c20 * c02) * g.choice([-1, 1]), 0], [c20, 0, 0]]
    plt.close('all')
    res = int(g.integers(8, 20))
    kw = {} if i % 2 else {'resolution': res}
    if i % 3 == 2 and not isinstance(o, Raised):
        w = 1.3 * np.sqrt(-2 * min(c20, c02)) + g.uniform(0, .3, 2)
        kw['h_support'] = (min(c10, c01) - w[0], max(c10, c01) + w[1])
    elif i % 3 == 1:
        kw['h_support'] = (0, 1.5)
    if i % 4 == 3:
        kw['figsize'] = (7, 4.5)
    pts = []
    from mpl_toolkits.mplot3d import Axes3D
    true = Axes3D.plot_surface

    def spy(self, X, Y, Z, *a, **k):
        z = np.ma.filled(np.ma.asarray(Z, float), np.nan)
        pts.extend(zip(*(np.broadcast_to(v, z.shape).ravel() for v in (X, Y, z))))
        return true(self, X, Y, Z, *a, **k)
    Axes3D.plot_surface = spy
    try:
        r = call(o.plot_legendre, **kw)
    finally:
        Axes3D.plot_surface = true
    rec = base('legendre', r, [])
    pts = [p for p in pts if np.isfinite(p).all()]
    sup, xy = kw.get('h_support', (0, 1.5)), np.array([p[:2] for p in pts]).reshape(-1, 2)
    rec['support'] = [num(v) for v in sup]
    rec['resolution'] = kw.get('resolution', 30)
    rec['range'] = [[num(f(xy[:, k])) for f in (np.min, np.max)] for k in (0, 1)] if len(xy) else []
    rec['size'] = [num(v) for v in plt.gcf().get_size_inches()] if plt.get_fignums() else []
    rec['figsize'] = [num(v) for v in kw.get('figsize', (10, 10))]
    rec['points'] = [[num(v) for v in pts[k]] for k in sorted(set(g.integers(0, len(pts), 40).tolist()))] if pts else []
    if isinstance(o, Raised):
        rec['raised'] = o.name
    else:
        rec['c'] = {'c%d%d' % k: num(o.log_cumulants[k]) for k in ((2, 0), (0, 2), (1, 1), (1, 0), (0, 1))}
    plt.close('all')
    return rec


def multiscale(i):
    import matplotlib.pyplot as plt
    import pandas as pd
    from pymultifracs.viz import plot_multiscale
    g = rng('plot.multiscale', i)
    S, n = int(g.integers(1, 5)), int(g.integers(2, 5)) if i % 5 else 1
    segs = ['rest', 'task', 'x'][:int(g.integers(1, 4))]
    df = float(g.choice([.25, .5, 1., 4.]))
    rows, idx, rec = [], [], {'segs': []}
    for s in segs:
        a, b = g.integers(0, 4, n), 14 + g.integers(0, 5, n)
        f = [df * np.arange(a[k], b[k]) for k in range(n)]
        m = [g.uniform(.1, 9, len(v)) for v in f]
        rec['segs'].append({'f': [seq(v) for v in f], 's': [seq(v) for v in m]})
        for k in range(n):
            rows.append({'freq': f[k], 'mscale': m[k], 'slope': [np.log2(df) + np.arange(1., 3), np.ones(2)]})
            idx.append((f's{k}', s))
    order = sorted(range(len(idx)), key=lambda k: idx[k]) if g.random() < .5 else range(len(idx))
    frame = pd.DataFrame([rows[k] for k in order], index=pd.MultiIndex.from_tuples([idx[k] for k in order])).sort_index()
    col = {s: 'C0' for s in segs} | {s + '_avg': 'C1' for s in segs}
    plt.close('all')
    kw = {'ax': plt.figure().add_subplot()} if g.random() < .4 else {}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = call(plot_multiscale, frame, col, **kw)
    rec.update(base('multiscale', r, canvas()))
    plt.close('all')
    return rec


def hmin(i):
    import matplotlib.pyplot as plt
    g = rng('plot.hmin', i)
    L = gen.lib()
    m, J = quantity(g)
    j1, j2 = gen.scale_range(g, J)
    w = bool(g.integers(2))
    plt.close('all')
    o = call(L.estimate_hmin, m, j1, j2, w, warn=False, return_y=True)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = call(L.estimation.plot_hmin, m, j1, j2, w, False)
    rec = base('hmin', r, canvas())
    rec.update(hmin=enc(o[0]), intercept=enc(o[1]), y=enc(o[2]), j1=j1, j2=j2) if not isinstance(o, Raised) else rec.update(raised=o.name)
    plt.close('all')
    return rec


def psd(i):
    import matplotlib.pyplot as plt
    from pymultifracs.signal import Signal
    g = rng('plot.psd', i)
    L = gen.lib()
    n = int(g.integers(200, 900))
    x = make_signal(g, n, 1, str(g.choice(['noise', 'walk'])))[:, 0]
    fs = float(g.choice([1., 10., 100., 512.]))
    log = ['log2', 'log'][int(g.integers(2))]
    nf, seg = [(64, None), (128, 32), (33, None), (32, 64)][int(g.integers(4))]
    nm = int(g.integers(1, 4))
    kind = ['psd', 'Signal.psd', 'fractal', 'Signal.fractal', 'logplot'][i % 5]
    plt.close('all')
    band = (fs * .01, fs * float(g.choice([.2, .3, .4])))
    rec = {'log': log, 'cut': 'Infinity', 'slope': False, 'slopes': [], 'named': True}
    L.psd  # noqa
    with tempfile.TemporaryDirectory():
        F = call(L.psd.welch_estimation, x, fs, nf, seg)
        W = call(L.psd.wavelet_estimation, x, fs, nm)
        curves = [F, W]
        if kind == 'psd':
            r = call(L.psd.plot_psd, x, fs, nf, seg, nm, log)
        elif kind == 'Signal.psd':
            s = Signal(x, fs, log)
            if g.random() < .5:
                call(s.estimate_welch_psd, 16)
            r = call(s.plot_psd, nf, seg, nm)
        elif kind == 'fractal':
            if g.random() < .5:
                r = call(L.fractal.plot_fractal, x, fs, log, band, nm, nf, seg)
                rec['cut'] = '49.0'
            else:
                c = float(g.choice([fs * .3, 20., 1e6]))
                r = call(L.fractal.plot_fractal, x, fs, log, band, nm, nf, seg, c)
                rec['cut'] = num(c)
        elif kind == 'Signal.fractal':
            s = Signal(x, fs, log)
            if g.random() < .5:
                call(s.fractal_analysis, 2, (fs * .02, fs * .1))
            r = call(s.plot_fractal, nm, band, nf, seg)
        else:
            rec['named'] = False
            k = int(g.integers(1, 4))
            curves = [(np.linspace(0, fs / 2, 20), g.uniform(.1, 9, 20)) for _ in range(k)]
            kw = {}
            if g.random() < .5:
                kw['lowpass_freq'] = fs * .3
                rec['cut'] = num(fs * .3)
            if g.random() < .3:
                kw['ax'] = plt.figure().add_subplot()
            if g.random() < .3:
                kw['legend'] = [str(v) for v in range(k)]
            if g.random() < .3:
                kw['xticks'] = True
            if g.random() < .3:
                kw['linewidth'] = [2.] * k
            if g.random() < .5:
                kw['slope'] = [(np.sort(g.normal(size=6)), g.normal(size=6)) for _ in range(int(g.integers(1, k + 1)))]
                rec['slopes'] = [{'x': enc(a), 'y': enc(b)} for a, b in kw['slope']]
            r = call(L.psd.log_plot, [c[0] for c in curves], [c[1] for c in curves], log=log, **kw)
    rec.update(base(kind.split('.')[-1], r, canvas()))
    if any(isinstance(c, Raised) for c in curves):
        rec['raised'] = 'psd'
    else:
        rec['f'], rec['s'] = [enc(np.ravel(c[0])) for c in curves], [enc(np.ravel(c[1])) for c in curves]
    if 'fractal' in kind:
        b = call(L.fractal.estimate_beta, W[0], W[1], band, log)
        if isinstance(b, Raised):
            rec['raised'] = rec['raised'] or b.name
        else:
            rec.update(slope=True, beta=enc(np.ravel(b.beta)), logc=enc(np.ravel(b.log_C)), band=enc(np.ravel(b.freq)))
    plt.close('all')
    return rec
