"""Scenarios for PSD estimation, slope fits and the conversion helpers."""
import numpy as np
import gen
from scen_wavelet import gaps, make_signal, scales_available
from vlib import Raised, call, enc, get, num, rng


def base(op, prop, r):
    return {'op': op, 'prop': prop, 'raised': r.name if isinstance(r, Raised) else '', '_msg': getattr(r, 'msg', '')}


def pick_fs(g):
    if g.random() < .15:                              # from once a decade to radio frequencies
        return float(10. ** g.uniform(-9, 8))
    return float(g.choice([1., 2., 10., 100., 256., 0.5, 1200., float(np.round(np.exp(g.uniform(-2, 7)), 3))]))


def welch(i):
    g = rng('welch', i)
    L = gen.lib()
    nfft = int([16, 32, 64, 33, 50, 128, 15, 100][i % 8])
    mode = (i // 8) % 4
    seg = None if mode == 0 else int(g.integers(4, nfft + 1)) if mode == 1 else nfft if mode == 2 else int(nfft + g.integers(1, 20))
    used = max(nfft, seg or nfft)
    n = int(g.integers(used, 6 * used)) if g.random() < .75 else int(g.integers(6, used))
    x = make_signal(g, n, 1, str(g.choice(['noise', 'walk', 'mixed', 'trend'])))[:, 0]
    if g.random() < .3:
        x = x + 50.
    fs = pick_fs(g)
    kw = {'n_fft': nfft, 'seg_size': seg}
    r = call(L.psd.welch_estimation, x, fs, **{k: v for k, v in kw.items() if v is not None})
    rec = dict(base('welch', 'C19', r), x=enc(x), fs=num(fs), nfft=nfft, seg=seg or 0)
    if not rec['raised']:
        rec.update(freq=get(r, 'freq'), psd=get(r, 'psd'))
    return rec


def wpsd(i):
    import pywt
    g = rng('wpsd', i)
    L = gen.lib()
    nm = 1 + i % 6
    w = pywt.Wavelet(f'db{nm}')
    R = int(g.choice([1, 1, 2]))
    for _ in range(50):
        n = int(g.integers(4 * w.dec_len, 500))
        x = make_signal(g, n, R, str(g.choice(['noise', 'walk', 'mixed', 'int'])))
        if g.random() < .4:
            x = gaps(g, x, 'some')
        if scales_available(x, f'db{nm}', False) >= 1:
            break
    fs = pick_fs(g)
    kw = {'j2': [None, 3, 1, 10][int(g.integers(4))]}
    r = call(L.psd.wavelet_estimation, x[:, 0] if R == 1 and i % 2 else x, fs, nm, **kw)
    rec = dict(base('wpsd', 'C19', r), x=enc(x), n=n, R=R, fs=num(fs), hi=[num(v) for v in w.dec_hi], lo=[num(v) for v in w.dec_lo])
    if not rec['raised']:
        rec.update(freq=get(r, 'freq'), psd=get(r, 'psd'))
    return rec


def wlong(i):
    """spectra of long records: many scales, many segments"""
    import pywt
    g = rng('wlong', i)
    L = gen.lib()
    n = int(np.exp(g.uniform(np.log(4000), np.log(30000))))
    x = make_signal(g, n, 1, str(g.choice(['noise', 'walk'])))
    fs = pick_fs(g)
    if i % 2:
        nfft = int(g.choice([64, 100, 256]))
        r = call(L.psd.welch_estimation, x[:, 0], fs, nfft)
        rec = dict(base('welch', 'C19', r), x=enc(x[:, 0]), fs=num(fs), nfft=nfft, seg=0)
    else:
        nm = int(g.integers(1, 4))
        w = pywt.Wavelet(f'db{nm}')
        x = gaps(g, x, str(g.choice(['none', 'one'])))
        r = call(L.psd.wavelet_estimation, x[:, 0], fs, nm)
        rec = dict(base('wpsd', 'C19', r), x=enc(x), n=n, R=1, fs=num(fs), hi=[num(v) for v in w.dec_hi], lo=[num(v) for v in w.dec_lo])
    if not rec['raised']:
        rec.update(freq=get(r, 'freq'), psd=get(r, 'psd'))
    return rec


def law(i):
    g = rng('law', i)
    L = gen.lib()
    x = make_signal(g, int(g.integers(100, 400)), 1, 'noise')[:, 0]
    a, b, fs = float(g.choice([-1., 3., 1e-3, -250., .5])), float(g.choice([2., .25, 10.])), pick_fs(g)
    if i % 2:
        f = lambda s, h: L.psd.welch_estimation(s, h, 64)
    else:
        f = lambda s, h: L.psd.wavelet_estimation(s, h, 2)
    r = [call(f, x, fs), call(f, a * x, fs), call(f, x, b * fs)]
    bad = [v for v in r if isinstance(v, Raised)]
    rec = dict(base('law', 'C19', bad[0] if bad else None), est='welch' if i % 2 else 'wavelet', a=num(a), b=num(b))
    if not bad:
        rec.update(p1=get(r[0], 'psd'), p2=get(r[1], 'psd'), p3=get(r[2], 'psd'), f1=get(r[0], 'freq'), f3=get(r[2], 'freq'))
    return rec


def conv(i):
    g = rng('conv', i)
    L = gen.lib()
    u, fs = L.utils, pick_fs(g)
    k = i % 6
    j = [np.arange(1, 12), np.arange(1., 9.), g.uniform(-3, 14, 5), int(g.integers(0, 12)), float(g.uniform(0, 12)),
         np.int64(g.integers(0, 12))][k]
    gq = fs * np.exp(g.uniform(-8, 2, 4)) if k % 2 else float(fs * np.exp(g.uniform(-8, 2)))
    f = call(u.scale2freq, j, fs)
    back = f if isinstance(f, Raised) else call(u.freq2scale, f, fs)
    s = call(u.freq2scale, gq, fs)
    there = s if isinstance(s, Raised) else call(u.scale2freq, s, fs)
    bad = [v for v in (f, back, s, there) if isinstance(v, Raised)]
    rec = dict(base('conv', 'C20', bad[0] if bad else None), j=enc(j), fs=num(fs), g=enc(gq))
    p = call(L.psd.wavelet_estimation, make_signal(g, 300, 1, 'noise')[:, 0], fs, 2)
    ax = get(p, 'freq')
    if not bad:
        rec.update(f=enc(f), back=enc(back), there=enc(there), axis=ax,
                   axisf=enc(call(u.scale2freq, np.arange(1., 1 + len(ax['d'])), fs)))
    return rec


def band(i):
    g = rng('band', i)
    L = gen.lib()
    fs = pick_fs(g)
    F = lambda j: 0.75 * fs * 2. ** -j
    a, b = sorted(g.uniform(-1, 12, 2))
    mode = i % 4
    if mode == 0:
        hi, lo = F(a), F(b)
    elif mode == 1:                                   # band edges exactly on scales
        a, b = int(a), int(b) + 1
        hi, lo = F(a), F(b)
    elif mode == 2:                                   # one edge just off a scale
        a, b = int(a), int(b) + 1
        e = 10. ** -g.uniform(3, 10) * g.choice([-1., 1., 1.])
        hi, lo = (F(a) * (1 - e), F(b)) if g.random() < .5 else (F(a), F(b) * (1 + e))
    else:                                             # narrow, possibly containing no scale
        a = g.uniform(0, 12)
        hi, lo = F(a), F(a + g.uniform(.05, .9))
    r = call(L.utils.fband2scale, (lo, hi), fs)
    rec = dict(base('band', 'C20', r), fs=num(fs), lo=num(lo), hi=num(hi))
    if not rec['raised']:
        rec.update(a=enc(r[0]), b=enc(r[1]), ints=bool(isinstance(r[0], (int, np.integer)) and isinstance(r[1], (int, np.integer))))
    return rec


def qlog(i):
    g = rng('qlog', i)
    L = gen.lib()
    if i % 4 == 3:
        lo, hi = [(0, 5), (-1, 5), (1, 0), (.1, -3.), (-.5, -.1), (0., 0.), (-1e-9, 1)][int(g.integers(7))]
        r = call(L.utils.build_q_log, lo, hi, int(g.integers(1, 9)))
        return {'op': 'qreject', 'prop': 'C20', 'raised': '', 'res': r.name if isinstance(r, Raised) else 'value'}
    lo, hi, n = [(.01, 10, 20), (.5, 2, 3), (1, 2, 2), (.25, 4, 5), (.05, .5, 4), (3, 8, 6), (.1, 5, 1), (2, .5, 4), (1, 100, 3),
                 (.001, 1000, 7)][i % 10]
    if g.random() < .5:
        lo, hi, n = float(np.exp(g.uniform(-4, 1))), float(np.exp(g.uniform(-1, 4))), int(g.integers(1, 30))
    r = call(L.utils.build_q_log, lo, hi, n)
    return dict(base('qlog', 'C20', r), lo=num(lo), hi=num(hi), n=n, out=enc(None if isinstance(r, Raised) else r))


def beta(i):
    """random positive spectra, with band edges on, next to, or away from frequencies"""
    g = rng('beta', i)
    L = gen.lib()
    n = int(g.integers(3, 40))
    style = i % 3
    fs = pick_fs(g)
    if style == 0:
        f = fs * np.arange(n) / n
    elif style == 1:
        f = .75 * fs / 2. ** np.arange(1, n % 14 + 3)
    else:
        f = np.sort(np.exp(g.uniform(-4, 4, n)) if g.random() < .5 else 10. ** g.uniform(-9, 6, n))
    n = len(f)
    exact = bool((i // 3) % 2)
    b, C = float(g.uniform(-3, 3)), float(np.exp(g.normal(0, 4)))
    with np.errstate(all='ignore'):
        p = C * f ** b if exact else np.exp(g.normal(0, 2, n))
    p[~np.isfinite(p)] = 1.
    if i % 7 == 3:                                   # frequencies in any order, zero anywhere or repeated
        o = g.permutation(np.r_[np.arange(n), [0] * int(g.integers(3)) if f[0] == 0 else []].astype(int))
        f, p, n = f[o], p[o], len(o)
    pos = np.sort(f[f > 0])
    for _ in range(100):
        lo, hi = np.sort(g.choice(pos, 2, replace=False))
        m = int(g.integers(4))
        if m == 0:
            lo, hi = lo * (1 - 1e-6), hi * (1 + 1e-6)
        elif m == 1:
            lo, hi = 0., hi
        elif m == 2 and np.sum((pos > lo) & (pos < hi)) >= 2:
            lo, hi = lo * (1 + 1e-6), hi * (1 - 1e-6)
        if np.sum((pos >= lo) & (pos <= hi)) >= 2:
            break
    log = ['log2', 'log'][(i // 6) % 2]
    col = i % 4 == 1
    kw = {'log': log}
    args = (f, p[:, None] if col else p, (lo, hi))
    if i % 5 == 0 and np.sum((pos >= .01) & (pos <= 2)) >= 2:
        lo, hi, args = .01, 2, args[:2]                 # documented defaults
        if log == 'log2':
            kw = {}
    r = call(L.fractal.estimate_beta, *args, **kw)
    rec = dict(base('beta', 'C21', r), src='estimate_beta', f=enc(f), p=enc(p), lo=num(lo), hi=num(hi), log=log,
               exact='yes' if exact else 'no', expb=num(b), expC=num(C))
    if not rec['raised']:
        rec.update(beta=get(r, 'beta'), logC=get(r, 'log_C'), freq=get(r, 'freq'))
    return rec


def nobeta(i):
    """bands without any frequency of the spectrum: nothing can be fitted"""
    from pymultifracs.signal import Signal
    g = rng('nobeta', i)
    L = gen.lib()
    n = int(g.integers(3, 40))
    f = np.sort(np.exp(g.uniform(-4, 4, n)))
    if i % 3 == 0:
        f[0] = 0.
    p = np.exp(g.normal(0, 2, n))
    k = int(g.integers(1, n - 1))
    a, b = f[k], f[k + 1]
    lo, hi = [(a + (b - a) * .25, a + (b - a) * .75), (f[-1] * 1.01, f[-1] * 9), (f[1] * .5, f[1] * .99) if f[0] == 0 else (0., f[0] * .99),
              (b, a), (0., 0.) if f[0] == 0 else (-3., -1.)][(i // 3) % 5]
    if i % 4 == 3:
        x = make_signal(g, 300, 1, 'noise')[:, 0]
        fs = pick_fs(g)
        pw = L.psd.wavelet_estimation(x, fs, 2)
        f, p = np.asarray(pw.freq), np.ravel(pw.psd)
        lo, hi = [(f.max() * 1.1, f.max() * 1.2), (f.min() * .2, f.min() * .9), (f.max(), f.min())][int(g.integers(3))]
        r = call(Signal(x, fs).fractal_analysis, 2, (lo, hi)) if i % 8 == 3 else call(L.fractal.fractal_analysis, x, fs, 2, (lo, hi))
    else:
        r = call(L.fractal.estimate_beta, f, p, (lo, hi), ['log2', 'log'][i % 2])
    some = not isinstance(r, Raised) and (np.isfinite(r.beta).any() or np.isfinite(r.log_C).any())
    return {'op': 'nobeta', 'prop': 'C21', 'raised': '', 'f': enc(f), 'lo': num(lo), 'hi': num(hi), 'res': 'value' if some else 'none'}


def fractal(i):
    from pymultifracs.signal import Signal
    g = rng('fractal', i)
    L = gen.lib()
    nm = int(g.integers(1, 5))
    x = make_signal(g, int(g.integers(200, 700)), 1, str(g.choice(['noise', 'walk'])))
    if i % 5 == 4:
        x = gaps(g, x, 'one')
    x = x[:, 0]
    fs = pick_fs(g)
    p = L.psd.wavelet_estimation(x, fs, nm)
    f = p.freq
    lo, hi = np.sort(g.choice(f, 2, replace=False))
    if g.random() < .5:
        lo, hi = lo * .9, hi * 1.1
    log = ['log2', 'log'][i % 2]
    if (i // 2) % 2:
        s = Signal(x, fs, log)
        if g.random() < .5:
            s.estimate_wavelet_psd(int(g.integers(1, 4)))
            s.estimate_welch_psd(64)
        r = call(s.fractal_analysis, nm, (lo, hi))
    else:
        r = call(L.fractal.fractal_analysis, x, fs, nm, (lo, hi), log)
    rec = dict(base('beta', 'C21', r), src='Signal' if (i // 2) % 2 else 'fractal_analysis', f=enc(f), p=enc(np.ravel(p.psd)),
               lo=num(lo), hi=num(hi), log=log, exact='no', expb='0.0', expC='1.0')
    if not rec['raised']:
        rec.update(beta=get(r, 'beta'), logC=get(r, 'log_C'), freq=get(r, 'freq'))
    return rec
