"""Histories of the Signal object, replayed from behaviours TLC generates."""
import json
import re
import numpy as np
import gen
from scen_wavelet import make_signal
from vlib import MachineryError, Raised, call, enc, rng, run_tlc

_w = dict(j1=1, j2=4, normalization=1, gamint=0.0, weighted=True, wt_name='db2', p_exp=np.inf)
W = {k: dict(_w, **v) for k, v in {
    'w0': dict(p_exp=None), 'w1': {}, 'w2': dict(p_exp=2), 'w3': dict(j1=2), 'w4': dict(j2=3), 'w5': dict(gamint=0.5),
    'w6': dict(weighted=False), 'w7': dict(normalization=2, wt_name='db1', p_exp=1.0), 'w8': dict(j2=10, wt_name='db3', p_exp=None),
    'w9': dict(normalization=2), 'w10': dict(wt_name='db3'), 'w11': dict(j2=None), 'w12': dict(p_exp=1),
    'w13': dict(gamint=0.500001), 'w14': dict(j1=2, p_exp=2, weighted=False),
    'w15': dict(j2=10, wt_name='db1'), 'w16': dict(j2=10, wt_name='db1', weighted=False, p_exp=2),
    'x0': dict(wt_name='nosuchwavelet', p_exp=None), 'x1': dict(normalization=None)}.items()}
A = np.array
# for each kind of transform, variants that differ from it in one parameter
for _k, _p in (('c', None), ('l', np.inf), ('p', 2)):
    for _n, _v in (('0', {}), ('j1', dict(j1=2)), ('j2', dict(j2=3)), ('norm', dict(normalization=2)), ('gam', dict(gamint=.5)),
                   ('wei', dict(weighted=False)), ('wt', dict(wt_name='db1')), ('p', dict(p_exp=1 if _p == 2 else 2))):
        W[_k + _n] = dict(_w, p_exp=_p, **_v) if 'p_exp' not in _v else dict(_w, **_v)
M = {'m0': ([2], 2), 'm1': (A([-1., 0., 1., 2.]), 2), 'm2': (A([-1., 0., 1., 2.]), 3), 'm3': (A([-1., 0., 1., 3.]), 2),
     'm4': ([2], 3), 'm5': (A([2., 1., 0., -1.]), 2), 'm6': (A([-1., 0., 1., 2.000001]), 2), 'm7': ([1, 2], 2), 'm8': ([2, 1], 2),
     'm9': ([1, 2, 3], 2), 'm10': (A([2., 2., 2., 2.]), 2),
     'xm0': (A([1., 2.]), 'a'), 'xm1': (['a'], 2)}
PSDP = {'p0': (2, None), 'p1': (3, None), 'p2': (1, 3), 'p3': (2, 3), 'p4': (2, 2), 'p5': (3, 2), 'p6': (1, None), 'xp0': (0, None)}
WELP = {'p0': (64, None), 'p1': (64, 32), 'p2': (32, 16), 'p3': (128, None), 'p4': (4096, None), 'p5': (64, 48), 'p6': (64, 16),
        'xp0': (0, None)}
FRP = {'f0': (2, (.01, 2), 'log2'), 'f1': (3, (.01, 2), 'log2'), 'f2': (2, (.05, .6), 'log'), 'f3': (2, (.01, 2), 'log'),
       'f4': (2, (.01, .6), 'log2'), 'f5': (1, (.01, 2), 'log'), 'xf0': (3, (50, 60), 'log2'), 'xf1': (0, (.01, 2), 'log2')}
FULL = dict(j1=1, j2=10, normalization=1, gamint=0.0, weighted=True, wt_name='db3', p_exp=None, q=[2], n_cumul=3, save=True)


def drop(g, kw, defaults):
    """leave out some of the arguments that have their documented default value"""
    return {k: v for k, v in kw.items() if not (k in defaults and type(v) is type(defaults[k]) and v == defaults[k] and g.random() < .7)}


HELD = ('wt_transform', 'multi_fractal', 'wt_psd', 'welch_psd', 'fractal')


def wparam(w):
    return dict(W[w])


def flat(v, d, e, depth=0):
    """structure and numbers of a result, for comparison"""
    if v is None or isinstance(v, (str, bool)):
        e.append(repr(v))
    elif isinstance(v, (int, float, np.number, np.ndarray)):
        t = enc(v)
        if t['k'] != 't':
            e.append(repr(v))
        else:
            e.append('t%s' % t['sh'])
            d.extend(t['d'])
    elif isinstance(v, dict):
        e.append('{%d' % len(v))
        for k in v:
            e.append(repr(k))
            flat(v[k], d, e, depth + 1)
    elif isinstance(v, (list, tuple)):
        e.append('[%d' % len(v))
        for x in v:
            flat(x, d, e, depth + 1)
    else:
        e.append('<%s' % type(v).__name__)
        attrs = {k: x for k, x in vars(v).items() if k != 'q' and not k.startswith('_')}
        for k in sorted(attrs):
            e.append(k)
            flat(attrs[k], d, e, depth + 1)


class Table:
    def __init__(self):
        self.rows, self.idx = [], {}

    def add(self, v):
        if isinstance(v, Raised):
            row = {'k': 'exc', 'e': v.name, 'd': []}
        elif v is None:
            row = {'k': 'none', 'e': '', 'd': []}
        else:
            d, e = [], []
            try:
                flat(v, d, e)
                row = {'k': 'val', 'e': ' '.join(e), 'd': d}
            except Exception as x:
                row = {'k': 'exc', 'e': 'encode.' + type(x).__name__, 'd': []}
        key = json.dumps(row)
        if key not in self.idx:
            self.rows.append(row)
            self.idx[key] = len(self.rows)
        return self.idx[key]


def behaviours(num, depth, seed):
    code, out, g, d = run_tlc('Gen_Workspace', env={'DEPTH': str(depth)},
                              extra=('-simulate', f'num={num}', '-depth', str(depth + 2), '-seed', str(seed)))
    bs = []
    for line in out.splitlines():
        m = re.match(r'^"BEH (.*)"$', line.strip())
        if m:
            bs.append(json.loads(m.group(1).replace('\\"', '"')))
    if len(bs) < num:
        raise MachineryError('Gen_Workspace: ' + out[-2000:])
    return bs[:num], sum(len(b) for b in bs)


def standalone(token, x, fs, L):
    """the value of the stand-alone functions a token names"""
    f, *a = token.split('|')
    if f == 'psd':
        return call(L.psd.wavelet_estimation, x, fs, PSDP[a[0]][0], PSDP[a[0]][1])
    if f == 'welch':
        return call(L.psd.welch_estimation, x, fs, *WELP[a[0]])
    if f == 'fractal':
        n, band, log = FRP[a[0]]
        return call(L.fractal.fractal_analysis, x, fs, n, band, log)
    t = call(L.wavelet_analysis, x, **wparam(a[0]))
    if f == 'wavelet' or isinstance(t, Raised):
        return t
    j1, w = W[a[0]]['j1'], W[a[0]]['weighted']
    if f == 'hurst':
        return call(L.compute_hurst, t.wt_coefs, j1, t.j2_eff, w)
    if f == 'hmin':
        return call(L.estimate_hmin, t.wt_coefs, j1, t.j2_eff, w)
    q, n = M[a[1]]
    return call(L.mfa.mf_analysis, t.wt_coefs, t.wt_leaders, t.j2_eff, j1=j1, weighted=w, q=q if isinstance(q, list) else q.copy(),
                n_cumul=n)


class Session:
    """one Signal object and the record of its history"""

    def __init__(self, g):
        from pymultifracs.signal import Signal
        self.g, self.L = g, gen.lib()
        R = 1 if g.random() < .85 else 2
        x = make_signal(g, int(g.integers(90, 160)), R, str(g.choice(['noise', 'walk'])))
        if R == 1 and g.random() < .5:
            x = x[:, 0]
        self.R, self.x, self.fs = R, x.copy(), float(g.choice([1., 2., 10.]))
        self.s = Signal(x, self.fs)
        self.T, self.oracle, self.steps, self.done = Table(), {}, [], []

    def want(self, tok):
        if tok not in self.oracle:
            self.oracle[tok] = self.T.add(standalone(tok, self.x.copy(), self.fs, self.L))

    def succeeds(self, *toks):
        for t in toks:
            self.want(t)
        return all(self.T.rows[self.oracle[t] - 1]['k'] != 'exc' for t in toks)

    def step(self, c):
        g, s, op = self.g, self.s, c['op']
        if op.startswith('plot'):
            toks = [f"psd|{c['psdof']}", f"welch|{c['wel']}"] + ([f"fractal|{c['p']}"] if op == 'plotfractal' else [])
            if self.R > 1 or not self.succeeds(*toks) or (op == 'plotfractal' and PSDP[c['psdof']][1] is not None):
                return
        if op in ('mf', 'full'):
            q, n = M[c['m']]
            q = list(q) if isinstance(q, list) else q.copy()
        if op == 'wavelet':
            r = call(s.wavelet_analysis, **wparam(c['w']))
        elif op == 'mf':
            r = call(s.mf_analysis, q, n, c['save']) if g.random() < .5 or not c['save'] else call(s.mf_analysis, q=q, n_cumul=n)
        elif op == 'full':
            r = call(s.mf_analysis_full, **drop(g, dict(q=q, n_cumul=n, save=c['save'], **wparam(c['w'])), FULL))
        elif op in ('hurst', 'hmin'):
            r = call(getattr(s, op))
        elif op == 'psd':
            r = call(s.estimate_wavelet_psd, **drop(g, dict(zip(('n_moments', 'j2'), PSDP[c['p']])), dict(n_moments=2, j2=None)))
        elif op == 'welch':
            r = call(s.estimate_welch_psd, **drop(g, dict(zip(('n_fft', 'seg_size'), WELP[c['p']])), dict(n_fft=4096, seg_size=None)))
        elif op == 'plotpsd':
            import matplotlib.pyplot as plt
            r = call(s.plot_psd, *WELP[c['wel']], *PSDP[c['psdof']])
            plt.close('all')
        elif op == 'plotfractal':
            import matplotlib.pyplot as plt
            nm, band, s.log = FRP[c['p']]
            r = call(s.plot_fractal, nm, band, *WELP[c['wel']])
            plt.close('all')
        else:
            nm, band, s.log = FRP[c['p']]
            r = call(s.fractal_analysis, **drop(g, dict(n_moments=nm, freq_band=band), dict(n_moments=2, freq_band=(.01, 2))))
        self.done.append(c)
        self.steps.append({'call': c, 'res': self.T.add(r), 'held': {a: self.T.add(getattr(s, a)) for a in HELD}})
        if op in ('mf', 'full'):                     # the caller goes on using its own objects
            if isinstance(q, list):
                q.append(7)
            else:
                q += 1

    def record(self):
        # every computation the specification may name
        ws = {c['w'] for c in self.done if c['w']}
        ms = {c['m'] for c in self.done if c['m']}
        for w in ws:
            for f in ('wavelet', 'hurst', 'hmin'):
                self.want(f'{f}|{w}')
            for m in ms:
                self.want(f'mf|{w}|{m}')
        for c in self.done:
            if c['op'] in ('psd', 'welch', 'fractal'):
                self.want(f"{c['op']}|{c['p']}")
            if c['psdof']:
                self.want(f"psd|{c['psdof']}")
            if c['wel']:
                self.want(f"welch|{c['wel']}")
            if c['op'] == 'plotfractal':
                self.want(f"fractal|{c['p']}")
        return {'op': 'history', 'steps': self.steps, 'oracle': self.oracle, 'table': self.T.rows}


def replay(i, behs):
    """one to three objects, whose calls are interleaved: each must behave as if it were alone"""
    g = rng('workspace', i)
    S = [Session(g) for _ in behs]
    todo = [list(b) for b in behs]
    while any(todo):
        k = int(g.choice([n for n, t in enumerate(todo) if t]))
        S[k].step(todo[k].pop(0))
    return [s.record() for s in S]


def replays(chunk):
    return [r for i, b in chunk for r in replay(i, b)]


def diff(i):
    from pymultifracs.signal import Signal
    g = rng('psddiff', i)
    a = make_signal(g, int(g.integers(60, 300)), 1, 'noise')[:, 0]
    b = make_signal(g, int(g.integers(60, 300)), 1, 'walk')[:, 0]
    fs = float(g.choice([1., 3., 100.]))
    if i % 5 == 4:                                   # nearly the same spectrum
        b = a * float(g.choice([1., -1., 1.5, 1.01]))
    s, t = Signal(a, fs), Signal(b, fs * float(g.choice([1., 2.])))
    m = int(g.integers(1, 4))
    s.estimate_wavelet_psd(m)
    t.estimate_wavelet_psd(m if i % 5 == 4 else int(g.integers(1, 4)))
    log = bool(i % 2)
    r = call(s.psd_difference, t, (np.log, np.exp)) if log else call(s.psd_difference, t)
    R = lambda p: enc(np.ravel(p))
    rec = {'op': 'diff', 'raised': r.name if isinstance(r, Raised) else '', 'log': log, 'f1': R(s.wt_psd.freq), 'p1': R(s.wt_psd.psd),
           'f2': R(t.wt_psd.freq), 'p2': R(t.wt_psd.psd), 'fs1': enc(fs)}
    if not rec['raised']:
        rec.update(f=R(r.wt_psd.freq), p=R(r.wt_psd.psd), fs=enc(r.fs))
    return rec
