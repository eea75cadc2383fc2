"""Executes the configurations of Contract.tla on the real entry points."""
import json
import re
import numpy as np
import gen
import vlib
from scen_wavelet import make_signal, gaps, scales_available
from vlib import Call, Raised, call, enc, enc_mrq, get, num, rng, NONE, exc

NOBJ = {'k': 'none', 'f': {}, 'formalism': '', 'nj': []}


def configs():
    code, out, g, d = vlib.run_tlc('Gen_Contract')
    uni, bi = [], []
    for line in out.splitlines():
        m = re.match(r'^"(UNI|BI) (.*)"$', line)
        if m:
            (uni if m.group(1) == 'UNI' else bi).append(json.loads(m.group(2).replace('\\"', '"')))
    if code or not uni or not bi:
        raise vlib.MachineryError('Gen_Contract: ' + out[-2000:])
    key = lambda c: json.dumps(c, sort_keys=True)
    return sorted(uni, key=key), sorted(bi, key=key), g, d


ATTR = {'structure': ('j', 'j1', 'j2', 'weighted', 'nrep', 'q', 'values', 'logvalues', 'zeta', 'intercept', 'H', 'gamint'),
        'cumulants': ('j', 'j1', 'j2', 'weighted', 'nrep', 'm', 'values', 'log_cumulants', 'var_log_cumulants'),
        'spectrum': ('j', 'j1', 'j2', 'weighted', 'nrep', 'q', 'U', 'V', 'Dq', 'hq')}
BIATTR = {'structure': ('j', 'j1', 'j2', 'weighted', 'nrep', 'q1', 'q2', 'logvalues', 'zeta', 'intercept', 'gamint', 'coherence'),
          'cumulants': ('j', 'j1', 'j2', 'weighted', 'nrep', 'm', 'values', 'log_cumulants', 'RHO_MF', 'rho_mf')}


def obj(o, attrs):
    if o is None:
        return dict(NOBJ)
    if isinstance(o, Raised):
        return {'k': 'exc', 'f': {}, 'formalism': o.name, 'nj': []}
    if attrs is None:                                   # hmin: an array
        return {'k': 'obj', 'f': {'value': enc(o)}, 'formalism': '', 'nj': []}
    try:
        nj = [enc(o.nj[k]) for k in o.nj]
    except Exception as e:
        nj = [exc(e)]
    return {'k': 'obj', 'f': {a: get(o, a) for a in attrs}, 'formalism': str(getattr(o, 'formalism', '?')), 'nj': nj}


def var(v, fields, attr):
    if v is None:
        return {'k': 'none', 'f': {}}
    if isinstance(v, Raised):
        return {'k': 'exc', 'f': {}}
    return {'k': 'var', 'f': {f: obj(getattr(v, f, None), attr.get(f)) for f in fields}}


UF = ('structure', 'cumulants', 'spectrum', 'hmin')
PV = {'none': None, 'inf': np.inf, '2': 2, '1': 1, '0.5': .5}


def short(m):
    e = enc_mrq(m)
    e['v'] = []
    return e


def signal_for(g, R, wt, jmin=3, n=(150, 420)):
    for _ in range(200):
        x = make_signal(g, int(g.integers(*n)), R, str(g.choice(['noise', 'walk'])))
        if g.random() < .3:
            x = gaps(g, x, 'one')
        J = scales_available(x, wt, True)
        if J >= jmin:
            return x, J
    raise AssertionError('no signal')


def univariate(chunk, k):
    return [uni(c, (k, i)) for i, c in enumerate(chunk)]


def uni(c, key):
    g = rng('contract', key)
    L = gen.lib()
    wt = str(g.choice(['db1', 'db2', 'db3']))
    x, J = signal_for(g, c['R'], wt)
    q = {'none': None, 'list': [2, -1, 0.5], 'list_no2': [1, 3.5], 'list_single2': [2],
         'array': np.array([-2., 0., 1., 2., 3.]), 'array_no2': np.array([0.5, 1.]), 'intarray': np.array([1, 2, 4])}[c['q']]
    qexp = enc(np.array([2.] if q is None else q, float))
    kw = dict(p_exp=PV[c['p']], wt_name=wt, j1=int(g.integers(1, J)), j2=[J, 10, J - .0][int(g.integers(3))],
              gamint=float(g.choice([0., .5, 1.])), normalization=[1, 2][int(g.integers(2))], weighted=c['weighted'])
    t = call(L.wavelet_analysis, x, **kw)
    if isinstance(t, Raised):
        return {'op': 'uni', 'prop': 'C14', 'cfg': c, 'raised': 'wavelet_analysis.' + t.name, 'out': 0, 'ref': 0}
    if c['entry'] in ('full', 'full_minimal'):
        k2 = dict(kw, q=q, n_cumul=c['M'], minimal=c['entry'] == 'full_minimal')
        for d, v in (('p_exp', None), ('q', None), ('normalization', 1), ('gamint', 0.0), ('n_cumul', 3), ('minimal', False)):
            if k2[d] is v or (type(k2[d]) is type(v) and k2[d] == v):
                if g.random() < .5:
                    del k2[d]
        r = call(L.mfa.mf_analysis_full, x[:, 0] if c['R'] == 1 and g.random() < .5 else x, **k2)
    else:
        f = L.mfa.mf_analysis if c['entry'] == 'mf' else L.mfa.minimal_mf_analysis
        r = call(f, t.wt_coefs, t.wt_leaders, t.j2_eff, j1=kw['j1'], weighted=kw['weighted'], n_cumul=c['M'], q=q)
    rec = {'op': 'uni', 'prop': 'C14', 'cfg': c, 'raised': r.name if isinstance(r, Raised) else '', '_msg': getattr(r, 'msg', ''),
           'coefs': short(t.wt_coefs), 'leaders': short(t.wt_leaders), 'qexp': qexp, 'out': {}, 'ref': {}, '_kw': repr(kw)}
    if rec['raised']:
        return rec
    rec['out'] = {'dwt': var(getattr(r, 'dwt', None), UF, ATTR), 'lwt': var(getattr(r, 'lwt', None), UF, ATTR)}
    qa = np.array([2] if q is None else q)
    for name, m in (('dwt', t.wt_coefs), ('lwt', t.wt_leaders)):
        if m is None:
            rec['ref'][name] = {'k': 'none', 'f': {}}
            continue
        h = call(L.estimate_hmin, m, kw['j1'], t.j2_eff, kw['weighted'], warn=False)
        rec['ref'][name] = {'k': 'var', 'f': {
            'structure': obj(call(L.StructureFunction, m, qa, kw['j1'], t.j2_eff, kw['weighted']), ATTR['structure']),
            'cumulants': obj(call(L.Cumulants, m, c['M'], kw['j1'], t.j2_eff, kw['weighted']), ATTR['cumulants']),
            'spectrum': obj(call(L.MultifractalSpectrum, m, kw['j1'], t.j2_eff, kw['weighted'], qa), ATTR['spectrum']),
            'hmin': obj(h[0] if isinstance(h, tuple) else h, None)}}
    return rec


def bivariate(chunk, k):
    return [bi(c, (k, i)) for i, c in enumerate(chunk)]


def bi(c, key):
    from pymultifracs.bivariate import bivariate_analysis, bivariate_analysis_full
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction
    g = rng('bicontract', key)
    L = gen.lib()
    wt = str(g.choice(['db1', 'db2', 'db3']))
    n = int(g.integers(150, 420))
    x, J = signal_for(g, 1, wt, n=(n, n + 1))
    x = make_signal(g, n, 1, 'noise')
    y = make_signal(g, n, 1, 'walk')
    J = scales_available(x, wt, True)
    q1, q2 = {'none': (None, None), 'list': ([0, 1, 2], [0, 1, 2, 3]), 'array': (np.array([0., 1., 2., -1.]), np.array([0., 1., 2.])),
              'array_no1': (np.array([0., 2.]), np.array([0., 2., .5])), 'differ': (np.array([0., 1., 2., 3.]), np.array([2., 1., 0.])),
              'swapped': (np.array([2, 1, 0]), np.array([1, 0, 2])),
              'only1': ([0, 1, 2, 3], None), 'only2': (None, np.array([3., 1., 0., 2.])), 'single': ([1], np.array([2.]))}[c['q']]
    a1 = np.array([0, 1, 2] if q1 is None else q1)
    a2 = np.array([0, 1, 2] if q2 is None else q2)
    kw = dict(p_exp=PV[c['p']], wt_name=wt, j1=int(g.integers(1, J)), j2=[J, 10][int(g.integers(2))],
              gamint=float(g.choice([0., .5, 1.])), normalization=[1, 2][int(g.integers(2))], weighted=c['weighted'])
    t1, t2 = call(L.wavelet_analysis, x, **kw), call(L.wavelet_analysis, y, **kw)
    if isinstance(t1, Raised) or isinstance(t2, Raised):
        return {'op': 'bi', 'prop': 'C17', 'cfg': c, 'raised': 'wavelet_analysis', 'out': 0, 'ref': 0}
    j2 = min(t1.j2_eff, t2.j2_eff)
    if c['entry'] == 'bi' and c['unequal'] and t1.j2_eff > kw['j1'] + 1:
        cut = int(g.integers(kw['j1'] + 1, t1.j2_eff + 1))
        which = bool(g.integers(2))
        t1, t2 = (t1._replace(j2_eff=cut), t2) if which else (t1, t2._replace(j2_eff=cut))
        j2 = cut
    if c['entry'] == 'full':
        k2 = dict(kw, q1=q1, q2=q2, n_cumul=c['M'])
        for d, v in (('p_exp', None), ('q1', None), ('q2', None), ('normalization', 1), ('gamint', 0.0), ('n_cumul', 3)):
            if k2[d] is v or (type(k2[d]) is type(v) and k2[d] == v):
                if g.random() < .5:
                    del k2[d]
        one = g.random() < .5
        r = call(bivariate_analysis_full, x[:, 0] if one else x, y[:, 0] if one else y, **k2)
    else:
        r = call(bivariate_analysis, t1, t2, kw['j1'], kw['weighted'], c['M'], q1, q2)
    rec = {'op': 'bi', 'prop': 'C17', 'cfg': c, 'raised': r.name if isinstance(r, Raised) else '', '_msg': getattr(r, 'msg', ''),
           'coefs': short(t1.wt_coefs), 'leaders': short(t1.wt_leaders), 'q1exp': enc(a1), 'q2exp': enc(a2), 'j2exp': enc(j2),
           'out': {}, 'ref': {}, '_kw': repr(kw)}
    if rec['raised']:
        return rec
    BF = ('structure', 'cumulants')
    rec['out'] = {'dwt': var(getattr(r, 'dwt', None), BF, BIATTR), 'lwt': var(getattr(r, 'lwt', None), BF, BIATTR)}
    for name, m, p in (('dwt', t1.wt_coefs, t2.wt_coefs), ('lwt', t1.wt_leaders, t2.wt_leaders)):
        if m is None:
            rec['ref'][name] = {'k': 'none', 'f': {}}
            continue
        rec['ref'][name] = {'k': 'var', 'f': {
            'structure': obj(call(BiStructureFunction, m, p, kw['j1'], j2, a1, a2, kw['weighted']), BIATTR['structure']),
            'cumulants': obj(call(BiCumulants, m, p, c['M'], kw['j1'], j2, kw['weighted']), BIATTR['cumulants'])}}
    return rec


def rejects(i):
    """pairs that must be refused"""
    from pymultifracs.bivariate import bivariate_analysis, bivariate_analysis_full
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction
    g = rng('reject', i)
    L = gen.lib()
    n = int(g.integers(200, 400))
    x, y = make_signal(g, n, 1, 'noise'), make_signal(g, n, 1, 'walk')
    z = y.copy()
    z[n // 2] = np.nan
    p = [None, np.inf, 2][i % 3]
    kw = dict(p_exp=p, wt_name='db2', j1=1, j2=3)
    T = lambda s, **k: L.wavelet_analysis(s, **dict(kw, **k))
    t, u = T(x), T(y)
    w = bool(i % 2)
    q = np.array([0., 1., 2.])
    M = int(g.integers(1, 4))
    out = []

    def rej(what, f, *a, **k):
        r = call(f, *a, **k)
        out.append({'op': 'reject', 'prop': 'C17', 'what': what, 'raised': r.name if isinstance(r, Raised) else ''})
    SFn = lambda a, b: BiStructureFunction(a, b, 1, 3, q, q, w)
    CUm = lambda a, b: BiCumulants(a, b, M, 1, 3, w)
    s1, s2 = T(x[:n // 2]), T(z)
    for tag, f in (('structure', SFn), ('cumulants', CUm)):
        rej(tag + '.length', f, t.wt_coefs, s1.wt_coefs)
        rej(tag + '.length.swapped', f, s1.wt_coefs, t.wt_coefs)
        rej(tag + '.missing', f, t.wt_coefs, s2.wt_coefs)
        rej(tag + '.missing.swapped', f, s2.wt_coefs, t.wt_coefs)
        if p is not None:
            rej(tag + '.formalism', f, t.wt_coefs, t.wt_leaders)
            rej(tag + '.leaders.length', f, t.wt_leaders, s1.wt_leaders)
            a, b = L.MRQ('wavelet leader', 0.), L.MRQ('wavelet p-leader', 0.)
            for j in (1, 2, 3):
                v = np.abs(t.wt_coefs.values[j])
                a.add_values(v, j)
                b.add_values(v, j)
            rej(tag + '.formalism.leaders', f, a, b)
            rej(tag + '.formalism.leaders.swapped', f, b, a)
        # equal valid counts at the first scale only
        a, b = L.MRQ('wavelet coef', 0.), L.MRQ('wavelet coef', 0.)
        for j in (1, 2, 3):
            va, vb = g.normal(size=(40 >> j, 1)), g.normal(size=(40 >> j, 1))
            if j == 3:
                vb[0] = np.nan
            a.add_values(va, j)
            b.add_values(vb, j)
        rej(tag + '.missing.lastscale', f, a, b)
    rej('structure.gamint', SFn, t.wt_coefs, T(y, gamint=.5).wt_coefs)
    rej('full.length', bivariate_analysis_full, x, y[:-n // 3], 1, 3, wt_name='db2', p_exp=p)
    rej('full.missing', bivariate_analysis_full, x, z, 1, 3, wt_name='db2', p_exp=p)
    rej('bi.gamint', bivariate_analysis, t, T(y, gamint=1.), 1, w, M, None, None)
    return out
