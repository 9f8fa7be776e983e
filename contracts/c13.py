"""C13: star-formation history, cosmological weights, population normalisation."""
from pyvc.ctx import contract
from types import SimpleNamespace as NS
import math
LN10 = math.log(10)

H, R, N, Y = 'posydon.popsyn.star_formation_history', 'posydon.popsyn.rate_calculation', 'posydon.popsyn.norm_pop', 'posydon.popsyn.synthetic_population'


def at(c, x, j): return x.at(j) if c.symbolic and hasattr(x, 'at') else x[int(j)] if not c.symbolic else x[j]
def oarr(c, v):
    import numpy as np
    if not c.symbolic: return np.array([float(x) for x in v])
    r = np.empty(len(v), dtype=object)
    for i, x in enumerate(v): r[i] = x
    return r


class Cdf:
    """an arbitrary non-decreasing cumulative law"""
    def __init__(s, c):
        s.c = c
        if not c.symbolic: s.k, s.m = float(c.pos('steep', slo=0.5, shi=4)), float(c.pos('mid', slo=1e-4, shi=0.5))
    def one(s, x):
        if s.c.symbolic: return s.c.uf('F', x)
        r = (float(x) / s.m)**s.k; return s.c.num(r / (1. + r))
    def __call__(s, x):
        import numpy as np
        if s.c.symbolic:
            if hasattr(x, 'at'): return type(x).ew(s.one, x)
            if isinstance(x, np.ndarray): return oarr(s.c, [s.one(v) for v in x])
            return s.one(x)
        return np.array([float(s.one(v)) for v in np.ravel(x)]).reshape(np.shape(x)) if np.ndim(x) else float(s.one(x))


def model(c, M, **attrs):
    class Model(M.SFHBase):
        def CSFRD(s, z): return None
        def mean_metallicity(s, z): return None
        def fSFR(s, z, b): return None
    o = Model.__new__(Model); o.Z_max = o.Z_min = None; o.normalise = False
    for k, v in attrs.items(): setattr(o, k, c.raw(v) if v is not None else None)
    return o


def limits(c):
    zmax = c.pos('Z_max', 1, slo=1e-3, shi=1, special=(0.01, 1.)) if c.bool('has Z_max') else None
    zmin = c.nonneg('Z_min', 1, slo=1e-5, shi=0.1, special=(0., 0.01)) if c.bool('has Z_min') else None
    if zmax is not None and zmin is not None: c.assume(zmin < zmax)
    return zmin, zmax


def expected(c, F, b, i, last, zmin, zmax):
    """mass fraction of bin i: the part of [Z_min, Z_max] inside it, the end bins reaching out to the limits"""
    lo, hi = b(i), b(i + 1)
    if zmin is not None:
        if i == 0 or zmin > lo: lo = zmin
    if zmax is not None:
        if i == last or zmax < hi: hi = zmax
    return (lo, hi, F.one(hi) - F.one(lo)) if hi > lo else (lo, hi, c.num(0.))


@contract('C13', H + ':SFHBase._distribute_cdf', samples=500, timeout_ms=20000, assumes=['np.searchsorted on an ascending array of any length: its defining property'])
def metallicity_fractions(c):
    """any number of bins: each receives the cumulative difference over its part of the allowed metallicities, never negative; consecutive bins share their edge, so the fractions add up"""
    import posydon.popsyn.star_formation_history as M
    n = c.int('bins', 1, slo=1, shi=5); j = c.int('j', 0, n - 1, slo=0, shi=4); c.assume(j < n)
    zmin, zmax = limits(c); F = Cdf(c); c.patch(M.Pwarn, lambda *a, **k: None)
    if c.symbolic: B = c.arr('edge', n + 1, 0, lo_open=True)
    else:
        import numpy as np
        e = [float(c.pos('edge0', slo=1e-4, shi=1e-2, special=(0.01,)))]
        for i in range(int(n)): e.append(e[-1] * (1. + float(c.pos('step%d' % i, slo=0.1, shi=5))) if not c.bool('unsorted%d' % i) or i < 3 else e[-1] * 0.9)
        B = np.array(e)
    b = lambda i: at(c, B, i)
    if zmax is not None: c.assume(zmax > b(0))
    if zmin is not None: c.assume(zmin <= b(n))
    o = model(c, M, Z_min=zmin, Z_max=zmax); r = c.call(o._distribute_cdf, F, B)
    up = b(j) < b(j + 1)
    if r.exc is not None: c.check('only unsorted bins are rejected', isinstance(r.exc, ValueError)); c.check('some bins descend', c.symbolic or bool((B[1:] <= B[:-1]).any())); return
    c.check('ascending', up); c.eq('one fraction per bin', c.num(r.value.shape[0]), n)
    lo, hi, w = expected(c, F, b, j, n - 1, zmin, zmax); f = at(c, r.value, j); c.eq('fraction', f, w)
    if hi > lo: c.assume(F.one(hi) >= F.one(lo))
    c.check('never negative', f >= 0 if c.symbolic else f > -1e-12)
    if j + 1 < n:
        lo2, hi2, _ = expected(c, F, b, j + 1, n - 1, zmin, zmax)
        if c.And(hi > lo, hi2 > lo2): c.eq('bins join without gap or overlap', lo2, hi)


@contract('C13', H + ':SFHBase._distribute_cdf', samples=300, timeout_ms=20000, bound='1 to 3 bins (all values)')
def metallicity_total(c):
    """the fractions add up to the law between the limits; normalised ones to one"""
    import posydon.popsyn.star_formation_history as M
    n = c.choice('bins', [1, 2, 3]); zmin, zmax = limits(c); F = Cdf(c); c.patch(M.Pwarn, lambda *a, **k: None); norm = c.bool('normalise')
    e = [c.pos('edge0', slo=1e-4, shi=1e-2, special=(0.01,))]
    for i in range(n): e.append(e[-1] + c.pos('step%d' % i, slo=1e-3, shi=0.1))
    if zmax is not None: c.assume(zmax > e[0])
    if zmin is not None: c.assume(zmin <= e[-1])
    o = model(c, M, Z_min=zmin, Z_max=zmax); o.normalise = norm; lo, hi = e[0] if zmin is None else zmin, e[-1] if zmax is None else zmax
    if not c.symbolic: c.assume(F.one(hi) - F.one(lo) > 1e-6)
    else: c.assume(F.one(hi) > F.one(lo))
    r = c.run('computed', o._distribute_cdf, F, oarr(c, e)); s = c.num(0.)
    for x in r: s = s + x
    c.eq('total', s, c.num(1.) if norm else F.one(hi) - F.one(lo), rtol=1e-7)


@contract('C13', H + ':SFHBase.__init__', samples=200)
def model_limits(c):
    """metallicity limits are absolute fractions in order, every other setting is kept as given"""
    import posydon.popsyn.star_formation_history as M
    class Model(M.SFHBase):
        def CSFRD(s, z): pass
        def mean_metallicity(s, z): pass
        def fSFR(s, z, b): pass
    d = {}; sp = dict(slo=-0.5, shi=1.5, special=(0., 1., 0.5))
    zmax = c.real('Z_max', **sp) if c.bool('has Z_max') else None; zmin = c.real('Z_min', **sp) if c.bool('has Z_min') else None
    if zmax is not None or c.bool('explicit'): d['Z_max'] = c.raw(zmax) if zmax is not None else None
    if zmin is not None or c.bool('explicit'): d['Z_min'] = c.raw(zmin) if zmin is not None else None
    if c.bool('normalise given'): d['normalise'] = True
    d['delta_t'] = c.raw(c.pos('dt'))
    bad = zmax is not None and (zmax > 1 or zmax < 0) or zmin is not None and (zmin > 1 or zmin < 0) or zmax is not None and zmin is not None and zmin >= zmax
    s = dict(d); r = c.call(Model, d); c.check('rejected exactly when inadmissible', (r.exc is not None) == bool(bad)); c.check('as ValueError', r.exc is None or isinstance(r.exc, ValueError))
    if r.exc is None:
        for k in d: c.same('kept: ' + k, getattr(r.value, k), d[k])
        c.check('defaults', r.value.normalise is ('normalise' in d)); c.check('Z defaults', ('Z_max' in d or r.value.Z_max is None) and ('Z_min' in d or r.value.Z_min is None))
    c.check('settings untouched', d.keys() == s.keys() and all(d[k] is s[k] for k in s))


PAR = {'MadauDickinson14': (0.015, 2.7, 2.9, 5.6), 'MadauFragos17': (0.01, 2.6, 3.2, 6.2), 'Neijssel19': (0.01, 2.77, 2.9, 4.7), 'Fujimoto24': (0.01, 2.8, 3.3, 6.6)}


class Norm:
    """scipy.stats.norm: the cumulative law is a function of the standardised variable"""
    def __init__(s, c, loc=0, scale=1, args=None): s.c, s.loc, s.scale, s.args = c, loc, scale, [] if args is None else args
    def __call__(s, loc=0, scale=1): return Norm(s.c, loc, scale, s.args)
    def cdf(s, x, loc=None, scale=None):
        loc, scale = s.loc if loc is None else loc, s.scale if scale is None else scale; y = (x - loc) / scale
        s.args.append(y); return type(y).ew(lambda v: s.c.uf('Phi', v), y) if hasattr(y, 'at') else s.c.uf('Phi', y)


@contract('C13', H + ':MadauBase.__init__', H + ':MadauBase.CSFRD', H + ':MadauBase.mean_metallicity', H + ':MadauBase.std_log_metallicity_dist', H + ':MadauBase.fSFR', H + ':Neijssel19.mean_metallicity', H + ':Neijssel19.fSFR', H + ':MadauDickinson14.__init__', H + ':MadauFragos17.__init__', H + ':Neijssel19.__init__', H + ':Fujimoto24.__init__',
          samples=300, timeout_ms=20000, bound='1 or 2 redshifts at a time (all values; rows are independent)', assumes=['scipy.stats.norm.cdf is a function of (x - mean)/sigma'])
def parametric_history(c):
    """analytic star-formation histories: Madau-form density, log-normal metallicities whose mean is the published mean metallicity"""
    import posydon.popsyn.star_formation_history as M, numpy as np, math
    kind = c.choice('kind', list(PAR)); sg = c.choice('sigma', ['number', 'integer', 'Bavera+20', 'Neijssel+19', 'unknown', 'missing', 'list'])
    d = {'sigma': {'number': c.raw(c.pos('s', slo=0.1, shi=1)), 'integer': 1, 'list': [0.5]}.get(sg, sg)}
    if sg == 'missing': d = {}
    nd = Norm(c)
    if c.symbolic: c.patch_attr(M, 'stats', NS(norm=nd))
    o = c.call(getattr(M, kind), d)
    if sg == 'missing': c.check('sigma is needed', isinstance(o.exc, ValueError)); return
    c.check('constructed', o.exc is None, detail=o.tb); o = o.value
    n = c.choice('n', [1, 2]) if sg == 'number' else 1; z = [c.real('z%d' % i, 0, 20, lo_open=c.symbolic and sg != 'number', slo=0, shi=10, special=(0.,)) for i in range(n)]; Z = oarr(c, z); a, b, k, g = PAR[kind]
    q = c.run('density', o.CSFRD, Z); mean = c.run('mean', o.mean_metallicity, Z)
    for i in range(n):
        c.eq('Madau form', q[i], a * c.pow(1. + z[i], b) / (1. + c.pow((1. + z[i]) / k, g)), rtol=1e-7); c.check('density not negative', q[i] >= 0) if n == 1 or not c.symbolic else None
        mz = 0.035 * c.exp10(-0.23 * z[i]) if kind == 'Neijssel19' else 0.0142 * c.exp10(0.153 - 0.074 * c.pow(z[i], 1.34)); c.eq('mean metallicity', mean[i], mz, rtol=1e-7)
    s = c.call(o.std_log_metallicity_dist)
    if sg in ('unknown', 'list'): c.check('unknown scatter rejected', isinstance(s.exc, ValueError)); return
    c.check('scatter known', s.exc is None); sv = d['sigma'] if sg == 'number' else {'Bavera+20': 0.5, 'Neijssel+19': 0.39, 'integer': 1.}[sg]; sv = c.num(sv) if not c.symbolic else sv; c.eq('scatter', s.value, sv)
    bins = oarr(c, [1e-4, 1e-2, 1.]) if c.symbolic else np.array([1e-4, 1e-2, 1.])
    x = c.pos('x', slo=1e-4, shi=1); got = []
    def rec(F, e): got.append(c.call(F, c.raw(x))); return oarr(c, [c.real('f%d_%d' % (len(got), m), 0, 1, slo=0, shi=1) for m in range(2)])
    o._distribute_cdf = rec
    f = c.run('fractions', o.fSFR, Z, bins); c.check('one row per redshift', f.shape == (n, 2) and len(got) == n)
    for i in range(n):
        if kind == 'Neijssel19': base, half = c.log(x) - c.log(mean[i]), sv**2 / 2.
        else: base, half = c.log10(x) - c.log10(mean[i]), sv**2 * LN10 / 2.
        y = (base + half) / sv
        c.check('law evaluated', got[i].exc is None, detail=got[i].tb); v = got[i].value
        if c.symbolic: c.check('the cumulative law itself', v is not None and len(nd.args) == n); c.eq('cumulative value', v, c.uf('Phi', nd.args[i])); c.eq('log-normal around the mean', nd.args[i] * sv - base, half)
        else: c.check('log-normal around the mean', abs(float(v) - 0.5 * math.erfc(-float(y) / math.sqrt(2.))) < 1e-7, detail=repr((float(v), float(y))))
        for m in range(2): c.eq('row', f[i, m], c.real('f%d_%d' % (i + 1, m), 0, 1, slo=0, shi=1) if c.symbolic else f[i, m])


def mono(c, name, k, slo, shi, special=()):
    import numpy as np
    v = [float(c.real(name + '0', slo=slo, shi=shi))]
    for i in range(1, k): v.append(v[-1] + float(c.pos('%s%d' % (name, i), slo=0.05, shi=2)))
    return np.array(v)


@contract('C13', H + ':IllustrisTNG.__init__', H + ':IllustrisTNG.CSFRD', H + ':IllustrisTNG.mean_metallicity', H + ':IllustrisTNG.fSFR', H + ':Chruslinska21.__init__', H + ':Chruslinska21._load_chruslinska_data', H + ':Chruslinska21._FOH_to_Z', H + ':Chruslinska21.CSFRD', H + ':Chruslinska21.mean_metallicity', H + ':Chruslinska21.fSFR', H + ':Zavala21.CSFRD', H + ':Zavala21._load_zavala_data', 'posydon.utils.interpolators:interp1d.__init__', 'posydon.utils.interpolators:interp1d.__call__',
          samples=300, bounded='concrete evaluation of the postcondition on generated tables (2 to 6 redshifts)')
def tabulated_history(c):
    """tabulated histories: density and mean metallicity interpolate the table, metallicity fractions are those of the tabulated row in force at that redshift and sum to the share inside the limits"""
    import posydon.popsyn.star_formation_history as M, numpy as np
    if c.symbolic: return
    kind = c.choice('kind', ['IllustrisTNG', 'Chruslinska21', 'Zavala21']); k = int(c.int('rows', 2, 6)); zr = mono(c, 'zr', k, 0., 0.5); zr[0] = zr[0] if c.bool('from above zero') else 0.
    n = int(c.int('n', 1, 3)); z = np.array([float(c.real('z%d' % i, slo=0, shi=zr[-1], special=(zr[0], zr[-1], zr[1]))) for i in range(n)]); z = np.clip(z, 0 if kind == 'Chruslinska21' else zr[0], zr[-1])
    zlo, zhi = (float(c.pos('Zmin', 0.0035, slo=1e-6, shi=1e-3)) if c.bool('has Zmin') else None), (float(c.real('Zmax', 0.15, 1, slo=0.2, shi=1)) if c.bool('has Zmax') else None)
    d = dict(Z_min=zlo, Z_max=zhi, normalise=False); bins = np.array([1e-3, 4e-3, 2e-2, 0.1]); c.patch(M.Pwarn, lambda *a, **w: None)
    rho = np.array([float(c.nonneg('rho%d' % i, slo=0, shi=2)) for i in range(k)])
    if kind == 'Zavala21':
        import pandas as pd
        which = c.choice('sub', ['min', 'max', 'mean']); other = rho + 1.
        c.patch_attr(M.pd, 'read_csv', lambda *a, **w: pd.DataFrame({'redshift': zr, 'SFRD_min': rho, 'SFRD_max': other}))
        r = c.call(M.Zavala21, dict(d, sigma=0.5, sub_model=which)); c.check('submodel', (r.exc is None) == (which != 'mean'), detail=r.tb)
        c.check('submodel needed', isinstance(c.call(M.Zavala21, dict(d, sigma=0.5)).exc, ValueError))
        if r.exc is None: c.check('density', bool(np.allclose(r.value.CSFRD(z), np.interp(z, zr, rho if which == 'min' else other))))
        return
    if kind == 'IllustrisTNG':
        m = 4; Zt = 10**np.sort(np.array([float(c.real('lz%d' % i, -5, -1, slo=-5, shi=-1)) for i in range(m)])); c.assume((np.diff(np.log10(Zt)) > 1e-3).all())
        T = np.array([[float(c.nonneg('M%d_%d' % (i, q), slo=0, shi=3, special=(0.,))) for q in range(m)] for i in range(k)])
        if c.bool('empty row'): T[0] = 0.
        c.patch_attr(M.IllustrisTNG, '_get_illustrisTNG_data', lambda s, verbose=False: {'SFR': rho[::-1], 'redshifts': zr[::-1], 'mets': Zt, 'M': T[::-1]})
        o = c.run('built', M.IllustrisTNG, d); dens, row = rho, [np.where(zr <= q)[0][-1] for q in z]
    else:
        sc = c.choice('solar', ['Asplund09', 'AndersGrevesse89', 'GrevesseSauval98', 'Villante14', 'other']); dt = np.array([float(c.pos('dt%d' % i, slo=0.1, shi=2)) for i in range(k)])
        T0 = np.random.default_rng(int(c.int('seed', 0, 1000))).uniform(size=(k, 200)) * (rho[:, None] > 0.2)
        c.patch_attr(M.Chruslinska21, '_load_redshift_data', lambda s, verbose=False: (None, zr[::-1].copy(), dt[::-1].copy())); c.patch_attr(M.Chruslinska21, '_load_raw_data', lambda s: T0[::-1].copy())
        r = c.call(M.Chruslinska21, dict(d, sub_model='x', Z_solar_scaling=sc)); c.check('scaling known', (r.exc is None) == (sc != 'other'))
        for key in ('sub_model', 'Z_solar_scaling'): c.check('needs ' + key, isinstance(c.call(M.Chruslinska21, {q: v for q, v in dict(d, sub_model='x', Z_solar_scaling='Asplund09').items() if q != key}).exc, ValueError))
        if r.exc is not None: return
        o = r.value; zs, foh = {'Asplund09': (0.0134, 8.69), 'AndersGrevesse89': (0.017, 8.83), 'GrevesseSauval98': (0.0201, 8.93), 'Villante14': (0.019, 8.85)}[sc]
        fb = np.linspace(5.3, 9.7, 200); Zt = zs * 10**(fb - foh); T = T0 / dt[:, None]; dens = T.sum(axis=1) / 1e6; row = [0 if q < zr[0] else np.where(zr <= q)[0][-1] for q in z]
    c.check('density interpolates the table', bool(np.allclose(c.run('density', o.CSFRD, z), np.interp(z, zr, dens), rtol=1e-7, atol=1e-12)))
    with np.errstate(all='ignore'): means = np.array([(Zt * t).sum() / t.sum() if t.sum() > 0 else np.nan for t in T])
    if T[0 if kind == 'IllustrisTNG' else -1].sum() > 0: c.check('mean metallicity', bool(np.allclose(c.run('mean', o.mean_metallicity, z), np.interp(z, zr, means), rtol=1e-7, equal_nan=True)))
    f = c.run('fractions', o.fSFR, z, bins); c.check('shape', f.shape == (n, 3)); c.check('not negative', bool((f >= -1e-12).all()))
    for i in range(n):
        t = T[row[i]]
        if t.sum() == 0: c.check('nothing formed', bool((f[i] == 0).all())); continue
        F = lambda x: np.interp(np.log10(x), np.append(np.log10(Zt), 0.), np.append(np.cumsum(t) / t.sum(), 1.)); e = bins.copy()
        if zlo is not None: e[0] = zlo
        if zhi is not None: e[-1] = zhi
        c.check('fractions of the row in force', bool(np.allclose(f[i], np.diff(F(e)), atol=1e-9)), detail=repr((f[i], np.diff(F(e)))))
    w = c.run('mass formed', o, z, bins); c.check('density times fraction', bool(np.allclose(w, o.CSFRD(z)[:, None] * f)))


@contract('C13', H + ':get_SFH_model', H + ':SFR_per_met_at_z', samples=60)
def model_choice(c):
    """every supported name gives its own model, others are rejected, mass per metallicity is density times fraction"""
    import posydon.popsyn.star_formation_history as M
    T = {'Madau+Fragos17': 'MadauFragos17', 'Madau+Dickinson14': 'MadauDickinson14', 'Fujimoto+24': 'Fujimoto24', 'Neijssel+19': 'Neijssel19', 'IllustrisTNG': 'IllustrisTNG', 'Chruslinska+21': 'Chruslinska21', 'Zavala+21': 'Zavala21'}
    k = c.choice('name', list(T) + ['madau', '']); made = []
    for v in T.values(): c.patch_attr(getattr(M, v), '__init__', lambda s, m, v=v: made.append((v, m)) or None)
    d = dict(SFR=k); r = c.call(M.get_SFH_model, d)
    if k not in T: c.check('rejected', isinstance(r.exc, ValueError)); return
    c.check('the model', type(r.value).__name__ == T[k] and len(made) == 1 and made[0][1] is d)
    q, f = [c.nonneg('q%d' % i, slo=0, shi=2) for i in range(2)], [[c.nonneg('f%d%d' % (i, j), slo=0, shi=1) for j in range(2)] for i in range(2)]
    import numpy as np
    g = np.array([[float(x) for x in y] for y in f]) if not c.symbolic else np.array(f, dtype=object); z, b = object(), object(); seen = []
    cls = type(r.value); c.patch_attr(cls, 'CSFRD', lambda s, x: seen.append(x) or oarr(c, q)); c.patch_attr(cls, 'fSFR', lambda s, x, y: seen.append((x, y)) or g)
    w = c.run('mass formed', M.SFR_per_met_at_z, z, b, d); c.check('same redshifts and bins', z in seen and (z, b) in seen)
    for i in range(2):
        for j in range(2): c.eq('product', w[i, j], q[i] * f[i][j])


@contract('C13', H + ':get_formation_times', samples=300, timeout_ms=20000, bound='up to 3 binaries for sampled histories (all values)')
def formation_times(c):
    """one birth time per binary: the burst time, uniform in the interval, or the maximum time minus a sampled age"""
    import posydon.popsyn.star_formation_history as M
    k = c.choice('scenario', ['burst', 'constant', 'Constant', 'custom_linear', 'custom_log10', 'custom_linear_histogram', 'custom_log10_histogram', 'weird']); n = c.choice('n', [1, 2, 3]); kw = {}
    for a in ('burst_time', 'max_simulation_time', 'max_time', 'min_time'):
        if c.bool('has ' + a): kw[a] = c.raw(c.real(a, 0 if a != 'min_time' else None, slo=1, shi=10))
    u = [c.real('u%d' % i, 0, 1, slo=0, shi=1) for i in range(n)]; ages = [c.real('age%d' % i, -5, 5, slo=0.1, shi=3) for i in range(n)]; calls = []
    class G:
        def uniform(s, low=0.0, high=1.0, size=None): calls.append((low, high, size)); return oarr(c, [c.raw(low + (high - low) * x) for x in u[:size]])
    g = G(); kw['RNG'] = g; x, y = object(), object()
    if not k.lower() in ('burst', 'constant'): kw['custom_ages_file'] = 'ages'
    c.patch_attr(M.np, 'loadtxt', lambda f, **w: (x, y)) if not c.symbolic else None
    def sampler(name):
        def f(a, b, size=1, rng=None, **w): calls.append((name, a, b, size, rng)); return oarr(c, [c.raw(v) for v in ages[:size]])
        return f
    import posydon.utils.common_functions as CF
    c.patch(CF.rejection_sampler, sampler('table')); c.patch(CF.histogram_sampler, sampler('histogram')); c.patch(CF.read_histogram_from_file, lambda f: (x, y))
    if c.symbolic and k in ('custom_linear', 'custom_log10'):
        import numpy as np
        c.patch_attr(np, 'loadtxt', lambda f, **w: (x, y))
    r = c.call(M.get_formation_times, n, star_formation=k, **kw)
    if k == 'weird': c.check('unknown history rejected', isinstance(r.exc, ValueError)); return
    c.check('computed', r.exc is None, detail=r.tb); t = r.value; c.check('one per binary', len(t) == n, detail=repr(len(t)))
    top = kw.get('max_time', kw.get('max_simulation_time', 13.8e9))
    for i in range(min(n, len(t))):
        if k == 'burst': c.eq('burst', t[i], kw.get('burst_time', 0.))
        elif k.lower() == 'constant': lo = kw.get('min_time', 0.); c.eq('uniform between the times', t[i], lo + (top - lo) * u[i])
        else: c.eq('age before the end', t[i], top - (c.exp10(ages[i]) if 'log10' in k else ages[i])); c.check('own generator', calls[0][4] is g and calls[0][0] == ('histogram' if 'histogram' in k else 'table') and calls[0][1] is x and calls[0][2] is y)


# ------------------------------------------------------------------ cosmology
@contract('C13', R + ':get_shell_comoving_volume', samples=40, assumes=['scipy.integrate.quad integrates the function it is given; astropy distances (opaque, non-negative)'])
def comoving_shell(c):
    """rate-weighted comoving volume of a redshift shell: integral of dVc/dz / (1 + z) over exactly that shell, of a flat universe"""
    import posydon.popsyn.rate_calculation as M
    from astropy.cosmology import Planck15 as P; from astropy import constants as k
    lo, hi = c.nonneg('from', slo=0, shi=3), c.nonneg('to', slo=0, shi=5); cH = float((k.c / P.H(0)).to('Gpc').value); Om = float(P.Om0)
    if not c.symbolic:
        import numpy as np
        a, b = float(lo), float(hi); x = np.linspace(a, b, 401); f = 4. * np.pi * cH * (P.comoving_distance(x).to('Gpc').value)**2 / np.sqrt(Om * (1 + x)**3 + 1 - Om) / (1 + x)
        from scipy.integrate import simpson
        r = c.run('volume', M.get_shell_comoving_volume, a, b); c.check('volume', abs(r - simpson(f, x=x)) <= 1e-5 * abs(simpson(f, x=x)) + 1e-9, detail=repr((r, simpson(f, x=x))))
        c.check('only infinite sensitivity', isinstance(c.call(M.get_shell_comoving_volume, a, b, 'LIGO').exc, ValueError)); return
    seen = []; val = c.real('integral')
    c.patch_attr(M, 'sp', NS(integrate=NS(quad=lambda f, a, b, args=(), **w: (seen.append((f, a, b, args)), (c.raw(val), 0))[1])))
    c.patch(M.get_comoving_distance_from_redshift, lambda z: c.uf('distance', z))
    r = c.run('volume', M.get_shell_comoving_volume, c.raw(lo), c.raw(hi)); c.eq('the integral', r, val); c.check('one integral', len(seen) == 1); f, a, b, args = seen[0]; c.eq('from', a, lo); c.eq('to', b, hi)
    z = c.nonneg('z'); g = c.run('integrand', f, c.raw(z), *(args if isinstance(args, tuple) else (args,))); d = c.uf('distance', z) / 1000.; c.assume(d > 0)
    E = g * (1. + z) / (4. * c.pi * cH * d**2); c.check('positive', g > 0); c.eq('expansion rate of a flat universe', E**2 * (Om * (1. + z)**3 + 1. - Om), c.num(1.), rtol=1e-6)


def remainder(dt):
    from astropy.cosmology import Planck15 as P
    x = P.age(0).to('Myr').value / dt; return x - int(x)


@contract('C13', R + ':get_redshift_bin_centers', samples=4, bounded='concrete evaluation of the postcondition for a few time steps')
def redshift_bins_any_step(c):
    """a time step that leaves less than half a step after the big bang also gives bin centres"""
    import posydon.popsyn.rate_calculation as M
    if c.symbolic: return
    dt = float(c.real('dt', 300, 8000, slo=880, shi=890)); c.assume(remainder(dt) < 0.48); c.check('centres', c.call(M.get_redshift_bin_centers, dt).exc is None)


@contract('C13', R + ':get_redshift_bin_edges', R + ':get_redshift_bin_centers', R + ':get_cosmic_time_from_redshift', R + ':get_comoving_distance_from_redshift', samples=6, bounded='concrete evaluation of the postcondition for a few time steps')
def redshift_bins(c):
    """bins are equally wide in time: edge i is i steps before today, closed at z = 100, centres lie half a step inside; one centre per bin"""
    import posydon.popsyn.rate_calculation as M, numpy as np
    if c.symbolic: return
    from astropy.cosmology import Planck15 as P
    dt = float(c.real('dt', 300, 8000, slo=300, shi=8000)); c.assume(remainder(dt) > 0.52); e, m = c.run('edges', M.get_redshift_bin_edges, dt), c.run('centres', M.get_redshift_bin_centers, dt); a0 = P.age(0).value
    k = int(a0 * 1000. / dt); c.check('count', len(m) == k + 1 and len(e) == k + 2); c.check('closed', e[0] == 0 and e[-1] == 100.)
    c.check('ascending', bool((np.diff(e) > 0).all())); t = P.age(e[1:-1]).value
    c.check('edges equally spaced in time', bool(np.allclose(t, a0 - dt * 1e-3 * np.arange(1, k + 1), rtol=1e-5, atol=1e-4)))
    t = M.get_cosmic_time_from_redshift(m); c.check('centres half a step inside', bool(np.allclose(t, a0 - dt * 1e-3 * (np.arange(k + 1) + 0.5), rtol=1e-5, atol=1e-4)))
    c.check('centres inside their bins', bool(((m > e[:-1]) & (m < e[1:])).all())); z = np.array([0.1, 1., 3.]); c.check('distance in Mpc', bool(np.allclose(M.get_comoving_distance_from_redshift(z), P.comoving_distance(z).to('Mpc').value)))


@contract('C13', R + ':redshift_from_cosmic_time_interpolator', R + ':get_redshift_from_cosmic_time', samples=1, bounded='concrete evaluation on a grid of 400 ages')
def redshift_of_time(c):
    """redshift of a cosmic age inverts the age of a redshift and decreases with age"""
    import posydon.popsyn.rate_calculation as M, numpy as np
    if c.symbolic: return
    from astropy.cosmology import Planck15 as P
    t = np.linspace(0.5, 13.75, 400); z = c.run('inverse', M.get_redshift_from_cosmic_time, t); c.check('inverse', bool(np.allclose(P.age(np.maximum(z, 0)).value, t, rtol=2e-3))); c.check('decreasing', bool((np.diff(z) < 0).all()))
    c.check('age in Gyr', abs(M.get_cosmic_time_from_redshift(0.) - 13.797) < 0.01)


# ------------------------------------------------------------------ normalisation of populations
@contract('C13', N + ':get_mass_ratio_pdf', samples=300, timeout_ms=20000)
def mass_ratio_law(c):
    """flat mass ratios between the secondary mass limits of each primary (at most one), or the configured law; any number of binaries"""
    import posydon.popsyn.norm_pop as M, posydon.popsyn.distributions as D
    from pyvc import ctx
    n = c.int('n', 1, slo=1, shi=4); j = c.int('j', 0, n - 1, slo=0, shi=3); c.assume(j < n); c.divide_as_numpy()
    lo, hi = c.nonneg('m2min', slo=0.1, shi=5, special=(0.,)), c.pos('m2max', slo=1, shi=100); x, y = c.arr('m1', n, 0, lo_open=True, slo=1, shi=100), c.arr('q', n, slo=-0.2, shi=1.2)
    f = c.run('law', M.get_mass_ratio_pdf, dict(secondary_mass_scheme='flat_mass_ratio', secondary_mass_min=c.raw(lo), secondary_mass_max=c.raw(hi)))
    m, q = at(c, x, j), at(c, y, j); a, b = c.max(lo / m, c.num(0.)), c.min(hi / m, c.num(1.)); c.assume(a < b)
    if not c.symbolic: c.assume(c.abs(q - a) > 1e-12 and c.abs(q - b) > 1e-12)
    p = at(c, c.run('density', f, y, x), j)
    if c.And(q > a, q <= b): c.eq('flat', p * (b - a), c.num(1.))
    else: c.eq('zero outside', p, c.num(0.))


@contract('C13', N + ':get_mass_ratio_pdf', N + ':get_binary_fraction_pdf', N + ':get_period_pdf', N + ':get_IMF_pdf', samples=300, timeout_ms=20000)
def population_laws(c):
    """the laws of the population are those of the named distribution classes with the configured limits; binary fraction and single-star fraction add to one"""
    import posydon.popsyn.norm_pop as M, posydon.popsyn.distributions as D, posydon.popsyn.IMFs as I, inspect
    c.patch(M.Pwarn, lambda *a, **k: None); made = []
    def cls(orig, name):
        sig = inspect.signature(orig)
        class X:
            def __init__(s, *a, **k): s.name = name; b = sig.bind(*a, **k); b.apply_defaults(); s.args = b.arguments; made.append(s)
            def pdf(s, *a): return c.raw(c.uf('pdf_' + name, *a)) if c.symbolic else (name, a)
        return X
    what = c.choice('what', ['q', 'q power', 'q power default', 'q other', 'fb', 'fb other', 'P sana', 'P power', 'P other', 'a other', 'neither', 'imf', 'imf other'])
    a, b, k, v = c.pos('a', slo=0.1, shi=1), c.pos('b', slo=2, shi=5), c.real('slope', slo=-2, shi=2), c.pos('v', slo=1, shi=3); c.assume(a < b); w = c.pos('w', slo=1, shi=3)
    for nm in ('FlatMassRatio', 'PowerLawMassRatio', 'Sana12Period', 'PowerLawPeriod'): c.patch(getattr(D, nm), cls(getattr(D, nm), nm))
    def law(name, got, *args):
        if c.symbolic: c.eq('law', got, c.uf('pdf_' + name, *args))
        else: c.check('law', isinstance(got, tuple) and got[0] == name and [float(z) for z in got[1]] == [float(z) for z in args], detail=repr(got))
    def par(**e):
        c.check('one law', len(made) == 1)
        for n, z in e.items(): c.eq(n, made[0].args[n], z)
    A, B = c.raw(a), c.raw(b)
    if what == 'q': f = c.run('q', M.get_mass_ratio_pdf, dict(secondary_mass_scheme='flat_mass_ratio', q_min=A, q_max=B)); law('FlatMassRatio', f(c.raw(v)), v); par(q_min=a, q_max=b)
    elif what == 'q power': f = c.run('q', M.get_mass_ratio_pdf, dict(secondary_mass_scheme='power_law_mass_ratio', q_min=A, q_max=B, mass_ratio_slope=c.raw(k))); law('PowerLawMassRatio', f(c.raw(v), None), v); par(q_min=a, q_max=b, alpha=k)
    elif what == 'q power default': f = c.run('q', M.get_mass_ratio_pdf, dict(secondary_mass_scheme='power_law_mass_ratio', mass_ratio_slope=c.raw(k))); law('PowerLawMassRatio', f(c.raw(v), None), v); par(q_min=c.num(0.05), q_max=c.num(1.), alpha=k)
    elif what == 'q other': f = c.run('q', M.get_mass_ratio_pdf, dict(secondary_mass_scheme='q=1')); law('FlatMassRatio', f(c.raw(v), None), v); par(q_min=c.num(0.), q_max=c.num(1.))
    elif what == 'fb': f = c.run('fb', M.get_binary_fraction_pdf, dict(binary_fraction_scheme='const', binary_fraction_const=A)); c.eq('binaries', f(True), a); c.eq('single stars', f(False), 1. - a)
    elif what == 'fb other': c.check('rejected', isinstance(c.call(M.get_binary_fraction_pdf, dict(binary_fraction_scheme='other', binary_fraction_const=A)).exc, ValueError))
    elif what == 'P sana': f = c.run('P', M.get_period_pdf, dict(orbital_scheme='period', orbital_period_scheme='Sana+12_period_extended', orbital_period_min=A, orbital_period_max=B)); law('Sana12Period', f(c.raw(v), c.raw(w), None), v, w); par(p_min=a, p_max=b)
    elif what == 'P power': f = c.run('P', M.get_period_pdf, dict(orbital_scheme='period', orbital_period_scheme='power_law', orbital_period_min=A, orbital_period_max=B, power_law_slope=c.raw(k))); law('PowerLawPeriod', f(c.raw(v), None, None), v); par(p_min=a, p_max=b, slope=k)
    elif what in ('P other', 'a other', 'neither'): c.check('rejected', isinstance(c.call(M.get_period_pdf, dict(orbital_scheme={'P other': 'period', 'a other': 'separation', 'neither': 'x'}[what], orbital_period_scheme='x', orbital_separation_scheme='x', orbital_period_min=A, orbital_period_max=B, orbital_separation_min=A, orbital_separation_max=B)).exc, ValueError))
    elif what == 'imf other': f = c.run('imf', M.get_IMF_pdf, dict(primary_mass_scheme='None of these', primary_mass_min=A, primary_mass_max=B)); c.eq('flat', f(c.raw(v)), 1. / (b - a))
    else:
        nm = c.choice('imf', ['Salpeter', 'Kroupa1993', 'Kroupa2001', 'Chabrier2003']); extra = {'alpha': c.raw(k)} if nm != 'Kroupa2001' and c.bool('extra') else {}
        c.patch_attr(I, nm, cls(getattr(I, nm), nm)); d = dict(primary_mass_scheme=nm, primary_mass_min=A, primary_mass_max=B)
        if extra: d[nm] = extra
        f = c.run('imf', M.get_IMF_pdf, d); law(nm, f(c.raw(v)), v); par(m_min=a, m_max=b, **({'alpha': k} if extra else {}))


@contract('C13', N + ':get_period_pdf', 'posydon.popsyn.distributions:LogUniform.pdf', samples=300, timeout_ms=20000)
def separation_law(c):
    """separations flat in log a are flat in log P with two thirds of the density per dex (Kepler), zero outside the separation limits"""
    import posydon.popsyn.norm_pop as M, posydon.utils.common_functions as CF
    a, k = c.pos('amin', slo=1, shi=50), c.real('ratio', 1, lo_open=True, slo=1.5, shi=100); b = a * k; x = c.pos('a', slo=0.5, shi=5000)
    if c.symbolic: c.patch(CF.orbital_separation_from_period, lambda p, m1, m2: (c.check('secondary mass', True), seen.append((p, m1, m2)), oarr(c, [c.raw(x)]))[2])
    seen = []; m, q = c.pos('m1', slo=5, shi=50), c.pos('q', 1, slo=0.1, shi=1); f = c.run('law', M.get_period_pdf, dict(orbital_scheme='separation', orbital_separation_scheme='log_uniform', orbital_separation_min=c.raw(a), orbital_separation_max=c.raw(b)))
    if c.symbolic: P = c.pos('P')
    else: P = c.num(CF.orbital_period_from_separation(float(x), float(m), float(q * m))); x = c.num(CF.orbital_separation_from_period(float(P), float(m), float(q * m)))
    if not c.symbolic: c.assume(c.abs(x - a) > 1e-6 and c.abs(x - b) > 1e-6)
    p = c.run('density', f, c.raw(P), c.raw(m), c.raw(q))
    if c.symbolic: p = p[0]; c.check('separation of this binary', len(seen) == 1); c.eq('period', seen[0][0], P); c.eq('primary', seen[0][1], m); c.eq('secondary', seen[0][2], q * m)
    if c.And(x >= a, x <= b): c.eq('per dex of period', p * (c.log10(b) - c.log10(a)), c.num(2.) / 3.)
    else: c.eq('zero outside', p, c.num(0.))


def uf_laws(c, M):
    """the four laws as opaque functions"""
    def u(name):
        def f(kw): return lambda *a: c.raw(c.uf(name, *[x for x in a if x is not None])) if c.symbolic else fl(name, a)
        return f
    def fl(name, a):
        v = sum((i + 2.) * float(x) for i, x in enumerate(a) if x is not None); return abs(math.sin(v + len(name))) + 0.1
    fb = c.real('fb', 0, 1, slo=0, shi=1)
    c.patch(M.get_IMF_pdf, u('imf')); c.patch(M.get_mass_ratio_pdf, u('qlaw')); c.patch(M.get_period_pdf, u('plaw')); c.patch(M.get_binary_fraction_pdf, lambda kw: lambda b: c.raw(fb if b else 1. - fb) if c.symbolic else (float(fb) if b else 1. - float(fb)))
    return fb, lambda n, *a: c.uf(n, *a) if c.symbolic else c.num(fl(n, a))


@contract('C13', N + ':get_pdf', samples=200)
def joint_law(c):
    """joint density: binaries carry the product of all laws, single stars that of the mass function, each with its fraction"""
    import posydon.popsyn.norm_pop as M
    fb, u = uf_laws(c, M); mp = c.bool('mass only'); f = c.run('built', M.get_pdf, {}, mass_pdf=mp); m, q, p, b = c.pos('m', slo=1, shi=50), c.pos('q', slo=0.1, shi=1), c.pos('P', slo=1, shi=100), c.bool('binary')
    r = c.run('density', f, c.raw(m), q=c.raw(q), P=c.raw(p), binary=b)
    if not b: c.eq('single star', r, (1. - fb) * u('imf', m))
    elif mp: c.eq('binary masses', r, fb * u('imf', m) * u('qlaw', q, m))
    else: c.eq('binary', r, fb * u('imf', m) * u('qlaw', q, m) * u('plaw', p, m, q))
    c.eq('single by default', c.run('default', f, c.raw(m)), (1. - fb) * u('imf', m))


@contract('C13', N + ':get_mean_mass', samples=200, timeout_ms=20000, assumes=['scipy.integrate.quad and dblquad integrate the function they are given over the region they are given'])
def mean_mass(c):
    """mean mass per system: primary plus secondary over the support of the binary law, plus primary over the single-star law"""
    import posydon.popsyn.norm_pop as M
    pdf = lambda m, q=0, P=0, binary=False: c.raw(c.uf('pdf2', m, q)) if c.symbolic and binary else c.raw(c.uf('pdf1', m)) if c.symbolic else (float(m) + float(q) if binary else float(m)**2)
    built = []; c.patch(M.get_pdf, lambda kw, mass_pdf=False: built.append(mass_pdf) or pdf)
    lo, hi, a, b = c.pos('m1min', slo=2, shi=10), c.pos('m1max', slo=10, shi=50), c.nonneg('m2min', slo=0.1, shi=3, special=(0.,)), c.pos('m2max', slo=2, shi=60); c.assume(lo < hi)
    d = dict(primary_mass_min=c.raw(lo), primary_mass_max=c.raw(hi), secondary_mass_min=c.raw(a), secondary_mass_max=c.raw(b), secondary_mass_scheme='flat_mass_ratio'); given = c.bool('given'); qa, qb = c.nonneg('qmin', 1, slo=0, shi=0.5), c.pos('qmax', 1, slo=0.3, shi=1)
    if given: d.update(q_min=c.raw(qa), q_max=c.raw(qb))
    one, two = [], []; I1, I2 = c.real('I1', slo=1, shi=2), c.real('I2', slo=1, shi=2)
    c.patch_attr(M, 'quad', lambda f, x, y, *r, **w: (one.append((f, x, y)), (c.raw(I1), 0))[1]); c.patch_attr(M, 'dblquad', lambda f, x, y, g, h, *r, **w: (two.append((f, x, y, g, h)), (c.raw(I2), 0))[1])
    r = c.call(M.get_mean_mass, d)
    if r.exc is not None: c.check('only empty ranges are rejected', isinstance(r.exc, ValueError)); c.check('range empty', qa >= qb if given else c.Or(c.max(a / lo, c.num(0.)) >= c.min(b / hi, c.num(1.)), False)); return
    c.check('two integrals', len(one) == 1 and len(two) == 1 and built == [True]); c.eq('sum', r.value, I1 + I2)
    for t in one + two: c.eq('from the smallest primary', t[1], lo); c.eq('to the largest primary', t[2], hi)
    m, q = c.pos('m', slo=2, shi=50), c.nonneg('q', 1, slo=0, shi=1); c.assume(c.And(m >= lo, m <= hi))
    f1, f2 = c.run('single', one[0][0], c.raw(m)), c.run('binary', two[0][0], c.raw(q), c.raw(m))
    c.eq('primary mass', f1, m * c.num(pdf(m))); c.eq('both masses', f2, (m + q * m) * c.num(pdf(m, q, binary=True)))
    g, h = (t(c.raw(m)) if callable(t) else t for t in two[0][3:]); g, h = c.num(g), c.num(h)
    if given: c.eq('from the smallest ratio', g, qa); c.eq('to the largest ratio', h, qb)
    else: c.check('covers the support of the ratios: below', g <= c.max(a / m, c.num(0.)) + 1e-9); c.check('covers the support of the ratios: above', h >= c.min(b / m, c.num(1.)) - 1e-9); c.check('within zero and one', c.And(g >= 0, h <= 1))


@contract('C13', N + ':calculate_model_weights', samples=300, timeout_ms=20000, bound='1 or 2 binaries at a time (all values; rows are independent)')
def model_weights(c):
    """weight of a simulated system: ratio of requested to simulated density, scaled by the mean masses and the simulated mass; zero where undefined"""
    import posydon.popsyn.norm_pop as M, numpy as np
    n = c.choice('n', [1, 2]); c.divide_as_numpy(); kind = [c.bool('binary%d' % i) for i in range(n)]; col = lambda k, **w: [c.pos('%s%d' % (k, i), **w) for i in range(n)]
    m1, m2, P, W = col('m1', slo=5, shi=50), col('m2', slo=1, shi=30), col('P', slo=1, shi=100), {}
    fs, fp = c.choice('f_sim', [0, 1, 0.5]), c.choice('f_pop', [0, 1, 0.5]); sim, pop = dict(binary_fraction_const=fs), dict(binary_fraction_const=fp); ms, mp, M_sim = c.pos('mean_sim', slo=1, shi=5), c.pos('mean_pop', slo=1, shi=5), c.pos('M', slo=10, shi=100)
    c.patch(M.get_mean_mass, lambda d: c.raw(ms) if d is sim else c.raw(mp)); seen = []
    def law(d, mass_pdf=False):
        k = 'sim' if d is sim else 'pop'
        def f(m1, q, P, binary):
            seen.append((k, mass_pdf, m1, q, P, binary)); W[k] = [c.nonneg('%s%d' % (k, i), slo=0, shi=3, special=(0.,)) for i in range(n)]; return oarr(c, [c.raw(v) for v in W[k]])
        return f
    c.patch(M.get_pdf, law)
    class Frame(dict): pass
    st = np.array(['detached' if k else 'initially_single_star' for k in kind]); data = Frame(S1_mass_i=oarr(c, [c.raw(v) for v in m1]), S2_mass_i=oarr(c, [c.raw(v) for v in m2]), orbital_period_i=oarr(c, [c.raw(v) for v in P]), state_i=st)
    r = c.call(M.calculate_model_weights, data, c.raw(M_sim), sim, pop); bad = fs == 1 and fp == 0 or fs == 0 and fp == 1
    if bad: c.check('cannot make what was not simulated', isinstance(r.exc, ValueError)); return
    c.check('computed', r.exc is None, detail=r.tb); c.check('one weight per system', len(r.value) == n); c.check('each law once, with the periods', sorted((s[0], s[1]) for s in seen) == [('pop', False), ('sim', False)])
    for s in seen:
        for i in range(n): c.eq('primary', s[2][i], m1[i]); c.eq('ratio', s[3][i] * m1[i], m2[i]); c.eq('period', s[4][i], P[i]); c.check('kind', bool(s[5][i]) == kind[i])
    for i in range(n):
        a, b = W['pop'][i], W['sim'][i]
        if b == 0: c.eq('zero where undefined', r.value[i], c.num(0.))
        else: c.eq('weight', r.value[i] * b * mp * M_sim, a * ms)


# ------------------------------------------------------------------ rates of a population
def obj2(rows): 
    import numpy as np
    r = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, x in enumerate(rows):
        for j, v in enumerate(x): r[i, j] = v
    return r
def arr2(c, rows):
    import numpy as np
    return obj2(rows) if c.symbolic else np.array([[float(v) for v in r] for r in rows])


class Tab:
    """one selected table column"""
    def __init__(s, c, v, idx): s.c, s.v, s.index = c, v, s; s.idx = idx; s.mode = 'col'
    def to_numpy(s):
        import numpy as np
        if s.mode == 'idx': return np.array(s.idx)
        return arr2(s.c, [[x] for x in s.v])
class Idx:
    def __init__(s, v): s.v = v
    def to_numpy(s): import numpy as np; return np.array(s.v)


class Store:
    log = None
    def __init__(s, *a, **k): pass
    def __enter__(s): return s
    def __exit__(s, *a): return False
    def keys(s): return []
    def put(s, path, df, **k): Store.log.append(('put', path, df))
    def append(s, path, df, **k): Store.log.append(('append', path, df))
    def remove(s, path): pass


@contract('C13', Y + ':TransientPopulation.calculate_cosmic_weights', samples=150, timeout_ms=20000, bound='2 events, 2 birth times, 2 metallicities, any chunk size (all values)',
          assumes=['HDF5 storage, astropy ages/distances and the redshift spline are stand-ins (arbitrary values)'])
def cosmic_weights(c):
    """rate weight of an event born in a time bin: 4 pi c D^2 times the mass formed at its metallicity in that bin times its model weight, and zero weight per metallicity mismatch; events after today are left out"""
    import posydon.popsyn.synthetic_population as M, numpy as np, copy
    from astropy import constants as k; cl = float(k.c.to('Mpc/yr').value)
    E, B, Zs = 2, 2, [0.1, 1.0]; chunk = c.choice('chunk', [1, 2, 5]); met = [c.choice('met%d' % i, Zs) for i in range(E)]
    time = [c.nonneg('time%d' % i, slo=0, shi=14000) for i in range(E)]; tb = [c.pos('birth%d' % b, slo=1, shi=13) for b in range(B)]; w = [c.nonneg('w%d' % i, slo=0, shi=1) for i in range(E)]
    sfr = [[c.nonneg('sfr%d%d' % (b, z), slo=0, shi=1) for z in range(2)] for b in range(B)]; dt = c.pos('dt', slo=10, shi=200); Store.log = []; given = c.choice('given', [None, 'dt'])
    ages = [1000 + 7 * i for i in range(E)]; cols = dict(time=time, metallicity=met)
    def select(start=None, stop=None, columns=None, where=None):
        r = range(E)[start:stop]; o = NS(); o.index = Idx([ages[i] for i in r]); o.to_numpy = lambda: arr2(c, [[c.raw(cols[q][i]) if q == 'time' else cols[q][i] for q in columns] for i in r]); return o
    cen = np.array([z * M.Zsun for z in Zs]); rates = NS(centers_redshift_bins=np.array([0.1, 2.]), edges_metallicity_bins=object(), centers_metallicity_bins=cen, MODEL=dict(delta_t=c.raw(dt)))
    class Wt:
        columns = ['mw']; iloc = None
        def __init__(s): s.iloc = s
        def __getitem__(s, sl): return NS(to_numpy=lambda: arr2(c, [[c.raw(v)] for v in w[sl]]))
        def to_numpy(s): return arr2(c, [[c.raw(v)] for v in w])
    self = NS(transient_name='T', filename='f', verbose=False, chunksize=chunk, indices=ages, select=select, model_weights=lambda *a, **q: Wt(), _write_MODEL_data=lambda f, p, m: wrote.append(m)); wrote = []
    before = dict(M.DEFAULT_SFH_MODEL); c.patch_attr(M, 'Rates', lambda *a, **q: rates); asked = []
    Frame = lambda data=None, index=None, **q: NS(data=data, index=index); top = M.cosmology.age(1e-08).value * 0.9999999
    c.patch_attr(M, 'pd', NS(HDFStore=Store, DataFrame=Frame)); c.patch_attr(M, 'get_cosmic_time_from_redshift', lambda z: oarr(c, [c.raw(x) for x in tb])); c.patch_attr(M, 'tqdm', lambda it, **q: it)
    zf = (lambda t: c.uf('z_of_t', t)) if c.symbolic else (lambda t: 14. / float(t)); df = (lambda z: c.uf('distance', z)) if c.symbolic else (lambda z: 1000. * float(z))
    def ew(f, x):
        x = np.asarray(x, dtype=object); r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape): r[i] = x[i] if isinstance(x[i], float) and x[i] != x[i] else c.raw(f(x[i]))
        return r if c.symbolic else r.astype(float)
    c.patch_attr(M, 'redshift_from_cosmic_time_interpolator', lambda: lambda t: ew(zf, t)); c.patch_attr(M, 'get_comoving_distance_from_redshift', lambda z: ew(df, z)); c.patch_attr(M, 'SFR_per_met_at_z', lambda z, e, m: asked.append((z, e, m)) or arr2(c, [[c.raw(v) for v in r] for r in sfr]))
    inp = None if given is None else {'delta_t': c.raw(dt), 'SFR': 'x'}
    r = c.run('computed', M.TransientPopulation.calculate_cosmic_weights, self, 'id', 'mw', MODEL_in=inp)
    c.check('defaults not modified', M.DEFAULT_SFH_MODEL == before)
    c.check('settings recorded', len(wrote) == 1 and all(q in wrote[0] for q in before) and (given is None or wrote[0]['SFR'] == 'x')); c.check('rates returned', r is rates); c.check('star formation of these bins', len(asked) == 1 and asked[0][0] is rates.centers_redshift_bins and asked[0][1] is rates.edges_metallicity_bins)
    W = [x for x in Store.log if x[0] == 'append' and x[1].endswith('weights')]; Z = [x for x in Store.log if x[0] == 'append' and x[1].endswith('z_events')]
    wv, zv = [row for x in W for row in x[2].data], [row for x in Z for row in x[2].data]; ids = [list(map(int, i)) for i in ([v for x in q for v in x[2].index] for q in (W, Z))] if False else [[int(v) for x in q for v in x[2].index] for q in (W, Z)]
    c.check('every event once, in order', len(wv) == E and len(zv) == E and ids[0] == ages and ids[1] == ages, detail=repr(ids))
    for i in range(E):
        for b in range(B):
            t = tb[b] + time[i] / 1000.; z = zv[i][b]
            if not c.symbolic and abs(float(t) - top) < 1e-9: continue
            if t <= top:
                c.eq('redshift of the event', z, c.num(zf(t)) if not c.symbolic else zf(t)); d = df(zf(t)) if c.symbolic else c.num(df(zf(t)))
                c.eq('rate weight', wv[i][b], 4. * c.pi * cl * d**2 * dt * 1e6 * sfr[b][Zs.index(met[i])] * w[i], rtol=1e-7)
            else: c.check('not observed', c.isnan(z)); c.check('no weight', c.isnan(wv[i][b]))


@contract('C13', Y + ':Rates.calculate_intrinsic_rate_density', samples=150, timeout_ms=20000, bound='2 events in 1 birth time bin or 1 event in 2, 2 redshift bins (all values)', assumes=['HDF5 storage is a stand-in'])
def rate_density(c):
    """rate density in a redshift bin: sum of the weights of the events inside it over its volume; channels split the total"""
    import posydon.popsyn.synthetic_population as M, numpy as np
    E, B = c.choice('size', [(2, 1), (1, 2)]); ch = [c.choice('channel%d' % i, ['a', 'b']) for i in range(E)]; split = c.bool('channels'); edges = [0., 1., 100.]
    z = [[c.real('z%d%d' % (i, b), 0, 100, slo=0, shi=3, special=(1., 0.)) if not c.bool('late%d%d' % (i, b)) else math.nan for b in range(B)] for i in range(E)]; w = [[c.nonneg('w%d%d' % (i, b), slo=0, shi=2) for b in range(B)] for i in range(E)]
    vol = {0.: c.pos('V0', slo=1, shi=2), 1.: c.pos('V1', slo=1, shi=2)}; asked = []; cells = {}
    class Df:
        def __init__(s, *a, index=None, columns=None, **k): s.index = index; s.loc = s
        def __setitem__(s, k, v): cells[(float(k[0]), k[1])] = v
    raw2 = lambda m: arr2(c, [[c.raw(v) if not (isinstance(v, float) and v != v) else v for v in r] for r in m])
    Store.log = []; self = NS(z_events=NS(to_numpy=lambda: raw2(z)), weights=NS(to_numpy=lambda: raw2(w)), edges_redshift_bins=np.array(edges), verbose=False, filename='f', base_path='p/', select=lambda columns=None, **k: Ch(ch))
    class Ch:
        def __init__(s, v): s.v = v
        def to_numpy(s): return np.array([[x] for x in s.v])
        def __array__(s, dtype=None, copy=None): return s.to_numpy()
    c.patch_attr(M, 'pd', NS(HDFStore=Store, DataFrame=Df)); c.patch_attr(M, 'tqdm', lambda it, **q: it); c.patch_attr(M, 'get_shell_comoving_volume', lambda a, b, s='infinite': asked.append((float(a), float(b), s)) or c.raw(vol[float(a)]))
    c.run('computed', M.Rates.calculate_intrinsic_rate_density, self, channels=split)
    c.check('volume of each bin', sorted(asked) == [(0., 1., 'infinite'), (1., 100., 'infinite')]); 
    for a, b in ((0., 1.), (1., 100.)):
        for name in ['total'] + (sorted(set(ch)) if split else []):
            s = c.num(0.)
            for i in range(E):
                for k in range(B):
                    if isinstance(z[i][k], float) and z[i][k] != z[i][k]: continue
                    if name in ('total', ch[i]):
                        if c.And(z[i][k] > a, z[i][k] <= b): s = s + w[i][k]
            c.check('cell present', (a, name) in cells); c.eq('rate density', cells[(a, name)] * vol[a], s)
    c.check('nothing else', all(k[1] in ['total'] + (ch if split else []) for k in cells)); c.check('stored', len(Store.log) == 1)


@contract('C13', Y + ':Rates.edges_metallicity_bins', Y + ':Rates.centers_metallicity_bins', samples=200, timeout_ms=20000, bound='1 to 4 metallicities (all values)')
def metallicity_edges(c):
    """bin edges lie half way in log Z between neighbouring metallicities and as far outside the outermost ones; a single metallicity takes everything or the configured width"""
    import posydon.popsyn.synthetic_population as M
    n = c.choice('n', [1, 2, 3, 4]); Z = [c.pos('Z0', slo=1e-5, shi=1e-4)]
    for i in range(1, n): Z.append(Z[-1] + c.pos('d%d' % i, slo=1e-4, shi=1e-2))
    w = c.choice('dlogZ', ['none', 'width', 'list']); a, b = c.real('a', -10, -5, slo=-9, shi=-6), c.real('b', -4, 0, slo=-3, shi=0); dz = c.pos('width', 5, slo=0.1, shi=2)
    self = NS(centers_metallicity_bins=oarr(c, [c.raw(v) for v in Z]), MODEL=dict(dlogZ={'none': None, 'width': c.raw(dz), 'list': [c.raw(a), c.raw(b)]}[w]))
    e = c.run('edges', M.Rates.edges_metallicity_bins.fget, self); c.check('one more edge than bins', len(e) == n + 1)
    for v in e: c.check('edges positive', v > 0)
    if n > 1:
        for i in range(1, n): c.eq('edge half way in log Z', e[i]**2, Z[i - 1] * Z[i], rtol=1e-7)
        c.eq('lowest edge', e[0]**2 * Z[1], Z[0]**3, rtol=1e-7); c.eq('highest edge', e[n]**2 * Z[n - 2], Z[n - 1]**3, rtol=1e-7)
    elif w == 'width': c.eq('lower edge', e[0], Z[0] * c.exp10(-dz / 2.), rtol=1e-7); c.eq('upper edge', e[1], Z[0] * c.exp10(dz / 2.), rtol=1e-7)
    elif w == 'list': c.eq('lower edge given', e[0], c.exp10(a), rtol=1e-7); c.eq('upper edge given', e[1], c.exp10(b), rtol=1e-7)
    else: c.eq('everything from 1e-9', e[0], 1e-9, rtol=1e-7); c.eq('to 1', e[1], 1.)
    if not c.symbolic:
        import numpy as np
        c.check('centres ascending', list(M.Rates.centers_metallicity_bins.fget(NS(metallicities=np.array([3., 1., 2.])))) == [1., 2., 3.])


@contract('C13', Y + ':TransientPopulation.calculate_model_weights', Y + ':TransientPopulation.efficiency', samples=60, bounded='concrete evaluation of the postcondition on generated populations (up to 6 systems, any row order)')
def weights_of_population(c):
    """every event carries the weight of its own progenitor system, whatever the order of the rows; efficiencies sum the weights per metallicity"""
    import posydon.popsyn.synthetic_population as M, numpy as np, pandas as pd
    if c.symbolic: return
    k = int(c.int('systems', 1, 6)); rg = np.random.default_rng(int(c.int('seed', 0, 10**6))); ids = rg.permutation(k) if c.bool('shuffled') else np.arange(k); ids = ids * 3
    met = rg.choice([0.1, 1.0], size=k); one = pd.DataFrame(dict(S1_mass_i=rg.uniform(1, 10, k), S2_mass_i=rg.uniform(1, 10, k), orbital_period_i=rg.uniform(1, 10, k), eccentricity_i=0., state_i='detached'), index=ids)
    ev = rg.integers(0, k, size=int(c.int('events', 1, 8))); pop = pd.DataFrame(dict(metallicity=met[ev], channel=np.where(ev % 2, 'a', 'b')), index=ids[ev])
    def select(where=None, columns=None): w = eval(where.replace('index in ', '')); return one[one.index.isin(w)][columns].copy()
    def cw(pop_data, M_sim, simulation_parameters, population_parameters):
        c.check('primary is the heavier', bool((pop_data['S1_mass_i'] >= pop_data['S2_mass_i']).all())); return (pop_data['S1_mass_i'] * 100. + pop_data['S2_mass_i'] + pop_data['orbital_period_i'] * 1e4).to_numpy() / M_sim
    c.patch_attr(M, 'calculate_model_weights', cw); Store.log = []
    ms = pd.DataFrame({'simulated_mass': [2., 5.]}, index=[0.1, 1.0]); self = NS(population=pop, mass_per_metallicity=ms, oneline=NS(select=select), ini_params={}, transient_name='T', filename='f', verbose=False)
    c.patch_attr(M, 'pd', NS(HDFStore=Store, DataFrame=pd.DataFrame)); r = c.run('weights', M.TransientPopulation.calculate_model_weights, self, 'w')
    c.check('one weight per event', list(r.index) == list(pop.index) and list(r.columns) == ['w'])
    for j, i in enumerate(ev):
        s = one.loc[ids[i]]; exp = (max(s.S1_mass_i, s.S2_mass_i) * 100. + min(s.S1_mass_i, s.S2_mass_i) + s.orbital_period_i * 1e4) / ms['simulated_mass'][met[i]]; c.check('own progenitor', abs(r['w'].iloc[j] - exp) < 1e-9 * exp, detail=repr((j, r['w'].iloc[j], exp)))
    self.model_weights = lambda x: r; e = c.run('efficiency', M.TransientPopulation.efficiency, self, 'w', channels=True)
    for z in (0.1, 1.0):
        c.check('efficiency', abs(e.loc[z, 'total'] - r['w'][(pop['metallicity'] == z).to_numpy()].sum()) < 1e-6)
        for ch in ('a', 'b'):
            if ch in e.columns: c.check('efficiency of channel', abs(e.loc[z, ch] - r['w'][((pop['metallicity'] == z) & (pop['channel'] == ch)).to_numpy()].sum()) < 1e-6)
