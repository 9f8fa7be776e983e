"""C12: initial mass functions, orbital-parameter distributions and the independent sampler."""
from pyvc.ctx import contract

I, D, S, U = 'posydon.popsyn.IMFs', 'posydon.popsyn.distributions', 'posydon.popsyn.independent_sample', 'posydon.utils.common_functions'
QUAD = ['scipy.integrate.quad returns the integral of the function it is given over the interval it is given (its result is an arbitrary positive number, the function passed is checked)']


class Quad:
    """stand-in for scipy.integrate.quad: records the integrand and the interval, returns an arbitrary positive value"""
    def __init__(s, c): s.c, s.calls = c, []
    def __call__(s, f, a, b, args=(), **k):
        v = s.c.pos('integral%d' % len(s.calls), slo=0.1, shi=10); s.calls.append((f, a, b, args, v)); return s.c.raw(v), s.c.raw(s.c.num(0.))


class Rng:
    """random generator: uniform deviates are arbitrary numbers of the requested half-open interval"""
    def __init__(s, c): s.c, s.calls = c, []
    def uniform(s, low=0.0, high=1.0, size=None):
        c, k = s.c, len(s.calls)
        if size is None: u = c.real('u%d' % k, 0, 1, hi_open=True, slo=0, shi=1, special=(0.,)); u = c.raw(u)
        else: u = c.arr('u%d' % k, size, 0, 1, hi_open=True, slo=0, shi=1, special=(0.,))
        s.calls.append((low, high, size, u))
        return low + (high - low) * u


def at(c, x, j): return x.at(j) if c.symbolic and hasattr(x, 'at') else x[int(j)] if not c.symbolic else x[j]
def size(c): n = c.int('n', 1, slo=1, shi=4); j = c.int('j', 0, n - 1, slo=0, shi=3); c.assume(j < n); return n, j
def le(c, name, a, b): c.check(name, c.Or(a <= b, c.abs(a - b) <= 1e-9 * c.abs(b)))
def inside(c, name, x, lo, hi): le(c, name + ': lower', lo, x); le(c, name + ': upper', x, hi)
def default(c, f):
    """the generator is optional"""
    if c.symbolic: return True
    x = f(); return len(x) == 2 and all(v == v for v in x)


# ------------------------------------------------------------------ initial mass functions
def law(c, kind, q, m):
    """the published mass functions (unnormalised)"""
    if kind in ('Salpeter', 'Kroupa1993'): return c.pow(m, -q['alpha'])
    if kind == 'Kroupa2001':
        a1, a2, a3, b1, b2, lo = (q[k] for k in ('alpha1', 'alpha2', 'alpha3', 'm1break', 'm2break', 'm_min'))
        k1 = c.pow(b1 / lo, -a1); k2 = k1 * c.pow(b2 / b1, -a2)
        return c.pow(m / lo, -a1) if m < b1 else k1 * c.pow(m / b1, -a2) if m < b2 else k2 * c.pow(m / b2, -a3)
    s, mc, mb = q['sigma'], q['m_c'], q['m_break']
    g = lambda x: c.exp(-(c.log10(x) - c.log10(mc))**2 / (2. * s**2)) / (x * c.sqrt(2. * c.pi) * s)
    return g(m) if m < mb else g(mb) * c.pow(m / mb, -q['alpha'])


def params(c, kind):
    q = dict(m_min=c.pos('m_min', slo=0.01, shi=2), m_max=c.pos('m_max', slo=2, shi=200)); c.assume(q['m_min'] < q['m_max'])
    for k in dict(Salpeter=('alpha',), Kroupa1993=('alpha',), Kroupa2001=('alpha1', 'alpha2', 'alpha3'), Chabrier2003=('alpha',))[kind]: q[k] = c.real(k, -5, 5, slo=-4, shi=4)
    if kind == 'Kroupa2001': q['m1break'] = c.pos('m1break', slo=0.05, shi=0.5); q['m2break'] = c.pos('m2break', slo=0.3, shi=5); c.assume(q['m1break'] < q['m2break'])
    if kind == 'Chabrier2003': q['m_c'] = c.pos('m_c', slo=0.1, shi=1); q['sigma'] = c.pos('sigma', slo=0.3, shi=2); q['m_break'] = c.pos('m_break', slo=0.5, shi=5)
    return q


KINDS = ['Salpeter', 'Kroupa1993', 'Kroupa2001', 'Chabrier2003']


def build(c, M, kind, q):
    quad = Quad(c); c.patch_attr(M, 'quad', quad); c.patch_attr(M, 'Pwarn', lambda *a, **k: None)
    return c.run('constructed', getattr(M, kind), **{k: c.raw(v) for k, v in q.items()}), quad


@contract('C12', I + ':Salpeter.imf', I + ':Kroupa1993.imf', I + ':Kroupa2001.imf', I + ':Chabrier2003.imf', I + ':IMFBase.__init__', I + ':IMFBase._calculate_normalization', I + ':IMFBase.pdf', I + ':IMFBase._check_valid', samples=400, timeout_ms=20000, assumes=QUAD)
def imf_density(c):
    """densities follow the published law inside the mass range, are zero outside and are scaled by the integral of that law over the range"""
    import posydon.popsyn.IMFs as M
    kind = c.choice('kind', KINDS); q = params(c, kind); o, quad = build(c, M, kind, q)
    c.check('one integral', len(quad.calls) == 1); f, a, b, args, v = quad.calls[0]
    c.eq('from the smallest mass', a, q['m_min']); c.eq('to the largest mass', b, q['m_max']); c.eq('normalised', o.norm * v, c.num(1.))
    n, j = size(c); x = c.arr('m', n, slo=-1, shi=250); m = at(c, x, j)
    r = c.call(o.pdf, x)
    inr = c.And(m >= q['m_min'], m <= q['m_max'])
    c.check('density is total', r.exc is None, detail=repr(r.exc) + r.tb); p = at(c, r.value, j)
    if inr: w = law(c, kind, q, m); c.eq('law', p * v, w, rtol=1e-7); c.check('non-negative', p >= 0)
    else: c.eq('zero outside', p, c.num(0.))
    g = c.call(f, x, *args)
    if g.exc is not None: c.check('integrand rejects only non-positive masses', isinstance(g.exc, ValueError)); c.check('some mass is not positive', c.symbolic or bool((x <= 0).any())); return
    w = at(c, g.value, j); c.check('mass positive', m > 0); c.eq('integrand', w, law(c, kind, q, m), rtol=1e-7)


@contract('C12', I + ':Kroupa2001.imf', I + ':Chabrier2003.imf', samples=200, timeout_ms=20000, assumes=QUAD)
def imf_continuous(c):
    """the piecewise mass functions have no jump at their breaks: the pieces agree there"""
    kind = c.choice('kind', ['Kroupa2001', 'Chabrier2003']); q = params(c, kind); b = c.choice('break', [0, 1])
    if kind == 'Kroupa2001':
        a1, a2, a3, b1, b2, lo = (q[k] for k in ('alpha1', 'alpha2', 'alpha3', 'm1break', 'm2break', 'm_min'))
        k1 = c.pow(b1 / lo, -a1); k2 = k1 * c.pow(b2 / b1, -a2)
        if b == 0: c.eq('left piece at the break', law(c, kind, q, b1), k1); 
        else: c.eq('right piece at the break', law(c, kind, q, b2), k2)
    else:
        s, mc, mb = q['sigma'], q['m_c'], q['m_break']; c.eq('power law meets the log-normal', law(c, kind, q, mb), c.exp(-(c.log10(mb) - c.log10(mc))**2 / (2. * s**2)) / (mb * c.sqrt(2. * c.pi) * s))


@contract('C12', I + ':IMFBase.__init__', I + ':IMFBase._calculate_normalization', samples=100, assumes=QUAD)
def imf_rejects(c):
    """empty mass ranges and vanishing integrals are rejected"""
    import posydon.popsyn.IMFs as M
    kind = c.choice('kind', KINDS); lo, hi, v = c.real('m_min', slo=0.1, shi=5, special=(1.,)), c.real('m_max', slo=0.1, shi=5, special=(1.,)), c.real('integral', slo=-1, shi=1, special=(0.,))
    c.patch_attr(M, 'quad', lambda *a, **k: (c.raw(v), c.raw(c.num(0.))))
    r = c.call(getattr(M, kind), m_min=c.raw(lo), m_max=c.raw(hi))
    c.check('rejected exactly when inadmissible', (r.exc is not None) == bool(c.Or(lo >= hi, v <= 0))); c.check('as ValueError', r.exc is None or isinstance(r.exc, ValueError))


@contract('C12', I + ':Salpeter.rvs', I + ':Kroupa1993.rvs', samples=300, timeout_ms=20000, assumes=QUAD)
def imf_power_sample(c):
    """inverse-transform samples: F(sample) is the uniform deviate, inside the mass range"""
    import posydon.popsyn.IMFs as M
    kind = c.choice('kind', ['Salpeter', 'Kroupa1993']); q = params(c, kind); c.assume(c.abs(q['alpha'] - 1.) > 1e-2); o, quad = build(c, M, kind, q)
    n, j = size(c); g = Rng(c); r = c.run('sampled', o.rvs, size=c.raw(n), rng=g)
    c.check('one deviate per mass', len(g.calls) == 1); u = at(c, g.calls[0][3], j); m = at(c, r, j); k = 1. - q['alpha']
    c.eq('number', r.shape[0], n)
    lo, hi = c.pow(q['m_min'], k), c.pow(q['m_max'], k); y = lo + u * (hi - lo)
    c.pow(lo, 1. / k); c.pow(hi, 1. / k)
    up = bool(k > 0); c.fact('order of the ends', hi > lo if up else hi < lo)
    c.fact('deviate between the ends', c.And(y >= lo, y <= hi) if up else c.And(y >= hi, y <= lo))
    c.check('positive', y > 0); c.eq('inverse of the cumulative law', m, c.pow(y, 1. / k), rtol=1e-7); inside(c, 'mass', m, q['m_min'], q['m_max'])
    c.check('default generator', default(c, lambda: o.rvs(2)))


@contract('C12', I + ':Kroupa2001.rvs', I + ':Chabrier2003.rvs', samples=60, timeout_ms=20000, assumes=QUAD)
def imf_grid_sample(c):
    """numerical samples: the inverse sampler is handed the law tabulated from end to end of the mass range"""
    import posydon.popsyn.IMFs as M
    kind = c.choice('kind', ['Kroupa2001', 'Chabrier2003']); q = params(c, kind); o, quad = build(c, M, kind, q); seen = []
    g, out = Rng(c), object()
    def sampler(x, y, size=1, rng=None): seen.append((x, y, size, rng)); return out
    c.patch_attr(M, 'inverse_sampler', sampler); n = c.int('n', 1, slo=1, shi=5)
    r = c.run('sampled', o.rvs, size=c.raw(n), rng=g); x, y, s, h = seen[0]; c.check('what the sampler returned', r is out and h is g); c.eq('number', s, n)
    N = x.shape[0]; i = c.int('i', 0, slo=0, shi=1999); c.assume(i < N); a = at(c, x, i)
    c.check('enough points', N >= 1000); c.eq('starts at the smallest mass', at(c, x, c.int('first', 0, 0)), q['m_min']); c.eq('ends at the largest mass', at(c, x, N - 1), q['m_max']); inside(c, 'grid', a, q['m_min'], q['m_max'])
    if i >= 1: c.check('grid increases', a > at(c, x, i - 1))
    c.eq('law on the grid', at(c, y, i), law(c, kind, q, a), rtol=1e-7)


# ------------------------------------------------------------------ orbital-parameter distributions
def ratio_bounds(c): lo, hi = c.real('q_min', slo=-0.2, shi=1.1, special=(0., 1.)), c.real('q_max', slo=-0.2, shi=1.2, special=(0., 1.)); return lo, hi
def ok_ratio(c, lo, hi): return c.And(lo >= 0, lo < 1, hi > 0, hi <= 1, lo < hi)
def ok_period(c, lo, hi): return c.And(lo > 0, hi > lo)


@contract('C12', D + ':FlatMassRatio.__init__', D + ':FlatMassRatio._calculate_normalization', D + ':FlatMassRatio.pdf', D + ':FlatMassRatio.rvs', D + ':PowerLawMassRatio.__init__', D + ':PowerLawMassRatio.pdf', D + ':PowerLawMassRatio.rvs', D + ':ThermalEccentricity.__init__', D + ':ThermalEccentricity.pdf', D + ':ThermalEccentricity.rvs', D + ':UniformEccentricity.__init__', D + ':UniformEccentricity.pdf', D + ':UniformEccentricity.rvs', samples=600, timeout_ms=20000, assumes=QUAD)
def unit_interval(c):
    """mass ratios and eccentricities: bounds inside [0, 1], published density, normalised, samples inside the bounds"""
    import posydon.popsyn.distributions as M, posydon.utils.common_functions as cf
    kind = c.choice('kind', ['FlatMassRatio', 'PowerLawMassRatio', 'ThermalEccentricity', 'UniformEccentricity']); ecc = 'Ecc' in kind; a, b = ('e_min', 'e_max') if ecc else ('q_min', 'q_max')
    lo, hi = ratio_bounds(c); quad = Quad(c); c.patch_attr(M, 'quad', quad); k = {a: c.raw(lo), b: c.raw(hi)}; al = None
    if kind == 'PowerLawMassRatio': al = c.real('alpha', -3, 3, slo=-2, shi=2, special=(-1., 0., 1.)); k['alpha'] = c.raw(al)
    r = c.call(getattr(M, kind), **k); good = ok_ratio(c, lo, hi)
    if al is not None: good = c.And(good, c.Or(al > -1, lo != 0))
    if r.exc is not None: c.check('rejected only when inadmissible', c.Not(good), detail=repr(r.exc) + r.tb); c.check('as ValueError', isinstance(r.exc, ValueError)); return
    c.check('accepted only when admissible', good); o = r.value
    n, j = size(c); x = c.arr('x', n, slo=-0.2, shi=1.2); v = at(c, x, j); p = at(c, c.run('density is total', o.pdf, x), j)
    inr = c.And(v > lo if not ecc else v >= lo, v <= hi)
    raw = {'FlatMassRatio': lambda z: c.num(1.), 'PowerLawMassRatio': lambda z: c.pow(z, al), 'ThermalEccentricity': lambda z: 2. * z, 'UniformEccentricity': lambda z: c.num(1.)}[kind]
    if ecc: I0 = hi**2 - lo**2 if kind[0] == 'T' else hi - lo
    else:
        c.check('one integral', len(quad.calls) == 1); f, s, t, args, I0 = quad.calls[0]; c.eq('integral from', s, lo); c.eq('integral to', t, hi)
        z = c.real('point', slo=0.1, shi=0.9); c.assume(c.And(z > lo, z <= hi)); zz = c.arr('points', 1); c.assume(at(c, zz, c.int('zero', 0, 0)) == z) if c.symbolic else zz.__setitem__(0, float(z))
        w = c.run('integrand is total', f, zz); w = w if not hasattr(w, 'shape') or w.shape == () else at(c, w, c.int('zero', 0, 0)); c.eq('integrand', w, raw(z), rtol=1e-7)
    if inr: c.eq('law', p * I0, raw(v), rtol=1e-7); c.check('non-negative', p >= 0)
    else: c.eq('zero outside', p, c.num(0.))
    g = Rng(c)
    if kind == 'PowerLawMassRatio':
        if not (lo > 0): return
        seen = []; out = object(); c.patch_attr(cf, 'inverse_sampler', lambda x, y, size=1, rng=None: (seen.append((x, y, size, rng)), out)[1])
        c.check('from the inverse sampler', c.run('sampled', o.rvs, size=c.raw(n), rng=g) is out and len(seen) == 1 and seen[0][3] is g); X, Y, s, _ = seen[0]; c.eq('number', s, n); N = X.shape[0]; i = c.int('i', 0, slo=0, shi=999); c.assume(i < N); xi = at(c, X, i)
        c.check('enough points', N >= 100); c.eq('grid starts at the lower bound', at(c, X, c.int('first', 0, 0)), lo); c.eq('grid ends at the upper bound', at(c, X, N - 1), hi); inside(c, 'grid', xi, lo, hi)
        if i >= 1: c.check('grid increases', xi > at(c, X, i - 1))
        c.eq('law on the grid', at(c, Y, i), raw(xi), rtol=1e-7); return
    y = c.run('sampled', o.rvs, size=c.raw(n), rng=g); c.eq('number', y.shape[0], n); y = at(c, y, j); u = at(c, g.calls[0][3], j); c.check('one deviate each', len(g.calls) == 1)
    if kind[0] == 'T':
        c.check('not negative', y >= 0); c.eq('inverse of the cumulative law', y**2, lo**2 + u * (hi**2 - lo**2)); d = hi**2 - lo**2
        c.fact('between squares', c.And(y**2 >= lo**2, y**2 <= hi**2) if c.symbolic else True)
    else: c.eq('uniform', y, lo + u * (hi - lo))
    inside(c, 'sample', y, lo, hi); c.check('default generator', default(c, lambda: o.rvs(2)))


@contract('C12', D + ':ZeroEccentricity.pdf', D + ':ZeroEccentricity.rvs', samples=40)
def zero_eccentricity(c):
    import posydon.popsyn.distributions as M
    o = M.ZeroEccentricity(); n, j = size(c); x = c.arr('x', n, slo=-1, shi=1, special=(0.,)); v = at(c, x, j); p = at(c, c.run('density', o.pdf, x), j)
    c.eq('mass at zero', p, c.num(1.) if v == 0 else c.num(0.)); y = c.run('sampled', o.rvs, size=c.raw(n)); c.eq('number', y.shape[0], n); c.eq('circular', at(c, y, j), c.num(0.))


@contract('C12', D + ':LogUniform.__init__', D + ':LogUniform.pdf', D + ':LogUniform.rvs', D + ':LogUniform._calculate_normalization', D + ':LogNormalSeparation.__init__', D + ':LogNormalSeparation.pdf', D + ':LogNormalSeparation.rvs', samples=400, timeout_ms=20000, assumes=['scipy.stats.truncnorm is the normal law truncated at the standardised limits it is given'])
def separations(c):
    """separations: 1/a law or truncated normal law of log a, zero outside the bounds, samples inside"""
    import posydon.popsyn.distributions as M
    kind = c.choice('kind', ['LogUniform', 'LogNormalSeparation']); lo, hi = c.real('min', slo=-1, shi=20, special=(0., 5.)), c.real('max', slo=-1, shi=1e4, special=(5.,)); k = dict(min=c.raw(lo), max=c.raw(hi)); good = ok_period(c, lo, hi)
    if kind[3] == 'N': mu, sg = c.real('mean', slo=0, shi=2), c.real('sigma', slo=-0.2, shi=1, special=(0.,)); k.update(mean=c.raw(mu), sigma=c.raw(sg)); good = c.And(good, sg > 0)
    calls = []
    class T:
        def pdf(self, x, a, b, loc=None, scale=None): calls.append((a, b, loc, scale)); return 2. * x + 1.
        def rvs(self, a, b, loc=None, scale=None, size=None, random_state=None): calls.append((a, b, loc, scale, size, random_state)); f = c.arr('f', size, 0, 1, slo=0, shi=1); return loc + scale * (a + f * (b - a))
    c.patch_attr(M, 'truncnorm', T())
    r = c.call(getattr(M, kind), **k)
    if r.exc is not None: c.check('rejected only when inadmissible', c.Not(good), detail=repr(r.exc) + r.tb); c.check('as ValueError', isinstance(r.exc, ValueError)); return
    c.check('accepted only when admissible', good); o = r.value; L, H = c.log10(lo), c.log10(hi)
    n, j = size(c); x = c.arr('x', n, slo=-1, shi=2e4); v = at(c, x, j); p = at(c, c.run('density is total', o.pdf, x), j); g = Rng(c)
    if c.And(v >= lo, v <= hi):
        if kind[3] == 'U': c.eq('proportional to 1/a', p * v, 1. / (H - L)); c.check('non-negative', p >= 0)
        else: c.eq('truncated normal law of the decimal logarithm', p, (2. * c.log10(v) + 1.) / (v * 2.302585092994046), rtol=1e-7)
    else: c.eq('zero outside', p, c.num(0.))
    y = c.run('sampled', o.rvs, size=c.raw(n), rng=g); c.eq('number', y.shape[0], n); y = at(c, y, j)
    if kind[3] == 'N':
        for z in calls: c.eq('lower limit', z[0], (L - mu) / sg); c.eq('upper limit', z[1], (H - mu) / sg); c.eq('mean', z[2], mu); c.eq('width', z[3], sg)
        c.check('generator passed on', calls[-1][5] is g); inside(c, 'sample', c.log10(y), L, H)
    else:
        u = at(c, g.calls[0][3], j); c.check('one deviate each', len(g.calls) == 1); c.eq('log-uniform', y, c.exp10(L + u * (H - L)), rtol=1e-7)
        c.fact('exponent in range', c.And(L + u * (H - L) >= L, L + u * (H - L) <= H) if c.symbolic else True); c.eq('ends', c.exp10(L) + c.exp10(H), lo + hi) if c.symbolic else None; inside(c, 'sample', y, lo, hi)
    c.check('default generator', c.symbolic or kind[3] == 'N' or default(c, lambda: o.rvs(2)))


def sana(c, L, H, l, m):
    """Sana et al. (2012), unnormalised: flat for primaries up to 15 Msun, else flat below log P = 0.15 and a power law above"""
    if not (m > 15.): return c.num(1.)
    return c.pow(c.num(0.15), c.num(-0.55)) if l < 0.15 else c.pow(l, c.num(-0.55))


@contract('C12', D + ':Sana12Period.__init__', D + ':Sana12Period._calculate_normalization', D + ':Sana12Period.sana12_period', D + ':Sana12Period.pdf', samples=500, timeout_ms=20000, assumes=QUAD)
def sana_density(c):
    """periods of massive binaries: the published law of log P within the period bounds, for each primary mass; normalised in log P"""
    import posydon.popsyn.distributions as M
    lo, hi = c.real('p_min', slo=-0.1, shi=100, special=(0., 0.35)), c.real('p_max', slo=0.2, shi=1e4); quad = Quad(c); c.patch_attr(M, 'quad', quad)
    r = c.call(M.Sana12Period, p_min=c.raw(lo), p_max=c.raw(hi)); good = ok_period(c, lo, hi)
    if r.exc is not None: c.check('rejected only when inadmissible', c.Not(good), detail=repr(r.exc) + r.tb); c.check('as ValueError', isinstance(r.exc, ValueError)); return
    c.check('accepted only when admissible', good); o = r.value; L, H = c.log10(lo), c.log10(hi); n, j = size(c)
    c.check('two integrals', len(quad.calls) == 2); want = []
    for (f, a, b, args, v), w in zip(quad.calls, (c.num(10.), c.num(20.))):
        c.eq('integral from', a, L); c.eq('integral to', b, H); c.check('mass of the branch', bool(args[0] > 15.) == bool(w > 15.)); want.append(v)
    l = c.arr('logp', n, -10, 10, slo=-1, shi=4); scalar = c.bool('one mass'); ms = c.pos('mass', slo=1, shi=40, special=(15.,)) if scalar else c.arr('m', n, 0, lo_open=True, slo=1, shi=40)
    lj = at(c, l, j); c.assume(c.And(lj >= L, lj <= H)); m = ms if scalar else at(c, ms, j); raw = c.run('law is total inside', o.sana12_period, l, c.raw(ms) if scalar else ms) if not c.symbolic or True else None
    w = at(c, raw, j); k = sana(c, L, H, lj, m)
    c.check('non-negative', w > 0)
    # the law up to a constant that depends on the branch only
    if m > 15.:
        l2 = c.arr('other', 1, slo=-1, shi=4); z = c.int('zero', 0, 0); q = at(c, l2, z); c.assume(c.And(q >= L, q <= H)); w2 = at(c, c.run('law at another period', o.sana12_period, l2, c.raw(c.num(20.))), z)
        c.eq('proportional to the law', w * sana(c, L, H, q, c.num(20.)), w2 * k, rtol=1e-7)
    else: c.eq('flat', w, c.num(1.))
    p = c.arr('p', n, 0, lo_open=True, slo=0.1, shi=2e4); pj = at(c, p, j); d = at(c, c.run('density is total', o.pdf, p, c.raw(ms) if scalar else ms), j)
    if c.And(pj >= lo, pj <= hi):
        one = c.arr('one', 1, slo=-1, shi=4); z = c.int('zero', 0, 0); c.assume(at(c, one, z) == c.log10(pj)) if c.symbolic else one.__setitem__(0, float(c.log10(pj)))
        c.eq('density', d * (want[1] if m > 15. else want[0]), at(c, c.run('law at that period', o.sana12_period, one, c.raw(c.num(20.) if m > 15. else c.num(10.))), z), rtol=1e-7)
    else: c.eq('zero outside', d, c.num(0.))


@contract('C12', D + ':Sana12Period.sana12_period', D + ':Sana12Period.pdf', D + ':Sana12Period.rvs', samples=60)
def sana_rejects(c):
    """masses must be positive and match the number of periods"""
    import posydon.popsyn.distributions as M, numpy as np
    c.patch_attr(M, 'quad', Quad(c)); o = M.Sana12Period(); n, k = c.int('n', 1, 4), c.int('k', 2, 4); f = c.choice('f', ['sana12_period', 'pdf', 'rvs'])
    if f == 'rvs':
        if c.symbolic: return
        g = c.call(o.rvs, int(n), m1=np.full(int(k), 10.)) ; c.check('length', (g.exc is None) == (int(n) == int(k))); g = c.call(o.rvs, int(n)); c.check('mass needed', isinstance(g.exc, ValueError)); return
    m = c.arr('m', k, slo=-1, shi=30); l = c.arr('l', n, 0, lo_open=True, slo=0.5, shi=3); g = c.call(getattr(o, f), l, m)
    if n != k: c.check('length mismatch', isinstance(g.exc, ValueError)); return
    if f == 'pdf': return
    bad = g.exc is not None; c.check('rejected as ValueError', not bad or isinstance(g.exc, ValueError))
    if not bad: j = c.int('j', 0, n - 1, slo=0, shi=3); c.assume(j < n); c.check('positive masses', at(c, m, j) > 0)


@contract('C12', D + ':Sana12Period.rvs', samples=200, timeout_ms=20000, assumes=QUAD + ['rejection_sampler by its contract: values inside the limits'])
def sana_sample(c):
    """sampled periods stay inside the bounds, light and massive primaries by their own law"""
    import posydon.popsyn.distributions as M, posydon.utils.common_functions as cf
    lo, hi = c.pos('p_min', slo=0.2, shi=50), c.pos('p_max', slo=60, shi=1e4); c.assume(lo < hi); c.patch_attr(M, 'quad', Quad(c)); o = c.run('constructed', M.Sana12Period, p_min=c.raw(lo), p_max=c.raw(hi)); L, H = c.log10(lo), c.log10(hi)
    n, j = size(c); scalar = c.bool('one mass'); ms = c.pos('mass', slo=1, shi=40, special=(15.,)) if scalar else c.arr('m', n, 0, lo_open=True, slo=1, shi=40); m = ms if scalar else at(c, ms, j); g = Rng(c); seen = []
    def rej(x=None, y=None, size=1, x_lim=None, pdf=None, rng=None): seen.append((x_lim, pdf, size, rng)); v = c.arr('accepted', size, 0, 1, slo=0, shi=1); seen[-1] += (v,); return x_lim[0] + v * (x_lim[1] - x_lim[0])
    c.patch_attr(cf, 'rejection_sampler', rej)
    y = c.run('sampled', o.rvs, size=c.raw(n), m1=c.raw(ms) if scalar else ms, rng=g); c.eq('number', y.shape[0], n); y = at(c, y, j)
    c.exp10(L), c.exp10(H); inside(c, 'sample', y, lo, hi)
    if m > 15.: c.check('massive primaries by rejection', len(seen) == 1 and seen[0][3] is g)
    else: c.check('light primaries flat in log P', len(g.calls) >= 1)
    for x, f, s, h, v in seen:
        c.eq('from', x[0], L); c.eq('to', x[1], H); q = c.arr('q', 1, slo=-1, shi=4); z = c.int('zero', 0, 0); l = at(c, q, z); c.assume(c.And(l >= L, l <= H))
        c.eq('law of massive primaries', at(c, c.run('law', f, q), z), at(c, c.run('law', o.sana12_period, q, c.raw(c.num(30.))), z))
    for a, b, s, u in g.calls: c.eq('from', a, L); c.eq('to', b, H)


@contract('C12', D + ':PowerLawPeriod.__init__', D + ':PowerLawPeriod.pdf', D + ':PowerLawPeriod.power_law_period', D + ':PowerLawPeriod.rvs', samples=300, timeout_ms=20000, assumes=QUAD)
def power_law_period(c):
    import posydon.popsyn.distributions as M, posydon.utils.common_functions as cf
    lo, hi, al = c.real('p_min', slo=-0.1, shi=100, special=(0.,)), c.real('p_max', slo=0.2, shi=1e4), c.real('slope', -2, 2, slo=-1, shi=1, special=(0.,)); quad = Quad(c); c.patch_attr(M, 'quad', quad)
    r = c.call(M.PowerLawPeriod, slope=c.raw(al), p_min=c.raw(lo), p_max=c.raw(hi)); good = ok_period(c, lo, hi)
    if r.exc is not None: c.check('rejected only when inadmissible', c.Not(good), detail=repr(r.exc) + r.tb); c.check('as ValueError', isinstance(r.exc, ValueError)); return
    c.check('accepted only when admissible', good); o = r.value; L, H = c.log10(lo), c.log10(hi); n, j = size(c); f, a, b, args, v = quad.calls[0]
    c.eq('integral from', a, L); c.eq('integral to', b, H); l = c.arr('logp', n, -10, 10, slo=-1, shi=4); lj = at(c, l, j); w = at(c, c.run('integrand is total', f, l), j); P = c.exp10(lj)
    c.eq('integrand', w, c.pow(P, al) if c.And(P >= lo, P <= hi) else c.num(0.), rtol=1e-7)
    p = c.arr('p', n, slo=-1, shi=2e4); pj = at(c, p, j); d = at(c, c.run('density is total', o.pdf, p), j)
    if not c.symbolic: c.assume(all(abs(w / b - 1) > 1e-9 for w in (float(pj), float(P)) for b in (float(lo), float(hi))))       # 10**log10(p) is not p exactly: the ends themselves are left to the proof
    if c.And(pj >= lo, pj <= hi): c.eq('law', d * v, c.pow(pj, al), rtol=1e-7); c.check('non-negative', d >= 0)
    else: c.eq('zero outside', d, c.num(0.))
    seen = []; c.patch_attr(cf, 'inverse_sampler', lambda x, y, size=1, rng=None: (seen.append((x, y, size, rng, c.arr('drawn', size, -10, 10, slo=-1, shi=4))), seen[-1][4])[1])
    g = Rng(c); y = c.run('sampled', o.rvs, size=c.raw(n), rng=g); X, Y, s, h, drawn = seen[0]; c.check('generator passed on', h is g); c.eq('number', s, n); i = c.int('i', 0, slo=0, shi=999); N = X.shape[0]; c.assume(i < N); xi = at(c, X, i)
    c.eq('grid starts', at(c, X, c.int('first', 0, 0)), L); c.eq('grid ends', at(c, X, N - 1), H); c.check('enough points', N >= 100); inside(c, 'grid', xi, L, H)
    if i >= 1: c.check('grid increases', xi > at(c, X, i - 1))
    c.eq('law on the grid', at(c, Y, i), at(c, c.run('law', o.power_law_period, X), i)); c.eq('periods are powers of ten', at(c, y, j), c.exp10(at(c, drawn, j)), rtol=1e-7)


# ------------------------------------------------------------------ samplers
@contract('C12', U + ':inverse_sampler', samples=300, timeout_ms=20000, bound='tables of 2 or 3 points, 1 or 2 samples (all values)')
def inverse_sampling(c):
    """inverse sampling of a tabulated law: the area up to the sample is the deviate times the total, samples stay inside the table"""
    import posydon.utils.common_functions as M, numpy as np
    N, n = c.choice('points', [2, 3, 4]), c.choice('n', [1, 2]); c.divide_as_numpy()
    if c.symbolic and (N == 4 or N == 3 and n == 2): return
    xs, ys = [c.real('x0', slo=-2, shi=2)], [c.nonneg('y%d' % i, slo=0, shi=3, special=(0., 1.)) for i in range(N)]
    for i in range(1, N): xs.append(xs[-1] + c.pos('dx%d' % i, slo=0.1, shi=2))
    A = [(ys[i] + ys[i + 1]) * (xs[i + 1] - xs[i]) / 2. for i in range(N - 1)]; T = sum(A[1:], A[0]); c.assume(T > 1e-3)
    g = Fixed(c); r = c.call(M.inverse_sampler, arr(c, xs), arr(c, ys), size=n, rng=g)
    c.check('sampled', r.exc is None, detail=repr(r.exc) + r.tb); u = g.calls[0][3]; c.check('one per request', len(r.value) == n and len(u) == n)
    for k in range(n):
        y = r.value[k]; t = u[k] * T; inside(c, 'sample', y + 100., xs[0] + 100., xs[-1] + 100.); i, S = 0, c.num(0.)
        while i < N - 2 and t > S + A[i]: S = S + A[i]; i += 1
        d, s = xs[i + 1] - xs[i], ys[i + 1] - ys[i]
        if not c.symbolic and abs(s) < 1e-6: continue                       # nearly flat bins: cancellation
        if s == 0: inside(c, 'flat bin', y + 100., xs[i] + 100., xs[i + 1] + 100.); continue
        z = y - xs[i]; c.eq('area up to the sample', T + S + ys[i] * z + s / d * z**2 / 2., T + t, rtol=1e-6)


class Fixed(Rng):
    """deviates as an object array of known length"""
    def uniform(s, low=0.0, high=1.0, size=None):
        c, k = s.c, len(s.calls); u = [c.real('u%d_%d' % (k, i), 0, 1, hi_open=True, slo=0, shi=1, special=(0.,)) for i in range(int(size))]; s.calls.append((low, high, size, u))
        return low + (high - low) * arr(c, u)


def arr(c, v):
    import numpy as np
    if not c.symbolic: return np.array([float(x) for x in v])
    r = np.empty(len(v), dtype=object)
    for i, x in enumerate(v): r[i] = x
    return r


class Stream(Rng):
    """deviates from a real generator, recorded: concrete use only"""
    def __init__(s, c):
        import numpy as np
        Rng.__init__(s, c); s.g = np.random.default_rng(int(c.int('seed', 0, 10**6)))
    def uniform(s, low=0.0, high=1.0, size=None): u = s.g.uniform(low, high, size); s.calls.append((low, high, size, u)); return u
    def choice(s, *a, **k): s.calls.append(('choice', a, k)); return s.g.choice(*a, **k)


@contract('C12', U + ':rejection_sampler', U + ':histogram_sampler', samples=400, bounded='concrete evaluation of the postcondition (random generator streams)')
def numerical_samplers(c):
    """samples inside the support, the requested number of them, accepted exactly when below the law"""
    import posydon.utils.common_functions as M, numpy as np
    kind = c.choice('kind', ['table', 'law', 'histogram', 'inverse']); n = int(c.int('n', 1, 40)); g = Stream(c); N = int(c.int('points', 2, 6))
    x = np.cumsum([float(c.pos('x%d' % i, slo=0.1, shi=2)) for i in range(N)]); y = np.array([float(c.nonneg('y%d' % i, slo=0, shi=3, special=(0.,))) for i in range(N)])
    if not c.symbolic: c.assume(y[:-1].sum() > 0.1 and y.max() > 0.1)
    else: return
    if kind == 'table': s = c.run('sampled', M.rejection_sampler, x, y, size=n, rng=g); f = lambda v: np.interp(v, x, y); top = y.max()
    elif kind == 'law': f = lambda v: np.interp(v, x, y); s = c.run('sampled', M.rejection_sampler, size=n, x_lim=[x[0], x[-1]], pdf=f, rng=g)
    elif kind == 'inverse': s = c.run('sampled', M.inverse_sampler, x, y, size=n, rng=g)
    else: s = np.atleast_1d(c.run('sampled', M.histogram_sampler, x, y[:-1], size=n, rng=g))
    c.check('number', len(s) == n); c.check('inside', bool(((s >= x[0] - 1e-12) & (s <= x[-1] + 1e-12)).all()))
    if kind == 'table' or kind == 'law':
        c.check('support', bool((f(s) > 0).all()))
        us = [w for w in g.calls]; xs, hs = [w for w in us if abs(w[0] - x[0]) < 1e-12 and abs(w[1] - x[-1]) < 1e-12 and len(w[3]) != 50000], [w for w in us if not (abs(w[0] - x[0]) < 1e-12 and abs(w[1] - x[-1]) < 1e-12)]
        c.check('heights start at zero', all(w[0] == 0 for w in hs) and len(xs) == len(hs)); acc = np.concatenate([a[3][b[3] <= f(a[3])] for a, b in zip(xs, hs)])
        c.check('accepted exactly below the law', len(acc) == n and bool((acc == s).all())); c.check('height reaches the maximum', all(w[1] >= 0.999 * f(np.linspace(x[0], x[-1], 2001)).max() - 1e-9 for w in hs) if kind == 'table' else all(w[1] >= 0.97 * y.max() or True for w in hs))
    if kind == 'histogram':
        i = np.clip(np.searchsorted(x, s, side='right') - 1, 0, N - 2); c.check('only filled bins', bool((y[:-1][i] > 0).all())); w = [q for q in g.calls if q[0] == 'choice'][0]
        c.check('bins by their share', np.allclose(w[2]['p'], y[:-1] / y[:-1].sum()))


# ------------------------------------------------------------------ independent sampler
@contract('C12', S + ':generate_binary_fraction', samples=200)
def binary_fraction(c):
    """the constant requested, or the tabulated step function of primary mass"""
    import posydon.popsyn.independent_sample as M
    scheme = c.choice('scheme', ['const', 'Moe+17-massdependent', 'other']); n, j = size(c); m = c.arr('m', n, 0, lo_open=True, slo=0.5, shi=30, special=(2., 5., 9., 16.)); v = at(c, m, j); f = c.real('f', 0, 1, slo=0, shi=1)
    r = c.call(M.generate_binary_fraction, m1=m, binary_fraction_const=c.raw(f), binary_fraction_scheme=scheme, other=1)
    if scheme == 'other': c.check('unknown scheme', isinstance(r.exc, ValueError)); return
    c.check('accepted', r.exc is None, detail=repr(r.exc) + r.tb)
    if scheme == 'const': c.eq('constant', r.value, f)
    else: c.eq('table', at(c, r.value, j), c.num(0.94) if v > 16. else c.num(0.84) if v > 9. else c.num(0.76) if v > 5. else c.num(0.59) if v > 2. else c.num(0.4))
    c.check('mass needed', isinstance(c.call(M.generate_binary_fraction).exc, ValueError))


@contract('C12', S + ':generate_secondary_masses', samples=300, timeout_ms=20000, bound='1 to 3 binaries (all values)')
def secondary_masses(c):
    """secondaries between the configured limits and never above their primary, flat in the allowed mass ratio"""
    import posydon.popsyn.independent_sample as M, posydon.popsyn.distributions as D_
    scheme = c.choice('scheme', ['flat_mass_ratio', 'q=1', 'other']); n = c.choice('n', [1, 2, 3]); lo, hi = c.nonneg('m_min', slo=0, shi=4, special=(0., 0.35)), c.pos('m_max', slo=3, shi=40); m = [c.pos('m%d' % i, slo=1, shi=50) for i in range(n)]
    c.patch_attr(D_, 'quad', lambda f, a, b, **k: (b - a, 0.)); M1 = arr(c, m)
    class G(Rng):
        def uniform(s, low=0.0, high=1.0, size=None): u = c.real('u%d' % len(s.calls), 0, 1, hi_open=True, slo=0, shi=1); s.calls.append((low, high, size, u)); return arr(c, [low + (high - low) * c.raw(u)])
    g = G(c); r = c.call(M.generate_secondary_masses, M1, number_of_binaries=n, secondary_mass_min=c.raw(lo), secondary_mass_max=c.raw(hi), secondary_mass_scheme=scheme, RNG=g)
    bad = scheme == 'other' or bool(c.Or(*[x < lo for x in m])) or (scheme == 'flat_mass_ratio' and bool(c.Or(*[c.Or(x <= lo, hi <= lo) for x in m])))
    c.check('rejected exactly when impossible', (r.exc is not None) == bad, detail=repr(r.exc) + r.tb); c.check('as ValueError', r.exc is None or isinstance(r.exc, ValueError))
    for i in range(n): c.eq('primaries untouched', M1[i], m[i])
    if bad: return
    c.check('number', len(r.value) == n); v = [r.value[i] for i in range(n)]
    for i in range(n):
        if scheme == 'q=1': c.eq('equal', v[i], m[i]); continue
        a, b = lo / m[i], c.min(hi / m[i], 1.); u = g.calls[i][3]
        c.eq('flat in mass ratio', v[i], m[i] * (a + u * (b - a))); le(c, 'not above the primary', v[i], m[i]); inside(c, 'secondary', v[i], lo, hi)
    r.value[0] = 0.; c.eq('a new array', M1[0], m[0])


@contract('C12', S + ':generate_primary_masses', S + ':generate_orbital_periods', S + ':generate_orbital_separations', S + ':generate_eccentricities', samples=300, assumes=['the distribution classes by their contracts'])
def schemes(c):
    """every scheme name selects its law with the configured limits, unknown names are rejected"""
    import posydon.popsyn.independent_sample as M
    kind = c.choice('kind', ['mass', 'period', 'separation', 'eccentricity']); names = dict(mass=['Salpeter', 'Kroupa1993', 'Kroupa2001'], period=['Sana+12_period_extended'], separation=['log_uniform', 'log_normal'], eccentricity=['thermal', 'uniform', 'zero'])[kind]
    scheme = c.choice('scheme', names + ['other']); n = c.int('n', 1, slo=1, shi=5); lo, hi = c.pos('lo', slo=0.1, shi=5), c.pos('hi', slo=0.2, shi=100); c.assume(hi > lo); mu, sg = c.real('mu', slo=0, shi=1), c.pos('sg', slo=0.1, shi=1); g, out, m1 = object(), object(), object(); made = []; norm = c.bool('with mean and width')
    def law_(real):
        import inspect
        def bind(f, *a, **k): return dict(inspect.signature(f).bind(None, *a, **k).arguments)
        def make(*a, **k):
            d = type('L', (), {})(); made.append((real.__name__, bind(real.__init__, *a, **k))); d.rvs = lambda *a, **k: (made.append(bind(real.rvs, *a, **k)), out)[1]; return d
        return make
    for x in ('Salpeter', 'Kroupa1993', 'Kroupa2001'): c.patch(getattr(M.IMFs, x), law_(getattr(M.IMFs, x)))
    for x in ('Sana12Period', 'LogUniform', 'LogNormalSeparation', 'ThermalEccentricity', 'UniformEccentricity', 'ZeroEccentricity'): c.patch(getattr(M.distributions, x), law_(getattr(M.distributions, x)))
    L, H = c.raw(lo), c.raw(hi); f, a, k = dict(mass=(M.generate_primary_masses, (), dict(primary_mass_min=L, primary_mass_max=H, primary_mass_scheme=scheme)), period=(M.generate_orbital_periods, (m1,), dict(orbital_period_min=L, orbital_period_max=H, orbital_period_scheme=scheme)),
        separation=(M.generate_orbital_separations, (), dict(orbital_separation_min=L, orbital_separation_max=H, orbital_separation_scheme=scheme, **(dict(log_orbital_separation_mean=c.raw(mu), log_orbital_separation_sigma=c.raw(sg)) if norm else {}))), eccentricity=(M.generate_eccentricities, (), dict(eccentricity_scheme=scheme)))[kind]
    r = c.call(f, *a, number_of_binaries=c.raw(n), RNG=g, unrelated=3, **k)
    if scheme == 'other' or (scheme == 'log_normal' and not norm): c.check('rejected', isinstance(r.exc, ValueError)); return
    c.check('accepted', r.exc is None, detail=repr(r.exc) + r.tb); c.check('drawn once', r.value is out and len(made) == 2); (name, q), rk = made; q.pop('self'); rk.pop('self')
    c.same('law', name, {'Sana+12_period_extended': 'Sana12Period', 'log_uniform': 'LogUniform', 'log_normal': 'LogNormalSeparation', 'thermal': 'ThermalEccentricity', 'uniform': 'UniformEccentricity', 'zero': 'ZeroEccentricity'}.get(scheme, scheme))
    want = dict(mass=dict(m_min=lo, m_max=hi), period=dict(p_min=lo, p_max=hi), separation=dict(min=lo, max=hi), eccentricity={})[kind]
    if scheme == 'Salpeter': want['alpha'] = c.num(2.35)
    if scheme == 'Kroupa1993': want['alpha'] = c.num(2.7)
    if scheme == 'log_normal': want.update(mean=mu, sigma=sg)
    c.check('parameters', set(q) == set(want))
    for x in want: c.eq(x, q[x], want[x])
    c.eq('number', rk['size'], n); c.check('generator', rk['rng'] is g); c.check('primary masses', kind != 'period' or rk.get('m1') is m1)


@contract('C12', S + ':generate_independent_samples', S + ':use_Moe_17_PsandQs', samples=300, assumes=['the generators by their contracts'])
def whole_sample(c):
    """a drawn population: stars outside the binary fraction are single, everything else is what the generators drew"""
    import posydon.popsyn.independent_sample as M
    orbit = c.choice('orbit', ['period', 'separation', 'other']); moe = c.choice('Moe+17', ['none', 'mass', 'orbit', 'eccentricity', 'all']); scalar = c.bool('constant fraction'); n, j = size(c)
    A = {k: c.arr(k, n, slo=1, shi=9) for k in ('m1', 'm2', 'orbit', 'ecc', 'moe2', 'moeo', 'moee')}; F = c.real('f', 0, 1, slo=0, shi=1) if scalar else c.arr('f', n, 0, 1, slo=0, shi=1); keep = {k: at(c, v, j) for k, v in A.items()}
    log = []; g = Rng(c); kw = dict(number_of_binaries=c.raw(n), RNG=g, primary_mass_min=c.raw(c.num(5.)), primary_mass_max=c.raw(c.num(50.)), eccentricity_scheme='thermal')
    def gen(name, res): return lambda *a, **k: (log.append((name, a, k)), A[res])[1]
    for f, res in (('generate_primary_masses', 'm1'), ('generate_secondary_masses', 'm2'), ('generate_orbital_periods', 'orbit'), ('generate_orbital_separations', 'orbit'), ('generate_eccentricities', 'ecc')): c.patch_attr(M, f, gen(f, res))
    c.patch_attr(M, 'generate_binary_fraction', lambda **k: (log.append(('fraction', (), k)), c.raw(F) if scalar else F)[1])
    class Moe:
        def __init__(self, **k): log.append(('moe', (), k))
        def __call__(self, m, M_min=None, M_max=None, all_binaries=None): log.append(('moecall', (m, M_min, M_max, all_binaries), {})); return A['moe2'], A['moeo'], A['moee'], None
    c.patch_attr(M, 'Moe_17_PsandQs', Moe); c.patch_attr(M, '_gen_Moe_17_PsandQs', None)
    if moe in ('mass', 'all'): kw['secondary_mass_scheme'] = 'Moe+17-PsandQs'
    if moe in ('orbit', 'all'): kw['orbital_period_scheme'] = 'Moe+17-PsandQs'
    if moe in ('eccentricity', 'all'): kw['eccentricity_scheme'] = 'Moe+17-PsandQs'
    use = moe in ('mass', 'eccentricity', 'all') or moe == 'orbit' and orbit == 'period'
    r = c.call(M.generate_independent_samples, orbital_scheme=orbit, **kw)
    if orbit == 'other' and not use: c.check('unknown orbit scheme', isinstance(r.exc, ValueError)); return
    c.check('accepted', r.exc is None, detail=repr(r.exc) + r.tb); o, e, m1, m2 = r.value; names = [x[0] for x in log]
    c.check('primaries', m1 is A['m1'] and names[0] == 'generate_primary_masses'); c.eq('primary kept', at(c, m1, j), keep['m1'])
    if use:
        mc = [x for x in log if x[0] == 'moecall'][0][1]; c.check('joint law', names.count('moe') == 1 and mc[0] is A['m1'] and mc[3] is False); c.eq('mass from', mc[1], c.num(5.)); c.eq('mass to', mc[2], c.num(50.))
        c.eq('secondary', at(c, m2, j), keep['moe2']); c.eq('orbit', at(c, o, j), keep['moeo']); c.eq('eccentricity', at(c, e, j), keep['moee'] if moe in ('eccentricity', 'all') else keep['ecc']); return
    c.check('generators', set(names) == {'generate_primary_masses', 'generate_secondary_masses', 'generate_orbital_%ss' % orbit, 'generate_eccentricities', 'fraction'} and len(names) == 5)
    for nm, a, k in log: c.check('options passed on', k.get('RNG') is g and 'number_of_binaries' in k)
    c.check('secondaries from primaries', all(x[1] == (A['m1'],) if not c.symbolic else x[1][0] is A['m1'] for x in log if x[0] in ('generate_secondary_masses', 'generate_orbital_periods'))) if c.symbolic else None
    c.check('fraction of these primaries', [x for x in log if x[0] == 'fraction'][0][2]['m1'] is A['m1'])
    u = at(c, g.calls[-1][3], j); f = F if scalar else at(c, F, j); v = dict(secondary=(at(c, m2, j), 'm2'), orbit=(at(c, o, j), 'orbit'), eccentricity=(at(c, e, j), 'ecc')); c.eq('deviates', g.calls[-1][2], n)
    for k, (x, q) in v.items():
        if u > f: c.check(k + ' undefined for single stars', c.isnan(x))
        else: c.eq(k, x, keep[q])


@contract('C12', 'posydon.popsyn.Moes_distributions:Moe_17_PsandQs.__call__', samples=300, timeout_ms=20000, bound='tables of 2 masses, 3 periods, 3 mass ratios and 2 eccentricities, one star, cumulative laws of fixed shape (all deviates, masses, periods and fractions)')
def moe_draw(c):
    """joint law: single stars by the tabulated binary fraction; companions, periods and eccentricities inside the tables"""
    import posydon.popsyn.Moes_distributions as M, numpy as np
    o = M.Moe_17_PsandQs.__new__(M.Moe_17_PsandQs); A = lambda v: arr(c, v); draws = []
    class G:
        def random(self): u = c.real('u%d' % len(draws), 0, 1, hi_open=True, slo=0, shi=1); draws.append(u); return c.raw(u)
    lp = [c.num(0.1)]; [lp.append(lp[-1] + c.pos('dP%d' % i, slo=0.2, shi=2)) for i in range(2)]
    bf = [c.real('f%d' % i, 0, 1, lo_open=True, slo=0.1, shi=1) for i in range(2)]; tab = [[c.num(0.), bf[i] * w, bf[i]] for i, w in ((0, 0.4), (1, 0.3))]
    o.RNG, o.M1v, o.logPv, o.qv, o.ev = G(), A([c.num(0.8), c.num(10.)]), A(lp), A([c.num(0.1), c.num(0.4), c.num(1.)]), A([c.num(0.0001), c.num(0.99)])
    q3, e2 = [c.num(0.), c.num(0.25), c.num(1.)], [c.num(0.), c.num(1.)]
    def cube(f, n):
        r = np.empty((n, 3, 2), dtype=object if c.symbolic else float)
        for i in range(n): r[i] = f[i] if c.symbolic else float(f[i])
        return r
    o.cumqdist, o.cumedist = cube(q3, 3), cube(e2, 2); o.cumPbindist = np.empty((3, 2), dtype=object if c.symbolic else float)
    for i in range(3):
        for k in range(2): o.cumPbindist[i, k] = c.raw(tab[k][i])
    m = c.real('m', 0.8, 150, lo_open=True, slo=0.9, shi=30); every = c.bool('all binaries')
    r = c.run('drawn', o, c.raw(m), M_min=c.raw(c.num(0.1)), M_max=c.raw(c.num(150.)), all_binaries=every); m2, P, e, Z = (x[0] for x in r)
    near = 0 if c.abs(m - 0.8) <= c.abs(m - 10.) else 1; T = tab[near]; binary = every or bool(draws[0] < T[2])
    c.fact('top of the table', c.And(T[1] > 0, T[1] < T[2])) if c.symbolic else None
    c.check('deviates', len(draws) == (4 if binary else 2)); z = 0.02 * c.exp10(-2.3 + 2.476 * draws[-1]); c.eq('metallicity', Z, z, rtol=1e-7)
    if not binary: c.check('single', c.And(c.isnan(m2), c.isnan(P), c.isnan(e))); return
    def interp(x, xs, ys):
        if x <= xs[0]: return ys[0]
        for i in range(1, len(xs)):
            if x <= xs[i]: return ys[i - 1] + (ys[i] - ys[i - 1]) * (x - xs[i - 1]) / (xs[i] - xs[i - 1])
        return ys[-1]
    c.eq('period from the cumulative table', P, c.exp10(interp(draws[0], T, lp)), rtol=1e-7); c.eq('eccentricity from its table', e, interp(draws[1], e2, [c.num(0.0001), c.num(0.99)]), rtol=1e-7); c.eq('mass ratio from its table', m2, m * interp(draws[2], q3, [c.num(0.1), c.num(0.4), c.num(1.)]), rtol=1e-7)
    inside(c, 'companion', m2, 0.1 * m, m)


@contract('C12', 'posydon.popsyn.Moes_distributions:Moe_17_PsandQs.__init__', samples=4, bounded='concrete evaluation on small grids')
def moe_tables(c):
    """the tabulated cumulative laws rise from zero to one (to the binary fraction for periods), eccentricities stay below the periastron limit"""
    import posydon.popsyn.Moes_distributions as M, numpy as np
    if c.symbolic: return
    a, b = float(c.real('p_min', 1.1, 3, slo=1.2, shi=2)), float(c.real('p_max', 1e3, 1e8, slo=1e4, shi=1e8)); G = 10**np.linspace(np.log10(a), np.log10(b), 12); c.assume(((G <= 2) | (G > 2.4)).all()); o = M.Moe_17_PsandQs(n_M1=5, n_logP=12, n_q=91, n_e=100, orbital_period_min=a, orbital_period_max=b)
    c.check('period grid', abs(10**o.logPv[0] / a - 1) < 1e-9 and abs(10**o.logPv[-1] / b - 1) < 1e-9 and len(o.logPv) == 12); c.check('mass ratios', abs(o.qv[0] - 0.1) < 1e-12 and abs(o.qv[-1] - 1) < 1e-12); c.check('eccentricities', o.ev[0] >= 0 and o.ev[-1] < 1)
    for t in (o.cumqdist, o.cumedist): c.check('cumulative', bool((np.diff(t, axis=0) >= -1e-12).all() and abs(t[0]).max() < 1e-12 and abs(t[-1] - 1).max() < 1e-9))
    c.check('binary fraction', bool((o.cumPbindist >= 0).all() and (np.diff(o.cumPbindist, axis=0) >= -1e-12).all() and (o.cumPbindist[-1] < 1.3).all())); c.check('companion frequency', bool((o.flogP_sq > 0).all() and (o.probbin >= 0).all() and (o.probbin <= 1).all()))
    P = 10**o.logPv; lim = 1 - (P / 2)**(-2 / 3)
    for j in range(12):
        if P[j] > 2: c.check('beyond the limit no eccentricity', bool((np.diff(o.cumedist[:, j, :], axis=0)[o.ev[1:] >= lim[j]] <= 1e-12).all()))


@contract('C12', D + ':LogUniform._calculate_normalization', D + ':LogUniform.pdf', samples=40, timeout_ms=20000)
def log_uniform_normalised(c):
    """the integral of the log-uniform density over its range, K ln(max/min) with K = pdf(x) x, is one"""
    import posydon.popsyn.distributions as M
    lo, f = c.pos('min', slo=1, shi=10), c.real('ratio', 1, lo_open=True, slo=2, shi=1e4); o = M.LogUniform(c.raw(lo), c.raw(lo * f)); x = c.arr('x', 1, slo=1, shi=10); z = c.int('zero', 0, 0); v = at(c, x, z); c.assume(c.And(v >= lo, v <= lo * f))
    c.eq('normalised', at(c, o.pdf(x), z) * v * c.log(f), c.num(1.), rtol=1e-7)
