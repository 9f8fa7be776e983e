"""Orbital mechanics utilities (posydon/utils/common_functions.py)."""
from pyvc.ctx import contract
CF = 'posydon.utils.common_functions'


@contract('C04', CF + ':orbital_separation_from_period', CF + ':orbital_period_from_separation')
def kepler(c):
    P, m1, m2 = c.pos('P'), c.nonneg('m1'), c.nonneg('m2')
    c.assume(m1 + m2 > 0)
    a = c.run('sep', CF + ':orbital_separation_from_period', P, m1, m2)
    G, Ms, Rs, d = c.K('standard_cgrav'), c.K('msol'), c.K('rsol'), c.K('day2sec')
    c.eq('kepler3', (a * Rs)**3, G * (m1 + m2) * Ms * (P * d)**2 / (4 * c.pi**2))
    c.check('positive', a > 0)
    P2 = c.run('per', CF + ':orbital_period_from_separation', a, m1, m2)
    c.check('per.positive', P2 > 0)
    c.eq('inverse', P2**2, P**2, rtol=2e-3)


@contract('C04', CF + ':orbital_period_from_separation')
def kepler_period(c):
    a, m1, m2 = c.pos('a'), c.nonneg('m1'), c.nonneg('m2')
    c.assume(m1 + m2 > 0)
    P = c.run('per', CF + ':orbital_period_from_separation', a, m1, m2)
    c.eq('kepler3', P**2, c.K('dayyer')**2 * (a / c.K('aursun'))**3 / (m1 + m2))
    c.check('positive', P > 0)
    a2 = c.run('sep', CF + ':orbital_separation_from_period', P, m1, m2)
    c.eq('inverse', a2**3, a**3, rtol=2e-3)


def eggleton(c, m1, m2, a):
    q3 = c.root(m1 / m2, 3)
    return a * 0.49 * q3**2 / (0.6 * q3**2 + c.log(1 + q3))


@contract('C04', CF + ':roche_lobe_radius')
def roche(c):
    a, m1, m2 = c.real('a', special=(0.0,)), c.real('m1', special=(0.0,)), c.real('m2', special=(0.0,))
    r = c.run('rl', CF + ':roche_lobe_radius', m1, m2, a)
    if m1 <= 0 or m2 <= 0 or a < 0:
        c.check('nan', c.isnan(r))
    else:
        c.eq('eggleton', r, eggleton(c, m1, m2, a))
        c.check('nonneg', r >= 0)
        r1 = c.run('rl1', CF + ':roche_lobe_radius', m1, m2)
        c.eq('unit-separation', r1, eggleton(c, m1, m2, 1))


@contract('C04', CF + ':roche_lobe_radius')
def roche_array(c):
    """element-wise law on arrays (length 2; element-wise numpy arithmetic acts on each element alike)"""
    import numpy as np
    a = [c.real('a%d' % i) for i in range(2)]
    m1 = [c.real('m1%d' % i) for i in range(2)]
    m2 = [c.real('m2%d' % i) for i in range(2)]
    which = c.choice('which', ['all', 'a', 'm1', 'm2'])
    def arr(x): return np.array(list(x), dtype=object if c.symbolic else float)
    A = arr(a) if which in ('all', 'a') else a[0]
    M1 = arr(m1) if which in ('all', 'm1') else m1[0]
    M2 = arr(m2) if which in ('all', 'm2') else m2[0]
    r = c.run('rl', CF + ':roche_lobe_radius', M1, M2, A)
    for i in range(2):
        ai, x, y = (a[i] if which in ('all', 'a') else a[0]), (m1[i] if which in ('all', 'm1') else m1[0]), (m2[i] if which in ('all', 'm2') else m2[0])
        if x <= 0 or y <= 0 or ai < 0: c.check('nan', c.isnan(r[i]))
        else: c.eq('eggleton', r[i], eggleton(c, x, y, ai))


@contract('C04', CF + ':check_for_RLO', CF + ':roche_lobe_radius')
def rlo_test(c):
    m1, m2, a = c.pos('m1'), c.pos('m2'), c.pos('a')
    r1, r2 = c.pos('r1'), c.pos('r2')
    if c.bool('default_tol'):
        tol = c.num(1e-8); r = c.run('rlo', CF + ':check_for_RLO', m1, r1, m2, r2, a)
    else:
        tol = c.nonneg('tol', special=(1e-8, 1e-3)); r = c.run('rlo', CF + ':check_for_RLO', m1, r1, m2, r2, a, tol)
    over1 = r1 - eggleton(c, m1, m2, a) >= tol
    over2 = r2 - eggleton(c, m2, m1, a) >= tol
    c.check('rlo-iff', c.iff(r, c.Or(over1, over2)))


@contract('C04', CF + ':period_evol_wind_loss', CF + ':separation_evol_wind_loss')
def wind_loss(c):
    M, Mi, Mc, P = c.pos('M'), c.pos('Mi'), c.nonneg('Mc'), c.pos('P')
    r = c.run('per', CF + ':period_evol_wind_loss', M, Mi, Mc, P)
    c.eq('P~Mtot^-2', r, P * ((Mi + Mc) / (M + Mc))**2)
    a = c.run('sep', CF + ':separation_evol_wind_loss', M, Mi, Mc, P)
    c.eq('a~Mtot^-1', a, P * (Mi + Mc) / (M + Mc))


@contract('C04', CF + ':period_change_stable_MT')
def stable_mt(c):
    P, Di, Df, Ai = c.pos('P'), c.pos('Di'), c.pos('Df'), c.pos('Ai')
    al, be = c.real('alpha', special=(0., 1., 0.5)), c.real('beta', special=(0., 1., 0.5))
    if not c.symbolic: c.assume(-1 < al < 2 and -1 < be < 2)
    o = c.call(CF + ':period_change_stable_MT', P, Di, Df, Ai, al, be)
    if Df > Di or al < 0 or be < 0 or al > 1 or be > 1:
        c.check('rejects', o.raised(ValueError)); return
    c.check('accepts', o.exc is None, detail=o.tb)
    if o.exc is not None: return
    Af = Ai + (1 - be) * (1 - al) * (Di - Df)
    base = P * (Df / Di) ** (3 * (al - 1)) * ((Di + Ai) / (Df + Af))**2
    if be == 1: want = base * c.exp(3 * (1 - al) * (Df - Di) / Af)
    else: want = base * (Af / Ai) ** (3 / (be - 1))
    c.eq('Sorensen17', o.value, want, rtol=1e-7)


@contract('C04', CF + ':period_change_stable_MT')
def stable_mt_default(c):
    """conservative transfer by default: P ~ (Md*Ma)^-3"""
    P, Di, Df, Ai = c.pos('P'), c.pos('Di'), c.pos('Df'), c.pos('Ai')
    c.assume(Df <= Di)
    r = c.run('per', CF + ':period_change_stable_MT', P, Di, Df, Ai)
    c.eq('conservative', r, P * (Di * Ai / (Df * (Ai + Di - Df)))**3, rtol=1e-7)


@contract('C04', CF + ':beta_gw')
def beta(c):
    m1, m2 = c.pos('m1'), c.pos('m2')
    r = c.run('b', CF + ':beta_gw', m1, m2)
    c.eq('peters', r, (64 * c.K('standard_cgrav')**3 * m1 * m2 * (m1 + m2)) / (5 * c.K('clight')**5))


@contract('C04', CF + ':inspiral_timescale_from_separation', assumes=['scipy.integrate.quad returns the integral of its integrand over its limits'])
def inspiral(c):
    m1, m2, a, e = c.real('m1', slo=-1, shi=50), c.real('m2', slo=-1, shi=50), c.real('a', slo=-1, shi=100), c.real('e', slo=-.2, shi=1.2, special=(0., 1.))
    seen = []
    if c.symbolic:
        import posydon.utils.common_functions as M
        def quad(f, lo, hi, *x, **k):
            x = c.fresh('x', 0, hi, lo_open=True, hi_open=True)
            seen.append((lo, hi, x, f(x)))
            return (c.uf('integral', hi), 0)
        c.patch(M.quad, quad)
    o = c.call(CF + ':inspiral_timescale_from_separation', m1, m2, a, e)
    if m1 <= 0 or m2 <= 0 or a <= 0 or e < 0 or e >= 1:
        c.check('rejects', o.raised(ValueError)); return
    c.check('returns', o.exc is None, detail=o.tb)
    if o.exc is not None: return
    Ms, Rs = c.K('msol'), c.K('rsol')
    M1, M2, A = m1 * Ms, m2 * Ms, a * Rs
    b = 64 * c.K('standard_cgrav')**3 * M1 * M2 * (M1 + M2) / (5 * c.K('clight')**5)
    yr = c.K('secyer') * 1000000
    if e == 0:
        c.eq('circular', o.value, A**4 / (4 * b) / yr); return
    def integrand(x): return x ** (29 / 19) * (1 + 121 * x**2 / 304) ** (1181 / 2299) / (1 - x**2) ** (3 / 2)
    if c.symbolic:
        c.check('one-integral', len(seen) == 1)
        lo, hi, x, fx = seen[0]
        c.eq('lower', lo, 0); c.eq('upper', hi, e); c.eq('integrand', fx, integrand(x))
        I = c.uf('integral', hi)
    else:
        from scipy.integrate import quad
        I = quad(lambda x: float(integrand(x)), 0.0, float(e))[0]
    c0 = A * (1 - e**2) * e ** (-12 / 19) * (1 + 121 * e**2 / 304) ** (-870 / 2299)
    c.eq('peters64', o.value, 12 * c0**4 * I / (19 * b) / yr, rtol=1e-6)


@contract('C04', CF + ':inspiral_timescale_from_orbital_period')
def inspiral_period(c):
    """the period version is the separation version after Kepler's law"""
    m1, m2, P, e = c.pos('m1', shi=50), c.pos('m2', shi=50), c.pos('P'), c.choice('e', [0, 0.3, 0.9])
    if c.symbolic:
        import posydon.utils.common_functions as M
        c.patch(M.inspiral_timescale_from_separation, lambda *a: ('T',) + a)
        r = c.run('T', CF + ':inspiral_timescale_from_orbital_period', m1, m2, P, e)
        c.check('delegates', isinstance(r, tuple) and len(r) == 5 and r[0] == 'T')
        c.eq('m1', r[1], m1); c.eq('m2', r[2], m2); c.eq('e', r[4], e)
        c.eq('kepler3', (r[3] * c.K('rsol'))**3, c.K('standard_cgrav') * (m1 + m2) * c.K('msol') * (P * c.K('day2sec'))**2 / (4 * c.pi**2))
    else:
        r = c.run('T', CF + ':inspiral_timescale_from_orbital_period', m1, m2, P, e)
        a = c.fn(CF + ':orbital_separation_from_period')(float(P), float(m1), float(m2))
        c.eq('T', r, c.fn(CF + ':inspiral_timescale_from_separation')(float(m1), float(m2), a, e))


def kerr_isco(c, a):
    z1 = 1 + c.root(1 - a**2, 3) * (c.root(1 + a, 3) + c.root(1 - a, 3))
    z2 = c.sqrt(3 * a**2 + z1**2)
    c.assume((3 - z1) * (3 + z1 + 2 * z2) >= 0)
    return z1, z2, 3 + z2 - c.sqrt((3 - z1) * (3 + z1 + 2 * z2))

@contract('C04', CF + ':spin_stable_mass_transfer', assumes=['Kerr geometry: 1 <= Z1 <= 3 and prograde ISCO radius >= 1 for spins in [0,1]'])
def bh_spin(c):
    s = c.choice('none', [None, 0, 1, 2])
    a = c.real('spin', slo=-.1, shi=1, hi=1, special=(0., 1.)); mi, mf = c.real('mi', slo=-1, shi=20), c.real('mf', slo=-1, shi=40)
    if c.symbolic and a >= 0:
        z1, z2, r = kerr_isco(c, a)
        c.assume(z1 <= 3); c.assume(z1 >= 1); c.assume(r >= 1)
        c.opaque(z2); c.opaque(c.sqrt((3 - z1) * (3 + z1 + 2 * z2)))
        # instance of lemma_isco
        if mi > 0 and mf > 0: c.assume(c.Implies(c.And(mf / mi <= c.sqrt(r)), 3 * r * mi**2 / mf**2 - 2 >= 0))
    args = [a, mi, mf]
    if s is not None: args[s] = None
    o = c.call(CF + ':spin_stable_mass_transfer', *args)
    c.check('returns', o.exc is None, detail=o.tb)
    if o.exc is not None: return
    if s is not None or mi <= 0 or mf <= 0 or a < 0:
        c.check('none', o.value is None); return
    z1, z2, r = kerr_isco(c, a)
    if mf < mi: c.check('mass-loss-nan', c.isnan(o.value))
    elif mf / mi > c.sqrt(r): c.eq('maximal', o.value, 1)
    else: c.eq('bardeen', o.value, c.sqrt(r) * mi / (3 * mf) * (4 - c.sqrt(3 * r * mi**2 / mf**2 - 2)), rtol=1e-6)


@contract('C04')
def lemma_isco(c):
    r, mi, mf = c.real('r', 1), c.pos('mi'), c.pos('mf')
    c.assume(mf / mi <= c.sqrt(r))
    c.check('discriminant', 3 * r * mi**2 / mf**2 - 2 >= 0)


@contract('C04', CF + ':CO_radius', CF + ':Schwarzschild_Radius')
def co_radius(c):
    M = c.real('M', special=(0.,)); t = c.str('type', ['BH', 'NS', 'WD', 'X', 'bh', ''])
    o = c.call(CF + ':CO_radius', M, t)
    if M <= 0: c.check('rejects-mass', o.raised(ValueError)); return
    if t == 'BH':
        c.check('returns', o.exc is None); c.eq('schwarzschild', o.value, 2 * c.K('standard_cgrav') * M * c.K('msol') / (c.K('clight')**2 * c.K('rsol')))
    elif t == 'NS': c.check('returns', o.exc is None); c.eq('12.5km', o.value, 12.5e5 / c.K('rsol'))
    elif t == 'WD': c.check('returns', o.exc is None); c.eq('wd', o.value, 2.9e8 / c.root(M, 3) / c.K('rsol'))
    else: c.check('rejects-type', o.raised(ValueError))
