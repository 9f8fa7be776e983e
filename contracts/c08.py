"""Natal kicks and the orbit after a supernova (posydon/binary_evol/SN/step_SN.py)."""
from pyvc.ctx import contract
from contracts.snlib import make, SN
CFM = 'posydon.utils.common_functions'
CC = 'H-rich_Core_C_depleted'


def stars(c, which, m_pre, m_post, m_comp, state='NS', typ='CCSN', comp='H-rich_Core_H_burning'):
    """the star that just collapsed (its last history row is the pre-collapse star) and its companion"""
    from posydon.binary_evol.singlestar import SingleStar
    a, b = SingleStar(mass=2., state=state), SingleStar(mass=3., state=comp)
    a.mass = m_post; a.mass_history = [m_pre]; a.state_history = [CC]; a.state = state; a.SN_type = typ; a.f_fb = 0.
    b.mass = m_comp; b.mass_history = [m_comp]; b.state_history = [comp]; b.SN_type = None
    return a, b


def binary(c, which, a, b, sep, ecc, state='detached'):
    import posydon.binary_evol.binarystar as M
    s1, s2 = (a, b) if which == 1 else (b, a)
    o = M.BinaryStar(); o.star_1, o.star_2 = s1, s2
    o.separation, o.eccentricity, o.orbital_period = sep, ecc, 7.
    o.time = 5.; o.time_history = [5.]; o.eccentricity_history = [ecc]; o.state = state; o.event = 'CC%d' % which
    o.V_sys = [0, 0, 0]; o.first_SN_already_occurred = False
    o.nearest_neighbour_distance = ['d']; o.trap_radius = 1.; o.t_sync_rad_1 = 2.; o.mass_transfer_case = 'case_A1'; o.lg_mtransfer_rate = -3.
    return o


def kick_of(c, s, v, phi, th, ma): s.natal_kick_velocity, s.natal_kick_azimuthal_angle, s.natal_kick_polar_angle, s.natal_kick_mean_anomaly = v, phi, th, ma


def brent(c, E):
    """scipy's root finder as an external: some eccentric anomaly in [0, 2 pi] that solves Kepler's equation"""
    if not c.symbolic: return
    import scipy.optimize as O
    def f(fun, lo, hi, **k):
        c.same('bracket', (lo, hi), (0, 2 * c.pi))
        d = fun(E); c.assume(d == 0); return E
    c.patch_attr(O, 'brentq', f)


def kepler_E(c, M, e, E):
    if c.symbolic: return E
    import math
    lo, hi = 0., 2 * math.pi
    for _ in range(200):
        m = (lo + hi) / 2
        if m - float(e) * math.sin(m) < float(M): lo = m
        else: hi = m
    return c.num((lo + hi) / 2)


def geometry(c, a, e, mpre, E):
    """pre-supernova relative position and velocity (cgs)"""
    G, Ms, Rs = c.K('standard_cgrav'), c.K('Msun'), c.K('Rsun')
    A, M, ce = c.name('A', a * Rs), c.name('M', mpre * Ms), c.cos(E)
    c.fact('A>0', A > 0); c.fact('M>0', M > 0)
    r = c.name('r', A * (1 - e * ce)); c.fact('r>0', r > 0); c.fact('r<2A', r < 2 * A)
    v2 = c.name('v2', G * M * (2 / r - 1 / A)); c.fact('v2>0', v2 > 0)
    h = c.name('h', G * M * (1 - e * e) * A); c.fact('h>0', h > 0)
    V = c.sqrt(v2); c.fact('h<=r2v2', h <= r * r * v2)
    rV = c.name('rV', r * V); c.fact('rV>0', rV > 0)
    sn = c.name('sn', c.sqrt(h) / rV); c.fact('sn>=0', sn >= 0); c.fact('sn<=1', sn <= 1)
    return A, M, r, V, sn


@contract('C08')
def lemma_velocity_angle(c):
    """the transverse velocity never exceeds the velocity (in units of the orbit: r = 1 - e cos E, v^2 = 2/r - 1)"""
    e, x = c.real('e', 0, 1, hi_open=True), c.real('cosE', -1, 1)
    r = 1 - e * x
    c.check('sin<=1', (1 - e * e) <= r * r * (2 / r - 1))


@contract('C08')
def lemma_bound_orbit(c):
    """an orbit with energy and angular momentum taken from a position and velocity passes through that position"""
    rho, w, wt = c.pos('rho', shi=2), c.pos('w'), c.nonneg('wt')
    c.assume(wt <= w)                    # transverse part of r v^2 / (G M)
    c.assume(rho == 2 - w)               # energy
    x = rho * wt                         # 1 - e^2
    c.check('x<=1', x <= 1)
    e = c.sqrt(1 - x)
    c.check('peri', 1 - e <= rho); c.check('apo', rho <= 1 + e)


def setup(c):
    mpre, mco, mcomp = c.pos('m_pre', slo=10, shi=30), c.pos('m_co', slo=1, shi=10), c.pos('m_comp', slo=1, shi=30)
    c.assume(mco <= mpre)
    a, e = c.pos('a', slo=3, shi=1000), c.real('e', 0, 1, hi_open=True, special=(0.,), shi=0.9)
    v, phi, ma = c.nonneg('vkick', special=(0.,), shi=400), c.real('phi', slo=0, shi=6.28), c.real('anomaly', 0, slo=0, shi=6.28)
    c.assume(ma <= 2 * c.pi)
    E = c.real('E', 0, slo=0, shi=6.28)
    c.assume(E <= 2 * c.pi)
    c.assume(c.cos(E / 2) != 0)      # tan is finite at every floating-point number
    return mpre, mco, mcomp, a, e, v, phi, ma, E


class Draws:
    """random generator as an external: hands out the given values, recording the ranges asked for"""
    def __init__(s, c, vals): s.c, s.vals, s.asked = c, list(vals), []
    def uniform(s, lo, hi): s.asked.append((lo, hi)); return s.c.raw(s.vals.pop(0))


KICKPAR = {('ECSN', 'NS'): ('sigma_kick_ECSN', 'mean_kick_ECSN'), ('CCSN', 'NS'): ('sigma_kick_CCSN_NS', 'mean_kick_CCSN_NS'), ('CCSN', 'BH'): ('sigma_kick_CCSN_BH', 'mean_kick_CCSN_BH'),
           ('PPISN', 'BH'): ('sigma_kick_CCSN_BH', 'mean_kick_CCSN_BH')}


@contract('C08', SN + ':StepSN.orbital_kick', CFM + ':orbital_period_from_separation', samples=800, timeout_ms=20000,
          assumes=['scipy.optimize.brentq returns a root of the function it is given', 'numpy.random uniform draws lie in the requested range', 'cos(E/2) is never exactly zero'])
def kick(c):
    """conservation of energy, angular momentum and momentum across the explosion; the user's kick is used unchanged and a missing one is drawn"""
    which, drawn, second = c.choice('variant', [(1, False, False), (2, False, False), (1, True, True), (2, True, True)])
    mpre, mco, mcomp, a, e, v, phi, ma, E = setup(c)
    s = make(c)
    x, y = stars(c, which, mpre, mco, mcomp)
    b = binary(c, which, x, y, a, e)
    brent(c, E); E = kepler_E(c, ma, e, E)
    if drawn:
        ct = c.real('cos_theta', -1, 1); th = c.arccos(ct); s.RNG = Draws(c, (phi, ct, ma)); asked = []
        def gk(star, sigma, mean): asked.append((star, sigma, mean)); return c.raw(v)
        s.generate_kick = gk
        s.sigma_kick_CCSN_NS, s.mean_kick_CCSN_NS = 11., 12.
    else: th = c.real('theta', slo=0, shi=3.14); ct = c.cos(th); kick_of(c, x, v, phi, th, ma)
    if second:
        b.first_SN_already_occurred = True; t1, f1_ = c.real('tilt1'), c.real('anom1')
        x.spin_orbit_tilt_first_SN = y.spin_orbit_tilt_first_SN = t1; b.true_anomaly_first_SN = f1_; comb = []
        def ctilt(**k): comb.append(k); return c.raw(c.num(0.25))
        s.get_combined_tilt = ctilt
    A, Mp, r, V, sn = geometry(c, a, e, mpre + mcomp, E)
    sp = c.name('sp', c.round(sn, 5)); c.fact('sp', c.And(sp >= 0, sp <= 1))
    cp = c.sqrt(1 - sp * sp)
    if E > c.pi: cp = -cp
    Mq = c.name('Mq', (mco + mcomp) * c.K('Msun')); G = c.K('standard_cgrav'); c.fact('Mq>0', Mq > 0)
    vk = c.name('vk', v * c.K('km2cm')); c.fact('vk>=0', vk >= 0)
    st = c.sqrt(1 - ct * ct)
    # velocity after the explosion: kick of size vk at angle theta from the old velocity
    Wx = V * cp + vk * (st * c.sin(phi) * sp + ct * cp)
    Wy = c.name('Wy', V * sp + vk * (ct * sp - st * c.sin(phi) * cp))
    Wz = c.name('Wz', vk * st * c.cos(phi))
    w2 = vk * vk + V * V + 2 * vk * V * ct
    rho = c.name('rho', 2 - r * w2 / (G * Mq))            # r / a'
    T = c.name('T', Wz * Wz + Wy * Wy); wt = T * r / (G * Mq)
    X = c.name('X', rho * wt)                             # 1 - e'^2
    c.assume(rho != 0); c.assume(T > 0)                   # neither exactly parabolic nor exactly radial
    bound = rho > 0
    if c.symbolic:
        vx, vs = c.name('Wx', Wx), c.name('w2', w2); k = c.name('k', r / (G * Mq)); wt = c.name('wt', wt); rT = c.sqrt(T); u = c.name('u', Wy / rT)
        c.fact('k>0', k > 0); I = c.ident
        i1, i2, i3, i4 = I('speed', lambda: (vx * vx + T, vs)), I('rho', lambda: (rho, 2 - k * vs)), I('wt', lambda: (wt, k * T)), I('X', lambda: (X, rho * wt))
        i5, i6, i7 = I('T', lambda: (Wz * Wz + Wy * Wy, T)), I('rT', lambda: (rT * rT, T)), I('u', lambda: (u * rT, Wy))
        c.fact('rT>0', rT > 0)
        c.derive('T<=w2', T <= vs, i1); c.derive('|u|<=1', c.And(u >= -1, u <= 1), i5, i6, i7, rT > 0)
        c.derive('wt', c.And(wt >= 0, wt <= 2 - rho), i2, i3, T > 0, k > 0, T <= vs)
    p1, p2 = c.name('p1', r * vk * V * (1 + ct) / (G * Mq)), c.name('p2', r * vk * V * (1 - ct) / (G * Mq))
    c.fact('p1', p1 >= 0); c.fact('p2', p2 >= 0)
    q2, a2 = c.name('q2', rho / r), c.name('a2', r / rho)
    P3 = c.name('P3', a2 * a2 * a2 / Mq)
    if c.symbolic:
        if bound:
            c.fact('q2', q2 > 0); c.fact('a2', a2 > 0); c.fact('P3', P3 > 0); c.fact('X>0', X > 0)
            c.derive('X<=1', X <= 1, i4, c.And(wt >= 0, wt <= 2 - rho), rho > 0)
            e1 = c.name('e1', c.sqrt(1 - X)); c.fact('e1>=0', e1 >= 0); i8 = I('e1', lambda: (e1 * e1, 1 - X)); c.derive('e1<1', e1 < 1, i8, e1 >= 0, X > 0)
            for n, g in (('peri', 1 - e1 <= rho), ('apo', rho <= 1 + e1)): c.derive(n, g, i8, i4, e1 >= 0, e1 < 1, c.And(wt >= 0, wt <= 2 - rho), rho > 0)
        else:
            c.fact('q2', q2 < 0); c.fact('a2', a2 < 0); c.fact('X<0', X < 0)
    if c.run('kick', s.orbital_kick, b) is not None: return
    if c.symbolic and c.failed: return
    c.same('event', b.event, None); c.same('time', b.time, 5.); c.same('mt', b.mass_transfer_case, 'None')
    c.same('kick-kept', (x.natal_kick_velocity, x.natal_kick_azimuthal_angle, x.natal_kick_polar_angle, x.natal_kick_mean_anomaly), (v, phi, th, ma))
    if drawn:
        c.same('ranges', s.RNG.asked, [(0, 2 * c.pi), (-1, 1), (0, 2 * c.pi)]); c.same('sigma', [q[1:] for q in asked], [(11., 12.)]); c.check('whose-kick', len(asked) == 1 and asked[0][0] is x)
    c.check('companion-kick', y.natal_kick_velocity is None)
    c.same('masses-kept', (x.mass, y.mass), (mco, mcomp))
    c.check('first-SN', b.first_SN_already_occurred is True)
    for k in ('trap_radius', 't_sync_rad_1', 'lg_mtransfer_rate'): c.check('reset', getattr(b, k) is None)
    tx, ty = [(q.spin_orbit_tilt_second_SN if second else q.spin_orbit_tilt_first_SN) for q in (x, y)]
    if second: c.same('first-tilt-kept', (x.spin_orbit_tilt_first_SN, y.spin_orbit_tilt_first_SN, b.true_anomaly_first_SN), (t1, t1, f1_))
    if b.state == 'disrupted':
        c.check('unbound', c.Not(bound))
        c.check('undefined', c.And(c.isnan(b.separation), c.isnan(b.eccentricity), c.isnan(b.orbital_period), c.isnan(tx), c.isnan(ty)))
        return
    c.same('state', b.state, 'detached')
    c.check('is-bound', bound)
    a2, e2 = b.separation * c.K('Rsun'), b.eccentricity
    c.eq('energy', r / a2, rho)
    c.eq('angular-momentum', 1 - e2 * e2, X, rtol=1e-6)
    c.check('ecc-range', c.And(e2 >= 0, e2 < 1))
    km = c.K('km2cm'); f1, f0 = mco / (mco + mcomp), mpre / (mpre + mcomp)
    c.eq('momentum-x', b.V_sys[0] * km, f1 * Wx - f0 * V * cp, rtol=1e-6)
    c.eq('momentum-y', b.V_sys[1] * km, f1 * Wy - f0 * V * sp, rtol=1e-6)
    c.eq('momentum-z', b.V_sys[2] * km, f1 * Wz, rtol=1e-6)
    c.eq('kepler', b.orbital_period**2, c.K('dayyer')**2 * (b.separation / c.K('aursun'))**3 / (mco + mcomp))
    c.check('tilt-set', tx is not None and ty is not None)
    if tx is None or ty is None: return
    c.eq('tilt', c.cos(tx), Wy / c.sqrt(Wy * Wy + Wz * Wz), rtol=1e-6)
    c.check('tilt-sign', c.Implies(Wz < 0, tx <= 0)); c.check('tilt-sign+', c.Implies(Wz >= 0, tx >= 0))
    if not second: c.same('tilt-both', ty, tx); return
    c.same('combined', ty, 0.25); c.check('combined-once', len(comb) == 1)
    if len(comb) == 1:
        k = comb[0]; c.same('combined-args', (k.get('tilt_1'), k.get('tilt_2'), k.get('true_anomaly_1')), (t1, tx, f1_)); c.same('combined-anomaly', k.get('true_anomaly_2'), b.true_anomaly_second_SN)


@contract('C08', SN + ':StepSN.get_combined_tilt', CFM + ':rotate')
def combined_tilt(c):
    """angle between the spin and the orbit after two tilts about axes an angle apart: spherical law of cosines"""
    s = make(c)
    t1, t2, f1, f2 = [c.real(n, slo=-3, shi=3) for n in ('tilt_1', 'tilt_2', 'anomaly_1', 'anomaly_2')]
    c1, s1, c2, s2, cd = c.cos(t1), c.sin(t1), c.cos(t2), c.sin(t2), c.cos(f2 - f1)
    ref = c1 * c2 - s1 * s2 * cd
    ref = c.name('ref', ref)
    if c.symbolic: c.assume(c.And(ref >= -1, ref <= 1))      # it is the cosine of an angle (a scalar product of unit vectors)
    t = c.run('tilt', s.get_combined_tilt, t1, t2, f1, f2)
    if t is None: return
    if not c.symbolic and (abs(float(ref)) > 0.999): return
    c.eq('law-of-cosines', c.cos(t), ref, rtol=1e-6)
    c.check('range', c.And(t >= 0, t <= c.pi))


@contract('C08', SN + ':StepSN.orbital_kick')
def no_orbit(c):
    """collapse in a binary that no longer is one: the kick is recorded, no orbit appears"""
    which, state, rem = c.choice('which', [1, 2]), c.choice('state', ['disrupted', 'initially_single_star', 'merged']), c.choice('remnant', [('NS', 'CCSN'), ('BH', 'CCSN'), ('massless_remnant', 'PISN'), ('NS', 'ECSN')])
    s = make(c); m = c.pos('m'); x, y = stars(c, which, m + 1, m, c.pos('mc'), state=rem[0], typ=rem[1])
    b = binary(c, which, x, y, 10., 0.1, state=state)
    v, phi, th, ma = c.nonneg('v'), c.real('phi'), c.real('theta'), c.real('anomaly')
    kick_of(c, x, v, phi, th, ma); m2 = y.mass
    if c.run('kick', s.orbital_kick, b) is not None: return
    c.same('state', b.state, state); c.same('event', b.event, None); c.same('time', b.time, 5.); c.same('mt', b.mass_transfer_case, 'None')
    c.check('no-orbit', c.And(c.isnan(b.separation), c.isnan(b.eccentricity), c.isnan(b.orbital_period)))
    c.same('V', list(b.V_sys), [0, 0, 0]); c.same('masses', (x.mass, y.mass), (m, m2))
    c.same('kick-kept', (x.natal_kick_velocity, x.natal_kick_azimuthal_angle, x.natal_kick_polar_angle, x.natal_kick_mean_anomaly), (v, phi, th, ma))
    c.check('first', b.first_SN_already_occurred is True)


@contract('C08', SN + ':StepSN.orbital_kick')
def nothing_left(c):
    """a star that leaves nothing behind unbinds the binary"""
    which, first = c.choice('which', [1, 2]), c.bool('first')
    typ = c.choice('type', ['PISN', 'CCSN', 'PPISN'])
    s = make(c); x, y = stars(c, which, c.pos('m'), 0., c.pos('mc'), state='massless_remnant', typ=typ)
    b = binary(c, which, x, y, c.pos('a'), 0.1); b.first_SN_already_occurred = not first
    phi, ct, ma = c.real('phi', 0, slo=0, shi=6), c.real('ct', -1, 1), c.real('ma', 0, slo=0, shi=6); s.RNG = Draws(c, (phi, ct, ma))
    if c.run('kick', s.orbital_kick, b) is not None: return
    c.same('no-kick', x.natal_kick_velocity, 0); c.same('state', b.state, 'disrupted'); c.same('event', b.event, None)
    c.check('no-orbit', c.And(c.isnan(b.separation), c.isnan(b.eccentricity), c.isnan(b.orbital_period)))
    k = 'spin_orbit_tilt_%s_SN' % ('first' if first else 'second')
    c.check('tilts', c.And(c.isnan(getattr(x, k)), c.isnan(getattr(y, k)))); c.check('first', b.first_SN_already_occurred is True)


@contract('C08', SN + ':StepSN.orbital_kick', CFM + ':separation_evol_wind_loss', CFM + ':orbital_period_from_separation')
def white_dwarf(c):
    """a white dwarf forms without a kick: the orbit widens adiabatically by the mass lost"""
    which, state = c.choice('which', [1, 2]), c.choice('state', ['detached', 'RLO1', 'disrupted', 'merged', 'initially_single_star'])
    s = make(c); mpre, mwd, mc, a, e = c.pos('m_pre', slo=1, shi=8), c.pos('m_wd', slo=.2, shi=1.4), c.pos('m_c', slo=1, shi=9), c.pos('a', slo=3, shi=900), c.real('e', 0, 1, hi_open=True)
    x, y = stars(c, which, mpre, mwd, mc, state='WD', typ='WD'); b = binary(c, which, x, y, a, e, state=state); V = b.V_sys = [1., 2., 3.]
    if c.run('kick', s.orbital_kick, b) is not None: return
    c.eq('separation', b.separation * (mwd + mc), a * (mpre + mc), rtol=1e-7)
    c.eq('period', b.orbital_period**2, c.K('dayyer')**2 * (b.separation / c.K('aursun'))**3 / (mwd + mc), rtol=1e-7)
    c.same('eccentricity', b.eccentricity, e); c.same('velocity', list(b.V_sys), V); c.same('event', b.event, None); c.same('time', b.time, 5.)
    c.same('state', b.state, state if state in ('disrupted', 'merged', 'initially_single_star') else 'detached'); c.same('mt', b.mass_transfer_case, 'None')


@contract('C08', SN + ':StepSN.orbital_kick')
def kick_size(c):
    """the kick of a remnant is drawn with the parameters of its type"""
    which = c.choice('which', [1, 2]); (typ, st) = c.choice('remnant', sorted(KICKPAR) + [('CCSN', 'massless_remnant'), ('PPISN', 'NS')])
    s = make(c); x, y = stars(c, which, 10., 2., 5., state=st, typ=typ); b = binary(c, which, x, y, 10., 0., state='disrupted')
    for i, n in enumerate(('sigma_kick_ECSN', 'mean_kick_ECSN', 'sigma_kick_CCSN_NS', 'mean_kick_CCSN_NS', 'sigma_kick_CCSN_BH', 'mean_kick_CCSN_BH')): setattr(s, n, c.raw(c.real(n)))
    seen = []; v = c.nonneg('v'); s.RNG = Draws(c, (1., .5, 2.))
    def gk(star, sigma, mean): seen.append((star, sigma, mean)); return c.raw(v)
    s.generate_kick = gk
    if c.run('kick', s.orbital_kick, b) is not None: return
    if st == 'massless_remnant': ref = (None, None)
    else: ref = tuple(getattr(s, n) for n in KICKPAR[('CCSN' if typ == 'PPISN' else typ, st)])
    c.check('once', len(seen) == 1 and seen[0][0] is x)
    if len(seen) == 1: c.same('parameters', seen[0][1:], ref)
    c.same('stored', x.natal_kick_velocity, v); c.check('other', y.natal_kick_velocity is None)


@contract('C08', SN + ':StepSN.orbital_kick')
def rejected(c):
    which, what = c.choice('which', [1, 2]), c.choice('what', ['event', 'history', 'anomaly', 'type', 'state'])
    s = make(c); x, y = stars(c, which, 10., 2., 5.); b = binary(c, which, x, y, 10., 0.1); kick_of(c, x, 100., 1., 1., 1.)
    if what == 'event': b.event = c.choice('event', ['ZAMS', None, 'CC3'])
    elif what == 'history': x.state_history = ['H-rich_Core_H_burning']
    elif what == 'anomaly': x.natal_kick_mean_anomaly = c.choice('ma', [[1., 2.], 'x', 1])
    elif what == 'type': x.SN_type = None; x.natal_kick_velocity = None
    else: x.natal_kick_velocity = None; x.state = 'WD'
    o = c.call(s.orbital_kick, b); c.check('rejected', o.raised(ValueError), detail=repr(o.exc))


@contract('C08', SN + ':StepSN.generate_kick', SN + ':StepSN._get_kick_normalisation', SN + ':StepSN._get_kick_velocity',
          assumes=['scipy.stats.maxwell.rvs / lognorm.rvs draw from the distribution with the given parameters'])
def kick_prescriptions(c):
    """natal kick = normalisation x ejected velocity of the chosen prescription"""
    s = make(c); st = c.choice('state', ['NS', 'BH'])
    x, _ = stars(c, 1, c.pos('m_pre', slo=5, shi=40), c.pos('m', slo=1.1, shi=20), 5., state=st)
    x.co_core_mass_history = [c.pos('co', slo=1, shi=30)]; x.f_fb = c.real('f_fb', 0, 1)
    s.kick_normalisation = c.choice('norm', ['one_minus_fallback', 'one_over_mass', 'NS_one_minus_fallback_BH_one', 'one', 'zero', 'bogus'])
    s.kick_prescription = c.choice('prescription', ['maxwellian', 'log_normal', 'asym_ej', 'linear', 'bogus'])
    none = c.bool('sigma_none'); sig, mean = (None, None) if none else (c.pos('sigma', slo=20, shi=300), c.pos('mean', slo=20, shi=300))
    import scipy.stats as SS
    v = c.pos('draw', shi=900); seen = []
    class D:
        def __init__(q, n): q.n = n
        def rvs(q, **k): seen.append((q.n, k)); return [c.raw(v)]
    c.patch_attr(SS, 'maxwell', D('maxwell')); c.patch_attr(SS, 'lognorm', D('lognorm'))
    m, n, p = x.mass, s.kick_normalisation, s.kick_prescription
    o = c.call(s.generate_kick, x, sig, mean)
    if none: c.check('zero', o.exc is None and o.value == 0, detail=repr(o.exc)); return
    if n == 'bogus' or p == 'bogus': c.check('rejected', o.raised(ValueError), detail=repr(o.exc)); return
    c.check('returns', o.exc is None, detail=repr(o.exc) + o.tb)
    if o.exc is not None: return
    f = {'one_minus_fallback': 1 - x.f_fb, 'one_over_mass': c.num(1.4) / m if st == 'BH' else 1, 'NS_one_minus_fallback_BH_one': 1 if st == 'BH' else 1 - x.f_fb, 'one': 1, 'zero': 0}[n]
    if p in ('maxwellian', 'log_normal'):
        ej = v; c.check('one-draw', len(seen) == 1)
        if len(seen) == 1:
            nm, k = seen[0]; c.check('distribution', nm == {'maxwellian': 'maxwell', 'log_normal': 'lognorm'}[p]); c.check('generator', k.get('random_state') is s.RNG)
            if p == 'maxwellian': c.same('scale', (k.get('scale'), k.get('loc', 0.)), (sig, 0.))
            else: c.same('scale', (k.get('s'), k.get('scale'), k.get('loc', 0.)), (sig, mean, 0.))
    elif p == 'linear': ej = 115 * ((x.co_core_mass_history[-1] - m) / m) + 15
    else: ej = 211 * c.sqrt(c.num(0.01)) * c.num(0.1) * (c.abs(x.mass_history[-1] - ((3 * m / 20 + 1)**2 - 1) / c.num(0.3)) / c.num(0.1)) * (c.num(1.5) / m)
    c.eq('kick', o.value, f * ej)


@contract('C08', SN + ':StepSN.__call__', assumes=['collapse_star and orbital_kick through their contracts'])
def step(c):
    """the exploding star collapses, the companion keeps its mass, the orbit is kicked (or widened), compact pairs get an inspiral time"""
    which, kick = c.choice('which', [1, 2]), c.bool('kick')
    s = make(c); s.kick = kick
    mpre, m, mc, a, e = c.pos('m_pre', slo=5, shi=30), c.pos('m', slo=1.2, shi=5), c.pos('m_c', slo=1, shi=9), c.pos('a', slo=3, shi=900), c.real('e', 0, 1, hi_open=True)
    rem, comp = c.choice('remnant', ['NS', 'BH', 'WD', 'massless_remnant']), c.choice('companion', ['H-rich_Core_H_burning', 'NS', 'WD', 'stripped_He_Core_C_depleted', 'H-rich_Core_C_depleted', 'massless_remnant'])
    after = c.choice('after', ['detached', 'disrupted']) if kick else 'detached'
    x, y = stars(c, which, mpre, mpre, mc, state=CC, comp=comp); b = binary(c, which, x, y, a, e)
    y.lg_mdot = -5.; seen = []
    def collapse(star): seen.append(('collapse', star)); star.mass = c.raw(m); star.state = rem
    def ok(binary): seen.append(('kick', binary)); binary.event = None; binary.state = after; binary.separation = float('nan') if after == 'disrupted' else c.raw(a); binary.eccentricity = float('nan') if after == 'disrupted' else c.raw(e)
    s.collapse_star, s.orbital_kick = collapse, ok
    T = c.pos('inspiral'); args = []
    import posydon.binary_evol.SN.step_SN as M
    def insp(*z): args.append(z); return c.raw(T)
    c.patch(M.inspiral_timescale_from_separation, insp)
    b.update_star_states = lambda: seen.append(('states',))
    o = c.call(s, b); c.check('returns', o.exc is None, detail=repr(o.exc) + o.tb)
    if o.exc is not None: return
    c.check('who', [q[0] for q in seen] == ['collapse', 'states'] + (['kick'] if kick else []) and seen[0][1] is x, detail=repr(seen))
    c.same('masses', (x.mass, y.mass), (m, mc)); c.check('companion-mdot', y.lg_mdot is None)
    if not kick:
        c.eq('widened', b.separation * (m + mc), a * (mpre + mc), rtol=1e-7); c.same('ecc', b.eccentricity, e); c.same('state', b.state, 'detached')
        c.eq('period', b.orbital_period**2, c.K('dayyer')**2 * (b.separation / c.K('aursun'))**3 / (m + mc), rtol=1e-7)
    co = ('NS', 'BH', 'WD')
    if after == 'disrupted' or 'massless_remnant' in (rem, comp): c.check('no-inspiral', c.isnan(b.inspiral_time)); c.same('event', b.event, None)
    elif rem in co and comp in co:
        c.same('inspiral', b.inspiral_time, T); c.same('event', b.event, None)
        c.check('inspiral-args', len(args) == 1 and len(args[0]) == 4)
        if len(args) == 1 and len(args[0]) == 4: c.same('args', args[0], tuple([m, mc] if which == 1 else [mc, m]) + (b.separation, b.eccentricity))
    else: c.same('event', b.event, 'CC%d' % (3 - which) if rem in co and 'C_depleted' in comp else None)


@contract('C08', SN + ':StepSN.__call__')
def step_failure(c):
    """a collapse that cannot be modelled marks the binary as failed and propagates; other events are rejected"""
    ev = c.choice('event', ['CC1', 'CC2', 'ZAMS', None])
    s = make(c); x, y = stars(c, 1, 10., 10., 5., state=CC); b = binary(c, 1, x, y, 10., .1); b.event = ev; n = []
    b.append_state = lambda: n.append(1); s.collapse_star = lambda star: 'no model'
    o = c.call(s, b)
    if ev in ('CC1', 'CC2'):
        from posydon.utils.posydonerror import ModelError
        c.check('propagates', o.raised(ModelError), detail=repr(o.exc)); c.same('failed', (b.event, b.state, len(n)), ('FAILED', 'ERR', 1))
    else: c.check('rejected', o.raised(ValueError), detail=repr(o.exc))
