"""Detached evolution (posydon/binary_evol/DT/step_detached.py and the physical effects it sums)."""
from pyvc.ctx import contract
from contracts.celib import CF, externs, rl, per
DE = 'posydon.binary_evol.DT.step_detached'
TI = 'posydon.binary_evol.DT.tides.default_tides'
WI = 'posydon.binary_evol.DT.winds.default_winds'
GR = 'posydon.binary_evol.DT.gravitational_radiation.default_gravrad'
MB = 'posydon.binary_evol.DT.magnetic_braking.prescriptions'
NAN = float('nan')


class Star:
    """a star as the effect functions see it"""
    def __init__(s, **k): s.latest = k


def star(c, n, *keys):
    rng = dict(mass=(0.3, 30), R=(0.2, 200), L=(0.1, 1e4), inertia=(0.1, 100), omega=(1, 2000), mass_conv_reg_fortides=(0.01, 5), thickness_conv_reg_fortides=(0.01, 5), radius_conv_reg_fortides=(0.1, 10),
               conv_env_turnover_time_l_b=(0.01, 1))
    d = {}
    for k in keys:
        if k in rng: d[k] = c.pos(k + n, slo=rng[k][0], shi=rng[k][1])
        elif k == 'surface_h1': d[k] = c.real(k + n, 0, 1, special=(0.4,))
        elif k in ('mdot', 'Idot'): d[k] = c.real(k + n, slo=-1e-2, shi=1e-3)
        else: d[k] = c.nonneg(k + n, slo=0, shi=10)
    return d


def both(c, sub, x, y):
    """(primary, secondary) with star x in role `sub`"""
    X, Y = Star(**{k: c.raw(v) for k, v in x.items()}), Star(**{k: c.raw(v) for k, v in y.items()})
    return (X, Y) if sub == 'primary' else (Y, X)


def orbit(c):
    return c.pos('a', slo=2, shi=2000), c.real('e', 0, 1, hi_open=True, slo=0, shi=0.9, special=(0.,))


ROLES = ['primary', 'secondary']


# ---- gravitational radiation: Junker & Schaefer (1992), 2.5 and 3.5 post-Newtonian order
@contract('C11', GR + ':default_gravrad', samples=400)
def gravrad(c):
    from posydon.binary_evol.DT.gravitational_radiation.default_gravrad import default_gravrad
    sub = c.choice('role', ROLES); x, y = star(c, '1', 'mass'), star(c, '2', 'mass'); a, e = orbit(c)
    da, de = c.run('no error', default_gravrad, c.raw(a), c.raw(e), *both(c, sub, x, y))
    M, clight, G = x['mass'] + y['mass'], c.K('clight'), c.K('standard_cgrav')
    v = x['mass'] * y['mass'] / M**2; g = G * M * c.K('msol') / (a * c.K('rsol') * clight**2); s = 1 - e**2; r = c.sqrt(s)
    lead = (96 + 292 * e**2 + 37 * e**4) * s; nxt = g / 28 * (14008 + 4707 * v + (80124 + 21560 * v) * e**2 + (17325 + 10458 * v) * e**4 - (5501 - 1036 * v) * e**6 / 2)
    c.eq('da', da, -2 * clight / 15 * v / r**9 * g**3 * (lead - nxt) * c.K('secyer') / c.K('rsol'), rtol=1e-6)
    lead = (304 + 121 * e**2) * s; nxt = g / 56 * (8 * (16705 + 4676 * v) + 12 * (9082 + 2807 * v) * e**2 - (25211 - 3388 * v) * e**4)
    c.eq('de', de, -(v * clight**3 / (G * M * c.K('msol'))) * g**4 * e / r**7 / 15 * (lead - nxt) * c.K('secyer'), rtol=1e-6)


# ---- winds
@contract('C11', WI + ':default_sep_from_winds', samples=300)
def wind_orbit(c):
    """fast isotropic winds keep a(m1+m2)"""
    from posydon.binary_evol.DT.winds.default_winds import default_sep_from_winds
    sub = c.choice('role', ROLES); x, y = star(c, '1', 'mass', 'mdot'), star(c, '2', 'mass', 'mdot'); a, e = orbit(c)
    da = c.run('no error', default_sep_from_winds, c.raw(a), c.raw(e), *both(c, sub, x, y))
    c.eq('da', da, -a * (x['mdot'] + y['mdot']) / (x['mass'] + y['mass']), rtol=1e-6)


@contract('C11', WI + ':default_spin_from_winds', samples=400)
def wind_spin(c):
    """the wind carries the specific angular momentum of a shell; the spin follows the change of the moment of inertia, spin-up capped at 100 rad/yr^2"""
    from posydon.binary_evol.DT.winds.default_winds import default_spin_from_winds
    K = ('R', 'omega', 'inertia', 'mdot', 'Idot')
    sub = c.choice('role', ROLES); x, y = star(c, '1', *K), star(c, '2', *K); a, e = orbit(c)
    r = c.run('no error', default_spin_from_winds, c.raw(a), c.raw(e), *both(c, sub, x, y))
    got = r[1] if sub == 'primary' else r[0]
    I = -x['omega'] * x['Idot'] / x['inertia']
    if I > 100: I = c.num(100)
    c.eq('dOmega', got, x['R']**2 * x['omega'] * x['mdot'] / x['inertia'] * 2 / 3 + I, rtol=1e-6)


# ---- magnetic braking
def fade(c, m):
    """braking acts fully below 1.3 Msun, not at all above 1.5 Msun, linearly in between"""
    f = (1.5 - m) / (1.5 - 1.3)
    if f <= 0: return c.num(0)
    if f >= 1: return c.num(1)
    return f


def braking(c, name, keys):
    import posydon.binary_evol.DT.magnetic_braking.prescriptions as M
    sub = c.choice('role', ROLES); x, y = star(c, '1', *keys), star(c, '2', *keys)
    mass(c, x, '1'); mass(c, y, '2')
    r = c.run('no error', getattr(M, name), *both(c, sub, x, y))
    return x, (r[1] if sub == 'primary' else r[0])


def mass(c, x, n): x['mass'] = c.pos('m' + n, slo=0.5, shi=1.7, special=(1.3, 1.5))


@contract('C11', MB + ':RVJ83_braking', samples=400)
def rvj83(c):
    x, d = braking(c, 'RVJ83_braking', ('mass', 'R', 'omega', 'inertia'))
    c.eq('dOmega', d, -3.8e-30 * c.K('rsol')**2 / c.K('secyer') * x['mass'] * x['R']**4 * x['omega']**3 / x['inertia'] * fade(c, x['mass']), rtol=1e-6)


TAU = 'conv_env_turnover_time_l_b'


@contract('C11', MB + ':M15_braking', samples=600)
def m15(c):
    x, d = braking(c, 'M15_braking', ('mass', 'R', 'omega', 'inertia', TAU))
    m, R, w, I, tau = x['mass'], x['R'], x['omega'], x['inertia'], x[TAU]
    crit = c.sqrt(c.K('standard_cgrav') * m * c.K('msol') / (R * c.K('rsol'))**3) * c.K('secyer')
    gam = c.sqrt(1 + (w / crit / 0.072)**2)
    T0 = -1.4e30 * c.K('secyer')**2 / (c.K('msol') * c.K('rsol')**2) * R**3.1 * m**0.5 * gam**(-2 * 0.22)
    ws = 2.6e-6 * c.K('secyer')
    if 2 * c.pi / w / tau < 0.14: t = T0 * (c.num(2.0) / 0.14)**2.6 * (w / ws)       # saturated
    else: t = T0 * (tau / (12.9 / 365.25))**2.6 * (w / ws)**(2.6 + 1)
    c.eq('dOmega', d, t / I * fade(c, m), rtol=1e-6)


@contract('C11', MB + ':G18_braking', samples=400)
def g18(c):
    x, d = braking(c, 'G18_braking', ('mass', 'omega', 'inertia', TAU))
    w, I, tau = x['omega'], x['inertia'], x[TAU]; Ro = 2 * c.pi / w / tau
    n = 0.03 / Ro + 0.5 * Ro + 1
    c.eq('dOmega', d, -3e41 / (c.K('msol') * c.K('rsol')**2) * w**3 * tau * 4.05 * c.exp(-1.4 * n) / I * fade(c, x['mass']), rtol=1e-6)


@contract('C11', MB + ':CARB_braking', samples=500)
def carb(c):
    x, d = braking(c, 'CARB_braking', ('mass', 'R', 'omega', 'inertia', TAU, 'mdot'))
    m, R, w, I, tau, md = x['mass'], x['R'], x['omega'], x['inertia'], x[TAU], x['mdot']
    if md == 0: c.eq('dOmega', d, c.num(0)); return
    ms, rs, yr = c.K('msol'), c.K('rsol'), c.K('secyer')
    v2 = 2 * c.K('standard_cgrav') * m / R * (ms * yr**2 / rs**3) + 2 * w**2 * R**2 / 0.07**2
    ra3 = R**4 * (w / (3e-6 * yr))**4 * (tau / (2.8e6 / yr))**4 / (md**2 * v2) * (rs**2 * yr / ms**2)
    ra = R * c.root(ra3, 3)
    c.eq('dOmega', d, -c.abs(w * md) * ra**2 / I * fade(c, m) * 2 / 3, rtol=1e-6)


# ---- tides: Hut (1981) with the stronger of the equilibrium (Zahn) and dynamical tide
ENV = ('mass_conv_reg_fortides', 'thickness_conv_reg_fortides', 'radius_conv_reg_fortides')
TK = ('mass', 'R', 'omega', 'surface_h1', 'L', 'inertia')


def tide_star(c, n, kind):
    """kind: 'conv' convective layer present; 'nan' / a layer property is missing; 'zero' / 0: no convective layer"""
    d = star(c, n, *TK)
    for k in ENV: d[k] = c.pos(k + n, slo=0.01, shi=5)
    if kind in ('zero', 'nan'):
        k = ENV[c.choice('lacking' + n, [0, 1, 2])]; d[k] = c.num(0.) if kind == 'zero' else NAN
    if kind == 'none': d[ENV[0]] = NAN
    if kind == 'none' or kind != 'conv' and c.symbolic: d['conv_mx1_bot_r'] = d['conv_mx1_top_r'] = c.num(0.)
    else: d['conv_mx1_bot_r'] = c.nonneg('rbot' + n, slo=0, shi=5, special=(0.,)); d['conv_mx1_top_r'] = c.nonneg('rtop' + n, slo=0, shi=20)
    return d


def k_tide(c, d, comp, a, t, kind, n):
    """the larger of the apsidal-motion constants over the tidal timescale of convective and of radiative layers"""
    m, R, w, M = d['mass'], d['R'], d['omega'], comp['mass']; q = M / m
    me, dr, rm = (d[k] for k in ENV)
    if me != me: kc = c.num(0)
    else:
        tau = c.name('tau' + n, 0.431 * c.root(me * dr * rm / (3 * d['L']), 3)) if kind == 'conv' else c.num(1e99)
        if kind == 'conv': c.fact('tau>0' + n, tau > 0)
        f = c.name('f' + n, (c.abs(1 / t) / (2 * tau))**2); c.fact('f>0' + n, f > 0)
        kc = c.name('kc' + n, c.min(1, f) / tau * (me / m) * 2 / 21)
    rc = d['conv_mx1_top_r'] - d['conv_mx1_bot_r']
    if rc > R or rc <= 0 or d['conv_mx1_bot_r'] > 0.1 * R: E2 = 1.592e-9 * m**2.84
    elif d['surface_h1'] > 0.4: E2 = c.exp10(c.num(-0.42)) * (rc / R)**7.5
    else: E2 = c.exp10(c.num(-0.93)) * (rc / R)**6.7
    c.check('E2>0' + n, E2 > 0); E2 = c.name('E2' + n, E2); c.fact('E2>=0' + n, E2 > 0)
    kr = c.name('kr' + n, c.sqrt(c.K('standard_cgrav') * (m * c.K('msol')) * (R * c.K('rsol'))**2 / (a * c.K('rsol'))**5) * (1 + q)**(5 / 6) * E2 * c.K('secyer'))
    c.fact('kr>0' + n, kr > 0)
    return kc, kr


def hut(c, k, d, comp, a, e, n_orb):
    m, R, w, q = d['mass'], d['R'], d['omega'], comp['mass'] / d['mass']
    s = 1 - e**2; r = c.sqrt(s); x = w / n_orb
    f1 = 1 + e**2 * 31 / 2 + e**4 * 255 / 8 + e**6 * 185 / 16 + e**8 * 25 / 64
    f2 = 1 + e**2 * 15 / 2 + e**4 * 45 / 8 + e**6 * 5 / 16
    f3 = 1 + e**2 * 15 / 4 + e**4 * 15 / 8 + e**6 * 5 / 64
    f4 = 1 + e**2 * 3 / 2 + e**4 / 8
    f5 = 1 + 3 * e**2 + e**4 * 3 / 8
    da = -6 * k * q * (1 + q) * (R / a)**8 * a / r**15 * (f1 - r**3 * f2 * x)
    de = -27 * k * q * (1 + q) * (R / a)**8 * e / r**13 * (f3 - r**3 * f4 * x * 11 / 18)
    dw = 3 * k * q**2 * m * R**2 / d['inertia'] * (R / a)**6 * n_orb / s**6 * (f2 - r**3 * f5 * x)
    return da, de, dw


@contract('C11', TI + ':default_tides', samples=1500, timeout_ms=20000)
def tides(c):
    """each star raises and dissipates its own tide; the orbit feels both"""
    from posydon.binary_evol.DT.tides.default_tides import default_tides
    sub = c.choice('role', ROLES); kind = c.choice('layer', ['conv', 'zero', 'nan']); other = 'none' if c.symbolic else c.choice('other layer', ['none', 'conv', 'zero', 'nan'])   # the other star's layers matter in the other role
    x, y = tide_star(c, '1', kind), tide_star(c, '2', other); a, e = orbit(c)
    P = c.name('P', c.sqrt((a / c.K('aursun'))**3 / (x['mass'] + y['mass']))); c.fact('P>0', P > 0); n = 2 * c.pi / P
    bx, by = c.name('beat1', 1 / P - x['omega'] / (2 * c.pi)), c.name('beat2', 1 / P - y['omega'] / (2 * c.pi)); c.assume(bx != 0); c.assume(by != 0)
    kx, ky = k_tide(c, x, y, a, bx, kind, '1'), k_tide(c, y, x, a, by, other, '2')
    r = c.run('no error', default_tides, c.raw(a), c.raw(e), *both(c, sub, x, y))
    kx, ky = (kr if kr > kc else kc for kc, kr in (kx, ky))
    X, Y = hut(c, kx, x, y, a, e, n), hut(c, ky, y, x, a, e, n)
    c.eq('da', r[0], X[0] + Y[0], rtol=1e-6); c.eq('de', r[1], X[1] + Y[1], rtol=1e-6)
    c.eq('dOmega', r[3] if sub == 'primary' else r[2], X[2], rtol=1e-6)
    c.eq('dOmega of the other star', r[2] if sub == 'primary' else r[3], Y[2], rtol=1e-6)


# ---- the right-hand side of the equations of motion
class Track:
    """an interpolated stellar track: functions of time"""
    def __init__(s, t_max=10., t0=0., max_time=10., **k): s.d = k; s.t_max, s.t0, s.max_time = t_max, t0, max_time; s.asked = []; s.keys = list(k)
    def __call__(s, t): s.asked.append(t); return dict(s.d)


class Obj: pass


EFF = ['default_tides', 'default_gravrad', 'RVJ83_braking', 'M15_braking', 'G18_braking', 'CARB_braking', 'default_sep_from_winds', 'default_spin_from_winds']
NOUT = {'default_tides': (0, 1, 2, 3), 'default_gravrad': (0, 1), 'default_sep_from_winds': (0,), 'default_spin_from_winds': (2, 3)}       # which of (a, e, spin of secondary, spin of primary) the results of an effect change
MODES = ['RVJ83', 'M15', 'G18', 'CARB']
SWITCH = {'default_tides': 'do_tides', 'default_gravrad': 'do_gravitational_radiation', 'default_sep_from_winds': 'do_wind_loss', 'default_spin_from_winds': 'do_stellar_evolution_and_spin_from_winds'}


def outs(f): return NOUT.get(f, (2, 3))


def equations(c, sw, mode, bad):
    """evaluates the derivatives with stand-in effects; bad: (effect, index, value) of a result that is not finite"""
    import posydon.binary_evol.DT.step_detached as M
    p, s = Obj(), Obj()
    p.interp1d = Track(mass=c.raw(c.pos('m1', slo=1, shi=30)), R=c.raw(c.pos('R1', slo=1, shi=30)), omega=c.raw(c.num(1e9)))
    s.interp1d = Track(mass=c.raw(c.pos('m2', slo=1, shi=30)), R=c.raw(c.pos('R2', slo=1, shi=30)), omega=c.raw(c.num(1e9)))
    y = [c.real('a', slo=-1, shi=100), c.real('e', slo=-0.01, shi=0.9, special=(0., 0.001)), c.real('spin2', slo=-1, shi=5), c.real('spin1', slo=-1, shi=5)]; t = c.real('t', slo=0, shi=9)
    val, seen = {}, {}
    for f in EFF:
        v = val[f] = [c.real('%s[%d]' % (f, i), slo=-5, shi=5) for i in range(len(outs(f)))]
        if bad and bad[0] == f: v[bad[1]] = bad[2]
        def fake(*a, f=f, **k):
            if len(a) > 3: aa, ee, P, S = a[:4]
            else: aa, ee, P, S = None, None, a[0], a[1]
            seen.setdefault(f, []).append((aa, ee, P is p, S is s, c.raw(dict(P.latest)), c.raw(dict(S.latest))))
            r = tuple(c.raw(x) if hasattr(x, '__float__') or c.symbolic else x for x in val[f])
            return r if f != 'default_sep_from_winds' else r[0]
        c.patch_attr(M, f, fake)
    ev = M.detached_evolution(magnetic_braking_mode=mode, **sw)
    ev.set_stars(p, s, t0=0.)
    got = c.run('no error', ev, c.raw(t), [c.raw(x) for x in y])
    return ev, p, s, y, t, val, seen, got


def check_equations(c, sw, mode, y, t, val, seen, got, p, s, bad):
    use = [f for f, k in SWITCH.items() if sw[k]] + ([mode + '_braking'] if sw['do_magnetic_braking'] and mode in MODES else [])
    c.check('exactly the enabled effects', sorted(seen) == sorted(use) and all(len(v) == 1 for v in seen.values()))
    tot = [c.num(0.)] * 4
    for f in EFF:
        if f not in use: continue
        for i, k in enumerate(outs(f)):
            if not (bad and bad[:2] == (f, i)): tot[k] = tot[k] + val[f][i]
    for k, n in enumerate(('separation', 'eccentricity', 'secondary spin', 'primary spin')): c.eq('derivative of ' + n, got[k], tot[k])
    pos = [c.max(x, c.num(0.)) for x in y]
    e = pos[1] if pos[1] >= 1e-3 else c.num(0.)
    for f, calls in seen.items():
        aa, ee, P, S, lp, ls = calls[0]
        c.check(f + ' stars', P and S)
        if aa is not None: c.eq(f + ' separation', aa, pos[0]); c.eq(f + ' eccentricity', ee, e)
        for k in ('mass', 'R'): c.same(f + ' primary ' + k, lp[k], p.interp1d.d[k]); c.same(f + ' secondary ' + k, ls[k], s.interp1d.d[k])
        c.eq(f + ' primary spin', lp['omega'], pos[3]); c.eq(f + ' secondary spin', ls['omega'], pos[2])
    for x in (p, s): c.check('tracks at this time', len(x.interp1d.asked) >= 1); c.eq('track time', x.interp1d.asked[-1], t)


SW = ['do_tides', 'do_gravitational_radiation', 'do_magnetic_braking', 'do_wind_loss', 'do_stellar_evolution_and_spin_from_winds']


@contract('C11', DE + ':detached_evolution.__call__', DE + ':detached_evolution.update_props', DE + ':detached_evolution.tides', DE + ':detached_evolution.gravitational_radiation', DE + ':detached_evolution.magnetic_braking',
          DE + ':detached_evolution.sep_from_winds', DE + ':detached_evolution.spin_from_winds', DE + ':detached_evolution.set_stars', samples=400)
def equations_of_motion(c):
    """the derivatives are the sum of the enabled effects, evaluated on the tracks and the (physical) orbit"""
    sw = {k: c.bool(k) for k in SW}; mode = c.choice('mode', MODES + ['none of these'])
    if c.symbolic and not sw['do_magnetic_braking'] and mode != 'RVJ83': return
    ev, p, s, y, t, val, seen, got = equations(c, sw, mode, None)
    check_equations(c, sw, mode, y, t, val, seen, got, p, s, None)


BAD = [(f, i) for f in EFF for i in range(len(NOUT.get(f, (2, 3))))]
WEIRD = [float('nan'), float('inf'), float('-inf')]


@contract('C11', DE + ':detached_evolution.__call__', DE + ':detached_evolution.tides', DE + ':detached_evolution.gravitational_radiation', DE + ':detached_evolution.magnetic_braking',
          DE + ':detached_evolution.sep_from_winds', DE + ':detached_evolution.spin_from_winds', samples=300)
def not_finite(c):
    """a contribution that is not finite counts as zero, and only that contribution"""
    f, i = c.choice('effect', BAD); v = c.choice('value', WEIRD); mode = f[:-8] if f.endswith('_braking') else 'RVJ83'
    sw = {k: True for k in SW}; bad = (f, i, v)
    ev, p, s, y, t, val, seen, got = equations(c, sw, mode, bad)
    check_equations(c, sw, mode, y, t, val, seen, got, p, s, bad)


# ---- when the integration stops
@contract('C11', DE + ':detached_evolution.ev_rlo1', DE + ':detached_evolution.ev_rlo2', DE + ':detached_evolution.ev_rel_rlo1', DE + ':detached_evolution.ev_rel_rlo2', DE + ':detached_evolution.ev_max_time1', DE + ':detached_evolution.ev_max_time2', samples=300)
def events(c):
    """overflow at 95% of the Roche lobe at periastron of the star concerned; the end of a track is a stop"""
    import posydon.binary_evol.DT.step_detached as M
    externs(c)
    p, s = Obj(), Obj(); q = {}
    for n, o in (('p', p), ('s', s)):
        q[n] = m, R = c.pos('m' + n, slo=1, shi=30), c.pos('R' + n, slo=1, shi=30); q[n + 't'] = tm, to = c.real('t_max' + n, slo=1, shi=10), c.real('t_offset' + n, slo=-1, shi=10)
        o.interp1d = Track(mass=c.raw(m), R=c.raw(R)); o.t_max, o.t_offset = c.raw(tm), c.raw(to)
    a, e = orbit(c); t = c.real('t', slo=0, shi=9); y = [c.raw(a), c.raw(e), c.raw(c.num(1.)), c.raw(c.num(1.))]
    ev = M.detached_evolution(); ev.set_stars(p, s, t0=0.); t_ = c.raw(t)
    f = {n: c.run(n + ' no error', getattr(ev, n), t_, y) for n in ('ev_rlo1', 'ev_rlo2', 'ev_rel_rlo1', 'ev_rel_rlo2', 'ev_max_time1', 'ev_max_time2')}
    ap = (1 - e) * a
    L1, L2 = rl(c, q['s'][0], q['p'][0], ap), rl(c, q['p'][0], q['s'][0], ap)
    c.eq('secondary overflow', f['ev_rlo1'], q['s'][1] - 0.95 * L1); c.eq('primary overflow', f['ev_rlo2'], q['p'][1] - 0.95 * L2)
    c.eq('secondary relative overflow', f['ev_rel_rlo1'], q['s'][1] / L1 - 1, rtol=1e-6); c.eq('primary relative overflow', f['ev_rel_rlo2'], q['p'][1] / L2 - 1, rtol=1e-6)
    c.eq('secondary lifetime', f['ev_max_time1'], q['st'][0] + q['st'][1] - t); c.eq('primary lifetime', f['ev_max_time2'], q['pt'][0] + q['pt'][1] - t)
    for n, d in (('ev_rlo1', 1), ('ev_rlo2', 1), ('ev_max_time1', -1), ('ev_max_time2', -1)):
        g = getattr(M.detached_evolution, n); c.same(n + ' stops', (bool(g.terminal), g.direction), (True, d))


# ---- the outcome of the step
class Res: pass


def detached(c, **k):
    import posydon.binary_evol.DT.step_detached as M
    return M.detached_step(**k)


def system(c, which, pco, sco, a, e, m, states=('H-rich_Core_H_burning', 'H-rich_Core_H_burning')):
    """a binary whose star `which` is the secondary (the star followed by the track); returns binary, primary, secondary"""
    import posydon.binary_evol.binarystar as BM
    from posydon.binary_evol.singlestar import SingleStar
    st = []
    for n, co, mass, state in (('p', pco, m[0], states[0]), ('s', sco, m[1], states[1])):
        s = SingleStar(mass=1., state='H-rich_Core_H_burning'); s.mass = c.raw(mass); s.co = co; s.omega0 = c.raw(c.num(1.)); s.state = 'BH' if co else state
        s.interp1d = Track(t_max=c.raw(c.num(10.25 if n == 'p' else 10.)), t0=c.raw(c.num(0.75 if n == 'p' else 0.5)), max_time=c.raw(c.num(12. if n == 'p' else 9.)), mass=c.raw(mass), R=c.raw(c.num(0.)) if co else c.raw(c.num(1.)))
        st.append(s)
    p, s = st
    b = BM.BinaryStar(); b.star_1, b.star_2 = (s, p) if which == 1 else (p, s)
    b.state, b.event, b.time = 'detached', None, c.raw(c.num(2.)); b.separation, b.eccentricity = c.raw(a), c.raw(e)
    b.orbital_period = c.raw(period(c, a, m))
    return b, p, s


def kepler(c, a, f, P):
    """callee contract of orbital_period_from_separation (C04): Kepler's law makes P proportional to a^(3/2)"""
    if not c.symbolic: return
    import posydon.utils.common_functions as cf
    from pyvc import ring
    def g(x, m1, m2):
        if ring.identical(x.r(), (a * f).r()): return P * c.sqrt(f)**3
        return c.uf('kepler', x, m1, m2)
    c.patch(cf.orbital_period_from_separation, g)


def period(c, a, m): return c.K('dayyer') * c.sqrt((a / c.K('aursun'))**3 / (m[0] + m[1]))


HRICH, HE = 'H-rich_Core_He_burning', 'stripped_He_Core_He_burning'
ENDS = ['RLO by secondary', 'RLO by primary', 'secondary dies', 'primary dies', 'both die', 'none']


@contract('C11', DE + ':detached_step.__call__', DE + ':detached_evolution.set_stars', samples=1500, timeout_ms=20000, assumes=['the ODE solution and the interpolated tracks are stand-ins (arbitrary values)'])
def outcome(c):
    """what stopped the evolution decides the binary's state and event; at overflow the orbit circularises"""
    import posydon.binary_evol.DT.step_detached as M
    which = c.choice('secondary is star', [1, 2]); pco, sco = c.choice('compact', [(False, False), (True, False), (True, True)]); end = c.choice('end', ENDS)
    s1, s2 = c.choice('states', [(HRICH, HRICH), (HRICH, HE), (HE, HRICH), (HE, HE), ('H-rich_Core_C_depleted', 'H-rich_Core_C_depleted')]); hms = c.bool('step_HMS_HMS_RLO exists'); am = c.bool('conserve angular momentum')
    a0, e0 = c.pos('a', slo=500, shi=2000), c.num(0.)
    a, e = c.pos('a end', slo=20, shi=400), c.real('e end', 0, 1, hi_open=True, slo=0, shi=0.9, special=(0.,)); m = c.pos('mp', slo=1, shi=30), c.pos('ms', slo=1, shi=30)
    over = c.choice('initial overflow', ['no', 'secondary', 'primary']); only = c.bool('only CO')
    if over != 'no' and end != 'none': return
    if pco and sco and end != 'none': return
    late = c.bool('past the end of the simulation')
    tend = c.num(8.)
    b, p, s = system(c, which, pco, sco, a0, e0, m)
    calls = []
    class Matcher:
        def do_matching(self, binary, name): calls.append(('match', binary is b, name)); return p, s, only
        def get_star_final_values(self, star): calls.append(('final', star))
        def get_star_profile(self, star): calls.append(('profile', star))
    P = c.pos('P end') if c.symbolic else period(c, a, m); f = 1 - e**2 if am else 1 - e; kepler(c, a, f, P)
    st = detached(c, track_matcher=Matcher(), RLO_orbit_at_orbit_with_same_am=am); ev = st.evo
    for n, w in (('ev_rlo1', 'secondary'), ('ev_rlo2', 'primary')): setattr(ev, n, lambda t, y, w=w: (calls.append(('rlo', t, y[0], y[1])), c.raw(c.num(1.) if w == over else c.num(-1.)))[1])
    r = Res(); r.status = 0; r.t = [c.raw(tend)]; r.y = [[c.raw(a)], [c.raw(e)], [1.], [1.]]; hit = [c.raw(tend)]
    r.t_events = [hit if end == 'RLO by secondary' else [], hit if end == 'RLO by primary' else [], hit if end in ('secondary dies', 'both die') else [], hit if end == 'primary dies' else []]
    def solve(binary, primary, secondary): calls.append(('solve', primary is p, secondary is s, [primary.t_offset, secondary.t_offset, primary.t_max, secondary.t_max, st.max_time])); return r
    def update(t, binary, primary, secondary): binary.separation, binary.eccentricity, binary.time, binary.orbital_period = c.raw(a), c.raw(e), c.raw(tend), c.raw(P); primary.lg_mdot_history = [None]; calls.append(('update', t))
    st.solve_ODEs, st.update_after_evo, st.update_co_stars = solve, update, lambda *x: calls.append(('co',))
    inferred = {id(b.star_1): s1, id(b.star_2): s2}
    c.patch_attr(M, 'check_state_of_star', lambda x, i=None, star_CO=False: inferred[id(x)])
    md = c.raw(c.num(0.01)); c.patch_attr(M, 'bondi_hoyle', lambda bb, acc, don, *x, **k: (calls.append(('bondi', acc is p, don is s)), c.raw(c.num(0.01)))[1])
    pr = Obj(); pr.all_step_names = ['step_HMS_HMS_RLO'] if hms else []; pr.max_simulation_time = c.raw(c.num(7.) if late else c.num(20.)); b.properties = pr; b.get_next_step_name = lambda: 'step_detached'
    o = c.call(st, b)
    sec, pri = ('1', '2') if which == 1 else ('2', '1')
    c.check('matched', calls[0] == ('match', True, 'step_detached'))
    if over != 'no' and not only:
        c.check('not evolved', o.exc is None and not any(x[0] in ('solve', 'update') for x in calls)); c.same('initial overflow', (b.state, b.event), ('initial_RLOF', None)); c.eq('orbit kept', b.separation, a0); return
    sv = [x for x in calls if x[0] == 'solve']; c.check('solved once', len(sv) == 1 and sv[0][1:3] == (True, True))
    for n, v, w in zip(('primary offset', 'secondary offset', 'primary end', 'secondary end', 'latest time'), sv[0][3], (1.25, 1.5, 10.25, 10., 9.)): c.eq(n, v, c.num(w))
    c.eq('primary track offset', p.interp1d.offset, c.num(1.25)); c.eq('secondary track offset', s.interp1d.offset, c.num(1.5))
    if pco and sco:
        c.check('accepted', o.exc is None, detail=repr(o.exc) + o.tb); c.same('pair of compact objects: nothing decided here', (b.state, b.event), ('detached', None)); c.eq('orbit', b.separation, a); return
    st1, st2 = ('BH' if x.co else inferred[id(x)] for x in (b.star_1, b.star_2))
    if end.startswith('RLO'):
        he, h = (st1 == HE, st2 == HE), (st1 == HRICH, st2 == HRICH)         # stars that can still evolve
        if not hms and (he[0] and h[1] or h[0] and he[1] or h[0] and h[1]):
            c.check('unsupported overflow is an error', o.exc is not None and type(o.exc).__name__ in ('FlowError', 'ClassificationError')); c.same('failed', (b.state, b.event), ('ERR', 'FAILED')); return
        c.check('accepted', o.exc is None, detail=repr(o.exc) + o.tb)
        c.eq('separation at overflow', b.separation, a * f); c.eq('period at overflow', b.orbital_period, P * f * c.sqrt(f), rtol=1e-6); c.eq('circular', b.eccentricity, c.num(0.))
        n = sec if end == 'RLO by secondary' else pri
        c.same('overflowing star', (b.state, b.event), ('RLO' + n, 'oRLO' + n)); return
    fin = [x[1] for x in calls if x[0] == 'final']; prof = [x[1] for x in calls if x[0] == 'profile']
    if end in ('secondary dies', 'both die'):
        cc = not pco and inferred[id(p)] in ('H-rich_Core_C_depleted',)
        if cc and m[0] != m[1]: c.check('both ready with different masses', o.exc is not None and type(o.exc).__name__ == 'POSYDONError'); return
        c.check('accepted', o.exc is None, detail=repr(o.exc) + o.tb); c.same('dying star', (b.state, b.event), ('detached', 'CC' + sec))
        c.check('final values', fin == ([s, p] if cc else [s]) and prof == fin)
    elif end == 'primary dies':
        c.check('accepted', o.exc is None, detail=repr(o.exc) + o.tb); c.same('dying star', (b.state, b.event), ('detached', 'CC' + pri)); c.check('final values', fin == [p] and prof == [p])
    else:
        c.check('accepted', o.exc is None, detail=repr(o.exc) + o.tb); c.same('end of time', (b.state, b.event), ('detached', 'MaxTime_exceeded' if late else 'maxtime')); c.check('no collapse', not fin)
    c.eq('orbit kept', b.separation, a); c.eq('eccentricity kept', b.eccentricity, e)
    c.same('stars', (b.star_1.state, b.star_2.state), (st1, st2))
    if pco: c.eq('accretion rate', p.lg_mdot, c.log10(c.num(0.01)), rtol=1e-6)


@contract('C11', DE + ':detached_step.__call__', samples=50)
def no_time_left(c):
    """the evolution never runs backwards"""
    b, p, s = system(c, c.choice('secondary is star', [1, 2]), False, False, c.num(100.), c.num(0.), (c.num(3.), c.num(2.)))
    t = c.real('time', 0, 20, slo=0, shi=20, special=(9.,)); b.time = c.raw(t)
    class Matcher:
        def do_matching(self, binary, name): return p, s, False
    st = detached(c, track_matcher=Matcher()); st.evo.ev_rlo1 = st.evo.ev_rlo2 = lambda t, y: -1.
    class Stop(Exception): pass
    def solve(*x): raise Stop()
    st.solve_ODEs = solve; pr = Obj(); pr.all_step_names = []; b.properties = pr; b.get_next_step_name = lambda: 'step_detached'
    o = c.call(st, b)
    if t < 9: c.check('evolves', o.raised(Stop))
    else: c.check('rejected', o.raised(ValueError))


# ---- what is recorded
KEEP = ('event', 'mass_transfer_case', 'nearest_neighbour_distance', 'state', 'metallicity', 'V_sys')


@contract('C11', DE + ':detached_step.update_after_evo', DE + ':detached_step.update_co_stars', CF + ':zero_negative_values', samples=120, bound='histories of at most 3 rows', assumes=['the ODE solution and the interpolated tracks are stand-ins (arbitrary values)'])
def record(c):
    """the recorded histories are the tracks of each star and the orbit at the requested times"""
    import numpy as np
    import posydon.utils.common_functions as cf
    from posydon.binary_evol.singlestar import STARPROPERTIES
    from posydon.binary_evol.binarystar import BINARYPROPERTIES
    which = c.choice('secondary is star', [1, 2]); pco, sco = c.choice('compact', [(False, False), (True, False), (True, True)]); n = c.choice('rows', [1, 2, 3] if not c.symbolic else [1, 2])
    m = c.num(3.), c.num(2.)
    b, p, s = system(c, which, pco, sco, c.num(100.), c.num(0.), m)
    st = detached(c); T = st.translate
    def arr(name, lo=0, hi=None, **k): return [c.pos('%s[%d]' % (name, i), **k) for i in range(n)]
    def a_(l): return np.array([c.raw(x) for x in l], dtype=object if c.symbolic else float)
    tr = {}
    for nm, o in (('p', p), ('s', s)):
        d = dict(mass=arr('m' + nm, slo=1, shi=9), R=arr('R' + nm, slo=1, shi=9), inertia=arr('I' + nm, slo=1, shi=9), mdot=[c.real('mdot%s[%d]' % (nm, i), slo=-1e-3, shi=1e-3, special=(0.,)) for i in range(n)], omega=[c.num(77.)] * n,
                 log_R=[c.real('logR%s[%d]' % (nm, i), -5, 5) for i in range(n)], he_core_mass=arr('he' + nm, slo=1, shi=9), center_he4=arr('che' + nm, slo=1, shi=9))
        tr[nm] = d; o.interp1d = lambda t, d=d: {k: a_(v) for k, v in d.items()}
    sep, ecc, ws, wp = arr('sep', slo=10, shi=100), [c.nonneg('ecc[%d]' % i, hi=1, slo=0, shi=0.9) for i in range(n)], [c.real('ws[%d]' % i, slo=-1, shi=9) for i in range(n)], [c.real('wp[%d]' % i, slo=-1, shi=9) for i in range(n)]
    t = [c.num(3. + i) for i in range(n)]; r = Res(); r.sol = lambda x: (a_(sep), a_(ecc), a_(ws), a_(wp)); st.res = r
    over = {w: [c.real('%s[%d]' % (w, i), slo=-1, shi=0) for i in range(n)] for w in ('over s', 'over p')}
    st.evo.ev_rel_rlo1, st.evo.ev_rel_rlo2 = lambda t, y: a_(over['over s']), lambda t, y: a_(over['over p'])
    P = [per(c, sep[i], tr['s']['mass'][i], tr['p']['mass'][i]) for i in range(n)]
    if c.symbolic: c.patch(cf.zero_negative_values, lambda x, k: a_([c.max(v, c.num(0.)) for v in np.atleast_1d(x)])); [c.assume(c.And(tr[k]['mdot'][0] != 0, w[0] > 0)) for k, w in (('p', wp), ('s', ws)) if n > 1]
    if c.symbolic: c.patch(cf.orbital_period_from_separation, lambda x, m1, m2: a_([per(c, x[i], m1[i], m2[i]) for i in range(n)]))
    b.mass_transfer_case, b.V_sys = 'case_A', [1., 2., 3.]; p.metallicity = s.metallicity = 0.5; b.event = 'old'
    hist = lambda o, k: getattr(o, k + '_history')
    before = {(id(o), k): (len(hist(o, k)), getattr(o, k)) for o, pr in ((p, STARPROPERTIES), (s, STARPROPERTIES), (b, BINARYPROPERTIES)) for k in pr}
    def both(): st.update_after_evo(a_(t), b, p, s); st.update_co_stars(a_(t), p, s)
    c.run('no error', both)
    pos = lambda l: [c.max(x, c.num(0.)) for x in l]
    want = {}
    for nm, o, w in (('p', p, wp), ('s', s, ws)):
        d = tr[nm]; yr, ms, rs = c.K('secyer'), c.K('msol'), c.K('rsol')
        if o.co: continue
        want[nm] = dict(mass=d['mass'], log_R=d['log_R'], he_core_mass=d['he_core_mass'], center_he4=d['center_he4'], surf_avg_omega=pos([x / yr for x in w]), total_moment_of_inertia=[x * (ms * rs**2) for x in d['inertia']],
                        lg_mdot=[c.log10(c.abs(x)) if x != 0 else c.num(-99.) for x in d['mdot']],
                        surf_avg_omega_div_omega_crit=pos([x / yr / c.sqrt(c.K('standard_cgrav') * mm * ms / (R * rs)**3) for x, mm, R in zip(w, d['mass'], d['R'])]),
                        spin=pos([c.K('clight') * (x / yr) * I * (ms * rs**2) / (c.K('standard_cgrav') * (mm * ms)**2) for x, mm, I in zip(w, d['mass'], d['inertia'])]))
    o1 = over['over s'] if b.star_1 is s else over['over p']; o2 = over['over p'] if b.star_1 is s else over['over s']
    want['b'] = dict(time=t, separation=sep, eccentricity=ecc, orbital_period=P, rl_relative_overflow_1=o1, rl_relative_overflow_2=o2)
    for nm, o, props in (('p', p, STARPROPERTIES), ('s', s, STARPROPERTIES), ('b', b, BINARYPROPERTIES)):
        kept = KEEP if nm == 'b' or not o.co else props
        for k in props:
            n0, old = before[(id(o), k)]; h = hist(o, k); new = h[n0:]
            c.check('rows of ' + k, len(h) == n0 + (n if n > 1 else 0))
            cur = getattr(o, k)
            if nm != 'b' and o.co:
                if isinstance(old, float) and old != old: continue
                if old is not None: c.check('compact %s %s kept' % (nm, k), c.And(*[v == old for v in list(new) + [cur]]) if c._isnum(old) else all(v == old for v in list(new) + [cur]))
            elif k in want.get(nm, {}):
                for i, (v, w) in enumerate(zip(list(new) or [cur], want[nm][k])): c.eq('%s %s row' % (nm, k), v, w, rtol=1e-6)
                c.eq('%s current %s' % (nm, k), cur, want[nm][k][-1], rtol=1e-6)
            elif k in KEEP:
                c.same('%s %s kept' % (nm, k), [list(np.atleast_1d(v)) for v in list(new) + [cur]], [list(np.atleast_1d(old))] * (len(new) + 1))


@contract('C11', CF + ':zero_negative_values', samples=200, bound='arrays of at most 3 values')
def no_negative(c):
    import numpy as np
    from posydon.utils.common_functions import zero_negative_values
    n = c.choice('n', [1, 2, 3]); x = [c.real('x[%d]' % i) for i in range(n)]
    r = c.run('no error', zero_negative_values, np.array([c.raw(v) for v in x], dtype=object if c.symbolic else float), 'key')
    c.check('length', len(r) == n)
    for v, w in zip(r, x): c.eq('value', v, c.max(w, c.num(0.)))


@contract('C11', DE + ':detached_step.get_time_after_evo', samples=400, bound='at most 4 recorded times in the symbolic run')
def times(c):
    """recorded times increase from the start (excluded) to the end of the evolution (included)"""
    how = c.choice('how', ['dt', 'steps', 'end']); t0 = c.real('t0', 0, 1e10, slo=0, shi=10); k = c.choice('whole', [0, 1, 2, 3, 7])
    st = detached(c); b = Obj(); b.time = c.raw(t0); r = Res(); st.res = r
    if how == 'dt': d = c.pos('dt', slo=0.1, shi=2); f = c.real('part', 0, 1, lo_open=True, hi_open=True, slo=0.01, shi=0.99); end = t0 + d * (k + f); st.dt = c.raw(d)
    else: end = t0 + c.pos('span', slo=0.1, shi=10)
    if how == 'steps': st.n_o_steps_history = k + 1
    if c.symbolic and (how != 'end' or k): return
    r.t = [0., c.raw(end)]
    t = c.run('no error', st.get_time_after_evo, b)
    if how == 'end': c.check('one', len(t) == 1); c.eq('end', t[0], end); return
    c.check('starts after', t[0] > t0); c.check('increases', all(t[i] < t[i + 1] for i in range(len(t) - 1)))
    if how == 'steps': c.check('number', len(t) - (k + 1) in (0, 1)); c.eq('end', t[-1], end, rtol=1e-6)
    else:
        c.check('reaches the end', t[-1] >= end - 1e-9); c.check('not beyond half a step', t[-1] <= end + d / 2 + 1e-9)
        for i in range(len(t) - 1): c.eq('spacing', t[i], t0 + (i + 1) * d, rtol=1e-6)
