"""Supernova remnant mass and type (posydon/binary_evol/SN/step_SN.py)."""
from pyvc.ctx import contract
from contracts.snlib import make, star, SN
CC = ['H-rich_Core_C_depleted', 'stripped_He_Core_He_depleted']
M = dict(slo=0, shi=140)


def sn_type(ecsn, co, he):
    if ecsn == 'Podsiadlowski+04': lo, hi, m = 1.4, 2.5, he
    else: lo, hi, m = 1.37, (1.43 if ecsn == 'Tauris+15' else None), co
    if m < lo: return 'WD'
    if hi is not None and m <= hi: return 'ECSN'
    return 'CCSN'

TH = dict(special=(1.37, 1.43, 1.4, 2.5, 0.), slo=-1, shi=4)


@contract('C07', SN + ':StepSN.check_SN_type', samples=600)
def kind_of_supernova(c):
    from posydon.utils.posydonerror import ModelError
    e = c.choice('ECSN', ['Tauris+15', 'Podsiadlowski+04', None, 'unknown'])
    s = make(c); s.ECSN = e
    co, he, m = c.real('co', **TH), c.real('he', **TH), c.real('m', special=(0.5,), slo=0, shi=2)
    r = c.call(s.check_SN_type, m_core=co, m_He_core=he, m_star=m)
    if e == 'unknown': c.check('rejected', r.raised(ValueError)); return
    t = sn_type(e, co, he)
    if t != 'WD':
        c.check('ok', r.exc is None, detail=r.tb)
        c.same('type', r.value, (None, None, None, t)); return
    if co > 0: w = co
    elif he > 0: w = he
    elif m < 0.5: w = m
    else: c.check('no-core', r.raised(ModelError), detail=str(r.value)); return
    c.check('ok', r.exc is None, detail=r.tb)
    if r.exc is None: c.same('WD', r.value, (w, 1.0, 'WD', 'WD'))


def fryer(mech, co, mc, t, ecsn):
    if t == 'ECSN': return (1.38 if ecsn == 'Podsiadlowski+04' else co), 0.
    if mech == 'rapid':
        p = 1.1
        if co < 2.5: fb = 0.2
        elif co < 6: fb = 0.286 * co - 0.514
        elif co < 7: return mc, 1.
        elif co < 11:
            f = 1 - (0.25 - 1.275 / (mc - p)) * (11 - co); return p + f * (mc - p), f
        else: return mc, 1.
    else:
        p = 1.2 if co < 3.5 else 1.3 if co < 6 else 1.4 if co < 11 else 1.6
        if co < 2.5: fb = 0.2
        elif co < 3.5: fb = 0.5 * co - 1.05
        elif co < 11:
            f = 1 - (0.133 - 0.093 / (mc - p)) * (11 - co); return p + f * (mc - p), f
        else: return mc, 1.
    return p + fb, fb / (mc - p)

CO = dict(special=(1.37, 1.43, 1.4, 2.5, 3.5, 6., 7., 11.), slo=1.4, shi=15)


def rembar(c, mech):
    e = c.choice('ECSN', ['Tauris+15', 'Podsiadlowski+04', None])
    keep = c.bool('keepH')
    s = make(c, {'rapid': 'Fryer+12-rapid', 'delayed': 'Fryer+12-delayed', 'direct': 'direct'}[mech], ECSN=e, conserve_hydrogen_envelope=keep)
    co = c.pos('co', **CO); he = c.pos('he', slo=1.4, shi=20, special=(1.4, 2.5)) if c.bool('free') else co + c.nonneg('dhe', special=(0.,), shi=5); m = he + c.nonneg('dm', special=(0.,), shi=20)
    c.assume(co <= he); c.assume(m > 1.4)
    t = sn_type(e, co, he)
    if t != 'ECSN' and t != 'WD': c.assume(he >= 1.4)
    hist = c.bool('collapsed-already')
    st = star(c, state=c.choice('state', CC), co_core_mass=co, he_core_mass=he, mass=m)
    if hist: st.state = 'NS'; st.mass = st.co_core_mass = st.he_core_mass = 99.
    r = c.run('r', s.compute_m_rembar, st, None)
    mc = m if keep else he
    if t == 'WD': c.same('WD', r, (co, 1.0, 'WD')); c.same('type', st.SN_type, 'WD'); return
    c.same('type', st.SN_type, t)
    if mech == 'direct': w, f = mc, 1.
    else: w, f = fryer(mech, co, mc, t, e)
    c.eq('m_rembar', r[0], w); c.eq('f_fb', r[1], f); c.same('state', r[2], None)
    if t == 'CCSN':
        c.check('not-more-than-collapses', r[0] <= mc * (1 + 1e-9)); c.check('fb-range', c.And(r[1] >= -1e-9, r[1] <= 1 + 1e-9)); c.check('positive', r[0] > 0)
    # pair instability caps the mass or leaves nothing
    st2 = star(c, state='H-rich_Core_C_depleted', co_core_mass=co, he_core_mass=he, mass=m)
    cap = c.pos('m_PISN', slo=1, shi=20)
    r2 = c.run('capped', s.compute_m_rembar, st2, cap)
    if r[0] > cap: c.eq('cap', r2[0], cap); c.same('PPISN', st2.SN_type, 'PPISN')
    else: c.eq('uncapped', r2[0], r[0]); c.same('type-uncapped', st2.SN_type, t)
    st3 = star(c, state='H-rich_Core_C_depleted', co_core_mass=co, he_core_mass=he, mass=m)
    r3 = c.run('destroyed', s.compute_m_rembar, st3, float('nan'))
    c.check('nothing-left', c.isnan(r3[0])); c.same('PISN', st3.SN_type, 'PISN')


@contract('C07', SN + ':StepSN.compute_m_rembar', SN + ':StepSN.check_SN_type', samples=600)
def fryer_rapid(c): rembar(c, 'rapid')
@contract('C07', SN + ':StepSN.compute_m_rembar', SN + ':StepSN.check_SN_type', samples=600)
def fryer_delayed(c): rembar(c, 'delayed')
@contract('C07', SN + ':StepSN.compute_m_rembar', samples=300)
def direct_collapse(c): rembar(c, 'direct')


@contract('C07', SN + ':StepSN.compute_m_rembar')
def rejected(c):
    s = make(c)
    st = star(c); st.state = 'H-rich_Core_H_burning'; st.state_history = ['H-rich_Core_H_burning']
    c.check('no-collapse-state', c.call(s.compute_m_rembar, st, None).raised(ValueError))
    st = star(c, co_core_mass=c.choice('missing', [None, float('nan')]))
    c.check('no-core', c.call(s.compute_m_rembar, st, None).raised(ValueError))
    s.mechanism = 'unknown'
    c.check('unknown', c.call(s.compute_m_rembar, star(c), None).raised(ValueError))
    c.check('unknown-at-start', c.call(c.fn(SN + ':StepSN'), mechanism='unknown').raised(ValueError))
    c.check('unknown-option', c.call(c.fn(SN + ':StepSN'), not_an_option=1).raised(ValueError))


POLY = (-6.29429263e5, 1.15957797e5, -9.28332577e3, 4.21856189e2, -1.19019565e1, 2.13499267e-1, -2.37814255e-3, 1.50408118e-5, -4.13587235e-8)


@contract('C07', SN + ':StepSN.PISN_prescription', samples=600)
def marchant19(c):
    keep = c.bool('keepH'); s = make(c, PISN='Marchant+19', conserve_hydrogen_envelope=keep)
    he, m = c.pos('he', special=(31.99, 61.1, 124.12), slo=25, shi=140), c.pos('m', **M)
    st = star(c, he_core_mass=he, mass=m)
    f0 = c.snap(st)
    r = c.run('m', s.PISN_prescription, st)
    if he < 31.99 or he >= 124.12: c.same('unaffected', r, m if keep else he)
    elif he <= 61.1:
        p = 0.
        for k in reversed(POLY): p = p * he + k
        c.eq('pulsational', r, p, rtol=1e-7, cond=1e6)
        c.check('leaves-mass', r > 0)
    else: c.check('destroyed', c.isnan(r))
    c.frame('frame', st, f0)


@contract('C07', SN + ':StepSN.PISN_prescription', SN + ':StepSN.compute_m_rembar', samples=500)
def hendriks23(c):
    """direct collapse of what pulsations leave behind"""
    keep, kppi = c.bool('keepH'), c.bool('keepH_PPI')
    shift, extra = (c.real('shift', slo=-10, shi=10) if c.bool('shift?') else None), (c.real('extra', slo=-5, shi=5) if c.bool('extra?') else None)
    s = make(c, 'direct', PISN='Hendriks+23', conserve_hydrogen_envelope=keep); s.conserve_hydrogen_PPI = kppi; s.PISN_CO_shift = shift; s.PPI_extra_mass_loss = extra
    co = c.pos('co', special=(38., 114.), slo=25, shi=125); he = co + c.nonneg('dhe', special=(0.,), shi=15); m = he + c.nonneg('dm', special=(0.,), shi=30); Z = c.pos('Z', special=(1e-4,), slo=1e-5, shi=2)
    c.assume(co >= 1.5)
    st = star(c, co_core_mass=co, he_core_mass=he, mass=m, metallicity=Z)
    f0 = c.snap(st)
    sh, ex = (shift if shift is not None else 0), (extra if extra is not None else 0)
    r = c.run('m', s.PISN_prescription, st)
    c.frame('frame', st, f0)
    loss = c.num(0)
    if co >= 38 + sh and co <= 114 + sh:
        z = c.num(1e-4) if Z < 1e-4 else Z
        x = co - sh - 34.8
        loss = (0.0006 * c.log10(z * c.K('Zsun')) + 0.0054) * x**3 - 0.0013 * x**2 + ex
    if loss <= 0: c.same('no-loss', r, m if keep else he); return
    left = (m if kppi else he) - loss
    if left < 0: c.check('destroyed', c.isnan(r)); return
    # collapse of the pulsed star: helium core limited to what is left
    if c.min(co, left) < 1.5: c.check('tiny', c.Or(c.isnan(r), r <= 1.5)); return
    rem = left if keep else c.min(he, left)
    if rem < 10: c.check('too-light', c.isnan(r))
    else: c.eq('collapsing-mass', r, rem)


@contract('C07', SN + ':StepSN.PISN_prescription', samples=200)
def numeric_pisn(c):
    lim, he = c.pos('limit', slo=20, shi=60), c.pos('he', slo=10, shi=80)
    s = make(c); s.PISN = lim
    c.patch(c.fn(SN + ':is_number'), lambda x: not isinstance(x, str))
    r = c.run('m', s.PISN_prescription, star(c, he_core_mass=he))
    if he > lim: c.same('capped', r, lim)
    else: c.same('unaffected', r, None)
    s.PISN = None
    c.same('off', c.run('off', s.PISN_prescription, star(c, he_core_mass=he)), None)
    s.PISN = 'unknown'
    c.check('unknown', c.call(s.PISN_prescription, star(c, he_core_mass=he)).raised(ValueError))


K16 = {'N20': [0.194, 0.058], 'S19.8': [0.274, 0.047], 'W15': [0.225, 0.0495], 'W20': [0.284, 0.0393], 'W18': [0.283, 0.043], 'Ertl2020': [0.182, 0.0608]}


class Table:
    """an interpolation table as an external: returns its value, records the query"""
    _strip = True
    def __init__(s, v, raw=lambda x: x): s.v, s.q, s.raw = v, [], raw
    def predict(s, x): s.q.append(x); return [s.raw(s.v)]


def core_star(c, s, approx):
    m, he, co = c.pos('m', slo=5, shi=40), c.pos('he', slo=3, shi=20), c.pos('co', special=(2.5, 10.), slo=1.5, shi=15)
    cab = c.pos('c', slo=0.1, shi=0.5)
    s.approx_at_he_depletion = approx
    st = star(c, state=c.choice('state', CC) if approx else CC[0], mass=m, he_core_mass=he, co_core_mass=co if approx else 5.)
    if approx:
        x = 0.2 / co + 0.15 if 'H-rich' in st.state else -0.084 * c.log(co) + 0.4
        st.avg_c_in_c_core_at_He_depletion, st.co_core_mass_at_He_depletion = 0.9, 77.
    else: x = cab; st.avg_c_in_c_core_at_He_depletion, st.co_core_mass_at_He_depletion = cab, co
    return st, m, he, co, x


def tables(c, s):
    v = [c.pos('M4', slo=1, shi=3), c.pos('mu4', special=(0.247,), slo=0, shi=0.5), c.real('Xi', special=(0.04, 0.4, 0.314, 0.544), slo=0, shi=1), c.real('sc', special=(0.988, 1.169), slo=0.5, shi=1.5)]
    t = [Table(x, c.raw) for x in v]
    s.M4_interpolator, s.mu4_interpolator, s.Xi_interpolator, s.sc_interpolator = t
    return v, t


@contract('C07', SN + ':StepSN.compute_m_rembar', SN + ':StepSN.Patton20_corecollapse', SN + ':StepSN.get_CO_core_params', SN + ':StepSN.get_M4_mu4_Patton20', SN + ':StepSN.C_abundance_for_H_stars', SN + ':StepSN.C_abundance_for_He_stars',
          samples=500, assumes=['the Patton+Sukhbold tables (sklearn interpolators) are externals returning arbitrary values'])
def patton20(c):
    keep = c.bool('keepH'); e = c.choice('engine', list(K16))
    s = make(c, 'Patton&Sukhbold20-engine', conserve_hydrogen_envelope=keep, engine=e)
    st, m, he, co, x = core_star(c, s, c.bool('approx'))
    c.assume(st.co_core_mass > 1.43)
    (M4, mu4, Xi, sc), t = tables(c, s)
    r = c.run('r', s.compute_m_rembar, st, None)
    mc = m if keep else he
    if co <= 2.5: w = (1.25, 0., 'NS')
    elif co >= 10: w = (mc, 1., 'BH')
    elif K16[e][0] * (mu4 * M4) + K16[e][1] < mu4: w = (mc, 1., 'BH')
    else: w = (M4, 0., 'NS')
    c.same('remnant', tuple(r), w)
    c.same('stored', (st.M4, st.mu4, st.SN_type), (M4, mu4, 'CCSN'))
    for k, q in enumerate(t): c.same('query', [list(list(z)[0]) for z in q.q], [[x, co]])
    bad = c.call(s.Patton20_corecollapse, st, 'unknown', keep)
    c.check('unknown-engine', bad.raised(ValueError))


@contract('C07', SN + ':StepSN.compute_m_rembar', SN + ':StepSN.Maltsev25_corecollapse', SN + ':StepSN.explod_crit', SN + ':StepSN.NS_vs_fallbackBH', samples=800, timeout_ms=20000,
          assumes=['the Patton+Sukhbold tables and the random generator are externals returning arbitrary values'])
def maltsev25(c):
    keep = c.bool('keepH')
    s = make(c, 'Maltsev+25-engine', conserve_hydrogen_envelope=keep, engine='M16')
    st, m, he, co, x = core_star(c, s, False)
    (M4, mu4, Xi, sc), t = tables(c, s)
    u = c.real('u', 0, 1, special=(0.15,))
    class R:
        _strip = True
        def uniform(self, a, b): return c.raw(a + (b - a) * u)
    s.RNG = R()
    r = c.run('r', s.compute_m_rembar, st, None)
    mc = m if keep else he
    p = mu4 * M4
    fail2, ok1 = c.Or(Xi > 0.544, sc > 1.169), c.Or(Xi < 0.314, sc < 0.988)
    def sep(): return p <= 0.421 and (p < 0.247 or not (0.005 + 0.42 * p - mu4 > 0))
    if co <= 2.5: w = (1.25, 0., 'NS')
    elif co >= 10: w = (mc, 1., 'BH')
    else:
        if fail2: boom = ok1 and sep()
        elif ok1: boom = True
        else: boom = sep()
        if not boom: w = (mc, 1., 'BH')
        else:
            ns = c.Or(Xi <= 0.04, c.And(Xi < 1.75 * p - 0.044, Xi <= 0.4), M4 / co > 0.6)
            w = (M4, 0., 'NS') if ns or u > 0.15 else (mc, 0.99, 'BH')
    c.same('remnant', tuple(r), w)
    c.check('fb-range', c.And(r[1] >= 0, r[1] <= 1))
    c.same('stored', (st.M4, st.mu4, st.Xi, st.sc), (M4, mu4, Xi, sc))


@contract('C07', SN + ':StepSN.get_CO_core_params')
def core_params_missing(c):
    from posydon.utils.posydonerror import ModelError
    s = make(c); st = star(c, state='accreted_He_Core_C_depleted')
    c.check('unknown-type', c.call(s.get_CO_core_params, st, True).raised(ValueError))
    co, x = c.pos('co'), c.pos('x')
    st = star(c); got = c.choice('found', [True, False])
    st.avg_c_in_c_core_at_He_depletion = st.co_core_mass_at_He_depletion = None
    def fake(t):
        c.same('same-star', t is st, True)
        if got: t.avg_c_in_c_core_at_He_depletion, t.co_core_mass_at_He_depletion = x, co
    c.patch(c.fn(SN + ':calculate_Patton20_values_at_He_depl'), fake)
    r = c.call(s.get_CO_core_params, st, False)
    if got: c.check('ok', r.exc is None, detail=r.tb); c.same('values', tuple(r.value), (co, x))
    else: c.check('missing', r.raised(ModelError))


@contract('C07', SN + ':StepSN.compute_m_rembar', SN + ':Sukhbold16_corecollapse.__call__', SN + ':Couch20_corecollapse.__call__', samples=300, assumes=['trained classifiers and remnant-mass interpolators are externals'])
def sukhbold_couch(c):
    which = c.choice('mechanism', ['Sukhbold+16-engine', 'Couch+20-engine'])
    keep = c.bool('keepH')
    s = make(c, which, conserve_hydrogen_envelope=keep)
    m, he, mb, mn = c.pos('m', slo=5, shi=40), c.pos('he', slo=3, shi=20), c.pos('mb'), c.pos('mn')
    k = c.choice('class', [13, 14, 15])
    e = object.__new__(c.fn(SN + (':Sukhbold16_corecollapse' if which[0] == 'S' else ':Couch20_corecollapse')))
    e.stellar_type_classifier = Table(k)
    e.mass_BH_interpolator, e.mass_NS_interpolator = 'BH', 'NS'
    seen = []
    e.extrapolate_BH = lambda v, i: (seen.append((v, i)), c.raw(mb))[1]
    e.extrapolate_NS = lambda v, i: (seen.append((v, i)), c.raw(mn))[1]
    s.Sukhbold_corecollapse_engine = s.Couch_corecollapse_engine = e
    st = star(c, mass=m, he_core_mass=he, co_core_mass=5.)
    if c.bool('collapsed-already'): st.state = 'NS'; st.mass = st.he_core_mass = 99.
    r = c.call(s.compute_m_rembar, st, None)
    c.same('query', [list(list(z)[0]) for z in e.stellar_type_classifier.q], [[he]])
    if k == 15: c.check('rejected', r.raised(ValueError)); return
    c.check('ok', r.exc is None, detail=r.tb)
    mc = m if keep else he
    if which[0] == 'S':
        c.same('interpolator', seen, [(mc, 'BH')] if k == 14 else [(he, 'NS')])
        w = (mb, 1., 'BH') if k == 14 else (mn, 0., 'NS')
    else: w = (mc, 1., 'BH') if k == 14 else (1.4, 0., 'NS')
    c.same('remnant', tuple(r.value), w)


ENG = ['Sukhbold+16-engine', 'Patton&Sukhbold20-engine', 'Couch+20-engine', 'Maltsev+25-engine']

@contract('C07', SN + ':StepSN.compute_m_rembar', samples=200)
def engines_electron_capture(c):
    s = make(c, c.choice('mechanism', ENG), ECSN=c.choice('ECSN', ['Tauris+15', 'Podsiadlowski+04']))
    co, he = c.pos('co', slo=1.37, shi=1.43), c.pos('he', slo=1.4, shi=2.5)
    c.assume(sn_type(s.ECSN, co, he) == 'ECSN')
    st = star(c, co_core_mass=co, he_core_mass=he)
    r = c.run('r', s.compute_m_rembar, st, None)
    c.same('ECSN', tuple(r), (1.38 if s.ECSN == 'Podsiadlowski+04' else co, 0., 'NS')); c.same('type', st.SN_type, 'ECSN')


GONE = ('state', 'mass', 'spin', 'log_R', 'metallicity', 'm_disk_accreted', 'm_disk_radiated', 'co_core_mass')

@contract('C07', SN + ':StepSN.collapse_star', SN + ':StepSN.compute_m_rembar', samples=500, assumes=['compute_m_rembar, PISN_prescription and CO_radius replaced by their contracts (arbitrary results)'])
def collapse(c):
    """from the baryonic remnant mass to the compact object"""
    from posydon.binary_evol.singlestar import STARPROPERTIES
    mech = c.choice('mechanism', ['Fryer+12-rapid', 'Fryer+12-delayed', 'direct'] + ENG)
    how = c.choice('how', ['core', 'nospin', 'none'])
    s = make(c, mech, use_core_masses=how == 'core', allow_spin_None=how == 'nospin')
    mx, nu = c.pos('max_NS_mass', special=(2.5,), slo=1, shi=4), c.nonneg('max_neutrino', special=(0.5, 0.), shi=2)
    s.max_NS_mass, s.max_neutrino_mass_loss = mx, nu
    mb, fb, t = c.pos('m_rembar', slo=1, shi=30), c.real('f_fb', 0, 1), c.choice('SN_type', ['CCSN', 'ECSN', 'PPISN', 'PISN', 'WD'])
    lj = c.real('logJ', slo=45, shi=55)
    tag = c.pos('m_PISN')
    he4 = c.real('he4', special=(0.01,), slo=0, shi=0.1)
    st = star(c, log_total_angular_momentum=lj, center_he4=he4)
    seen = []
    est = None if 'engine' not in mech else ('WD' if t == 'WD' else 'NS')
    def f(x, p): seen.append((x is st, p)); x.SN_type = t; return c.raw(((float('nan') if t == 'PISN' else mb), fb, est))
    s.compute_m_rembar = f; s.PISN_prescription = lambda x: c.raw(tag)
    rad = c.pos('radius'); asked = []
    c.patch(c.fn(SN + ':CO_radius'), lambda m, x: (asked.append((m, x)), c.raw(rad))[1])
    r = c.run('r', s.collapse_star, st)
    c.same('uses-PISN', seen, [(True, tag)]); c.same('f_fb', st.f_fb, fb)
    if t == 'WD':
        c.same('wd', (st.state, st.mass, st.spin, st.he_core_mass), ('WD', mb, 0., mb))
        if he4 < 0.01: c.same('co-wd', st.co_core_mass, mb)
        else: c.same('he-wd', st.co_core_mass, 0.)
        return
    if t == 'PISN':
        c.same('nothing', st.state, 'massless_remnant'); c.check('no-mass', st.mass is None or c.isnan(st.mass) or st.mass == 0); return
    if how == 'none': c.check('failed', isinstance(r, str)); return
    c.same('ok', r, None)
    g = c.max(20 * (c.sqrt(1 + 0.3 * mb) - 1) / 3, mb - nu)
    c.eq('gravitational-mass', st.mass, g)
    c.check('not-heavier', st.mass <= mb)
    c.check('positive', st.mass > 0)
    bh = g >= mx
    c.same('state', st.state, 'BH' if bh else 'NS')
    if how == 'nospin': c.same('spin', st.spin, None)
    elif bh:
        a = c.exp10(lj) * c.K('clight') / (c.K('standard_cgrav') * (g * c.K('Msun'))**2)
        c.eq('spin', st.spin, c.min(a, 1.))
    else: c.same('spin', st.spin, 0.)
    c.same('disk', (st.m_disk_accreted, st.m_disk_radiated), (0., 0.))
    c.eq('radius', st.log_R, c.log10(rad)); c.same('radius-of', asked[-1], (st.mass, st.state))
    for k in STARPROPERTIES:
        if k not in GONE: c.check('reset', getattr(st, k) is None, detail=k)
    c.same('metallicity', st.metallicity, 1.0)


@contract('C07', SN + ':StepSN.collapse_star', samples=500, assumes=['profile collapse (do_core_collapse_BH, get_ejecta_element_mass_at_collapse) replaced by an arbitrary result'])
def collapse_profile(c):
    mech = c.choice('mechanism', ['Fryer+12-delayed'] + ENG[1:2])
    s = make(c, mech, use_profiles=True)
    mx, nu = c.pos('max_NS_mass', special=(2.5,), slo=1, shi=4), c.nonneg('max_neutrino', special=(0.5, 0.), shi=2)
    s.max_NS_mass, s.max_neutrino_mass_loss = mx, nu
    mb = c.pos('m_rembar', slo=1, shi=30)
    st = star(c); st.profile = c.choice('profile', [None, 'profile'])
    prof = st.profile
    est = c.choice('engine-state', ['NS', 'BH'])
    def f(x, p): x.SN_type = 'CCSN'; return c.raw(mb), 1., (est if 'engine' in mech else None)
    s.compute_m_rembar = f
    M_, a_, d1, d2 = c.pos('M_BH'), c.real('a_BH', 0, 1), c.nonneg('d1'), c.nonneg('d2')
    asked = []
    def coll(star, mass_collapsing, mass_central_BH, neutrino_mass_loss, max_neutrino_mass_loss, verbose): asked.append((star is st, mass_collapsing, mass_central_BH, neutrino_mass_loss, max_neutrino_mass_loss)); return c.raw(dict(M_BH_total=M_, a_BH_total=a_, m_disk_accreted=d1, m_disk_radiated=d2))
    c.patch(c.fn(SN + ':do_core_collapse_BH'), coll)
    c.patch(c.fn(SN + ':get_ejecta_element_mass_at_collapse'), lambda s_, m, verbose=False: (asked.append(m), (0.1, 0.2))[1])
    c.patch(c.fn(SN + ':CO_radius'), lambda m, x: 1.)
    r = c.run('r', s.collapse_star, st)
    g = c.max(20 * (c.sqrt(1 + 0.3 * mb) - 1) / 3, mb - nu)
    if prof is None:
        c.check('no-profile', not asked)
        c.eq('core-mass', st.mass, g); c.same('state', st.state, 'BH' if g >= mx else 'NS'); return
    c.check('profile', len(asked) > 0 or isinstance(r, str))
    bh = g >= mx
    if 'engine' in mech:
        if est == 'NS': c.same('ns', (st.state, st.spin), ('NS', 0.)); c.eq('ns-mass', st.mass, g); return
        if not bh: c.check('failed', isinstance(r, str)); return
    if bh:
        c.same('bh', (st.state, st.mass, st.spin, st.m_disk_accreted, st.m_disk_radiated), ('BH', M_, a_, d1, d2))
        q = asked[0]; c.check('same-star', q[0] is True)
        c.eq('collapsing', q[1], mb); c.eq('central', q[2], mx + (mb - g)); c.eq('neutrino', q[3], mb - g); c.eq('max-neutrino', q[4], nu)
    else:
        c.same('ns', (st.state, st.spin), ('NS', 0.)); c.eq('ns-mass', st.mass, g)


@contract('C07', SN + ':StepSN.collapse_star', SN + ':check_SN_CO_match', samples=500, assumes=['get_SN_MODEL_NAME returns the name of a configured model'])
def collapse_interpolated(c):
    """interpolated remnants are used exactly when they agree with the star's own supernova type"""
    from posydon.binary_evol.singlestar import STARPROPERTIES
    import copy
    s = make(c, use_interp_values=True)
    c.patch(c.fn(SN + ':get_SN_MODEL_NAME'), lambda *a, **k: 'SN_MODEL_v2_01')
    c.patch(c.fn(SN + ':CO_radius'), lambda m, x: 1.)
    own = c.choice('own', ['WD', 'ECSN', 'CCSN'])
    s.check_SN_type = lambda m_core, m_He_core, m_star: (None, None, None, own)
    t, state = c.choice('SN_type', ['WD', 'CCSN', 'PISN']), c.choice('state', ['WD', 'NS', 'BH'])
    mi, a = (c.pos('mi') if c.bool('mass?') else float('nan')), c.real('a', 0, 1)
    he4 = c.real('he4', special=(0.01,), slo=0, shi=0.1)
    st = star(c, center_he4=he4); st.profile = None
    mod = dict(SN_type=t, state=state, mass=mi, spin=a, m_disk_accreted=0.5, m_disk_radiated=0.25, f_fb=0.75)
    st.SN_MODEL_v2_01 = mod
    mb = c.pos('mb')
    def f(x, p): x.SN_type = 'CCSN'; return c.raw(mb), 1., None
    s.compute_m_rembar = f
    r = c.run('r', s.collapse_star, st)
    match = (state == 'WD') == (t == 'WD') and not (state in ('NS', 'BH') and t == 'PISN')
    if own == t and match and not c.isnan(mi):
        c.same('interpolated', (st.state, st.mass, st.spin, st.m_disk_accreted, st.m_disk_radiated, st.f_fb, st.SN_type), (state, mi, a, 0.5, 0.25, 0.75, t))
        if state == 'WD':
            c.same('he', st.he_core_mass, mi); c.same('co', st.co_core_mass, mi if he4 < 0.01 else 0.)
        else: c.check('reset', st.he_core_mass is None and st.co_core_mass is None and st.surface_h1 is None)
    else:
        c.check('own-collapse', st.state in ('NS', 'BH')); c.check('own-mass', st.mass <= mb); c.same('own-type', st.SN_type, 'CCSN')


@contract('C07', SN + ':check_SN_CO_match')
def type_matches_object(c):
    t = c.choice('t', ['WD', 'ECSN', 'CCSN', 'PPISN', 'PISN']); x = c.choice('x', ['WD', 'NS', 'BH', 'massless_remnant', 'PISN'])
    ok = {'WD': ['WD'], 'NS': ['ECSN', 'CCSN'], 'BH': ['CCSN', 'PPISN'], 'massless_remnant': ['PISN'], 'PISN': ['PISN']}
    c.same('match', c.run('m', SN + ':check_SN_CO_match', t, x), t in ok[x])


@contract('C07', SN + ':StepSN.collapse_star')
def cannot_collapse(c):
    st = star(c, state=c.choice('state', ['H-rich_Core_H_burning', 'NS', 'BH', 'stripped_He_Core_He_burning', 'massless_remnant']))
    f0 = c.snap(st)
    r = c.run('r', make(c).collapse_star, st)
    c.check('message', isinstance(r, str)); c.frame('frame', st, f0, modifies=('m_disk_accreted', 'm_disk_radiated'))
