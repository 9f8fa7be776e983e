"""Common-envelope evolution (posydon/binary_evol/CE/step_CEE.py and the envelope helpers of posydon/utils/common_functions.py)."""
from pyvc.ctx import contract
from contracts.celib import CF, externs, rl, sep, per, mt
CE = 'posydon.binary_evol.CE.step_CEE'
AFTER = ['one_phase_variable_core_definition', 'two_phases_stableMT', 'two_phases_windloss']
CORE = {'1cent': 0.01, '10cent': 0.1, '30cent': 0.3}


def star(c, n, state, giant=True):
    """a star with its mass, radius and cores; returns also the values the specification uses"""
    from posydon.binary_evol.singlestar import SingleStar
    s = SingleStar(mass=1., state=state)
    m, logR = c.pos('m' + n, slo=1, shi=40), c.real('logR' + n, -20, 20, slo=0.5, shi=3)
    s.mass, s.log_R = m, logR; s.state = state; s.profile = None; s.metallicity = 1.0
    q = dict(m=m, R=c.exp10(logR))
    if giant:
        for k in ('he', 'co'):
            q['m' + k], q['r' + k] = c.pos('m%s%s' % (k, n), slo=0.3, shi=15), c.pos('r%s%s' % (k, n), slo=0.05, shi=2)
            setattr(s, k + '_core_mass', q['m' + k]); setattr(s, k + '_core_radius', q['r' + k])
        q['lam'], q['mc'], q['rc'] = c.pos('lambda' + n, slo=0.05, shi=2), c.pos('mc' + n, slo=0.3, shi=15), c.pos('rc' + n, slo=0.05, shi=2)
    for k, v in dict(center_h1=0., center_he4=0.2, center_c12=0.3, center_n14=0.01, center_o16=0.4, log_LHe=3., log_LZ=1., log_Lnuc=4., log_LH=2., surface_h1=0.6, surface_he4=0.3, c12_c12=1., center_gamma=2.,
                     avg_c_in_c_core=0.3, log_L=5., lg_mdot=-5., spin=0.1, surf_avg_omega=1., total_moment_of_inertia=2.).items(): setattr(s, k, v)
    return s, q


def set_lambda(c, s, q, how, typ, hdef):
    """how the envelope parameter reaches the step"""
    if how == 'default':
        return
    tag = 'pure_He_star_10cent' if typ == 'CO_core' else hdef
    setattr(s, 'lambda_CE_' + tag, q['lam']); setattr(s, 'm_core_CE_' + tag, q['mc']); setattr(s, 'r_core_CE_' + tag, q['rc'])


def make(c, **k):
    from posydon.binary_evol.CE.step_CEE import StepCEE
    return StepCEE(**k)


def binary(c, which, d, o, P, event):
    import posydon.binary_evol.binarystar as M
    b = M.BinaryStar(); b.star_1, b.star_2 = (d, o) if which == 1 else (o, d)
    b.orbital_period = P; b.separation = 100.; b.eccentricity = 0.3; b.state = 'RLO%d' % which; b.event = event; b.time = 3.; b.V_sys = [1., 2., 3.]
    b.mass_transfer_case = 'case_C'; b.nearest_neighbour_distance = ['x']; b.lg_mtransfer_rate = -1.; b.trap_radius = 4.
    return b


def balance(c, alpha, m1, m2, mc1, mc2, P, *env):
    """post-CE separation (Rsun): alpha (G mc1 mc2/2a_f - G m1 m2/2a_i) = sum G m m_env/(lambda R)"""
    ai = sep(c, P, m1, m2)
    bind = sum((m * (m - mc) / (lam * R) for m, mc, lam, R in env), c.num(0.))
    return mc1 * mc2 / 2 / (m1 * m2 / (2 * ai) + bind / alpha)


def spec_after(c, opt, a, q1, q2, f1, f2, tol, double):
    """what the chosen treatment of the phase after the envelope is lost does: (merges, final masses, radii, separation, period)"""
    mc1, mc2 = q1[0], q2[0]
    def rlo(m1, r1, m2, r2, sepr): return c.Or(r1 - rl(c, m1, m2, sepr) >= tol, r2 - rl(c, m2, m1, sepr) >= tol)
    if opt == AFTER[0]:
        return rlo(mc1, q1[1], mc2, q2[1], a), mc1, q1[1], mc2, q2[1], a, per(c, a, mc1, mc2)
    m1f, r1f = (f1[0] if f1[0] <= mc1 else mc1), f1[1]
    m2f, r2f = ((f2[0] if f2[0] <= mc2 else mc2), f2[1]) if double else (mc2, q2[1])
    if rlo(mc1, r1f, mc2, r2f, a): return True, None, None, None, None, None, None
    Pc = per(c, a, mc1, mc2)
    if opt == AFTER[1] and not double: Pf = mt(c, Pc, mc1, m1f, mc2, 0., 1.)
    else:
        Pf = mt(c, Pc, mc1, m1f, mc2, 1., 0.)
        if double: Pf = mt(c, Pf, mc2, m2f, m1f, 1., 0.)
    af = sep(c, Pf, m1f, m2f)
    return rlo(m1f, r1f, m2f, r2f, af), m1f, r1f, m2f, r2f, af, Pf


def check_star(c, n, s, typ, m, r, opt, hdef):
    c.eq(n + ':mass', s.mass, m); c.eq(n + ':log_R', s.log_R, c.log10(r))
    c.eq(n + ':he_core_mass', s.he_core_mass, m); c.eq(n + ':he_core_radius', s.he_core_radius, r)
    if typ == 'CO_core': c.eq(n + ':co_core_mass', s.co_core_mass, m); c.eq(n + ':co_core_radius', s.co_core_radius, r); h, he = 0., 0.1
    else:
        h = CORE[hdef] if opt == AFTER[0] else 0.01; he = 1 - h - 0.0142
    c.eq(n + ':surface_h1', s.surface_h1, c.num(h)); c.eq(n + ':surface_he4', s.surface_he4, c.num(he))
    c.eq(n + ':center_he4', s.center_he4, c.num(0.2)); c.eq(n + ':center_h1', s.center_h1, c.num(0.)); c.eq(n + ':metallicity', s.metallicity, c.num(1.))
    for k in ('log_L', 'lg_mdot', 'spin', 'surf_avg_omega', 'total_moment_of_inertia'): c.check('%s:%s unknown' % (n, k), c.isnan(getattr(s, k)))
    c.check(n + ':state', s.state.startswith('stripped_He' if h <= 0.01 else 'H-rich'), detail=s.state)


@contract('C09', CE + ':StepCEE.__call__', CE + ':StepCEE.calculate_lambda_CE', CE + ':StepCEE.CEE_simple_alpha_prescription', CE + ':StepCEE.CEE_adjust_post_CE_core_masses', CE + ':StepCEE.CEE_one_phase_variable_core_definition',
          CE + ':StepCEE.CEE_two_phases_stableMT', CE + ':StepCEE.CEE_two_phases_windloss', CE + ':StepCEE.CEE_adjust_binary_upon_ejection', CE + ':StepCEE.CEE_adjust_binary_upon_merger', CF + ':check_for_RLO', samples=1200, timeout_ms=15000)
def single(c):
    """one envelope: energy balance, merger exactly when a stripped core overfills its lobe, otherwise the stripped binary"""
    which, how, state, typ, hdef = c.choice('variant', [(1, 'default', 'H-rich_Shell_H_burning', 'He_core', '30cent'), (2, 'default', 'stripped_He_Core_He_depleted', 'CO_core', '30cent'),
        (1, 'grid', 'stripped_He_Core_He_depleted', 'CO_core', '1cent'), (2, 'grid', 'H-rich_Core_He_depleted', 'He_core', '30cent')])
    opt = c.choice('after', AFTER)
    ce(c, which, how, state, typ, opt, hdef, False)


@contract('C09', CE + ':StepCEE.__call__', CE + ':StepCEE.CEE_simple_alpha_prescription', CE + ':StepCEE.CEE_adjust_post_CE_core_masses', CE + ':StepCEE.CEE_two_phases_stableMT', CE + ':StepCEE.CEE_two_phases_windloss',
          CE + ':StepCEE.CEE_adjust_binary_upon_ejection', CE + ':StepCEE.CEE_adjust_binary_upon_merger', samples=1200, timeout_ms=15000)
def double(c):
    """both envelopes are lost together"""
    which, how, state, typ, ctyp = c.choice('variant', [(1, 'default', 'H-rich_Core_He_burning', 'He_core', 'CO_core'), (2, 'grid', 'stripped_He_Core_C_depleted', 'CO_core', 'He_core'),
                                                         (1, 'grid', 'H-rich_Core_He_burning', 'He_core', 'He_core')])
    opt = c.choice('after', AFTER)
    ce(c, which, how, state, typ, opt, '10cent', True, ctyp)


def ce(c, which, how, state, typ, opt, hdef, dbl, ctyp=None):
    externs(c)
    alpha, P = c.pos('alpha', slo=0.2, shi=3), c.pos('P', slo=1, shi=3000)
    lamdef = c.pos('lambda_default', slo=0.1, shi=1)
    d, q = star(c, '1', state)
    o, p = star(c, '2', {None: 'BH', 'He_core': 'H-rich_Core_He_depleted', 'CO_core': 'stripped_He_Core_He_depleted'}[ctyp], giant=dbl)
    par = []
    for s, x, t in ((d, q, typ), (o, p, ctyp)):
        if t is None: continue
        k = 'co' if t == 'CO_core' else 'he'
        lam, mc, rc = (lamdef, x['m' + k], x['r' + k]) if how == 'default' else (x['lam'], x['mc'], x['rc'])
        set_lambda(c, s, x, how, t, hdef); c.assume(mc < x['m']); par.append((lam, mc, rc, x['m' + k], x['r' + k]))
    tol = c.num(1e-3)
    step = make(c, common_envelope_efficiency=c.raw(alpha), common_envelope_lambda_default=c.raw(lamdef), common_envelope_option_for_lambda='default_lambda' if how == 'default' else 'lambda_from_grid_final_values',
                core_definition_H_fraction=CORE[hdef], common_envelope_option_after_succ_CEE=opt)
    (lam, mc1, rc1, mf1, rf1) = par[0]
    m1, m2, R1, R2 = q['m'], p['m'], q['R'], p['R']
    if dbl: (lam2, mc2, rc2, mf2, rf2) = par[1]; env = ((m1, mc1, lam, R1), (m2, mc2, lam2, R2))
    else: mc2, rc2, mf2, rf2 = m2, R2, None, None; env = ((m1, mc1, lam, R1),)
    a = c.name('a_post', balance(c, alpha, m1, m2, mc1, mc2, P, *env))
    if c.symbolic: c.fact('a_post>0', a > 0)
    b = binary(c, which, d, o, P, ('oDoubleCE%d' if dbl else 'oCE%d') % which)
    so = c.snap(o)
    c.run('step', step, b)
    M, m1f, r1f, m2f, r2f, af, Pf = spec_after(c, opt, a, (mc1, rc1), (mc2, rc2), (mf1, rf1), (mf2, rf2), tol, dbl)
    if M:
        c.same('merged', (b.state, b.event), ('merged', 'oMerging%d' % which))
        c.eq('m1', d.mass, m1); c.eq('m2', o.mass, m2); c.check('logR', c.isnan(d.log_R)); c.check('logR2', c.isnan(o.log_R))
        if typ == 'CO_core': c.eq('he1', d.he_core_mass, m1)
        if ctyp == 'CO_core': c.eq('he2', o.he_core_mass, m2)
    else:
        c.same('detached', (b.state, b.event), ('detached', 'CC%d' % which if state == 'stripped_He_Core_He_depleted' else None))
        c.eq('separation', b.separation, af); c.eq('period', b.orbital_period, Pf); c.eq('circular', b.eccentricity, c.num(0.))
        c.same('kept', (b.time, b.V_sys, b.mass_transfer_case, b.nearest_neighbour_distance), (3., [1., 2., 3.], 'case_C', ['x']))
        for k in ('lg_mtransfer_rate', 'trap_radius'): c.check(k + ' unknown', c.isnan(getattr(b, k)))
        check_star(c, 'donor', d, typ, m1f, r1f, opt, hdef)
        if dbl: check_star(c, 'companion', o, ctyp, m2f, r2f, opt, hdef)
        else: c.frame('companion', o, so)
    c.check('who', (b.star_1 is d) == (which == 1) and (b.star_2 is o) == (which == 1))


@contract('C09', CE + ':StepCEE.__call__', CE + ':StepCEE.adjust_secondary_radius', CE + ':StepCEE.CEE_simple_alpha_prescription', samples=600, timeout_ms=15000,
          assumes=['the track matcher hands back a single-star track whose radius at the current time replaces an inflated companion radius'])
def inflated_companion(c):
    """a companion that overfills its lobe only because its tabulated radius is inflated is given the radius of the matching single star"""
    externs(c)
    which = c.choice('which', [1, 2]); cstate, h = c.choice('companion', [('H-rich_Core_H_burning', True), ('stripped_He_Core_He_burning', False)]); opt = c.choice('after', AFTER[:2])
    alpha, P, lam = c.pos('alpha', slo=0.2, shi=3), c.pos('P', slo=1, shi=3000), c.pos('lambda', slo=0.1, shi=1)
    d, q = star(c, '1', 'H-rich_Core_He_burning'); o, p = star(c, '2', cstate, giant=False)
    R = c.pos('R_single', slo=0.1, shi=30); seen = []
    class Matcher:
        def do_matching(s, b, step_name=None, match_primary=None, match_secondary=None):
            seen.append((b, b.time, match_primary, match_secondary, o.htrack, o.co)); o.interp1d = lambda t: {'R': c.raw(R)} if t == 3. else None
            return 1, 2, False
    mc, rc = q['mhe'], q['rhe']; c.assume(mc < q['m'])
    a = c.name('a_post', balance(c, alpha, q['m'], p['m'], mc, p['m'], P, (q['m'], mc, lam, q['R'])))
    if c.symbolic: c.fact('a_post>0', a > 0)
    step = make(c, common_envelope_efficiency=c.raw(alpha), common_envelope_lambda_default=c.raw(lam), common_envelope_option_for_lambda='default_lambda', common_envelope_option_after_succ_CEE=opt, track_matcher=Matcher())
    b = binary(c, which, d, o, P, 'oCE%d' % which)
    c.run('step', step, b)
    tol = c.num(1e-3); rc2 = p['R']
    inflated = c.And(rc - rl(c, mc, p['m'], a) < tol, rc2 - rl(c, p['m'], mc, a) > tol)
    if inflated: rc2 = R; c.check('matched', len(seen) == 1 and seen[0][0] is b and seen[0][2:] == (False, True, h, False))
    else: c.check('not matched', not seen)
    M, m1f, r1f, m2f, r2f, af, Pf = spec_after(c, opt, a, (mc, rc), (p['m'], rc2), (mc, rc), (None, None), tol, False)
    if M: c.same('merged', (b.state, b.event), ('merged', 'oMerging%d' % which))
    else: c.same('detached', b.state, 'detached'); c.eq('separation', b.separation, af); c.eq('period', b.orbital_period, Pf); c.eq('companion mass', o.mass, p['m']); c.eq('companion radius', o.log_R, c.log10(p['R']))


STATES = ['H-rich_Core_H_burning', 'stripped_He_Core_He_burning', 'accreted_He_Core_He_burning', 'H-rich_Shell_H_burning', 'H-rich_Core_He_burning', 'H-rich_Core_He_depleted', 'H-rich_Core_C_depleted', 'stripped_He_Core_He_depleted',
          'stripped_He_Core_C_depleted', 'WD', 'NS', 'BH', 'massless_remnant']


@contract('C09', CE + ':StepCEE.__call__', samples=400)
def immediate(c):
    """donors without a core-envelope boundary merge at once (Hertzsprung-gap donors in the pessimistic option); anything that is not a common envelope is rejected"""
    externs(c)
    st = c.choice('state', STATES); hg = c.choice('HG', ['optimistic', 'pessimistic']); ev = c.choice('event', ['oCE1', 'oCE2', 'oDoubleCE1', 'oDoubleCE2', 'oRLO1', 'oMerging1', None, 'CC1', 'ZAMS'])
    pres = c.choice('prescription', ['alpha-lambda', 'gamma'])
    d, q = star(c, '1', st); o, p = star(c, '2', 'H-rich_Core_H_burning' if ev in ('oCE1', 'oCE2') else 'H-rich_Core_He_burning')
    step = make(c, common_envelope_option_for_HG_star=hg, prescription=pres)
    went = []; step.CEE_simple_alpha_prescription = lambda *a, **k: went.append((a, k)); step.calculate_lambda_CE = lambda *a, **k: (1., 2., 3., 'He_core')
    which = 2 if ev in ('oCE2', 'oDoubleCE2') else 1
    b = binary(c, which, d, o, 100., ev); s1, s2, sb = c.snap(d), c.snap(o), c.snap(b)
    r = c.call(step, b)
    if ev not in ('oCE1', 'oCE2', 'oDoubleCE1', 'oDoubleCE2'):
        c.check('rejected', r.raised(ValueError)); c.frame('binary', b, sb); return
    if st in ('H-rich_Core_H_burning', 'stripped_He_Core_He_burning', 'accreted_He_Core_He_burning') or hg == 'pessimistic' and st == 'H-rich_Shell_H_burning':
        c.check('no error', r.exc is None); c.same('merges', (b.state, b.event), ('merged', 'oMerging%d' % which)); c.frame('donor', d, s1); c.frame('companion', o, s2); c.frame('binary', b, sb, ('state', 'event')); c.check('no balance', not went)
    elif pres == 'gamma': c.check('rejected', r.raised(ValueError)); c.frame('binary', b, sb)
    else: c.check('no error', r.exc is None); c.check('balance', len(went) == 1)


@contract('C09', CE + ':StepCEE.calculate_lambda_CE', samples=400)
def envelope_parameters(c):
    """which core definition supplies lambda, core mass and core radius, and which settings are rejected"""
    st = c.choice('state', HE_CORE_DONORS + CO_CORE_DONORS + ['WD', 'BH']); opt = c.choice('option', ['default_lambda', 'lambda_from_grid_final_values', 'lambda_from_profile_gravitational', 'nonsense'])
    hd, hed = c.choice('H', DEFS), c.choice('He', DEFS[1:3]); prof = c.bool('profile')
    d, q = star(c, '1', st); tags = {}
    for t in ('1cent', '10cent', '30cent', 'pure_He_star_10cent'):
        tags[t] = tuple(c.pos('%s_%s' % (k, t)) for k in ('lambda', 'm', 'r'))
        for k, v in zip(('lambda_CE_', 'm_core_CE_', 'r_core_CE_'), tags[t]): setattr(d, k + t, v)
    if prof: d.profile = object()
    lam = c.pos('lambda_default'); got = []
    ret = tuple(c.pos('prof_' + k) for k in 'lmr')
    def from_profile(**k): got.append(k); return tuple(c.raw(x) for x in ret)
    import posydon.binary_evol.CE.step_CEE as S
    c.patch_attr(S, 'calculate_lambda_from_profile', from_profile)
    step = make(c, common_envelope_lambda_default=c.raw(lam), common_envelope_option_for_lambda=opt, core_definition_H_fraction=hd, core_definition_He_fraction=hed)
    r = c.call(step.calculate_lambda_CE, d)
    typ = 'He_core' if st in HE_CORE_DONORS else 'CO_core' if st in CO_CORE_DONORS else None
    bad = typ is None or (typ == 'He_core' and hd not in DEFS[1:]) or (typ == 'CO_core' and hed != DEFS[2])
    if bad or opt == 'nonsense' and prof: c.check('rejected', r.raised(ValueError)); return
    c.check('accepted', r.exc is None, detail=repr(r.exc)); l, m, rr, t = r.value; c.same('type', t, typ)
    k = 'he' if typ == 'He_core' else 'co'
    if opt == 'lambda_from_grid_final_values': exp = tags['pure_He_star_10cent' if typ == 'CO_core' else {DEFS[1]: '1cent', DEFS[2]: '10cent', DEFS[3]: '30cent'}[hd]]
    elif opt == 'default_lambda' or not prof: exp = (lam, q['m' + k], q['r' + k])
    else:
        exp = ret; g = got[0]
        c.check('profile', g['profile'] is d.profile and g['donor_star_state'] == st); c.eq('m1', g['m1_i'], q['m']); c.eq('R1', g['radius1'], q['R'])
        c.check('definition', g['core_element_fraction_definition'] == (hd if typ == 'He_core' else hed) and g['common_envelope_option_for_lambda'] == opt)
    c.same('parameters', (l, m, rr), exp)


DEFS = [0.2, 0.01, 0.1, 0.3]
HE_CORE_DONORS = ['H-rich_Shell_H_burning', 'H-rich_Core_He_burning', 'H-rich_Core_He_depleted', 'H-rich_Core_C_depleted']
CO_CORE_DONORS = ['stripped_He_Core_He_depleted', 'stripped_He_Core_C_depleted']


class Prof(dict):
    """a stellar profile: named columns from the surface inwards"""
    _strip = True
    class _D: pass
    def __init__(s, c, **cols):
        import numpy as np
        dict.__init__(s, {k: np.array(list(v), dtype=object if c.symbolic else float) for k, v in cols.items()})
        s.dtype = Prof._D(); s.dtype.names = tuple(cols)


@contract('C09', CE + ':StepCEE.CEE_adjust_mass_loss_during_CEE_merged', CE + ':StepCEE.CEE_adjust_binary_upon_merger', samples=900, timeout_ms=15000)
def partial_ejection(c):
    """in a merger the envelopes are partly ejected with the orbital energy released down to contact of the cores, never more than the envelopes"""
    externs(c)
    which, dbl, prof = c.choice('variant', [(1, False, True), (2, False, True), (1, True, True), (2, True, True), (1, False, False), (2, True, False)])
    alpha, P, lam = c.pos('alpha', slo=0.01, shi=0.3), c.pos('P', slo=1, shi=30), c.pos('lambda', slo=0.1, shi=1)
    d, q = star(c, '1', 'H-rich_Core_He_burning'); o, p = star(c, '2', 'H-rich_Core_He_depleted' if dbl else 'BH', giant=dbl)
    if prof: d.profile = 'profile of the donor'; o.profile = 'profile of the companion' if dbl else None
    m1, m2, mc1, rc1, R1, R2 = q['m'], p['m'], q['mhe'], q['rhe'], q['R'], p['R']; c.assume(m1 - mc1 >= 0.01)
    if dbl: mc2, rc2 = p['mhe'], p['rhe']; c.assume(m2 - mc2 >= 0.01)
    else: mc2, rc2 = m2, R2
    e1, e2 = c.nonneg('ejected1', slo=0, shi=40), c.nonneg('ejected2', slo=0, shi=40); asked = {}
    def mej(profile, E, mc, rc, m1_i=0.0, radius1=0.0): asked[profile] = (E, mc, rc, m1_i, radius1); return c.raw(e1 if 'donor' in profile else e2)
    import posydon.binary_evol.CE.step_CEE as S
    c.patch_attr(S, 'calculate_Mejected_for_integrated_binding_energy', mej)
    a = c.name('a_post', balance(c, alpha, m1, m2, mc1, mc2, P, *(((m1, mc1, lam, R1), (m2, mc2, lam, R2)) if dbl else ((m1, mc1, lam, R1),))))
    if c.symbolic: c.fact('a_post>0', a > 0)
    c.assume(rc1 - rl(c, mc1, mc2, a) >= 1e-3)        # the donor's core overfills its lobe
    step = make(c, common_envelope_efficiency=c.raw(alpha), common_envelope_lambda_default=c.raw(lam), common_envelope_option_for_lambda='default_lambda', common_envelope_option_after_succ_CEE=AFTER[0], mass_loss_during_CEE_merged=True)
    b = binary(c, which, d, o, P, ('oDoubleCE%d' if dbl else 'oCE%d') % which)
    c.run('step', step, b)
    c.same('merged', (b.state, b.event), ('merged', 'oMerging%d' % which))
    if not prof: c.eq('m1', d.mass, m1); c.eq('m2', o.mass, m2); c.check('no profile', not asked); return
    ai = sep(c, P, m1, m2); af1, af2 = rc1 / rl(c, mc1, mc2, 1), rc2 / rl(c, mc2, mc1, 1); af = af2 if af2 > af1 else af1; env1, env2 = m1 - mc1, m2 - mc2
    G = c.K('standard_cgrav') * c.K('Msun')**2 / c.K('Rsun') / 2
    E = alpha * G * (mc1 * mc2 / af - m1 * m2 / ai)
    w = env1 / (env1 + env2) if dbl else c.num(1.)
    c.same('profiles', sorted(asked), ['profile of the companion', 'profile of the donor'] if dbl else ['profile of the donor'])
    c.eq('energy1', asked['profile of the donor'][0], E * w, rtol=1e-6); c.same('donor', asked['profile of the donor'][1:], (mc1, rc1, m1, R1))
    if dbl: c.eq('energy2', asked['profile of the companion'][0], E * env2 / (env1 + env2), rtol=1e-6); c.same('companion', asked['profile of the companion'][1:], (mc2, rc2, m2, R2))
    c.eq('m1', d.mass, m1 - (env1 - 0.01 if e1 > env1 else e1))
    c.eq('m2', o.mass, m2 - (env2 - 0.01 if e2 > env2 else e2) if dbl else m2)
    c.check('never more than the envelope', d.mass >= mc1); c.check('never more than the envelope 2', o.mass >= mc2)


def decreasing(c, x, strict):
    """mass and radius decrease inwards"""
    for k in ('mass', 'radius'):
        d = [(c.pos if strict else c.nonneg)('d%s[%d]' % (k, i), slo=0 if not strict else 0.01, shi=3, special=() if strict else (0.,)) for i in range(N)]
        v = [c.pos('%s_c' % k, slo=0.01, shi=2)]
        for i in range(N - 1): v.append(v[-1] + d[i])
        x[k] = v[::-1]
    return x


def columns(c, n, *names):
    """columns of a profile (dm in grams and u in erg/g as MESA writes them)"""
    unit = {'dm': c.K('Msun'), 'u': c.num(1e14)}
    return {k: [(c.real if k == 'u' else c.pos)('%s[%d]' % (k, i), slo=0.1, shi=5) * unit.get(k, 1) for i in range(n)] for k in names}


N = 4


@contract('C09', CF + ':calculate_binding_energy', samples=400, bound='profiles of %d cells' % N)
def binding_energy(c):
    """the binding energy is the sum over the cells outside the core of gravitational plus weighted internal energy"""
    x = columns(c, N, 'mass', 'radius', 'dm', 'u'); k = c.choice('core', range(N + 1)); f = c.nonneg('factor', special=(0., 1.), shi=2)
    P = Prof(c, **x)
    E = c.run('E', CF + ':calculate_binding_energy', P['mass'], P['radius'], P['dm'], P['u'], k, f, False)
    G, Ms, Rs = c.K('standard_cgrav'), c.K('Msun'), c.K('Rsun')
    c.eq('sum', E, sum((-G * x['mass'][i] * Ms * x['dm'][i] * Ms / (x['radius'][i] * Rs) + f * x['u'][i] * x['dm'][i] * Ms for i in range(k)), c.num(0.)), rtol=1e-6)


@contract('C09', CF + ':calculate_Mejected_for_integrated_binding_energy', CF + ':get_mass_radius_dm_from_profile', samples=900, bound='profiles of %d cells' % N)
def ejected_mass(c):
    """the ejected mass lies above the shell where the energy budget is used up: between zero and the envelope"""
    x = decreasing(c, {}, False); dm = c.bool('dm'); n = N
    if dm: x.update(columns(c, N, 'dm'))
    mc, rc, thr = c.nonneg('mc', slo=0, shi=20), c.nonneg('rc', slo=0, shi=20), c.real('threshold', special=(0.,), slo=-1, shi=300) * 1e48
    c.assume(mc <= x['mass'][0]); c.assume(rc <= x['radius'][0])
    P = Prof(c, **x)
    M = c.run('M', CF + ':calculate_Mejected_for_integrated_binding_energy', P, thr, mc, rc, m1_i=x['mass'][0], radius1=x['radius'][0])
    G, Ms, Rs = c.K('standard_cgrav'), c.K('Msun'), c.K('Rsun')
    cell = [x['dm'][i] / Ms if dm else (x['mass'][i] - x['mass'][i + 1] if i < n - 1 else x['mass'][i]) for i in range(n)]
    E, i = c.num(0.), 0
    while i < n and E < thr: E = E + G * Ms * Ms / Rs * x['mass'][i] * cell[i] / x['radius'][i]; i += 1
    j = max(i - 1, 0)
    exp = mc if c.Or(x['mass'][j] < mc, x['radius'][j] < rc) else x['mass'][j]
    c.eq('boundary', M, x['mass'][0] - exp); c.check('envelope', M <= x['mass'][0] - mc) if exp is not mc else None; c.check('nonneg', M >= 0)
    if thr <= 0: c.eq('no energy', M, c.num(0.))


@contract('C09', CF + ':calculate_lambda_from_profile', CF + ':calculate_core_boundary', CF + ':linear_interpolation_between_two_cells', CF + ':calculate_binding_energy', samples=600, bound='profiles of %d cells' % N)
def lambda_from_profile(c):
    """lambda reproduces the binding energy of the envelope outside the interpolated core boundary"""
    state, col = c.choice('star', [('H-rich_Core_He_burning', 'x_mass_fraction_H'), ('stripped_He_Core_He_depleted', 'y_mass_fraction_He')])
    x = decreasing(c, columns(c, N, 'dm'), True); k = c.choice('core', [-1, 0, 1, 2]); f = c.real('definition', 0, 1, slo=0.01, shi=0.3)
    el = [c.real('el[%d]' % i, 0, 1, slo=0 if i == k else 0.31, shi=0.01 if i == k else 1) for i in range(N)]
    if k >= 0:
        c.assume(el[k] <= f)
        for i in range(k): c.assume(el[i] > f)
    else:
        for i in range(N): c.assume(el[i] > f)
    z = c.num(0.) ; rest = [1 - e for e in el]
    x.update(x_mass_fraction_H=el if col[0] == 'x' else [z] * N, y_mass_fraction_He=el if col[0] == 'y' else rest, z_mass_fraction_metals=rest if col[0] == 'y' else [z] * N)
    if k >= 0: c.assume(rest[k] >= 0.1)
    P = Prof(c, **x)
    r = c.run('lambda', CF + ':calculate_lambda_from_profile', P, state, m1_i=x['mass'][0], radius1=x['radius'][0], common_envelope_option_for_lambda='lambda_from_profile_gravitational', core_element_fraction_definition=f)
    lam, mc, rc = r
    if k == 0: c.check('all core', c.isnan(lam)); c.eq('mc', mc, x['mass'][0]); c.eq('rc', rc, x['radius'][0]); return
    def cells(j): return sum((x['mass'][i] * x['dm'][i] / c.K('Msun') / x['radius'][i] for i in range(j)), c.num(0.))
    if k == -1: w = None; B = cells(N); emc, erc = c.num(0.), c.num(0.)
    else:
        w = (f - el[k - 1]) / (el[k] - el[k - 1]); mix = lambda a, b: a + w * (b - a)
        B = mix(cells(k - 1), cells(k)); emc, erc = mix(x['mass'][k - 1], x['mass'][k]), mix(x['radius'][k - 1], x['radius'][k])
    c.eq('mc', mc, emc); c.eq('rc', rc, erc)
    c.eq('binding', x['mass'][0] * (x['mass'][0] - mc), lam * x['radius'][0] * B, rtol=1e-6)
