"""Stellar mergers (posydon/binary_evol/DT/step_merged.py)."""
from pyvc.ctx import contract
MG = 'posydon.binary_evol.DT.step_merged'
MS, POSTMS, HEMS, POSTHEMS = ['H-rich_Core_H_burning'], ['H-rich_Shell_H_burning', 'H-rich_Core_He_burning', 'H-rich_Core_He_depleted', 'H-rich_Core_C_depleted'], ['stripped_He_Core_He_burning'], \
    ['stripped_He_Core_He_depleted', 'stripped_He_Core_C_depleted', 'accreted_He_Core_He_burning']
CENTER = ['center_h1', 'center_he4', 'center_c12', 'center_n14', 'center_o16']
SURFACE = ['surface_h1', 'surface_he4', 'surface_c12', 'surface_n14', 'surface_o16']
CORES = ['he_core_mass', 'c_core_mass', 'o_core_mass', 'co_core_mass']
UNKNOWN = ['log_R', 'log_L', 'lg_mdot', 'lg_system_mdot', 'lg_wind_mdot', 'log_LH', 'log_Lnuc', 'surf_avg_omega', 'conv_env_top_mass', 'conv_env_bot_radius', 'lambda_CE_1cent', 'lambda_CE_pure_He_star_10cent', 'profile',
           'log_total_angular_momentum', 'c12_c12', 'total_moment_of_inertia', 'spin']


def kind(s): return 'MS' if s in MS else 'POSTMS' if s in POSTMS else 'HEMS' if s in HEMS else 'POSTHEMS' if s in POSTHEMS else s


def star(c, n, state, co=None, missing=False):
    """a star; returns it and the values the specification uses"""
    from posydon.binary_evol.singlestar import SingleStar, STARPROPERTIES
    s = SingleStar(mass=1., state=state); q = {}
    for k in STARPROPERTIES:
        if k not in ('state', 'metallicity', 'mass', 'profile'): setattr(s, k, c.raw(c.num(0.625)))
    s.profile = 'profile'; z = c.num(0.)
    co = co and state not in MS
    q['co_core_mass'] = c.pos('co' + n, slo=0.1, shi=10) if co else z
    q['he_core_mass'] = z if state in MS else q['co_core_mass'] + c.pos('he_layer' + n, slo=0.1, shi=10)        # every layer whose mass is a mixing weight is present
    q['mass'] = q['he_core_mass'] + c.pos('envelope' + n, slo=0.1, shi=10)
    for k in ('c_core_mass', 'o_core_mass'): q[k] = c.nonneg(k + n, slo=0.1, shi=10, special=(0.,)) if co else z
    for k in CENTER + SURFACE + ['avg_c_in_c_core', 'center_gamma', 'log_LHe', 'log_LZ']: q[k] = c.real(k + n, 0, 1, slo=0, shi=1)
    for k, v in q.items(): setattr(s, k, v)
    if missing: s.surface_o16 = None; q['surface_o16'] = None
    s.state = state
    return s, q


def mean(c, a, b, wa, wb):
    if a is None or b is None: return None
    return (a * wa + b * wb) / (wa + wb)


def spec(c, p, q, kp, kq, loss):
    """what the merger of base star p with companion q gives: ('error'|'star'|'remnant', properties)"""
    order = {'MS': 0, 'POSTMS': 1}
    if kp not in ('MS', 'POSTMS', 'HEMS', 'POSTHEMS'): return 'error', None
    if kq in ('NS', 'BH'): return 'remnant', None
    if kq == 'WD':
        r = dict(p)
        for k in ['mass'] + CORES: r[k] = p[k] + q['mass']
        if not p['has_co']: src = dict((k, q[k]) for k in CENTER + ['avg_c_in_c_core', 'center_gamma'])
        else: src = dict((k, mean(c, p[k], q[k], p['co_core_mass'], q['co_core_mass'])) for k in CENTER + ['avg_c_in_c_core']); src['center_gamma'] = None
        r.update(src); return 'star', r
    if kp == 'MS' and kq == 'MS':
        r = dict(p)
        for k in CENTER + SURFACE: r[k] = mean(c, p[k], q[k], p['mass'], q['mass'])
        r['mass'] = (p['mass'] + q['mass']) * (1 - loss); r['center_gamma'] = r['avg_c_in_c_core'] = None
        return 'star', r
    if 'MS' in (kp, kq):
        if not (kp == 'POSTMS' or kq == 'POSTMS'): return 'error', None
        g, m = (p, q) if kq == 'MS' else (q, p); r = dict(g)            # the giant keeps its core
        for k in SURFACE: r[k] = mean(c, g[k], m[k], g['mass'] - g['he_core_mass'], m['mass'])
        r['mass'] = p['mass'] + q['mass']; r['keep_L'] = True
        return 'star', r
    g, h = (p, q) if kp == 'POSTMS' or kq != 'POSTMS' else (q, p); r = dict(g)      # both have cores: these merge
    a, b = p['has_co'], q['has_co']
    if a == b:
        w = 'co_core_mass' if a else 'he_core_mass'
        for k in CENTER + ['avg_c_in_c_core']: r[k] = mean(c, p[k], q[k], p[w], q[w])
        r['center_gamma'] = None
    else:
        for k in CENTER + ['avg_c_in_c_core', 'center_gamma']: r[k] = (p if a else q)[k]
    for k in ['mass'] + CORES: r[k] = p[k] + q[k]
    if kp == kq == 'POSTMS': lay = lambda x: x['mass'] - x['he_core_mass']
    elif 'POSTMS' not in (kp, kq): lay = lambda x: x['he_core_mass'] - x['co_core_mass']
    else: lay = None
    if lay:
        for k in SURFACE: r[k] = mean(c, p[k], q[k], lay(p), lay(q))
    return 'star', r


def step(c, **k):
    from posydon.binary_evol.DT.step_merged import MergedStep
    s = object.__new__(MergedStep); s.verbose = False; s.merger_critical_rot = 0.4; s.rel_mass_lost_HMS_HMS = 0.1
    for n, v in k.items(): setattr(s, n, v)
    return s


def massless(c, n, s):
    c.same(n, (s.state, s.mass), ('massless_remnant', 0.))


PAIRS = [(a, b) for a in ('H-rich_Core_H_burning', 'H-rich_Core_He_burning', 'H-rich_Core_C_depleted', 'stripped_He_Core_He_burning', 'stripped_He_Core_C_depleted')
         for b in ('H-rich_Core_H_burning', 'H-rich_Shell_H_burning', 'H-rich_Core_He_depleted', 'stripped_He_Core_He_burning', 'stripped_He_Core_He_depleted', 'accreted_He_Core_He_burning', 'WD', 'NS', 'BH')]


@contract('C10', MG + ':MergedStep.merged_star_properties', MG + ':MergedStep.mass_weighted_avg', MG + ':MergedStep.__call__', samples=1500)
def merge(c):
    """the merger product of every pair of stellar types, either star being the base"""
    s1, s2 = c.choice('pair', PAIRS); which = c.choice('base', [1, 2])
    p, q = one(c, '1', s1), one(c, '2', s2)
    loss = c.real('loss', 0, 1, slo=0, shi=0.3, special=(0.1,)); crit = c.pos('critical', hi=1, slo=0.1, shi=1)
    run_merge(c, s1, s2, which, p, q, loss, crit)


def one(c, n, state, missing=False):
    co = c.bool('CO core ' + n) if state not in MS + HEMS and state not in ('NS', 'BH') else False
    if state == 'WD': co = True
    s, v = star(c, n, state, co, missing); v['has_co'] = co
    return s, v


def run_merge(c, s1, s2, which, P, Q, loss, crit):
    import posydon.binary_evol.DT.step_merged as M
    import posydon.binary_evol.binarystar as BM
    (x, p), (y, q) = P, Q; inferred = []
    def infer(star, i=None, star_CO=False): inferred.append((star, c.snap(star), star_CO)); return 'inferred state'
    c.patch_attr(M, 'check_state_of_star', infer)
    went = []; c.patch_attr(M.IsolatedStep, '__call__', lambda s, b: went.append((b.star_1, b.star_2, b.state)))
    b = BM.BinaryStar(); b.star_1, b.star_2 = (x, y) if which == 1 else (y, x); b.state, b.event = 'merged', 'oMerging%d' % which
    o = c.call(step(c, rel_mass_lost_HMS_HMS=c.raw(loss), merger_critical_rot=c.raw(crit)), b)
    what, r = spec(c, p, q, kind(s1), kind(s2), loss)
    if what == 'error': c.check('rejected', o.exc is not None and type(o.exc).__name__ == 'ModelError', detail=repr(o.exc)); return
    c.check('accepted', o.exc is None, detail=repr(o.exc) + o.tb)
    base, comp = (b.star_1, b.star_2) if which == 1 else (b.star_2, b.star_1)
    c.check('evolves on', len(went) == 1 and went[0] == (b.star_1, b.star_2, 'merged'))
    if what == 'remnant':
        massless(c, 'swallowed', base); c.check('compact object stays', comp is y)
        for k in ['mass'] + CENTER + CORES: c.same('compact ' + k, getattr(comp, k), q[k])
        c.same('compact state', comp.state, s2); return
    massless(c, 'companion', comp); c.check('two stars', {id(base), id(comp)} == {id(x), id(y)})
    for k in ['mass'] + CORES + CENTER + SURFACE + ['avg_c_in_c_core', 'center_gamma']:
        v = getattr(base, k)
        if r[k] is None: c.check(k + ' unknown', c.isnan(v))
        else: c.eq(k, v, r[k])
    for k in UNKNOWN: c.check(k + ' unknown', c.isnan(getattr(base, k)))
    for k in ('log_LHe', 'log_LZ'):
        if r.get('keep_L'): c.eq(k + ' kept', getattr(base, k), r[k])
        else: c.check(k + ' unknown', c.isnan(getattr(base, k)))
    c.eq('rotation', base.surf_avg_omega_div_omega_crit, crit)
    if kind(s1) == kind(s2) == 'MS': c.same('state', base.state, s1)
    else:
        c.same('state', base.state, 'inferred state')
        c.check('inferred from the product', inferred and inferred[-1][0] is base and not inferred[-1][2])
        for k in ['mass'] + CORES + CENTER + SURFACE:
            if r[k] is not None: c.same('inferred from ' + k, inferred[-1][1][k], r[k])


@contract('C10', MG + ':MergedStep.merged_star_properties', MG + ':MergedStep.mass_weighted_avg', samples=300)
def missing_abundance(c):
    """an abundance one of the stars does not know is unknown in the mixture"""
    s1, s2 = c.choice('pair', [('H-rich_Core_H_burning', 'H-rich_Core_H_burning'), ('H-rich_Core_He_burning', 'H-rich_Shell_H_burning'), ('H-rich_Core_He_burning', 'H-rich_Core_H_burning')]); which = c.choice('base', [1, 2])
    k = c.choice('missing', [1, 2])
    p, q = one(c, '1', s1, k == 1), one(c, '2', s2, k == 2)
    run_merge(c, s1, s2, which, p, q, c.num(0.1), c.num(0.4))


@contract('C10', MG + ':MergedStep.__call__', samples=300)
def entry(c):
    """which star is the base, and which binaries cannot merge"""
    import posydon.binary_evol.DT.step_merged as M
    import posydon.binary_evol.binarystar as BM
    from posydon.binary_evol.singlestar import SingleStar
    st = c.choice('state', ['merged', 'contact', 'RLO1', 'detached']); ev = c.choice('event', ['oMerging1', 'oMerging2', 'oRLO1', 'oRLO2', 'oCE1', None])
    a, b = c.choice('stars', [('stripped_He_Core_He_burning', 'stripped_He_Core_He_depleted'), ('H-rich_Core_H_burning', 'stripped_He_Core_He_burning'), ('H-rich_Core_H_burning', 'WD')])
    x, y = SingleStar(mass=3., state=a), SingleStar(mass=2., state=b)
    bb = BM.BinaryStar(); bb.star_1, bb.star_2, bb.state, bb.event = x, y, st, ev
    seen = []; went = []
    s = step(c); s.merged_star_properties = lambda base, comp: (seen.append((base, comp)), (('product', base), ('gone', comp)))[1]
    c.patch_attr(M.IsolatedStep, '__call__', lambda s, b: went.append(b.state))
    o = c.call(s, bb)
    he = a.startswith('stripped') and b.startswith('stripped')
    ok = ev in ('oMerging1', 'oMerging2') if st == 'merged' else he and ev in ('oRLO1', 'oRLO2')
    if not ok: c.check('rejected', o.raised(ValueError) and not went); return
    c.check('accepted', o.exc is None); c.check('evolves on', went == ['merged'])
    f = ev[-1] == '1'
    c.check('base', seen == [(x, y) if f else (y, x)])
    c.same('slots', (bb.star_1[0], bb.star_2[0]), ('product', 'gone') if f else ('gone', 'product'))
