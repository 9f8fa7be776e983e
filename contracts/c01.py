"""The evolution flow chart, as a total function of (star 1 state, star 2 state, binary state, event)."""
from pyvc.ctx import contract
FC = 'posydon.binary_evol.flow_chart'
CO = ('BH', 'NS', 'WD')
H = ['H-rich_Core_H_burning', 'H-rich_Core_He_burning', 'H-rich_Shell_H_burning', 'H-rich_Core_He_depleted', 'H-rich_Shell_He_burning', 'H-rich_Core_C_burning',
     'H-rich_Core_C_depleted', 'H-rich_non_burning', 'accreted_He_Core_H_burning', 'accreted_He_Shell_H_burning', 'accreted_He_non_burning']
HE = ['accreted_He_Core_He_burning', 'stripped_He_Core_He_burning', 'stripped_He_Core_He_depleted', 'stripped_He_Core_C_depleted', 'stripped_He_non_burning']
NORMAL = H + HE
STARS = list(CO) + ['massless_remnant'] + NORMAL
HE_GRID = HE + ['H-rich_non_burning', 'accreted_He_non_burning']                 # helium-rich in the sense of the helium-star grids
H_EVOLVABLE = [s for s in H if 'C_depleted' not in s]
HE_EVOLVABLE = [s for s in HE_GRID if 'C_depleted' not in s]
COLLAPSING = [s for s in NORMAL if 'depleted' in s or s.endswith('non_burning') or s in ('H-rich_Shell_H_burning', 'accreted_He_Shell_H_burning')]
BIN = ['initially_single_star', 'detached', 'RLO1', 'RLO2', 'contact', 'disrupted', 'merged', 'initial_RLOF']
EV = [None, 'CC1', 'CC2', 'ZAMS', 'oRLO1', 'oRLO2', 'oCE1', 'oCE2', 'oDoubleCE1', 'oDoubleCE2', 'CO_contact', 'redirect_from_ZAMS', 'redirect_from_CO_HMS_RLO',
      'redirect_from_CO_HeMS', 'redirect_from_CO_HeMS_RLO', 'MaxTime_exceeded', 'maxtime', 'oMerging1', 'oMerging2', 'Match1', 'Match2', 'Match12']
STEPS = {'step_HMS_HMS', 'step_CO_HeMS', 'step_CO_HMS_RLO', 'step_CO_HeMS_RLO', 'step_detached', 'step_disrupted', 'step_merged', 'step_initially_single', 'step_dco', 'step_SN', 'step_CE', 'step_end'}
MASSLESS = 'massless_remnant'


def spec(s1, s2, b, e):
    pair = (s1, s2)
    if s1 == s2 == MASSLESS: return 'step_end'
    if MASSLESS in pair and (s1 in CO or s2 in CO): return 'step_end'
    if e in ('maxtime', 'MaxTime_exceeded', 'CO_contact'): return 'step_end'
    if b == 'initial_RLOF': return 'step_end'
    if b == 'merged' and e in ('oMerging1', 'oMerging2'): return 'step_merged'
    if b == 'disrupted':
        if s1 in CO and s2 in CO: return 'step_end'
        if e not in ('CC1', 'CC2'): return 'step_disrupted'
    if b == 'initially_single_star' and e == 'ZAMS': return 'step_initially_single'
    if (e == 'CC1' and s1 in COLLAPSING) or (e == 'CC2' and s2 in COLLAPSING): return 'step_SN'
    star, comp = (s1, s2) if s1 not in CO else (s2, s1)          # meaningful when exactly one is a compact object
    one_co = (s1 in CO) != (s2 in CO)
    if b == 'detached':
        if e == 'ZAMS': return 'step_HMS_HMS' if s1 == s2 == 'H-rich_Core_H_burning' else None
        if e == 'redirect_from_ZAMS': return 'step_detached' if s1 == s2 == 'H-rich_Core_H_burning' else None
        if e is None:
            if s1 in CO and s2 in CO: return 'step_dco'
            if one_co: return 'step_CO_HeMS' if star in HE_EVOLVABLE else ('step_detached' if star in H else None)
            if s1 in NORMAL and s2 in NORMAL: return 'step_detached'
            return None
        if e == 'redirect_from_CO_HMS_RLO': return 'step_detached' if one_co and star in H else None
        if e in ('redirect_from_CO_HeMS', 'redirect_from_CO_HeMS_RLO'): return 'step_detached' if one_co and star in HE_GRID else None
        return None
    for k, donor, other in ((1, s1, s2), (2, s2, s1)):
        if b == 'RLO%d' % k and e == 'oRLO%d' % k:
            if other in CO: return 'step_CO_HeMS_RLO' if donor in HE_EVOLVABLE else ('step_CO_HMS_RLO' if donor in H_EVOLVABLE else None)
            return 'step_merged' if donor in HE_GRID and other in HE_GRID else None
        if b == 'RLO%d' % k and e in ('oCE%d' % k, 'oDoubleCE%d' % k): return 'step_CE' if donor in NORMAL else None
    if b == 'contact' and e in ('oCE1', 'oCE2', 'oDoubleCE1', 'oDoubleCE2'): return 'step_CE' if s2 in NORMAL else None
    return None


ALL = [(a, b, x, e) for a in STARS for b in STARS for x in BIN for e in EV]


def agree(c, chart, want, name, limit=5):
    bad = 0
    for k in ALL:
        if chart.get(k) != want(k):
            bad += 1
            if bad <= limit: c.check(name, False, detail='%r -> %r, expected %r' % (k, chart.get(k), want(k)))
    c.check(name, bad == 0)
    extra = [k for k in chart if k not in ALLSET]
    c.check(name + ':only-known-combinations', not extra, detail=str(extra[:3]))


ALLSET = set(ALL)
SPEC = {k: spec(*k) for k in ALL}


@contract('C01', FC + ':flow_chart', samples=2, notes='C01 default_chart: proof by exhaustive evaluation of all 70400 combinations')
def default_chart(c):
    chart = c.run('chart', FC + ':flow_chart')
    agree(c, chart, SPEC.get, 'combination')
    c.check('known-steps', set(chart.values()) <= STEPS, detail=str(set(chart.values()) - STEPS))
    import posydon.binary_evol.flow_chart as m
    c.check('state-lists', set(m.STAR_STATES_ALL) == set(STARS) and set(m.BINARY_STATES_ALL) == set(BIN) and set(m.BINARY_EVENTS_ALL) == set(EV))
    und = {(s, 'H-rich_Core_H_burning', b, 'CC2') for s in CO for b in ('disrupted', 'detached')}
    c.check('undefined-states', set(m.UNDEFINED_STATES) == und and not any(SPEC[k] for k in und if k[2] != 'disrupted'))


SOME = [k for i, k in enumerate(ALL) if i % 997 == 0] + [k for k in ALL if SPEC[k]][::1999]


@contract('C01', FC + ':flow_chart', samples=20)
def overrides(c):
    """requested changes hit exactly the combinations they name (when these exist) and never leak into later charts"""
    kind = c.choice('kind', ['one', 'every', 'none', 'several'])
    if kind == 'one': change = {c.choice('key', SOME): 'step_x'}
    elif kind == 'every': change = {k: 'step_%d' % i for i, k in enumerate(ALL)}
    elif kind == 'several': change = {k: 'step_%d' % i for i, k in enumerate(ALL) if i % 7 == 0}
    else: change = {}
    change[('no', 'such', 'state', 'x')] = 'step_y'
    keep = dict(change)
    chart = c.run('chart', FC + ':flow_chart', CHANGE_FLOW_CHART=change)
    agree(c, chart, lambda k: (keep[k] if k in keep and SPEC[k] else SPEC[k]), 'changed')
    c.check('request-kept', change == keep)
    later = c.run('later', FC + ':flow_chart')
    agree(c, later, SPEC.get, 'later-default')
    later[ALL[0]] = 'step_z'; later.pop(next(iter(later)))
    agree(c, c.run('again', FC + ':flow_chart'), SPEC.get, 'handed-out-chart-is-private')


@contract('C01', FC + ':flow_chart', samples=20)
def custom_chart(c):
    """a chart supplied by the user is used instead of the default, with the requested changes"""
    base = {('A', 'B', 'detached', None): 'step_1', ('A', 'B', 'RLO1', 'oRLO1'): 'step_2', ALL[5]: 'step_3'}
    key = c.choice('key', list(base) + [ALL[7], ('A', 'C', 'detached', None)])
    b0 = dict(base)
    chart = c.run('chart', FC + ':flow_chart', base, {key: 'step_x'})
    c.same('entries', dict(chart), {k: ('step_x' if k == key else v) for k, v in b0.items()})
    agree(c, c.run('later', FC + ':flow_chart'), SPEC.get, 'later-default')


def ecc(k):
    s1, s2, b, e = k
    ev = set(H_EVOLVABLE) | set(HE_EVOLVABLE)
    if (b, e) in (('RLO1', 'oRLO1'), ('RLO2', 'oRLO2')) and s1 in ev and s2 in ev: return 'step_HMS_HMS_RLO'
    if e == 'ZAMS' and b == 'detached' and SPEC[k]: return 'step_detached'
    return SPEC[k]


@contract('C01', FC + ':initial_eccentricity_flow_chart', samples=10)
def eccentric_chart(c):
    """variant: detached zero-age binaries go to the detached step, mass transfer between two evolvable stars to the eccentric grid; nothing else differs"""
    if c.bool('change'):
        k0 = ('BH', 'BH', 'detached', None)
        chart = c.run('chart', FC + ':initial_eccentricity_flow_chart', CHANGE_FLOW_CHART={k0: 'step_x'})
        agree(c, chart, lambda k: 'step_x' if k == k0 else ecc(k), 'variant-changed')
    else: agree(c, c.run('chart', FC + ':initial_eccentricity_flow_chart'), ecc, 'variant')
    agree(c, c.run('later', FC + ':flow_chart'), SPEC.get, 'later-default')
