"""Mass-transfer classification, binary state/event, cumulative flags, exchange of the stars."""
from pyvc.ctx import contract
CF = 'posydon.utils.common_functions'
RICH = ['H-rich', 'stripped_He', 'accreted_He']
BURN = ['Core_H_burning', 'Core_He_burning', 'Shell_H_burning', 'Core_He_depleted', 'Core_C_depleted', 'non_burning']
STATES = [r + '_' + b for r in RICH for b in BURN] + ['WD', 'NS', 'BH', 'massless_remnant', 'undetermined_evolutionary_state']
NO, A, B_, C_, BA, BB, BC, NB, UN = 0, 1, 2, 3, 4, 5, 6, 8, 9
CASES = [0, 1, 2, 3, 4, 5, 6, 8, 9]
NAME = {1: 'A', 2: 'B', 3: 'C', 4: 'BA', 5: 'BB', 6: 'BC', 8: 'nonburning'}


def donor_case(state):
    """case of a donor that transfers mass, from its evolutionary phase"""
    if 'non_burning' in state: return NB
    dep = 'Core_He_depleted' in state or 'Core_C_depleted' in state
    if 'H-rich' in state:
        if 'Core_H_burning' in state: return A
        if 'Core_He_burning' in state or 'Shell_H_burning' in state: return B_
        if dep: return C_
    elif 'stripped_He' in state:
        if 'Core_He_burning' in state: return BA
        if dep: return BB
    return UN


def spec_case(ov, lg, state, dom):
    if ov is None or lg is None: return NO
    if ov > 0: return donor_case(state)
    if dom and lg > -10: return donor_case(state)
    return NO


def opt(c, name, **k):
    return c.real(name, **k) if c.bool(name + '?') else None


OV = dict(special=(0.,), slo=-2, shi=2)
LG = dict(special=(-10., -9.999), slo=-20, shi=0)


@contract('C06', CF + ':infer_mass_transfer_case', samples=800)
def case_of_donor(c):
    st = c.choice('state', STATES)
    ov, lg = opt(c, 'overflow', **OV), opt(c, 'lgmdot', **LG)
    dom = c.choice('dominating', [None, False, True])
    kw = {} if dom is None else dict(dominating_star=dom)
    r = c.run('case', CF + ':infer_mass_transfer_case', ov, lg, st, verbose=False, **kw)
    c.same('case', r, spec_case(ov, lg, st, dom is not False))


class Obj:
    _strip = True
    def __init__(s, **k): s.__dict__.update(k)


REP = ['H-rich_Core_H_burning', 'H-rich_Core_He_burning', 'H-rich_Shell_H_burning', 'H-rich_Core_C_depleted', 'H-rich_non_burning', 'stripped_He_Core_He_burning',
       'stripped_He_Core_He_depleted', 'accreted_He_Core_H_burning', 'BH', 'NS', 'WD', 'undetermined_evolutionary_state']
CO_LIKE = ['H-rich_Core_H_burning', 'stripped_He_Core_He_burning', 'WD', 'NS', 'BH']


def spec_state(c, ic, ov1, ov2, lg, s1, s2, g1, g2):
    if ic == 'not_converged': return [None, None, 'None']
    if ic == 'initial_MT': return ['initial_RLOF', None, 'None']
    if ov1 is not None and ov2 is not None: dom1 = ov1 >= ov2
    else: dom1 = ov2 is None
    dom1 = bool(dom1)
    k1, k2 = spec_case(ov1, lg, s1, dom1), spec_case(ov2, lg, s2, not dom1)
    r1, r2 = k1 in NAME, k2 in NAME
    unstable = ic == 'unstable_MT'
    if r1 and r2:
        if unstable:
            comp = s2 if dom1 else s1
            e = 'oCE' if comp in CO_LIKE else 'oDoubleCE'
            return ['contact', e + ('1' if dom1 else '2'), 'None']
        res = ['contact', None, 'None']
    elif k1 == NO and k2 == NO: res = ['detached', None, 'None']
    elif r1:
        res = ['RLO1', None, 'case_' + NAME[k1] + '1']
        if unstable: return ['RLO1', 'oCE1', res[2]]
    elif r2:
        res = ['RLO2', None, 'case_' + NAME[k2] + '2']
        if unstable: return ['RLO2', 'oCE2', res[2]]
    else: res = ['undefined', None, 'None']
    def cc(s, g):
        if 'Core_C_depleted' in s or 'Core_He_depleted' in s: return True
        return g is not None and g >= 10
    if cc(s1, g1): res[1] = 'CC1'
    elif cc(s2, g2): res[1] = 'CC2'
    return res


GAM = dict(special=(10.,), slo=0, shi=20)

@contract('C06', CF + ':get_binary_state_and_event_and_mt_case', CF + ':infer_mass_transfer_case', CF + ':cumulative_mass_transfer_string', samples=1500)
def state_event_case(c):
    s1, s2 = c.choice('s1', REP), c.choice('s2', REP)
    ov1, ov2, lg = c.real('ov1', **OV), c.real('ov2', **OV), c.real('lg', **LG)
    b = Obj(lg_mtransfer_rate=lg, rl_relative_overflow_1=ov1, rl_relative_overflow_2=ov2, star_1=Obj(state=s1, center_gamma=None), star_2=Obj(state=s2, center_gamma=None))
    ic = c.choice('class', [None, 'unstable_MT', 'stable_MT'])
    r = c.run('r', CF + ':get_binary_state_and_event_and_mt_case', b, ic)
    c.same('state-event-case', list(r), spec_state(c, ic, ov1, ov2, lg, s1, s2, None, None))


@contract('C06', CF + ':get_binary_state_and_event_and_mt_case', samples=1500)
def state_event_missing(c):
    """missing overflow or rate values, white-dwarf formation by central degeneracy, remaining interpolation classes"""
    S = ['H-rich_Core_H_burning', 'BH', 'stripped_He_Core_He_burning', 'H-rich_Core_He_depleted']
    s1, s2 = c.choice('s1', S), c.choice('s2', S)
    ov1, ov2, lg = opt(c, 'ov1', **OV), opt(c, 'ov2', **OV), opt(c, 'lg', **LG)
    g1, g2 = opt(c, 'g1', **GAM), opt(c, 'g2', **GAM)
    b = Obj(lg_mtransfer_rate=lg, rl_relative_overflow_1=ov1, rl_relative_overflow_2=ov2, star_1=Obj(state=s1, center_gamma=g1), star_2=Obj(state=s2, center_gamma=g2))
    ic = c.choice('class', [None, 'not_converged', 'initial_MT', 'no_MT'])
    r = c.run('r', CF + ':get_binary_state_and_event_and_mt_case', b, interpolation_class=ic)
    c.same('state-event-case', list(r), spec_state(c, ic, ov1, ov2, lg, s1, s2, g1, g2))


@contract('C06', CF + ':get_binary_state_and_event_and_mt_case', CF + ':get_binary_state_and_event_and_mt_case_array', bound='history length 2 (rows are read independently)', samples=600)
def state_event_history(c):
    """the history version classifies the last N rows, in order, each from its own values"""
    S = ['H-rich_Core_H_burning', 'NS', 'stripped_He_Core_C_depleted']
    rows = []
    for j in range(2):
        rows.append((c.real('ov1%d' % j, **OV), c.real('ov2%d' % j, **OV), c.real('lg%d' % j, **LG), c.choice('s1%d' % j, S[:2]), c.choice('s2%d' % j, S[1:])))
    gamma = c.choice('gamma', ['short', 'val'])
    g1, g2 = ([], []) if gamma == 'short' else ([c.real('g10', **GAM), 1.], [2., c.real('g21', **GAM)])
    b = Obj(lg_mtransfer_rate_history=[r[2] for r in rows], rl_relative_overflow_1_history=[r[0] for r in rows], rl_relative_overflow_2_history=[r[1] for r in rows],
            star_1=Obj(state_history=[r[3] for r in rows], center_gamma_history=g1, state='BH', center_gamma=99.),
            star_2=Obj(state_history=[r[4] for r in rows], center_gamma_history=g2, state='BH', center_gamma=99.),
            lg_mtransfer_rate=0., rl_relative_overflow_1=-1., rl_relative_overflow_2=-1.)
    N = c.choice('N', [1, 2])
    o = c.run('arr', CF + ':get_binary_state_and_event_and_mt_case_array', b, N)
    for k in range(N):
        j = 2 - N + k
        ov1, ov2, lg, s1, s2 = rows[j]
        want = spec_state(c, None, ov1, ov2, lg, s1, s2, g1[j] if g1 else None, g2[j] if g2 else None)
        for col in range(3): c.same('row', o[col][k], want[col])


@contract('C06', CF + ':get_binary_state_and_event_and_mt_case', CF + ':get_binary_state_and_event_and_mt_case_array')
def nothing_known(c):
    r = c.run('none', CF + ':get_binary_state_and_event_and_mt_case', None)
    c.same('none', list(r), [None, None, 'None'])
    st = c.choice('s', REP)
    ov = c.real('ov', **OV); lg = c.real('lg', **LG)
    b = Obj(lg_mtransfer_rate=lg, rl_relative_overflow_1=ov, rl_relative_overflow_2=None, star_1=Obj(state=st, center_gamma=None), star_2=Obj(state='BH', center_gamma=None))
    r = c.run('cur', CF + ':get_binary_state_and_event_and_mt_case_array', b)
    c.same('cur', list(r), spec_state(c, None, ov, None, lg, st, 'BH', None, None))


def spec_numeric(cases):
    if not cases: return [UN]
    out = [UN] if UN in cases else []
    rest = [x for x in cases if x != UN]
    if not rest: return out
    mt = [x for x in rest if x != NO]
    if not mt: return out + [NO]
    for i, x in enumerate(mt):
        if i == 0 or mt[i - 1] != x: out.append(x)
    return out


def spec_string(nums):
    if not nums: return '?'
    out, first = '', True
    for x in nums:
        if x == UN: out += '?'
        elif x == NO: out += 'no_RLO'
        else:
            out += 'case_' if first else '/'; first = False
            out += NAME[x] + '1' if x in NAME else NAME[x - 10] + '2'
    return out


@contract('C06', CF + ':cumulative_mass_transfer_numeric', CF + ':cumulative_mass_transfer_flag', CF + ':cumulative_mass_transfer_string', bound='sequences of at most 4 steps over the cases none, A, B of either star, undetermined', samples=800)
def cumulative(c):
    n = c.choice('n', [0, 1, 2, 3, 4])
    seq = [c.choice('x%d' % i, [0, 1, 2, 9, 11, 12]) for i in range(n)]
    keep = list(seq)
    r = c.run('num', CF + ':cumulative_mass_transfer_numeric', seq)
    c.same('input-kept', seq, keep)
    c.same('numeric', list(r), spec_numeric(keep))
    s = c.run('flag', CF + ':cumulative_mass_transfer_flag', seq)
    c.same('input-kept2', seq, keep)
    c.same('flag', s, spec_string(spec_numeric(keep)))


@contract('C06', CF + ':cumulative_mass_transfer_numeric', CF + ':cumulative_mass_transfer_string', bound='sequences of at most 2 steps over all cases of either star')
def cumulative_all_cases(c):
    D = CASES + [x + 10 for x in CASES if x in NAME]
    n = c.choice('n', [1, 2])
    seq = [c.choice('x%d' % i, D) for i in range(n)]
    r = c.run('num', CF + ':cumulative_mass_transfer_numeric', list(seq))
    c.same('numeric', list(r), spec_numeric(seq))
    c.same('string', c.run('str', CF + ':cumulative_mass_transfer_string', list(r)), spec_string(spec_numeric(seq)))
    if all(x < 10 for x in seq):
        from posydon.utils.common_functions import MT_CASE_TO_STR
        r2 = c.run('names', CF + ':cumulative_mass_transfer_numeric', [MT_CASE_TO_STR[x] for x in seq])
        c.same('by-name', list(r2), spec_numeric(seq))


@contract('C06', CF + ':cumulative_mass_transfer_flag', bound='sequences of at most 3 steps', samples=800)
def cumulative_shifted(c):
    """shift_cases: a donor never returns to an earlier case; the other donor is unaffected"""
    n = c.choice('n', [1, 2, 3])
    seq = [c.choice('x%d' % i, [0, 1, 2, 4, 8, 11, 12, 13, 18]) for i in range(n)]
    keep = list(seq)
    top = {1: 0, 2: 10}; want = []
    for x in keep:
        d = 1 if x <= 9 else 2
        top[d] = max(top[d], x); want.append(top[d])
    s = c.run('flag', CF + ':cumulative_mass_transfer_flag', seq, shift_cases=True)
    c.same('input-kept', seq, keep)
    c.same('monotone', s, spec_string(spec_numeric([x for x in want])))


EVENTS = [None, 'CC1', 'CC2', 'ZAMS', 'oRLO1', 'oRLO2', 'oCE1', 'oCE2', 'oDoubleCE1', 'oDoubleCE2', 'CO_contact', 'redirect_from_ZAMS', 'maxtime',
          'oMerging1', 'oMerging2', 'Match1', 'Match2', 'Match12', 'END']
BSTATES = ['detached', 'RLO1', 'RLO2', 'contact', 'disrupted', 'merged']
def swap_label(e):
    if e in ('RLO1', 'RLO2') or (e and e[:-1] in ('CC', 'oRLO', 'oCE', 'oDoubleCE', 'oMerging', 'Match') and e[-1] in '12'):
        return e[:-1] + ('2' if e[-1] == '1' else '1')
    return e


@contract('C06', CF + ':flip_stars', bound='history length 2', samples=800)
def exchange(c):
    from posydon.binary_evol.singlestar import SingleStar
    a, b = SingleStar(mass=c.pos('m1'), state='BH'), SingleStar(mass=c.pos('m2'), state='H-rich_Core_H_burning')
    st, ev, hist_s, hist_e = 'RLO1', 'oCE2', ['RLO2', 'contact'], ['oRLO1', 'CC2']
    mode = c.choice('mode', ['current', 'states', 'events'])
    if mode == 'current': st, ev = c.choice('state', BSTATES), c.choice('event', EVENTS)
    elif mode == 'states': hist_s = [c.choice('hs0', BSTATES), c.choice('hs1', BSTATES)]
    else: hist_e = [c.choice('h0', EVENTS), c.choice('h1', EVENTS)]
    x = Obj(star_1=a, star_2=b, state=st, event=ev, state_history=list(hist_s), event_history=list(hist_e), mass_transfer_case='None', separation=c.pos('sep'))
    for n in ('t_sync_rad_', 't_sync_conv_', 'rl_relative_overflow_'):
        for k in '12':
            setattr(x, n + k, c.real(n + k)); setattr(x, n + k + '_history', [c.real('%s%sh%d' % (n, k, j)) for j in range(2)])
    pre = c.snap(x); pa, pb = c.snap(a), c.snap(b)
    c.run('flip', CF + ':flip_stars', x)
    c.same('state', x.state, swap_label(st)); c.same('event', x.event, swap_label(ev))
    c.same('state_history', list(x.state_history), [swap_label(e) for e in hist_s])
    c.same('event_history', list(x.event_history), [swap_label(e) for e in hist_e])
    for n in ('t_sync_rad_', 't_sync_conv_', 'rl_relative_overflow_'):
        for h in ('', '_history'):
            c.same('swap', getattr(x, n + '1' + h), pre[n + '2' + h]); c.same('swap', getattr(x, n + '2' + h), pre[n + '1' + h])
    c.frame('star1', x.star_1, pb); c.frame('star2', x.star_2, pa)
    c.frame('binary', x, pre, modifies=[k for k in pre if k.endswith(('_history', '_1', '_2', 'state', 'event'))])
