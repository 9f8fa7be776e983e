"""Star-state inference."""
from pyvc.ctx import contract
import math
CF = 'posydon.utils.common_functions'
REL = math.log10(0.03)


def thresholds(c):
    import posydon.utils.limits_thresholds as L
    for n, v in (('THRESHOLD_CENTRAL_ABUNDANCE', 0.01), ('THRESHOLD_HE_NAKED_ABUNDANCE', 0.01), ('LOG10_BURNING_THRESHOLD', -10.),
                 ('REL_LOG10_BURNING_THRESHOLD', REL),
                 ('STATE_WD_STARMASS_UPPER_LIMIT', 1.46), ('STATE_NS_STARMASS_LOWER_LIMIT', 1.1), ('STATE_NS_STARMASS_UPPER_LIMIT', 2.5)):
        c.eq('documented-' + n, getattr(L, n), v, rtol=1e-7)
    return L


def burning_suffixes(c, L, h1, he4, c12, LH, LHe, Lnuc):
    """spec: burning phase of a non-compact star; comparisons with missing (NaN) values are false"""
    T = L.THRESHOLD_CENTRAL_ABUNDANCE
    H, He, C = h1 > T, he4 > T, c12 > T
    def burn(x):
        if not (x > L.LOG10_BURNING_THRESHOLD): return False
        return True if x - Lnuc > L.REL_LOG10_BURNING_THRESHOLD else False
    if H: return 'Core_H_burning' if burn(LH) else 'non_burning'
    if He:
        if burn(LHe): return 'Core_He_burning'
        return 'Shell_H_burning' if burn(LH) else 'non_burning'
    return 'Core_He_depleted' if C else 'Core_C_depleted'


def richness(c, L, hs, h1):
    """allowed prefixes (equality is judged at 1e-10, so the band around it admits both)"""
    if hs > L.THRESHOLD_HE_NAKED_ABUNDANCE: return ['H-rich']
    if c.isnan(h1): return ['stripped_He']
    if h1 - hs > 2e-10: return ['accreted_He']
    if h1 <= hs: return ['stripped_He']
    return ['accreted_He', 'stripped_He']


def abund(c, n): return c.real(n, 0, 1, nan=True, special=(0., 0.01, 0.0101, 0.3), slo=0, shi=1)
def lum(c, n): return c.real(n, nan=True, special=(-10., -99., 0., 3., -1.52), slo=-20, shi=8)


@contract('C05', CF + ':infer_star_state', samples=600)
def normal_star(c):
    L = thresholds(c)
    m = c.real('mass', nan=True)
    hs, h1, he4, c12 = abund(c, 'surface_h1'), abund(c, 'center_h1'), abund(c, 'center_he4'), abund(c, 'center_c12')
    LH, LHe, Ln = lum(c, 'log_LH'), lum(c, 'log_LHe'), lum(c, 'log_Lnuc')
    r = c.run('state', CF + ':infer_star_state', star_mass=m, surface_h1=hs, center_h1=h1, center_he4=he4, center_c12=c12,
              log_LH=LH, log_LHe=LHe, log_Lnuc=Ln, star_CO=False)
    if c.isnan(hs): c.same('undetermined', r, 'undetermined_evolutionary_state'); return
    b = burning_suffixes(c, L, h1, he4, c12, LH, LHe, Ln)
    c.check('richness-and-burning', r in [p + '_' + b for p in richness(c, L, hs, h1)], detail='%r, expected %s' % (r, b))


@contract('C05', CF + ':infer_star_state')
def missing_star(c):
    """nothing known (or surface hydrogen missing): undetermined, never raises"""
    hs = c.choice('surface', ['omit', None, float('nan')])
    kw = {} if hs == 'omit' else dict(surface_h1=hs)
    if c.bool('mass'): kw['star_mass'] = c.real('m')
    if c.bool('center'): kw['center_h1'] = abund(c, 'center_h1')
    c.same('undetermined', c.run('state', CF + ':infer_star_state', **kw), 'undetermined_evolutionary_state')


@contract('C05', CF + ':infer_star_state', samples=600)
def compact_object(c):
    L = thresholds(c)
    m = c.choice('m?', [None, 'v']) and c.real('mass', nan=True, special=(0., 1.1, 1.46, 2.5), slo=-1, shi=5)
    names = ['surface_h1', 'center_h1', 'center_he4', 'center_c12']
    kw = {}
    for n in names:
        k = c.choice(n + '?', ['omit', 'none', 'val'])
        if k == 'none': kw[n] = None
        elif k == 'val': kw[n] = c.real(n, nan=True, slo=0, shi=1, special=(0.,))
    r = c.run('state', CF + ':infer_star_state', star_mass=m, star_CO=True, **kw)
    if m is None or c.isnan(m) or m <= 0: c.same('massless', r, 'massless_remnant'); return
    light = False
    for n in names:
        v = kw.get(n)
        if v is not None and not c.isnan(v) and v > 0: light = True; break
    if m <= 1.46 and (light or m < 1.1): c.same('WD', r, 'WD')
    elif m <= 2.5: c.same('NS', r, 'NS')
    else: c.same('BH', r, 'BH')


STATES = ['WD', 'NS', 'BH', 'massless_remnant', 'H-rich_Core_H_burning', 'stripped_He_Core_He_burning']
class Obj:
    _strip = True
    def __init__(s, **k): s.__dict__.update(k)

FIELDS = ['mass', 'surface_h1', 'center_h1', 'center_he4', 'center_c12', 'log_LH', 'log_LHe', 'log_Lnuc']

def mkstar(c, tag, n):
    star = Obj()
    for f in FIELDS:
        rows = []
        for j in range(n + 1):
            rows.append(c.real('%s%s%d' % (tag, f, j), 0, 1, special=(0., 0.01)) if '_h' in f or 'c12' in f else
                        c.real('%s%s%d' % (tag, f, j), slo=-20, shi=20))
        setattr(star, f, rows[n]); setattr(star, f + '_history', rows[:n])
    return star


@contract('C05', CF + ':check_state_of_star', CF + ':infer_star_state', bound='history length 2 (rows are read independently)')
def state_of_star(c):
    """check_state_of_star classifies the current values, or those of the requested history row"""
    import posydon.utils.limits_thresholds as L
    star = mkstar(c, 's', 2)
    star.state = c.str('state', STATES); star.state_history = [c.str('st0', STATES), c.str('st1', STATES)]
    co = c.bool('co')
    i = c.choice('i', [None, 0, 1, -1, -2])
    v = {f: (getattr(star, f) if i is None else getattr(star, f + '_history')[i]) for f in FIELDS}
    r = c.run('state', CF + ':check_state_of_star', star, i, co)
    if co:
        if star.state_history[-1] == 'WD' or star.state == 'WD': c.same('WD', r, 'WD'); return
        m = v['mass']
        c.same('co', r, 'massless_remnant' if m <= 0 else ('WD' if m < 1.1 else ('NS' if m <= 2.5 else 'BH')))
        return
    b = burning_suffixes(c, L, v['center_h1'], v['center_he4'], v['center_c12'], v['log_LH'], v['log_LHe'], v['log_Lnuc'])
    c.check('state', r in [p + '_' + b for p in richness(c, L, v['surface_h1'], v['center_h1'])], detail='%r, expected %s' % (r, b))


@contract('C05', CF + ':check_state_of_star_history_array', bound='history length 2, N <= 2')
def state_history(c):
    """array version = last N rows in order"""
    star = mkstar(c, 's', 2)
    star.state = 'H-rich_Core_H_burning'; star.state_history = ['H-rich_Core_H_burning'] * 2
    co = c.bool('co')
    N = c.choice('N', [1, 2, None])
    f = c.fn(CF + ':check_state_of_star')
    r = c.run('states', CF + ':check_state_of_star_history_array', star, *([] if N is None else [N]), star_CO=co)
    n = N or 1
    if not c.check('length', len(r) == n): return
    for k in range(n): c.same('row', r[k], c.call(f, star, k - n, co).value)
