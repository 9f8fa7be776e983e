"""History arrays of binaries and stars: append and restore, for every history length and index."""
from pyvc.ctx import contract
BS = 'posydon.binary_evol.binarystar'
SS = 'posydon.binary_evol.singlestar'


class Hook:
    extra_binary_col_names = ['colA']; extra_star_col_names = ['colB']
class Plain: pass
class Props:
    def __init__(s, hooks): s.all_hooks_classes = hooks


def setup(c, hooks=()):
    """binary whose n-row histories (n >= 1 arbitrary) and current values are arbitrary"""
    from posydon.binary_evol.binarystar import BinaryStar, BINARYPROPERTIES
    from posydon.binary_evol.singlestar import SingleStar, STARPROPERTIES
    n = c.int('n', 1, shi=5)
    b = BinaryStar.__new__(BinaryStar)
    b.star_1, b.star_2 = SingleStar.__new__(SingleStar), SingleStar.__new__(SingleStar)
    for o, tag, props in ((b, 'b', BINARYPROPERTIES), (b.star_1, 's1', STARPROPERTIES), (b.star_2, 's2', STARPROPERTIES)):
        o._strip = True
        o.unrelated = c.real(tag + '.unrelated')
        for p in props:
            setattr(o, p, c.real('%s.%s' % (tag, p)))
            setattr(o, p + '_history', c.lst('%s.%s_h' % (tag, p), n))
    b.history_verbose = c.bool('verbose')
    b.properties = Props(list(hooks))
    if hooks:
        b.colA = c.lst('colA', n); b.star_1.colB = c.lst('colB1', n); b.star_2.colB = c.lst('colB2', n)
    return b, n, BINARYPROPERTIES, STARPROPERTIES


def snapshot(o):
    return {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in vars(o).items()}


def L(x):
    return x.n if hasattr(x, '_sarr') else len(x)


def at(c, x, k): return x.f(k) if c.symbolic else x[k]


@contract('C03', SS + ':SingleStar.append_state', BS + ':BinaryStar.append_state', samples=60)
def append(c):
    """one more row, equal to the current values, in every history; earlier rows and everything else untouched"""
    b, n, BP, SP = setup(c)
    b.event = c.choice('event', [None, 'oRLO1', 'CC2', 'END', 'redirect_from_ZAMS', 'redirect_from_CO_HeMS'])
    pre = [(o, t, snapshot(o), props) for o, t, props in ((b, 'binary', BP), (b.star_1, 'star1', SP), (b.star_2, 'star2', SP))]
    c.run('append', b.append_state)
    skip = (not b.history_verbose) and b.event is not None and 'redirect' in b.event
    k = c.int('k', 0, n - 1, shi=3)
    for o, t, s, props in pre:
        for p in props:
            h = getattr(o, p + '_history')
            c.check(t + '.length', L(h) == (n if skip else n + 1), detail=p)
            c.same(t + '.earlier-row', at(c, h, k), at(c, s[p + '_history'], k))
            if not skip: c.same(t + '.row', at(c, h, n), s[p])
            c.same(t + '.current', getattr(o, p), s[p])
        c.frame(t, o, s, modifies=[p + '_history' for p in props])


@contract('C03', BS + ':BinaryStar.restore', SS + ':SingleStar.restore', samples=60)
def restore(c):
    """current values become row i, histories keep exactly rows 0..i, hook columns are cut alike; nothing else changes"""
    hooks = c.choice('hooks', [(), (Plain(), Hook())])
    b, n, BP, SP = setup(c, hooks)
    b.event = None
    i = c.int('i', 0, n - 1, shi=4)
    neg = c.bool('negative')
    objs = [(b, 'binary', BP, ['colA']), (b.star_1, 'star1', SP, ['colB']), (b.star_2, 'star2', SP, ['colB'])]
    pre = [snapshot(o[0]) for o in objs]
    c.run('restore', b.restore, i - n if neg else i)
    k = c.int('k', 0, i, shi=3)
    for (o, t, props, cols), s in zip(objs, pre):
        for p in props:
            c.same(t + '.current', getattr(o, p), at(c, s[p + '_history'], i))
        for q in [p + '_history' for p in props] + (cols if hooks else []):
            h = getattr(o, q)
            c.check(t + '.length', L(h) == i + 1, detail=q)
            c.same(t + '.row', at(c, h, k), at(c, s[q], k))
        c.frame(t, o, s, modifies=list(props) + [p + '_history' for p in props] + cols)


@contract('C03', BS + ':BinaryStar.restore', BS + ':BinaryStar.reset', SS + ':SingleStar.restore', samples=60)
def reset(c):
    """reset and the default restore go back to row 0"""
    b, n, BP, SP = setup(c)
    objs = [(b, 'binary', BP), (b.star_1, 'star1', SP), (b.star_2, 'star2', SP)]
    pre = [snapshot(o[0]) for o in objs]
    if c.bool('reset'): c.run('reset', b.reset)
    else: c.run('restore', b.restore)
    for (o, t, props), s in zip(objs, pre):
        for p in props:
            c.same(t + '.current', getattr(o, p), at(c, s[p + '_history'], 0))
            c.check(t + '.length', L(getattr(o, p + '_history')) == 1, detail=p)
            c.same(t + '.row', at(c, getattr(o, p + '_history'), 0), at(c, s[p + '_history'], 0))
        c.frame(t, o, s, modifies=list(props) + [p + '_history' for p in props])


@contract('C03', SS + ':SingleStar.append_state', SS + ':SingleStar.restore', BS + ':BinaryStar.append_state', BS + ':BinaryStar.restore', samples=40)
def roundtrip(c):
    """lemma: append a row, change every value, restore that row: the appended values are back"""
    b, n, BP, SP = setup(c)
    b.event = 'oRLO1'
    c.run('append', b.append_state)
    objs = [(b, 'binary', BP), (b.star_1, 'star1', SP), (b.star_2, 'star2', SP)]
    pre = [snapshot(o[0]) for o in objs]
    for o, t, props in objs:
        for p in props: setattr(o, p, 'changed')
    c.run('restore', b.restore, n)
    for (o, t, props), s in zip(objs, pre):
        for p in props: c.same(t + '.back', getattr(o, p), s[p])


@contract('C03', BS + ':BinaryStar.__init__', SS + ':SingleStar.__init__', samples=60, assumes=['pandas.isna/notna on scalars'])
def fresh_binary(c):
    """a new binary and its stars start with one-row histories equal to the current values; the missing one of separation/period follows Kepler's law"""
    from posydon.binary_evol.binarystar import BinaryStar, BINARYPROPERTIES
    from posydon.binary_evol.singlestar import SingleStar, STARPROPERTIES
    m1, m2 = c.pos('m1', slo=.5, shi=50), c.pos('m2', slo=.5, shi=50)
    have = c.choice('have', ['separation', 'orbital_period', 'both'])
    kw = {}
    if have != 'orbital_period': kw['separation'] = c.pos('a', slo=5, shi=500)
    if have != 'separation': kw['orbital_period'] = c.pos('P', slo=1, shi=500)
    s1 = SingleStar(mass=m1, state='H-rich_Core_H_burning', log_R=c.real('lr1')); s2 = SingleStar(mass=m2, state='stripped_He_Core_He_burning', log_R=c.real('lr2'))
    b = c.run('init', BinaryStar, s1, s2, index=3, state='detached', event='ZAMS', time=c.nonneg('t'), eccentricity=c.real('e', 0, 1), properties=None, **kw)
    if b is None: return
    for o, props in ((b, BINARYPROPERTIES), (b.star_1, STARPROPERTIES), (b.star_2, STARPROPERTIES)):
        for p in props:
            h = getattr(o, p + '_history')
            if c.check('one-row', len(h) == 1, detail=p): c.same('row=current', h[0], getattr(o, p))
    c.same('mass1', b.star_1.mass, m1); c.same('mass2', b.star_2.mass, m2)
    for k, v in kw.items(): c.same('given', getattr(b, k), v)
    c.eq('kepler', (b.separation * c.K('rsol'))**3, c.K('standard_cgrav') * (m1 + m2) * c.K('msol') * (b.orbital_period * c.K('day2sec'))**2 / (4 * c.pi**2), rtol=1e9 if have == 'both' else 3e-3)
    c.check('stars-copied', b.star_1 is not s1 and b.star_2 is not s2)


@contract('C03', BS + ':BinaryStar.from_df', bounded='random tables of 1-5 rows and column subsets', samples=40)
def from_table(c):
    """a binary rebuilt from its history table has the table's rows in every history, missing columns filled to the same length,
    the missing one of separation/period derived row by row, and the last row as current values"""
    import pandas as pd, numpy as np
    from posydon.binary_evol.binarystar import BinaryStar, BINARYPROPERTIES
    from posydon.binary_evol.singlestar import STARPROPERTIES
    n = c.int('n', 1, 5)
    have = c.choice('have', ['separation', 'orbital_period', 'both'])
    def col(name, lo, hi): return [float(c.real('%s%d' % (name, i), lo, hi)) for i in range(n)]
    t = {'state': ['detached'] * n, 'event': ['ZAMS'] + ['oRLO1'] * (n - 1), 'time': col('t', 0, 1e6),
         'S1_mass': col('m1', .5, 50), 'S2_mass': col('m2', .5, 50), 'S1_state': ['H-rich_Core_H_burning'] * n, 'S2_state': ['H-rich_Core_H_burning'] * n}
    if have != 'orbital_period': t['separation'] = col('a', 5, 500)
    if have != 'separation': t['orbital_period'] = col('P', 1, 500)
    if c.bool('ecc'): t['eccentricity'] = col('e', 0, .9)
    if c.bool('R'): t['S1_log_R'] = col('lr', -1, 2)
    df = pd.DataFrame(t, index=[7] * n); df.index.name = 'binary_index'
    b = c.run('from_df', BinaryStar.from_df, df)
    if b is None: return
    c.same('index', b.index, 7)
    for o, pre, props in ((b, '', BINARYPROPERTIES), (b.star_1, 'S1_', STARPROPERTIES), (b.star_2, 'S2_', STARPROPERTIES)):
        for p in props:
            if not c.check('length', len(getattr(o, p + '_history')) == n, detail=pre + p): return
            if pre + p in t:
                c.same('rows', list(getattr(o, p + '_history')), t[pre + p]); c.same('current', getattr(o, p), t[pre + p][-1])
    for i in range(n):
        c.eq('kepler', (b.separation_history[i] * c.K('rsol'))**3, c.K('standard_cgrav') * (t['S1_mass'][i] + t['S2_mass'][i]) * c.K('msol') * (b.orbital_period_history[i] * c.K('day2sec'))**2 / (4 * c.pi**2), rtol=1e9 if have == 'both' else 3e-3)
    c.same('a-now', b.separation, b.separation_history[-1]); c.same('P-now', b.orbital_period, b.orbital_period_history[-1])
