"""C14: grid scrubbing, thinning and flagging."""
from pyvc.ctx import contract
from types import SimpleNamespace as NS
import math

S, D, T = 'posydon.grids.scrubbing', 'posydon.grids.downsampling', 'posydon.grids.termination_flags'


def oarr(c, v):
    import numpy as np
    if not c.symbolic: return np.array([float(x) for x in v])
    r = np.empty(len(v), dtype=object)
    for i, x in enumerate(v): r[i] = c.raw(x)
    return r


class Table:
    """history table with named columns (numpy structured array interface: rows are views)"""
    def __init__(s, cols): s.cols = cols; s.dtype = NS(names=tuple(cols))
    def __len__(s): return len(next(iter(s.cols.values())))
    def __getitem__(s, k):
        if isinstance(k, str): return s.cols[k]
        if isinstance(k, slice): return Table({n: v[k] for n, v in s.cols.items()})
        return NS(row=k, table=s)
    def __setitem__(s, k, v): s.cols[k][:] = v


def table(c, cols):
    import numpy as np
    if c.symbolic: return Table({k: oarr(c, v) for k, v in cols.items()})
    r = np.zeros(len(next(iter(cols.values()))), dtype=[(k, '<f8') for k in cols])
    for k, v in cols.items(): r[k] = [float(x) for x in v]
    return r


def increasing(c, name, n, first, lo, hi):
    r = [first]
    for i in range(1, n): r.append(r[-1] + c.pos('%s+%d' % (name, i), slo=lo, shi=hi))
    return r[:n]


def kept_rows(model, age):
    """rows not superseded: before (in model and age) every later kept row"""
    keep = []
    for i in range(len(model) - 1, -1, -1):
        if not keep: keep.append(i); continue
        if age[i] < age[keep[-1]]:
            if model[i] < model[keep[-1]]: keep.append(i)
    return keep[::-1]


@contract('C14', S + ':scrub', samples=300, timeout_ms=20000, bound='one table of up to 4 rows (all values)')
def scrub_one(c):
    """scrubbing keeps the last row and, going back, every row strictly earlier in age and model than all rows kept after it, in order"""
    import posydon.grids.scrubbing as M, numpy as np
    n = c.choice('n', [0, 1, 2, 3, 4]); model = [c.real('m%d' % i, slo=0, shi=4, special=(1., 2.)) for i in range(n)]; age = [c.real('t%d' % i, slo=0, shi=4, special=(1., 2.)) for i in range(n)]
    m, t = oarr(c, model), oarr(c, age); rows = np.arange(n)
    out = c.run('scrubbed', M.scrub, [rows], [m], [t]); c.check('one table', len(out) == 1)
    c.check('rows kept', list(out[0]) == kept_rows(model, age), detail=repr((list(out[0]),)))
    for i in range(n): c.eq('models untouched', m[i], model[i]); c.eq('ages untouched', t[i], age[i])


@contract('C14', S + ':scrub', samples=1500, bounded='concrete evaluation of the postcondition for 1 to 3 tables of up to 6 rows')
def scrub_joint(c):
    """jointly scrubbed tables keep exactly the scrubbed rows whose model occurs in every scrubbed table"""
    import posydon.grids.scrubbing as M, numpy as np
    if c.symbolic: return
    k = int(c.int('tables', 1, 3)); tabs, mods, ages = [], [], []
    for q in range(k):
        n = int(c.int('n%d' % q, 0, 6)); mods.append(np.array([int(c.int('m%d_%d' % (q, i), 0, 7)) for i in range(n)], dtype=int)); ages.append(np.array([float(c.int('t%d_%d' % (q, i), 0, 9)) for i in range(n)]))
        if c.bool('ordered%d' % q): mods[q].sort(); ages[q].sort()
        tabs.append(np.arange(n) + 100 * q)
        if c.choice('missing%d' % q, [0, 0, 0, 0, 1]): w = c.choice('what%d' % q, [0, 1, 2]); [tabs, mods, ages][w][q] = None
    copies = [[None if x is None else x.copy() for x in l] for l in (tabs, mods, ages)]; out = c.run('scrubbed', M.scrub, tabs, mods, ages); c.check('as many tables', len(out) == k)
    good = [q for q in range(k) if tabs[q] is not None and mods[q] is not None and ages[q] is not None]; keep = {q: kept_rows(list(mods[q]), list(ages[q])) for q in good}
    common = None
    for q in good: s = {int(mods[q][i]) for i in keep[q]}; common = s if common is None else common & s
    for q in range(k):
        if q not in good: c.check('missing table stays missing', out[q] is None); continue
        c.check('common rows', list(out[q]) == [int(tabs[q][i]) for i in keep[q] if int(mods[q][i]) in common], detail=repr((list(out[q]), keep[q], common)))
    for a, b in zip(copies, (tabs, mods, ages)): c.check('inputs untouched', all((x is None and y is None) or (x is not None and y is not None and np.array_equal(x, y)) for x, y in zip(a, b)))


@contract('C14', S + ':keep_after_RLO', samples=500, timeout_ms=20000, bound='histories of up to 3 rows (all values)')
def after_overflow(c):
    """histories start at the first row with Roche-lobe overflow or mass transfer; ages are counted from (about) there, by the same shift for all tables, and stay increasing"""
    import posydon.grids.scrubbing as M, numpy as np
    n = c.choice('n', [0, 1, 2, 3]); has1, has2 = c.bool('overflow of 1'), c.bool('overflow of 2'); hasr = c.bool('rate'); c1, c2 = c.choice('h1', ['none', 'age', 'no age']), c.choice('h2', ['none', 'age', 'no age'])
    big = c.bool('old'); t0 = c.pos('t0', slo=1e8, shi=1e10) if big else c.nonneg('t0', slo=0, shi=10); age = increasing(c, 'age', n, t0, 1e-6, 1e-5) if big else increasing(c, 'age', n, t0, 0.5, 10)
    if not c.symbolic: c.assume(all(float(age[i + 1]) > float(age[i]) for i in range(n - 1)))
    r1, r2 = ([c.real('%s%d' % (q, i), slo=-2, shi=1, special=(0.,)) for i in range(n)] for q in ('r1_', 'r2_')); rate = [c.real('rate%d' % i, slo=-15, shi=-5, special=(-10.,)) for i in range(n)]
    if n == 3: c.assume(c.Not(big))
    if c.symbolic and n == 3: c.assume(c.And(has1, has2, hasr, c1 == 'age', c2 == 'age'))
    cols = dict(age=age)
    if hasr: cols['lg_mtransfer_rate'] = rate
    if has1: cols['rl_relative_overflow_1'] = r1
    if has2: cols['rl_relative_overflow_2'] = r2
    bh = table(c, cols); h = [None if w == 'none' else table(c, dict({'star_age': age} if w == 'age' else {}, mass=[c.num(float(i)) for i in range(n)])) for w in (c1, c2)]
    r = c.call(M.keep_after_RLO, bh, *h)
    if not hasr or not (has1 or has2): c.check('needs overflow and rate', isinstance(r.exc, ValueError)); return
    first = None
    for i in range(n):
        if first is None:
            if c.Or(rate[i] >= -10., (r1[i] >= 0. if has1 else False), (r2[i] >= 0. if has2 else False)): first = i
    if first is None: c.check('no overflow', r.exc is None and r.value is None, detail=r.tb); return
    if not c.symbolic and r.exc is not None and 'precision' in str(r.exc): return
    c.check('returns', r.exc is None, detail=r.tb); b, x1, x2 = r.value; m = n - first
    c.check('rows from there', len(b) == m and all(x is None if y is None else len(x) == m for x, y in ((x1, h[0]), (x2, h[1]))))
    shift = age[first] - c.num(b['age'][0] if c.symbolic else float(b['age'][0]))
    if c.symbolic: c.eq('age zero at overflow', b['age'][0], 0.)
    else: c.check('age about zero at overflow', abs(float(b['age'][0])) <= 0.011 * abs(float(age[first])) + 1e-12)
    for i in range(m):
        tol = dict(rtol=1e-9, atol=1e-15 * (abs(float(t0)) + 1)) if not c.symbolic else {}
        c.eq('age', b['age'][i], age[first + i] - shift, **tol); c.eq('rate of the row', b['lg_mtransfer_rate'][i], rate[first + i])
        if i: c.check('ages increase', b['age'][i] > b['age'][i - 1])
        for x, w in ((x1, c1), (x2, c2)):
            if w != 'none': c.eq('row of the star', x['mass'][i], float(first + i))
            if w == 'age': c.eq('same shift', x['star_age'][i], age[first + i] - shift, **tol)


@contract('C14', S + ':keep_after_RLO', samples=5)
def after_overflow_missing(c):
    """without a binary history nothing is cut"""
    import posydon.grids.scrubbing as M
    a, b = c.choice('a', [None, 'h1']), c.choice('b', [None, 'h2']); r = c.run('kept', M.keep_after_RLO, None, a, b); c.check('unchanged', tuple(r) == (None, a, b))


@contract('C14', S + ':keep_till_central_abundance_He_C', samples=600, timeout_ms=20000, bound='histories of up to 3 rows (all values)')
def until_depletion(c):
    """histories end with the first row at which a star that ends depleted is depleted in helium and carbon (the star that gets there first in age), and are unchanged if neither star ends depleted"""
    import posydon.grids.scrubbing as M, numpy as np
    n = c.choice('n', [0, 1, 2, 3]); kind = c.choice('columns', ['all', 'no star age', 'no binary age', 'no age', 'no helium', 'no carbon', 'star age of 1 only']); age = increasing(c, 'age', n, c.nonneg('t0', slo=0, shi=10), 0.5, 10)
    he = [[c.nonneg('he%d_%d' % (s, i), 1, slo=0, shi=0.02, special=(0.01,)) for i in range(n)] for s in (1, 2)]; ca = [[c.nonneg('c%d_%d' % (s, i), 1, slo=0, shi=0.2, special=(0.1,)) for i in range(n)] for s in (1, 2)]
    mode = c.choice('limits', ['default', 'given']); Y, X = (0.01, 0.1) if mode == 'default' else (c.pos('Y', 1, slo=0.005, shi=0.02), c.pos('X', 1, slo=0.05, shi=0.2)); kw = {} if mode == 'default' else dict(Ystop=c.raw(Y), XCstop=c.raw(X))
    if c.symbolic and (n == 3 or kind != 'all'): c.assume(mode == 'default')
    if c.symbolic and kind == 'all': pass
    elif c.symbolic: c.assume(n <= 2)
    bcols = dict(row=[c.num(float(i)) for i in range(n)])
    if kind not in ('no binary age', 'no age'): bcols['age'] = age
    def star(s):
        d = dict(row=[c.num(float(i)) for i in range(n)])
        if kind not in ('no star age', 'no age') and not (kind == 'star age of 1 only' and s == 1): d['star_age'] = age
        if kind != 'no helium': d['center_he4'] = he[s]
        if kind != 'no carbon': d['center_c12'] = ca[s]
        return table(c, d)
    bh, h1, h2 = table(c, bcols), star(0), star(1); miss = c.choice('missing', ['none', 'none', 'none', 'b', '1', '2']) if not c.symbolic else 'none'
    if miss == 'b': bh = None
    elif miss == '1': h1 = None
    elif miss == '2': h2 = None
    r = c.run('cut', M.keep_till_central_abundance_He_C, bh, h1, h2, **kw); c.check('four results', len(r) == 4)
    first = [None, None]
    if miss == 'none' and kind not in ('no age', 'no helium', 'no carbon') and n > 0:
        for s in (0, 1):
            dep = [c.And(he[s][i] < Y, ca[s][i] < X) for i in range(n)]
            if dep[-1]:
                for i in range(n):
                    if first[s] is None:
                        if dep[i]: first[s] = i
    if first == [None, None]:
        c.check('unchanged', r[3] == '' and all(x is y for x, y in zip(r[:3], (bh, h1, h2)))); return
    s = 0 if first[1] is None or first[0] is not None and first[0] <= first[1] else 1; e = first[s] + 1
    c.check('reason', r[3] == ('Primary', 'Secondary')[s] + ' got stopped before central carbon depletion', detail=repr(r[3]))
    if e == n:   # depleted in the last row only: see depletion_in_last_row
        c.check('cut at the end', all(len(t) in (n - 1, n) and len(t) == len(r[0]) for t in r[:3])); return
    for t in r[:3]:
        c.check('ends with the depleted row', len(t) == e, detail='rows %d of %d, expected %d' % (len(t), n, e))
        for i in range(e): c.eq('row in order', t['row'][i], float(i))


@contract('C14', S + ':keep_till_central_abundance_He_C', samples=20)
def depletion_in_last_row(c):
    """the depleted row is kept also when it is the last one"""
    import posydon.grids.scrubbing as M
    h = [table(c, dict(star_age=[c.num(1.), c.num(2.)], center_he4=[c.num(0.5), x], center_c12=[c.num(0.2), c.num(0.05)])) for x in (c.nonneg('he', 0.009, slo=0, shi=0.009), c.num(0.5))]
    r = c.run('cut', M.keep_till_central_abundance_He_C, table(c, dict(age=[c.num(1.), c.num(2.)])), *h); c.check('reason', r[3].startswith('Primary got stopped')); c.check('depleted row kept', all(len(t) == 2 for t in r[:3]))


@contract('C14', D + ':TrackDownsampler.__init__', D + ':TrackDownsampler.rescale', D + ':rescale_from_0_to_1', D + ':TrackDownsampler.find_downsample', D + ':TrackDownsampler.extract_downsample', D + ':TrackDownsampler.downsample', samples=60, timeout_ms=20000, bound='tracks of up to 3 points in 1 or 2 dimensions (all values)')
def thinned_track(c):
    """thinned tracks keep the end points and, of the rest, original points in order, so that linear interpolation reproduces each dropped point within the tolerance (relative to the range of each coordinate); gaps wider than the allowed interval keep every point"""
    import posydon.grids.downsampling as M, numpy as np
    n = c.choice('n', [2, 3]); d = c.choice('d', [1, 2]); t = increasing(c, 't', n, c.real('t0', slo=0, shi=1), 0.1, 2); X = [[c.real('x%d_%d' % (i, k), slo=-2, shi=2, special=(0., 1.)) for k in range(d)] for i in range(n)]
    err = c.choice('err', [None, 'value']); tol = c.nonneg('tol', slo=0, shi=0.5); mode = c.choice('interval', ['none', 'absolute', 'relative']); gap = c.pos('gap', slo=0.1, shi=3)
    if c.symbolic: c.assume(c.Or(d == 1, mode == 'none')); c.patch(M.Pwarn, lambda *a, **k: None)
    x = np.empty((n, d), dtype=object)
    for i in range(n):
        for k in range(d): x[i, k] = c.raw(X[i][k])
    if not c.symbolic: x = x.astype(float); c.patch(M.Pwarn, lambda *a, **k: None)
    flat = d == 1 and c.bool('one column'); o = c.run('built', M.TrackDownsampler, oarr(c, t), x[:, 0] if flat else x)
    kw = dict(max_err=None if err is None else c.raw(tol)); gp = None
    if mode == 'absolute': kw['max_interval'] = c.raw(gap); gp = gap
    if mode == 'relative': kw['max_interval'] = c.raw(-gap); gp = gap * (t[-1] - t[0])
    r = c.run('thinned', o.downsample, **kw); T, Y = r; keep = [bool(v) for v in o.keep]; idx = [i for i in range(n) if keep[i]]
    c.check('ends kept', keep[0] and keep[-1]); c.check('same number', len(T) == len(idx) and len(Y) == len(idx))
    for p, i in enumerate(idx):
        c.eq('time of the point', T[p], t[i])
        for k in range(d): c.eq('values of the point', Y[p][k], X[i][k], rtol=1e-9, atol=1e-9)
    if err is None: c.check('nothing dropped', all(keep)); return
    span = [None] * d
    for k in range(d):
        hi = X[0][k]; lo = X[0][k]
        for i in range(1, n): hi = c.max(hi, X[i][k]); lo = c.min(lo, X[i][k])
        span[k] = hi - lo
    for a, b in zip(idx, idx[1:]):
        if gp is not None:
            if b > a + 1: c.check('no wide gap', t[b] - t[a] <= gp * (1 + 1e-9) if not c.symbolic else t[b] - t[a] <= gp)
        for q in range(a + 1, b):
            e = c.num(0.)
            for k in range(d):
                if span[k] > 0: e = e + ((X[q][k] - X[a][k] - (X[b][k] - X[a][k]) * (t[q] - t[a]) / (t[b] - t[a])) / span[k])**2
            c.check('dropped point within tolerance', e <= tol**2 * (1 + 1e-9) + (0. if c.symbolic else 1e-20))


@contract('C14', D + ':TrackDownsampler.find_downsample', D + ':TrackDownsampler.downsample', D + ':rescale_from_0_to_1', samples=400, bounded='concrete evaluation of the postcondition on generated tracks (up to 25 points, 3 dimensions, integer tables too)')
def thinned_long_track(c):
    """same for long tracks, with the kept points sufficient for every dropped one"""
    import posydon.grids.downsampling as M, numpy as np
    if c.symbolic: return
    n, d = int(c.int('n', 3, 25)), int(c.int('d', 1, 3)); g = np.random.default_rng(int(c.int('seed', 0, 10**6))); kind = c.choice('kind', ['smooth', 'noise', 'integers', 'constant'])
    t = np.cumsum(g.uniform(0.1, 2, n)); X = {'smooth': np.cumsum(np.cumsum(g.normal(size=(n, d)), axis=0), axis=0), 'noise': g.normal(size=(n, d)), 'integers': g.integers(-5, 50, size=(n, d)), 'constant': np.tile(g.normal(size=d), (n, 1))}[kind]; X0, t0 = X.copy(), t.copy()
    tol = float(c.nonneg('tol', 1, slo=0, shi=0.5)); gap = c.choice('gap', [None, 'abs', 'rel']); w = float(c.pos('width', slo=0.05, shi=1)); mi = {None: None, 'abs': w * 5, 'rel': -w}[gap]; c.patch(M.Pwarn, lambda *a, **k: None)
    o = M.TrackDownsampler(t, X); T, Y = c.run('thinned', o.downsample, max_err=tol, max_interval=mi); idx = np.where(o.keep)[0]
    c.check('ends kept', idx[0] == 0 and idx[-1] == n - 1); c.check('points of the track', bool(np.allclose(T, t0[idx]) and np.allclose(Y, X0[idx], rtol=1e-9, atol=1e-9))); c.check('track untouched', bool(np.array_equal(X, X0) and np.array_equal(t, t0)))
    span = X0.max(axis=0) - X0.min(axis=0); Z = (X0 - X0.min(axis=0)) / np.where(span > 0, span, 1.)
    for a, b in zip(idx, idx[1:]):
        if b > a + 1 and mi is not None: c.check('no wide gap', t[b] - t[a] <= (mi if mi > 0 else -mi * (t[-1] - t[0])) * (1 + 1e-9))
        for q in range(a + 1, b): c.check('dropped point within tolerance', np.linalg.norm(Z[q] - Z[a] - (Z[b] - Z[a]) * (t[q] - t[a]) / (t[b] - t[a])) <= tol + 1e-9)
    z = c.run('unscaled', o.extract_downsample, scale_back=False)[1]; c.check('scaled to one', bool(np.allclose(z, Z[idx])))


@contract('C14', D + ':TrackDownsampler.__init__', D + ':TrackDownsampler.find_downsample', D + ':rescale_from_0_to_1', samples=100)
def thinning_rejects(c):
    """tracks that are not strictly increasing, malformed tables and bad tolerances are rejected"""
    import posydon.grids.downsampling as M, numpy as np
    t = [c.real('t%d' % i, slo=0, shi=3, special=(1.,)) for i in range(3)]; X = oarr(c, [1., 2., 0.]); r = c.call(M.TrackDownsampler, oarr(c, t), X)
    if c.And(t[0] < t[1], t[1] < t[2]): c.check('accepted', r.exc is None, detail=r.tb); o = r.value
    else: c.check('not increasing', isinstance(r.exc, ValueError)); return
    tol = c.real('tol', slo=-1, shi=1, special=(0.,)); c.patch(M.Pwarn, lambda *a, **k: None); q = c.call(o.find_downsample, c.raw(tol)); 
    if tol < 0.: c.check('negative tolerance', isinstance(q.exc, ValueError))
    else: c.check('tolerance', q.exc is None, detail=q.tb)
    for bad in (math.inf, math.nan): c.check('not finite', isinstance(c.call(o.find_downsample, bad).exc, ValueError))
    c.check('tables only', isinstance(c.call(M.rescale_from_0_to_1, X).exc, ValueError)); c.check('one time axis', isinstance(c.call(M.TrackDownsampler, [[1.], [2.]], X).exc, ValueError)); c.check('times are a list', isinstance(c.call(M.TrackDownsampler, 1., X).exc, ValueError)); c.check('values are a list', isinstance(c.call(M.TrackDownsampler, [1., 2.], 1.).exc, ValueError))


STABLE = ['Primary has depleted central carbon', 'Secondary has depleted central carbon', 'Primary got stopped before central carbon depletion', 'Secondary got stopped before central carbon depletion', 'Primary enters pair-instability regime', 'Secondary enters pair-instability regime', 'Primary enters pulsational pair-instability regime', 'Secondary enters pulsational pair-instability regime', 'envelope_mass_limit', 'gamma_center_limit', 'max_age']
UNSTABLE = ['overflow from L2 (%s) %s for q(=Macc/Mdon)%s1, donor is star 1' % (x, y, s) for x, y in (('D_L2', 'distance'), ('R_L2', 'surface')) for s in '<>'] + ['overflow from L2 (R_L2) surface for q(=Macc/Mdon)%s1, donor is star 2' % s for s in '<>'] + ['Reached maximum mass transfer rate: 1d-1', 'Reached maximum mass transfer rate: Exceeded photon trapping radius', 'Both stars fill their Roche Lobe and at least one of them is off MS', 'Terminate due to L2 overflow during case A', 'Both stars fill their Roche Lobe and t_kh > t_acc'] + ['overflow from L2, t_kh > t_acc and w > w_crit_lim, donor is star %s' % s for s in '12']
INITIAL = ['forced_initial_RLO', 'Terminate because of overflowing initial model']
ERROR = ['logQ_min_limit', 'min_timestep_limit', 'reach cluster timelimit']


@contract('C14', T + ':infer_interpolation_class', samples=300)
def interpolation_class(c):
    """class of a run from its termination and mass-transfer flags, in order of precedence"""
    import posydon.grids.termination_flags as M
    a = c.choice('tf1', STABLE + UNSTABLE + INITIAL + ERROR + ['Reached TPAGB', 'offcenter neon ignition for primary', '', 'x']); b = c.choice('tf2', ['no_RLOF', 'initial_RLOF', 'contact_during_MS', 'None', 'case_A1', 'case_A1/B1', 'case_B2', 'case_A1/B2', 'case_B1/A2/C1', 'caseA1_from_star_1'])
    r = c.run('classified', M.infer_interpolation_class, a, b)
    if a in INITIAL or b == 'initial_RLOF': want = 'initial_MT'
    elif a in ERROR: want = 'not_converged'
    elif b == 'no_RLOF': want = 'no_MT'
    elif a in STABLE: want = 'stable_reverse_MT' if b in ('case_A1/B2', 'case_B1/A2/C1') else 'stable_MT'
    elif a in UNSTABLE: want = 'unstable_MT'
    else: want = 'unknown'
    c.check('class', r == want, detail=repr((a, b, r, want)))


@contract('C14', T + ':get_mass_transfer_flag', samples=500, timeout_ms=20000, bound='histories of up to 2 rows (all values)', assumes=['state of the donor and case of a single episode: contracts of C05 and C06'])
def transfer_flag(c):
    """mass-transfer history: errors and initial overflow come first, then contact, then the ordered list of episodes with the more overflowing star as donor; overflow in the first model means initial overflow unless the run starts there"""
    import posydon.grids.termination_flags as M, numpy as np
    n = c.choice('n', [1, 2, 3] if not c.symbolic else [1, 2]); start = c.bool('start at overflow'); flag = c.choice('tf1', [None, 'min_timestep_limit', 'logQ_min_limit', 'reach cluster timelimit', 'forced_initial_RLO', 'Terminate because of overflowing initial model', 'max_age'])
    r1, r2 = ([c.real('%s%d' % (q, i), slo=-2, shi=1, special=(0.,)) for i in range(n)] for q in ('r1_', 'r2_')); rate = [c.real('rate%d' % i, slo=-15, shi=-5, special=(-10.,)) for i in range(n)]
    if c.symbolic and n == 2: c.assume(flag is None)
    bh = table(c, dict(rl_relative_overflow_1=r1, rl_relative_overflow_2=r2, lg_mtransfer_rate=rate, star_1_mass=[c.num(1.)] * n, star_2_mass=[c.num(2.)] * n)); h1, h2 = object(), object(); st, cs, cum = [], [], []
    def state(history=None, mass=None, model_index=-1): st.append((history, mass, int(model_index))); return 'S%d_%d' % (1 if history is h1 else 2, int(model_index))
    def case(rl_relative_overflow=None, lg_mtransfer_rate=None, donor_state=None, **k): cs.append((rl_relative_overflow, lg_mtransfer_rate, donor_state)); return int(donor_state.split('_')[1]) + 1
    def cumul(l, shift_cases=False, **k): cum.append((list(l), shift_cases)); return 'FLAG'
    c.patch(M.check_state_from_history, state); c.patch_attr(M, 'infer_mass_transfer_case', case); c.patch_attr(M, 'cumulative_mass_transfer_flag', cumul)
    r = c.run('flag', M.get_mass_transfer_flag, bh, h1, h2, start_at_RLO=start, mesa_flag=flag)
    if flag in ERROR: c.check('error', r == 'None'); return
    if flag in INITIAL: c.check('initial', r == 'initial_RLOF'); return
    contact = False; donors = []
    for i in range(n):
        if c.And(r1[i] > 0., r2[i] > 0.): contact = True
    if contact: c.check('contact', r == 'contact_during_MS'); return
    for i in range(n):
        if r1[i] >= r2[i]: donors.append(1 if bool(c.Or(r1[i] > 0., rate[i] > -10.)) else 0)
        else: donors.append(2 if bool(c.Or(r2[i] > 0., rate[i] > -10.)) else 0)
    if not any(donors): c.check('no overflow', r == 'no_RLOF'); return
    if not start and donors[0]: c.check('overflow at the start', r == 'initial_RLOF', detail=repr((r, donors))); return
    c.check('flag of the episodes', r == 'FLAG' and len(cum) == 1 and cum[0][1] is True and cum[0][0] == [i + 1 + 10 * (q - 1) for i, q in enumerate(donors) if q], detail=repr((r, cum, donors)))
    want = sorted([(i, q) for i, q in enumerate(donors) if q], key=lambda v: (v[1], v[0])); c.check('an episode per row', len(cs) == len(want) and len(st) == len(want))
    for (ro, ra, ds), (i, q), (hh, ms, mi) in zip(cs, want, st):
        c.eq('overflow of the donor', ro, (r1, r2)[q - 1][i]); c.eq('rate', ra, rate[i]); c.check('history of the donor', hh is (h1, h2)[q - 1] and mi == i); c.eq('mass of the donor', ms[0], float(q))


@contract('C14', T + ':check_state_from_history', T + ':get_flags_from_MESA_run', samples=200)
def states_of_run(c):
    """flags of a run: the given or logged termination flag, the mass-transfer flag for it, and the states of the stars' last rows (compact object by mass without a history)"""
    import posydon.grids.termination_flags as M
    names = ['surface_h1', 'center_h1', 'center_he4', 'center_c12', 'log_LH', 'log_LHe', 'log_Lnuc']; n = 2; drop = c.choice('missing', [None] + names); v = {k: [c.real('%s%d' % (k, i), slo=-1, shi=1) for i in range(n)] for k in names}; m = [[c.pos('m%d_%d' % (s, i), slo=1, shi=20) for i in range(n)] for s in (1, 2)]
    got = []; c.patch_attr(M, 'infer_star_state', lambda **k: got.append(k) or 'STATE%d' % len(got)); idx = c.choice('index', [-1, 0, 1]); h = table(c, {k: x for k, x in v.items() if k != drop})
    r = c.call(M.check_state_from_history, h, oarr(c, m[0]), idx)
    if drop is not None: c.check('column needed', isinstance(r.exc, KeyError)); return
    c.check('state', r.exc is None and r.value == 'STATE1' and set(got[0]) == set(names) | {'star_CO'} and got[0]['star_CO'] is False, detail=r.tb)
    for k in names: c.eq('value of the row', got[0][k], v[k][idx])
    r = c.run('compact object', M.check_state_from_history, None, oarr(c, m[1]), idx); c.check('compact', r == 'STATE2' and set(got[1]) == {'star_mass', 'star_CO'} and got[1]['star_CO'] is True); c.eq('its mass', got[1]['star_mass'], m[1][idx])
    del got[:]; new, co, start = c.choice('new', ['', 'Primary got stopped before central carbon depletion']), c.choice('compact', [0, 1, 2]), c.bool('start'); bh = table(c, dict(star_1_mass=m[0], star_2_mass=m[1])); seen = []
    c.patch(M.get_flag_from_MESA_output, lambda p: 'LOG:' + p); c.patch(M.get_mass_transfer_flag, lambda *a, **k: seen.append((a, k)) or 'MT'); H = [None if co == 1 else h, None if co == 2 else h]
    r = c.run('flags', M.get_flags_from_MESA_run, 'path', bh, H[0], H[1], start_at_RLO=start, newTF1=new); f1 = new or 'LOG:path'
    c.check('flags in order', tuple(r) == (f1, 'MT', 'STATE1', 'STATE2'), detail=repr(r)); c.check('states of the stars', len(got) == 2 and [g['star_CO'] for g in got] == [co == 1, co == 2])
    if co: c.eq('mass of the compact object', got[co - 1]['star_mass'], m[co - 1][-1])
    for i in (0, 1):
        if co != i + 1: c.eq('last row', got[i]['center_h1'], v['center_h1'][-1])
    a, k = seen[0]; b = dict(zip(('binary_history', 'history1', 'history2', 'start_at_RLO', 'mesa_flag'), a)); b.update(k)
    c.check('transfer flag of this run', b['binary_history'] is bh and b['history1'] is H[0] and b['history2'] is H[1] and b['start_at_RLO'] == start and b['mesa_flag'] == f1)


@contract('C14', T + ':get_flag_from_MESA_output', samples=200, bounded='concrete evaluation of the postcondition on generated logs (plain and gzipped)')
def flag_of_log(c):
    """termination flag: the last termination message of the log other than the time-step limit, which only counts when there is no other; a run reaching the TPAGB at the limit is flagged as such; without a message the run hit the time limit"""
    import posydon.grids.termination_flags as M, tempfile, os, gzip
    if c.symbolic: return
    pool = ['termination code: max_age\n', 'Terminate: envelope_mass_limit  \n', 'termination code: min_timestep_limit\n', 'noise\n', ' termination code: indented\n', 'min_timestep_limit Reached TPAGB\n', 'Reached TPAGB\n', 'min_timestep_limit\n', 'Terminate: min_timestep_limit b\n']
    lines = [pool[int(c.int('line%d' % i, 0, len(pool) - 1))] for i in range(int(c.int('n', 0, 6)))]; gz = c.bool('gz'); d = tempfile.mkdtemp(); p = os.path.join(d, 'out.txt' + ('.gz' if gz else ''))
    try:
        with (gzip.open(p, 'wt') if gz else open(p, 'w')) as f: f.writelines(lines)
        r = c.run('flag', M.get_flag_from_MESA_output, p); none = c.run('no log', M.get_flag_from_MESA_output, c.choice('nolog', [None, os.path.join(d, 'absent')]))
    finally:
        if os.path.exists(p): os.remove(p)
        os.rmdir(d)
    want = None; weak = None
    for l in reversed(lines):
        pre = [x for x in ('termination code: ', 'Terminate: ') if l.startswith(x)]
        if pre:
            if 'min_timestep_limit' in l: weak = l[len(pre[0]):].strip()
            else: want = l[len(pre[0]):].strip(); break
        elif 'min_timestep_limit' in l and 'Reached TPAGB' in l: want = 'Reached TPAGB'; break
    c.check('flag', r == (want or weak or 'reach cluster timelimit'), detail=repr((lines, r))); c.check('no log', none == 'reach cluster timelimit')


@contract('C14', T + ':get_detected_initial_RLO', samples=300, timeout_ms=20000, bound='grids of up to 3 runs (all periods)')
def detected_initial_overflow(c):
    """per mass combination, the widest run that overflows initially"""
    import posydon.grids.termination_flags as M
    n = c.choice('n', [0, 1, 2, 3]); m = [(c.choice('m1_%d' % i, [5., 7.]), c.choice('m2_%d' % i, [2., 3.]) if i < 2 else 2.) for i in range(n)]; per = [c.pos('p%d' % i, slo=0.1, shi=2) for i in range(n)]; fl = [c.choice('flag%d' % i, ['Terminate because of overflowing initial model', 'max_age']) for i in range(n)]
    g = NS(initial_values=[dict(star_1_mass=a, star_2_mass=b, period_days=c.raw(p)) for (a, b), p in zip(m, per)], final_values=[dict(termination_flag_1=f, termination_flag_3='three%d' % i, termination_flag_4='four%d' % i) for i, f in enumerate(fl)])
    r = c.run('detected', M.get_detected_initial_RLO, g); on = [i for i in range(n) if fl[i].startswith('Term')]; keys = []
    for i in on:
        if m[i] not in keys: keys.append(m[i])
    c.check('one entry per combination', [(x['star_1_mass'], x['star_2_mass']) for x in r] == keys, detail=repr(r))
    for x, k in zip(r, keys):
        best = None
        for i in on:
            if m[i] == k:
                c.check('widest', c.num(x['period_days']) >= per[i])
                if best is None or bool(per[best] < per[i]): best = i
        c.eq('its period', x['period_days'], per[best]); c.check('its states', x['termination_flag_3'] == 'three%d' % best and x['termination_flag_4'] == 'four%d' % best)


@contract('C14', T + ':get_nearest_known_initial_RLO', samples=200, timeout_ms=20000, bound='20 known systems, of which 3 near (all values)')
def nearest_initial_overflow(c):
    """nearest known system in the mass plane; too few known systems give no boundary"""
    import posydon.grids.termination_flags as M
    c.patch(M.Pwarn, lambda *a, **k: None); few = c.bool('few'); x, y = c.pos('m1', 300, slo=1, shi=20), c.pos('m2', 300, slo=1, shi=20); near = [dict(star_1_mass=c.raw(c.pos('a%d' % i, 300, slo=1, shi=20)), star_2_mass=c.raw(c.pos('b%d' % i, 300, slo=1, shi=20)), period_days=float(i)) for i in range(3)]
    known = [dict(star_1_mass=5000., star_2_mass=5000., period_days=9.)] * (8 if not few else 7) + near[:1] + [dict(star_1_mass=4000., star_2_mass=5000., period_days=9.)] * 9 + near[1:]
    r = c.run('nearest', M.get_nearest_known_initial_RLO, c.raw(x), c.raw(y), known)
    if few: c.check('no boundary', r['period_days'] == 0. and len(known) == 19); return
    dist = lambda s: (x - s['star_1_mass'])**2 + (y - s['star_2_mass'])**2
    c.check('a known system', any(r is k for k in near))
    for k in near: c.check('none nearer', dist(r) <= dist(k))
