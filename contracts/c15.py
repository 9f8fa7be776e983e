"""C15: scaling, interpolation dispatch and constraints on interpolated quantities."""
from pyvc.ctx import contract
from types import SimpleNamespace as NS
import math

D, K, I, G = 'posydon.interpolation.data_scaling', 'posydon.interpolation.constraints', 'posydon.interpolation.IF_interpolation', 'posydon.interpolation.interpolation'
METHODS = ['min_max', 'log_min_max', 'neg_log_min_max', 'max_abs', 'log_max_abs', 'standarize', 'log_standarize', 'neg_log_standarize', 'log', 'none']


def at(c, x, j): return x.at(j) if c.symbolic and hasattr(x, 'at') else x[int(j)] if not c.symbolic else x[j]
def oarr(c, v):
    import numpy as np
    if not c.symbolic: return np.array([float(x) for x in v])
    r = np.empty(len(v), dtype=object)
    for i, x in enumerate(v): r[i] = c.raw(x)
    return r
def arr2(c, rows):
    import numpy as np
    if not c.symbolic: return np.array([[float(x) for x in v] for v in rows])
    r = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
    for i, v in enumerate(rows):
        for j, x in enumerate(v): r[i, j] = c.raw(x)
    return r


def positive(m): return m.startswith('log')
def negative(m): return m.startswith('neg')
def data(c, name, n, m):
    """values a method can scale: positive for the logarithmic, negative for the negative logarithmic ones"""
    if positive(m): return c.arr(name, n, 0, lo_open=True, slo=1e-3, shi=1e3, special=(1., 10.))
    if negative(m): return c.arr(name, n, None, 0, hi_open=True, slo=-1e3, shi=-1e-3, special=(-1., -10.))
    return c.arr(name, n, slo=-1e3, shi=1e3, special=(0., 1.))
def value(c, name, m):
    if positive(m): return c.pos(name, slo=1e-4, shi=1e4)
    if negative(m): return -c.pos(name, slo=1e-4, shi=1e4)
    return c.real(name, slo=-1e4, shi=1e4, special=(0.,))
def spread(c, x, n, m):
    """the fitted data is not constant (or, for maxima, not identically zero)"""
    if m in ('log', 'none'): return
    a, b = c.int('a', 0, n - 1, slo=0, shi=4), c.int('b', 0, n - 1, slo=0, shi=4); c.assume(c.And(a < n, b < n)); u, v = at(c, x, a), at(c, x, b)
    if m == 'max_abs': c.assume(u != 0.)
    elif m == 'log_max_abs': c.assume(u != 1.)
    else: c.assume(u != v)


@contract('C15', D + ':DataScaler.fit', D + ':DataScaler.transform', D + ':DataScaler.inv_transform', D + ':DataScaler.fit_and_transform', samples=600, timeout_ms=20000, assumes=['np.mean lies between the extremes, np.std is non-negative and zero only for constant data'])
def scaling_round_trip(c):
    """every method: scaling and scaling back returns every element of data of any length, and any other admissible value; ranges are respected; an earlier fit leaves no trace"""
    import posydon.interpolation.data_scaling as M
    m = c.choice('method', METHODS); n = c.int('n', 1, slo=1, shi=5); j = c.int('j', 0, n - 1, slo=0, shi=4); c.assume(j < n); x = data(c, 'x', n, m); spread(c, x, n, m)
    lo, hi = c.real('lower', slo=-2, shi=2, special=(-1., 0.)), c.real('upper', slo=-2, shi=2, special=(1.,)); how = c.choice('limits', ['given', 'default'])
    if how == 'given': c.assume(hi > lo)
    else: lo, hi = c.num(-1.), c.num(1.)
    kw = dict(lower=c.raw(lo), upper=c.raw(hi)) if how == 'given' else {}; s = M.DataScaler()
    if c.bool('fitted before'):
        e = c.choice('earlier', ['min_max', 'max_abs', 'none']); y = data(c, 'y', c.int('ny', 1, slo=1, shi=3), e); c.run('earlier fit', s.fit, y, e)
    xj = at(c, x, j)
    if c.bool('at once'): t = c.run('fit and transform', s.fit_and_transform, x, m, **kw)
    else: c.run('fit', s.fit, x, method=m, **kw); t = c.run('transform', s.transform, x)
    c.eq('same length', c.num(t.shape[0]), n); tj = at(c, t, j); b = c.run('inverse', s.inv_transform, t); c.eq('comes back', at(c, b, j), xj, atol=1e-9)
    c.eq('data untouched', at(c, x, j), xj)
    if 'min_max' in m: c.check('within the range', c.And(tj >= lo, tj <= hi) if c.symbolic else lo - 1e-9 <= tj <= hi + 1e-9)
    if 'max_abs' in m: c.check('at most one', c.And(tj >= -1., tj <= 1.))
    if m == 'none': c.eq('unchanged', tj, xj)
    if m == 'log': c.eq('logarithm', tj, c.log10(xj))
    v = value(c, 'value', m); w = c.run('scalar', s.transform, c.raw(v)); c.eq('scalar comes back', c.run('scalar inverse', s.inv_transform, w), v, atol=1e-9)
    if c.symbolic: return
    import numpy as np
    t = np.asarray(t, float)
    if 'min_max' in m: c.eq('reaches the lower end', t.min(), lo, atol=1e-9); c.eq('reaches the upper end', t.max(), hi, atol=1e-9)
    if 'max_abs' in m: c.eq('reaches one', abs(t).max(), 1.)
    if 'stand' in m: c.eq('zero mean', t.mean(), 0., atol=1e-8); c.eq('unit deviation', t.std(), 1., rtol=1e-6)


@contract('C15', D + ':DataScaler.fit', D + ':DataScaler.transform', D + ':DataScaler.inv_transform', samples=60)
def scaling_rejects(c):
    """unknown methods, empty ranges, non-arrays and scalers that were never fitted are rejected"""
    import posydon.interpolation.data_scaling as M, numpy as np
    s = M.DataScaler(); what = c.choice('case', ['unknown', 'range', 'list', 'matrix', 'transform', 'inverse']); x = oarr(c, [c.num(1.), c.num(2.)])
    if what == 'unknown': r = c.call(s.fit, x, 'minmax'); c.check('unknown method', isinstance(r.exc, ValueError))
    elif what == 'range':
        lo, hi = c.real('lower', slo=-1, shi=1), c.real('upper', slo=-1, shi=1); c.assume(hi <= lo)
        r = c.call(s.fit, x, c.choice('method', ['min_max', 'log_min_max', 'neg_log_min_max']), c.raw(lo), c.raw(hi)); c.check('empty range', r.exc is not None)
    elif what == 'list': c.check('list', c.call(s.fit, [1., 2.], 'none').exc is not None)
    elif what == 'matrix': c.check('matrix', c.call(s.fit, np.ones((2, 2)), 'none').exc is not None)
    elif what == 'transform': c.check('not fitted', c.call(s.transform, x).exc is not None)
    else: c.check('not fitted', c.call(s.inv_transform, x).exc is not None)
