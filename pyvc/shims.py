"""Stand-ins for numpy/math/builtins that understand symbolic values and fall
through to the real library for concrete ones."""
import builtins, math, types, sys
import numpy as _np
from fractions import Fraction
from .core import *
from . import core
from .sarr import SArr, SSel, SDiff

_INF = float('inf')

def has_sym(x, depth=3):
    if isinstance(x, (Num, SBool, SArr)): return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object and any(has_sym(e, depth - 1) for e in x.flat) if depth else False
    if isinstance(x, (list, tuple)) and depth:
        return any(has_sym(e, depth - 1) for e in x)
    return False

def _scalarize(x):
    if isinstance(x, _np.ndarray) and x.ndim == 0: return x.item()
    if isinstance(x, _np.generic): return x.item()
    return x

def elementwise(f, *args):
    """apply scalar f over broadcast array/list arguments; preserves scalars"""
    args = [_scalarize(a) for a in args]
    if any(isinstance(a, SArr) for a in args): return SArr.ew(f, *args)
    if any(isinstance(a, (_np.ndarray, list, tuple)) for a in args):
        arrs = [_np.asarray(a, dtype=object) if not isinstance(a, (Num, SBool)) else _wrap0(a) for a in args]
        bs = _np.broadcast_arrays(*arrs)
        out = _np.empty(bs[0].shape, dtype=object)
        for i in _np.ndindex(bs[0].shape): out[i] = f(*[_scalarize(b[i]) for b in bs])
        return fixbool(out)
    return f(*args)

def fixbool(out):
    """arrays of truth values: real booleans where all are decided (~ on a python bool is not a negation)"""
    if out.size and all(isinstance(e, (bool, _np.bool_, SBool)) for e in out.flat):
        if not any(isinstance(e, SBool) for e in out.flat): return out.astype(bool)
        for i in _np.ndindex(out.shape):
            if not isinstance(out[i], SBool): out[i] = SBool(z3.BoolVal(bool(out[i])))
    return out

def _wrap0(a):
    r = _np.empty((), dtype=object); r[()] = a
    return r

def bool_array(a):
    """object array of (S)bools -> real bool array, forking"""
    if isinstance(a, _np.ndarray) and a.dtype == object:
        return _np.array([bool(e) for e in a.flat], dtype=bool).reshape(a.shape)
    return a

def IX(k):
    """subscript: a mask of symbolic booleans becomes a real mask"""
    if isinstance(k, _np.ndarray) and k.dtype == object and k.size and all(isinstance(e, (bool, _np.bool_, SBool)) for e in k.flat): return bool_array(k)
    return k

class SymArray(_np.ndarray):
    pass

_U = {}
def _reg(name, f): _U[name] = f
_reg('add', lambda a, b: a + b); _reg('subtract', lambda a, b: a - b); _reg('multiply', lambda a, b: a * b)
_reg('divide', lambda a, b: a / b); _reg('true_divide', lambda a, b: a / b); _reg('power', lambda a, b: a ** b)
_reg('float_power', lambda a, b: a ** b)
_reg('round', lambda a, nd=0: s_round(a, nd)); _reg('around', lambda a, nd=0: s_round(a, nd)); _reg('negative', lambda a: -a); _reg('positive', lambda a: a); _reg('absolute', lambda a: abs(a)); _reg('fabs', lambda a: abs(a)); _reg('abs', lambda a: abs(a))
_reg('less', lambda a, b: a < b); _reg('less_equal', lambda a, b: a <= b); _reg('greater', lambda a, b: a > b)
_reg('greater_equal', lambda a, b: a >= b); _reg('equal', lambda a, b: a == b); _reg('not_equal', lambda a, b: a != b)
_reg('sqrt', n_sqrt); _reg('cbrt', lambda a: n_root(core._mknum(a), 3)); _reg('square', lambda a: a * a)
_reg('exp', n_exp); _reg('log', n_log); _reg('log10', n_log10); _reg('sin', n_sin); _reg('cos', n_cos); _reg('tan', n_tan)
_reg('log2', lambda a: n_log(a) / n_log(2)); _reg('exp2', lambda a: core.n_pow(core._mknum(2), core._mknum(a)))
_reg('arccos', n_arccos); _reg('arcsin', n_arcsin); _reg('arctan2', n_arctan2); _reg('arctan', n_arctan); _reg('tanh', core.n_tanh)
_reg('isnan', n_isnan); _reg('isfinite', n_isfinite); _reg('isinf', lambda x: False if isinstance(x, (Num, SBool)) else bool(_np.isinf(x)))
_reg('maximum', n_max); _reg('minimum', n_min)
_reg('fmax', n_max); _reg('fmin', n_min)
_reg('remainder', lambda a, b: a % b); _reg('mod', lambda a, b: a % b); _reg('floor_divide', lambda a, b: a // b)
_reg('logical_and', lambda a, b: sand(tobool(a), tobool(b))); _reg('logical_or', lambda a, b: sor(tobool(a), tobool(b)))
_reg('logical_not', lambda a: snot(tobool(a)))
_reg('bitwise_and', lambda a, b: sand(a, b)); _reg('bitwise_or', lambda a, b: sor(a, b)); _reg('invert', lambda a: snot(a))
_reg('sign', lambda a: n_ite(a > 0, 1, n_ite(a < 0, -1, 0)))
_reg('deg2rad', lambda a: a * (pi() / 180)); _reg('radians', lambda a: a * (pi() / 180)); _reg('rad2deg', lambda a: a * (180 / pi()))
def _floor(a):
    a = core._mknum(a)
    if isinstance(a, float): return a
    if a.const: return Num(Fraction(a.t.numerator // a.t.denominator))
    return Num(z3.ToReal(z3.ToInt(a.r())), a.nan)
_reg('floor', _floor); _reg('ceil', lambda a: -_floor(-a)); 
def _trunc(a):
    return _floor(a) if a >= 0 else -_floor(-a)
_reg('trunc', _trunc)

def tobool(x):
    if isinstance(x, (SBool, bool, _np.bool_)): return x
    if isinstance(x, Num): return x != 0
    return bool(x)

def ufunc_dispatch(ufunc, method, *inputs, **kw):
    if method != '__call__': raise Unsupported('ufunc.%s %s' % (method, ufunc.__name__))
    f = _U.get(ufunc.__name__)
    if f is None: raise Unsupported('numpy.%s on symbolic value' % ufunc.__name__)
    return elementwise(f, *inputs)

class _Random:
    """np.random: fresh values constrained to the distribution's support (assumed contract)"""
    def __getattr__(s, n):
        if not ST.active: return getattr(_np.random, n)
        if n in ('default_rng', 'RandomState', 'Generator'): return lambda *a, **k: SymRNG()
        if n == 'seed': return lambda *a, **k: None
        return getattr(SymRNG(), n)

class SymRNG:
    """Random generator with assumed contract: values anywhere in the support."""
    def _fresh(s, lo=None, hi=None, hi_open=True, base='rnd'):
        nm = ST.path.fresh_name(base)
        v = z3.Real(nm)
        ST.path.rand = getattr(ST.path, 'rand', []) + [nm]
        if lo is not None: ST.path.assume(v >= core._mknum(lo).r())
        if hi is not None: ST.path.assume((v < core._mknum(hi).r()) if hi_open else (v <= core._mknum(hi).r()))
        n = Num(v)
        ST.path.draws = getattr(ST.path, 'draws', []) + [n]
        return n
    def _sized(s, size, g, lo_hi=None):
        if size is None: return g()
        if isinstance(size, Num) and not size.const:
            if not lo_hi: raise Unsupported('symbolic sample size')
            f = z3.Function(ST.path.fresh_name('uniform'), z3.IntSort(), z3.RealSort()); lo, hi = (core._mknum(x).r() for x in lo_hi)
            def at(i):
                v = f(core._mknum(i).t if not isinstance(core._mknum(i).t, Fraction) else int(core._mknum(i).t)); ST.path.axiom(z3.And(v >= lo, v < hi)); return Num(v)
            return SArr(size, at)
        sh = tuple(int(i) for i in size) if isinstance(size, (tuple, list)) else (int(size),)
        out = _np.empty(sh, dtype=object)
        for i in _np.ndindex(sh): out[i] = g()
        return out
    def uniform(s, low=0.0, high=1.0, size=None):
        return s._sized(size, lambda: s._fresh(low, high, base='uniform'), (low, high))
    def random(s, size=None): return s.uniform(0, 1, size)
    random_sample = random
    def rand(s, *sh): return s.uniform(0, 1, sh or None)
    def normal(s, loc=0.0, scale=1.0, size=None):
        return s._sized(size, lambda: loc + scale * s._fresh(base='normal'))
    def standard_normal(s, size=None): return s.normal(0, 1, size)
    def integers(s, low, high=None, size=None, **k):
        if high is None: low, high = 0, low
        def g():
            v = z3.Int(ST.path.fresh_name('randint'))
            ST.path.assume(z3.And(v >= core._mknum(low).t if not isinstance(low, int) else v >= low, v < (high if isinstance(high, int) else high.t)))
            return Num(v)
        return s._sized(size, g)
    randint = integers
    def __getattr__(s, n): raise Unsupported('random.%s' % n)

class _F64Meta(type):
    def __call__(s, x=0.0): return x if isinstance(x, Num) and not x.isint else core._mknum(x) * 1 if isinstance(x, Num) else _np.float64(x)
    def __instancecheck__(s, o): return isinstance(o, _np.float64) or isinstance(o, Num) and not o.isint
    def __subclasscheck__(s, o): return issubclass(o, _np.float64)
    def __eq__(s, o): return o is s or o is _np.float64
    def __hash__(s): return hash(_np.float64)
class F64(metaclass=_F64Meta):
    dtype = _np.dtype('float64')
class _Linalg:
    def __getattr__(s, name):
        v = getattr(_np.linalg, name)
        if not ST.active: return v
        def g(x, *a, **k):
            if not has_sym(x): return v(x, *a, **k)
            x = _np.asarray(x, dtype=object); ax = k.get('axis')
            if name != 'norm' or a or set(k) - {'axis'} or not (ax is None and x.ndim == 1 or ax in (1, -1) and x.ndim == 2): raise Unsupported('numpy.linalg.%s' % name)
            n = lambda row: n_sqrt(_sumlist([e * e for e in row]))
            if ax is None: return n(x)
            r = _np.empty(len(x), dtype=object)
            for i, row in enumerate(x): r[i] = n(row)
            return r
        return g
class NP:
    """numpy stand-in"""
    random = _Random()
    linalg = _Linalg()
    def __getattr__(s, name):
        v = getattr(_np, name)
        if not ST.active: return v
        if name == 'pi': return pi()
        if name == 'float64': return F64
        if name in _U:
            f = _U[name]
            def g(*a, **k):
                if any(has_sym(x) or isinstance(x, _np.ndarray) and x.dtype == object for x in a):
                    out, wh = k.get('out'), k.get('where')
                    if isinstance(out, tuple): out, = out
                    if out is None and wh is None: return elementwise(f, *a)
                    if not isinstance(out, _np.ndarray) or out.dtype != object or len(a) != 1: raise Unsupported('ufunc kwargs')
                    src = _np.broadcast_to(_np.asarray(a[0], dtype=object), out.shape); m = _np.broadcast_to(_np.asarray(True if wh is None else wh, dtype=object), out.shape)
                    vals = [(i, f(src[i])) for i in _np.ndindex(out.shape) if tobool(m[i])]
                    for i, x in vals: out[i] = x
                    return out
                return v(*a, **k)
            return g
        h = getattr(_NPF, name, None)
        if h is not None:
            def g2(*a, **k):
                return h(v, *a, **k)
            return g2
        if callable(v) and not isinstance(v, type):
            def g3(*a, **k):
                if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                    raise Unsupported('numpy.%s on symbolic value' % name)
                return v(*a, **k)
            return g3
        return v

def _sumlist(it):
    r = 0
    for e in it: r = r + e
    return r

def desym_str(x):
    if isinstance(x, SStr): return x.value()
    if isinstance(x, (list, tuple)) and any(isinstance(e, (SStr, list, tuple)) for e in x): return type(x)(desym_str(e) for e in x)
    return x

class _NPFns:
    """structural numpy functions; first argument is the real numpy function"""
    def array(s, v, x, *a, **k):
        x = desym_str(x)
        if isinstance(x, (Num, SArr)): return x.copy() if isinstance(x, SArr) else x
        if has_sym(x):
            r = _np.array(x, dtype=object)
            return r
        if isinstance(x, (list, tuple)) and any(isinstance(e, float) for e in x) and not k and not a: return _np.array(x)
        return v(x, *a, **k)
    def asarray(s, v, x, *a, **k):
        x = desym_str(x)
        if isinstance(x, (Num, SArr)): return x
        if has_sym(x): return _np.asarray(x, dtype=object)
        return v(x, *a, **k)
    asanyarray = asarray
    def atleast_1d(s, v, x):
        if isinstance(x, SArr): return x
        if isinstance(x, Num):
            r = _np.empty(1, dtype=object); r[0] = x; return r
        if has_sym(x): return _np.atleast_1d(_np.asarray(x, dtype=object))
        return v(x)
    def _shape(s, sh):
        return sh
    def zeros(s, v, shape, *a, **k): return s._full(shape, 0, a, k, v)
    def ones(s, v, shape, *a, **k): return s._full(shape, 1, a, k, v)
    def empty(s, v, shape, *a, **k): return s._full(shape, 0, a, k, v)
    def full(s, v, shape, fill, *a, **k): return s._full(shape, fill, a, k, v)
    def _full(s, shape, fill, a, k, v):
        dt = (a[0] if a else k.get('dtype'))
        if isinstance(shape, Num) and not shape.const or isinstance(shape, tuple) and any(isinstance(x, Num) and not x.const for x in shape):
            n = shape[0] if isinstance(shape, tuple) else shape
            if isinstance(shape, tuple) and len(shape) > 1: raise Unsupported('2d symbolic array')
            isb = dt in (bool, _np.bool_)
            return SArr(n, (lambda i: bool(fill)) if isb else (lambda i: Num(Fraction(fill)) if not isinstance(fill, (Num,)) and fill == fill and abs(fill) != _INF else fill))
        sh = tuple(int(x) for x in shape) if isinstance(shape, (tuple, list)) else (int(shape),)
        if dt in (bool, int, _np.bool_, object): return _np.full(sh, fill, dtype=dt)
        out = _np.empty(sh, dtype=object)
        out[...] = fill
        return out
    def zeros_like(s, v, x, *a, **k): return s._like(x, 0, v, a, k)
    def ones_like(s, v, x, *a, **k): return s._like(x, 1, v, a, k)
    def empty_like(s, v, x, *a, **k): return s._like(x, 0, v, a, k)
    def full_like(s, v, x, fill, *a, **k):
        if has_sym(x) or has_sym(fill): return s._like(x, fill, v, a, k)
        return v(x, fill, *a, **k)
    def _like(s, x, fill, v, a, k):
        if isinstance(fill, SArr):
            if isinstance(x, SArr) and fill.dom is x.dom and (fill.dom is not None or core._mknum(fill.n) == x.n): return SArr(x.n, fill.f, x.dom)
            if fill.dom is not None or not (core._mknum(fill.n) == 1): raise Unsupported('full_like')
            fill = fill[0]
        if isinstance(x, SArr):
            dt = (a[0] if a else k.get('dtype'))
            if dt in (bool, _np.bool_): return SArr(x.n, lambda i: bool(fill), x.dom)
            return SArr(x.n, lambda i: core._mknum(fill), x.dom)
        if isinstance(x, Num): return core._mknum(fill)
        if has_sym(x):
            dt = (a[0] if a else k.get('dtype'))
            if dt in (bool, _np.bool_): return _np.full(_np.shape(x), bool(fill))
            out = _np.empty(_np.shape(_np.asarray(x, dtype=object)), dtype=object); out[...] = fill
            return out
        return _np.full_like(x, fill, *a, **k) if not has_sym(fill) else _np.full(_np.shape(x), fill, dtype=object)
    def where(s, v, c, *ab):
        if not ab:
            if isinstance(c, SArr): return (SSel(c),)
            if isinstance(c, _np.ndarray) and c.dtype == object: c = bool_array(c)
            return v(c)
        a, b = ab
        if any(has_sym(x) for x in (c, a, b)): return elementwise(lambda c, a, b: n_ite(tobool(c), a, b), c, a, b)
        return v(c, a, b)
    def clip(s, v, x, lo=None, hi=None, **k):
        if any(has_sym(z) for z in (x, lo, hi)):
            def f(x, lo, hi):
                if lo is not None: x = n_max(x, lo)
                if hi is not None: x = n_min(x, hi)
                return x
            if lo is None: return elementwise(lambda x, h: f(x, None, h), x, hi)
            if hi is None: return elementwise(lambda x, l: f(x, l, None), x, lo)
            return elementwise(f, x, lo, hi)
        return v(x, lo, hi, **k)
    def sum(s, v, x, axis=None, **k):
        if isinstance(x, SArr): return x.sum()
        if has_sym(x):
            if axis is None: return _sumlist(_np.asarray(x, dtype=object).flat)
            return _np.add.reduce(_np.asarray(x, dtype=object), axis=axis)
        return v(x, axis=axis, **k)
    def nansum(s, v, x, *a, **k):
        if has_sym(x): return _sumlist(n_ite(n_isnan(e), 0, e) for e in _np.asarray(x, dtype=object).flat)
        return v(x, *a, **k)
    def prod(s, v, x, **k):
        if has_sym(x):
            r = 1
            for e in _np.asarray(x, dtype=object).flat: r = r * e
            return r
        return v(x, **k)
    def dot(s, v, a, b):
        if has_sym(a) or has_sym(b):
            A, B = _np.asarray(a, dtype=object), _np.asarray(b, dtype=object)
            return _np.dot(A, B)
        return v(a, b)
    matmul = dot
    def cross(s, v, a, b):
        if has_sym(a) or has_sym(b):
            r = _np.empty(3, dtype=object)
            r[0] = a[1] * b[2] - a[2] * b[1]; r[1] = a[2] * b[0] - a[0] * b[2]; r[2] = a[0] * b[1] - a[1] * b[0]
            return r
        return v(a, b)
    def all(s, v, x, **k):
        if isinstance(x, SArr): return x.all()
        if isinstance(x, (SBool,)): return x
        if has_sym(x): return sand(*[tobool(e) for e in _np.asarray(x, dtype=object).flat])
        return v(x, **k)
    def any(s, v, x, **k):
        if isinstance(x, SArr): return x.any()
        if isinstance(x, (SBool,)): return x
        if has_sym(x): return sor(*[tobool(e) for e in _np.asarray(x, dtype=object).flat])
        return v(x, **k)
    def max(s, v, x, axis=None, **k):
        if axis == 0 and (isinstance(x, (list, tuple)) or isinstance(x, _np.ndarray) and x.dtype == object and x.ndim == 2) and has_sym(list(x)):
            x = list(x); r = x[0]
            for e in x[1:]: r = elementwise(n_max, r, e)
            return r
        if axis is not None:
            if has_sym(x): raise Unsupported('axis')
            return v(x, axis=axis, **k)
        if has_sym(x) and not isinstance(x, SArr):
            it = list(_np.asarray(x, dtype=object).flat); r = it[0]
            for e in it[1:]: r = n_max(r, e)
            return r
        if isinstance(x, SArr): return x.max()
        return v(x, **k)
    amax = max
    def min(s, v, x, axis=None, **k):
        if axis == 0 and (isinstance(x, (list, tuple)) or isinstance(x, _np.ndarray) and x.dtype == object and x.ndim == 2) and has_sym(list(x)):
            x = list(x); r = x[0]
            for e in x[1:]: r = elementwise(n_min, r, e)
            return r
        if axis is not None:
            if has_sym(x): raise Unsupported('axis')
            return v(x, axis=axis, **k)
        if has_sym(x) and not isinstance(x, SArr):
            it = list(_np.asarray(x, dtype=object).flat); r = it[0]
            for e in it[1:]: r = n_min(r, e)
            return r
        if isinstance(x, SArr): return x.min()
        return v(x, **k)
    amin = min
    def diff(s, v, x, **k):
        if isinstance(x, SArr):
            f = x.f; r = SDiff(x.n - 1, lambda i: f(i + 1) - f(i)); r.src = (x.n, f); return r
        if has_sym(x):
            x = _np.asarray(x, dtype=object); return x[1:] - x[:-1]
        return v(x, **k)
    def cumsum(s, v, x, **k):
        if has_sym(x) and not isinstance(x, SArr):
            out, r = [], 0
            for e in _np.asarray(x, dtype=object).flat:
                r = r + e; out.append(r)
            return _np.array(out, dtype=object)
        return v(x, **k)
    def isclose(s, v, a, b, rtol=1e-5, atol=1e-8, **k):
        if has_sym(a) or has_sym(b):
            return elementwise(lambda x, y: abs(x - y) <= (core._mknum(atol) + core._mknum(rtol) * abs(y)), a, b)
        return v(a, b, rtol=rtol, atol=atol, **k)
    def concatenate(s, v, xs, **k):
        if has_sym(xs): return _np.concatenate([_np.asarray(x, dtype=object) for x in xs], **k)
        return v(xs, **k)
    def append(s, v, a, b, **k):
        if has_sym(a) or has_sym(b): return _np.append(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object) if not isinstance(b, Num) else _wrap0(b))
        return v(a, b, **k)
    def outer(s, v, a, b, **k):
        if has_sym(a) or has_sym(b):
            a, b = list(_np.asarray(a, dtype=object).flat), list(_np.asarray(b, dtype=object).flat); r = _np.empty((len(a), len(b)), dtype=object)
            for i, x in enumerate(a):
                for j, y in enumerate(b): r[i, j] = x * y
            return r
        return v(a, b, **k)
    def iterable(s, v, x): return False if isinstance(x, Num) else v(x)
    def isscalar(s, v, x): return True if isinstance(x, Num) else v(x)
    def size(s, v, x, *a):
        if isinstance(x, Num): return 1
        if isinstance(x, SArr): return x.n
        return v(x, *a)
    def shape(s, v, x):
        if isinstance(x, SArr): return (x.n,)
        return v(x)
    def ndim(s, v, x):
        if isinstance(x, (Num,)): return 0
        if isinstance(x, SArr): return 1
        return v(x)
    def copy(s, v, x, **k):
        if isinstance(x, Num): return x
        if isinstance(x, SArr): return x.copy()
        return v(x, **k)
    def mean(s, v, x, **k):
        if has_sym(x) and not isinstance(x, SArr):
            it = list(_np.asarray(x, dtype=object).flat); return _sumlist(it) / len(it)
        return v(x, **k)
    def average(s, v, x, weights=None, **k):
        if has_sym(x) or has_sym(weights):
            it = list(_np.asarray(x, dtype=object).flat)
            if weights is None: return _sumlist(it) / len(it)
            w = list(_np.asarray(weights, dtype=object).flat)
            return _sumlist(a * b for a, b in zip(it, w)) / _sumlist(w)
        return v(x, weights=weights, **k)
    def interp(s, v, x, xp, fp, **k):
        if has_sym((x, xp, fp)):
            if k or isinstance(x, (_np.ndarray, list, SArr)) or isinstance(xp, SArr): raise Unsupported('interp')
            xp, fp = list(xp), list(fp)
            if x <= xp[0]: return fp[0]
            for i in range(1, len(xp)):
                if x <= xp[i]: return fp[i - 1] + (fp[i] - fp[i - 1]) / (xp[i] - xp[i - 1]) * (x - xp[i - 1])
            return fp[-1]
        return v(x, xp, fp, **k)
    def hypot(s, v, a, b):
        if has_sym((a, b)): return elementwise(lambda x, y: n_sqrt(x * x + y * y), a, b)
        return v(a, b)
    def transpose(s, v, x, *a):
        return _np.transpose(_np.asarray(x, dtype=object), *a) if has_sym(x) else v(x, *a)
    def argmin(s, v, x, **k): return s._arg(v, x, lambda a, b: a < b, k)
    def argmax(s, v, x, **k): return s._arg(v, x, lambda a, b: a > b, k)
    def _arg(s, v, x, better, k):
        if isinstance(x, SArr): raise Unsupported('arg on symbolic array')
        if has_sym(x):
            x = [bool(e) if isinstance(e, SBool) else e for e in x]; j = 0
            for i in range(1, len(x)):
                if better(x[i], x[j]): j = i
            return j
        return v(x, **k)
    def squeeze(s, v, x, *a, **k): return x if isinstance(x, (Num, SArr)) else v(x, *a, **k)
    def ravel(s, v, x, *a, **k): return x if isinstance(x, SArr) else v(x, *a, **k)
    def nan_to_num(s, v, x, nan=0.0, **k):
        if has_sym(x): return elementwise(lambda e: n_ite(n_isnan(e), nan, e), x)
        return v(x, nan=nan, **k)
    def stack(s, v, xs, **k):
        return _np.stack([_np.asarray(x, dtype=object) for x in xs], **k) if has_sym(xs) else v(xs, **k)
    def vstack(s, v, xs, **k):
        return _np.vstack([_np.asarray(x, dtype=object) for x in xs]) if has_sym(xs) else v(xs, **k)
    def trapz(s, v, y, x=None, **k):
        if has_sym((y, x)): raise Unsupported('trapz')
        return v(y, x, **k)
    def linspace(s, v, a, b, num=50, **k):
        if not has_sym((a, b, num)) : return v(a, b, num, **k)
        if k: raise Unsupported('linspace options')
        f = lambda i: a + (b - a) * core._mknum(i) / (num - 1)
        if isinstance(num, Num) and not num.const or num > 16: return SArr(core._mknum(num), f)
        out = _np.empty(int(num), dtype=object)
        for i in range(int(num)): out[i] = f(i)
        return out
    def searchsorted(s, v, a, x, side='left', **k):
        if not has_sym((a, x)): return v(a, x, side=side, **k)
        if isinstance(a, SArr) and a.dom is None and not k and isinstance(core._mknum(x), Num):
            # defining property on a sorted array (numpy leaves unsorted arrays unspecified)
            n = core._mknum(a.n); j = Num(z3.Int(ST.path.fresh_name('sorted'))); q = core._mknum(x)
            from . import sarr
            ST.path.assume(z3.And(j.t >= 0, j.t <= sarr._it(n)))
            lt = (lambda e: e < q) if side == 'left' else (lambda e: e <= q)
            sarr.forall(n, lambda i: sor(sand(i < j, lt(a.f(i))), sand(i >= j, snot(lt(a.f(i))))))
            for w in (j - 1, j): sarr.use_index(w)
            return j
        if k or isinstance(a, SArr) or isinstance(x, SArr): raise Unsupported('searchsorted')
        def one(q):
            for i, e in enumerate(a):
                if (e >= q) if side == 'left' else (e > q): return i
            return len(a)
        return _np.array([one(q) for q in x], dtype=int) if isinstance(x, (list, tuple, _np.ndarray)) and _np.ndim(x) else one(x)
    def flatnonzero(s, v, x): return v(bool_array(_np.asarray(x, dtype=object))) if has_sym(x) else v(x)
    def errstate(s, v, *a, **k): return v(*a, **k)
    def seterr(s, v, *a, **k): return v(*a, **k)
    def squeeze_(s): pass
_NPF = _NPFns()
NPS = NP()

class PDShim:
    """pandas stand-in: isna/isnull/notna understand symbolic numbers"""
    def __getattr__(s, n):
        import pandas as pd
        v = getattr(pd, n)
        if not ST.active: return v
        if n in ('isna', 'isnull', 'notna', 'notnull'):
            def g(x):
                if isinstance(x, (Num, SBool)): r = n_isnan(x)
                elif isinstance(x, SStr): r = False
                elif has_sym(x): r = elementwise(n_isnan, x)
                else: return v(x)
                return r if n.startswith('is') else snot(r)
            return g
        return v
PDS = PDShim()

class MathShim:
    _T = dict(sqrt=n_sqrt, sin=n_sin, cos=n_cos, tan=n_tan, exp=n_exp, log10=n_log10, acos=n_arccos, asin=n_arcsin,
              isnan=n_isnan, isfinite=n_isfinite, fabs=abs, atan2=n_arctan2, atan=n_arctan,
              isinf=lambda x: False, floor=lambda x: _toint(_floor(x)), ceil=lambda x: _toint(-_floor(-x)), tanh=core.n_tanh)
    def __getattr__(s, n):
        v = getattr(math, n)
        if not ST.active: return v
        if n == 'pi': return pi()
        def g(*a):
            if any(has_sym(x) for x in a):
                if n == 'log': return n_log(a[0]) if len(a) == 1 else n_log(a[0]) / n_log(a[1])
                if n == 'pow': return a[0] ** a[1]
                f = s._T.get(n)
                if f is None: raise Unsupported('math.%s' % n)
                r = f(*a)
                if n in ('sqrt', 'log10', 'log', 'acos', 'asin') and isinstance(r, float) and (r != r or abs(r) == _INF): raise ValueError('math domain error')
                return r
            return v(*a)
        return g if callable(v) else v
MATHS = MathShim()

def _toint(x):
    if isinstance(x, Num):
        if x.const: return int(x.t)
        return Num(z3.ToInt(x.r()) if not x.isint else x.t)
    return int(x)

# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(c, o): return isinstance(o, float) or (isinstance(o, Num) and not o.isint)
    def __call__(c, x=0.0):
        x = _scalarize(x)
        if isinstance(x, Num):
            return Num(x.r() if not x.const else x.t, x.nan)
        if isinstance(x, SBool): return x._num()
        return float(x)
class sfloat(float, metaclass=_FloatMeta): pass
class _IntMeta(type):
    def __instancecheck__(c, o): return isinstance(o, int) or (isinstance(o, Num) and o.isint)
    def __call__(c, x=0, *a):
        x = _scalarize(x)
        if isinstance(x, Num):
            if x.nan is not None and ST.path.fork(x.nan): raise ValueError('cannot convert float NaN to integer')
            if x.isint: return x if not x.const else int(x.t)
            if x.const: return int(x.t)
            return _toint(_trunc(x))
        if isinstance(x, SBool): return int(bool(x))
        return int(x, *a)
class sint(int, metaclass=_IntMeta): pass

def s_isinstance(o, t):
    if isinstance(o, Num):
        ts = t if isinstance(t, tuple) else (t,)
        for q in ts:
            if isinstance(q, tuple) and s_isinstance(o, q): return True
            if q in (float, sfloat, _np.floating, _np.float64) and not o.isint: return True
            if q in (int, sint, _np.integer, _np.int64) and o.isint: return True
            try:
                if getattr(q, '__name__', '') in ('Number', 'Real') : return True
            except Exception: pass
            if q is Num or q is object: return True
        return False
    if isinstance(o, SBool):
        ts = t if isinstance(t, tuple) else (t,)
        return any(q in (bool, int, _np.bool_) for q in ts)
    if isinstance(o, SArr):
        ts = t if isinstance(t, tuple) else (t,)
        return any(q in (_np.ndarray, SArr) or getattr(q, '__name__', '') in ('Iterable', 'Sequence', 'Sized') for q in ts)
    return isinstance(o, t)
def s_len(x):
    if isinstance(x, SArr): return x.n
    return len(x)
def s_abs(x): return abs(x)
def s_round(x, nd=None):
    x = core._mknum(x) if isinstance(x, Num) else x
    if isinstance(x, Num):
        if x.const: 
            r = round(x.t, int(nd)) if nd is not None else round(x.t)
            return Num(Fraction(r), x.nan, nd is None)
        if nd is None: raise Unsupported('round to integer of symbolic value')
        # round half even at nd digits: |r-x| <= 0.5e-nd, monotone, constants assumed to behave alike
        nd = int(nd); t = core.app('round%d' % nd, x); h = z3.RealVal(Fraction(1, 2 * 10 ** nd)); cx = core.canon(x.t)
        axiom(t - cx <= h, cx - t <= h)
        for k in (-1, 0, 1): axiom(z3.Implies(cx <= k, t <= k), z3.Implies(cx >= k, t >= k))
        lst = ST.path.mono.setdefault('round%d' % nd, [])
        for (t2, a2) in lst:
            if not t2.eq(t): axiom(z3.Implies(cx <= a2, t <= t2), z3.Implies(a2 <= cx, t2 <= t))
        lst.append((t, cx))
        return Num(t, x.nan)
    return round(x, nd) if nd is not None else round(x)
def s_sum(it, start=0):
    if isinstance(it, SArr): return it.sum() + start
    r = start
    for e in it: r = r + e
    return r
def s_any(it):
    if isinstance(it, SArr): return it.any()
    return any(it)
def s_all(it):
    if isinstance(it, SArr): return it.all()
    return all(it)
def s_range(*a):
    a = [int(x.t) if isinstance(x, Num) and x.const else x for x in a]
    if any(isinstance(x, Num) for x in a): return SymRange(*a)
    return range(*a)
class SymRange:
    def __init__(s, a, b=None, st=1):
        s.lo, s.hi = (0, a) if b is None else (a, b)
        s.st = st
    def __iter__(s):
        # unroll while feasible; bounded by the path budget
        i = s.lo; k = 0
        while True:
            if not (i < s.hi): return
            k += 1
            if k > ST.max_unroll: raise Unsupported('loop over symbolic range without invariant')
            yield i
            i = i + s.st
ST.max_unroll = 6
def s_hash(x): return hash(x)
def s_type(*a):
    if len(a) == 1:
        if isinstance(a[0], Num): return int if a[0].isint else float
        if isinstance(a[0], SBool): return bool
        if isinstance(a[0], SStr): return str
    return type(*a)
def s_str(*a, **k):
    if len(a) == 1 and isinstance(a[0], SStr): return a[0]
    return str(*a, **k)
class _StrMeta(type):
    def __instancecheck__(c, o): return isinstance(o, str)
    def __call__(c, *a, **k): return s_str(*a, **k)
def s_bool(x=False):
    if isinstance(x, (SBool,)): return x
    return bool(x)
class _BoolMeta(type):
    def __instancecheck__(c, o): return isinstance(o, (bool, SBool))
    def __call__(c, x=False): return s_bool(x)

class SymSet:
    """set of symbolic numbers"""
    def __init__(s, it): s.v = list(it)
    def has(s, a): return sor(*[a == e for e in s.v]) if s.v else False
    __contains__ = lambda s, a: bool(s.has(a))
    def __and__(s, o): o = o if isinstance(o, SymSet) else SymSet(o); return SymSet([e for e in s.v if bool(o.has(e))])
    __rand__ = __and__
    def __or__(s, o): return SymSet(s.v + [e for e in o if not bool(s.has(e))])
    def __iter__(s): return iter(s.v)
    def intersection(s, *o):
        for x in o: s = s & x
        return s
    def issubset(s, o): o = SymSet(o); return all(bool(o.has(e)) for e in s.v)
class _SetMeta(type):
    def __instancecheck__(c, o): return isinstance(o, (set, SymSet))
    def __call__(c, it=()):
        it = list(it)
        return SymSet(it) if any(isinstance(e, Num) and not e.const for e in it) else set(it)
class sset(set, metaclass=_SetMeta): pass

BUILTINS = dict(set=sset, round=s_round, float=sfloat, int=sint, isinstance=s_isinstance, len=s_len, sum=s_sum, any=s_any, all=s_all,
                range=s_range)

# -------------------------------------------------- helpers called by instrumented code
def L(x):
    """float literal"""
    if not ST.active: return x
    return Num(frac(x)) if x == x and abs(x) != _INF else x
def DIV(a, b):
    if ST.active and isinstance(a, (int, _np.integer)) and isinstance(b, (int, _np.integer)) and not isinstance(a, bool):
        if b == 0: raise ZeroDivisionError('division by zero')
        return Num(Fraction(int(a), int(b)))
    if ST.active and type(a) in (int, float) and type(b) in (int, float):
        if b == 0: raise ZeroDivisionError('float division by zero')
        try: return Num(frac(a) / frac(b))
        except ValueError: pass
    return a / b
def POW(a, b):
    if ST.active and type(a) in (int, float) and type(b) in (int, float) and (type(a) is float or type(b) is float or b < 0):
        try: return core.n_pow(Num(frac(a)), Num(frac(b)))
        except ValueError: pass
    return a ** b
def IN(a, b):
    if isinstance(a, SStr):
        if isinstance(b, str) and not isinstance(b, SStr): return a._split(lambda v: v in b)
        if isinstance(b, (list, tuple, set, frozenset, dict)) and not any(isinstance(e, SStr) for e in b): return a._split(lambda v: v in b)
    if isinstance(b, SymSet): return b.has(a)
    if isinstance(a, Num) and isinstance(b, (set, frozenset, dict, list, tuple)) and not a.const:
        return sor(*[a == e for e in b]) if b else False
    return a in b
def IS(a, b):
    if isinstance(a, SBool) and (b is True or b is False): return bool(a) == b
    if isinstance(a, SStr) and isinstance(b, SStr): return a == b
    return a is b
def ISNOT(a, b): return not IS(a, b)
