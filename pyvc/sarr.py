"""Arrays of symbolic length: index -> element closures (elementwise semantics)."""
from .core import *
from . import core

class SArr:
    """1-d array of symbolic length n.  dom is None, or a mask SArr/closure token
    when this is the compressed selection arr[mask]; operations between two
    selections demand the same mask object, so position k of one corresponds
    to position k of the other."""
    _sarr = True
    __array_priority__ = 2e6
    __array_ufunc__ = None
    def __init__(s, n, f, dom=None):
        s.n = n; s.f = f; s.dom = dom
    def at(s, i): use_index(i); return s.f(i)
    @staticmethod
    def ew(g, *args):
        arrs = [a for a in args if isinstance(a, SArr)]
        dom = arrs[0].dom; n = arrs[0].n
        for a in arrs[1:]:
            if a.dom is not dom: raise Unsupported('mixing selections of different masks')
            if a.n is not n and not (_same(a.n, n)): 
                d = core._mknum(a.n) == n
                if not (d is True or isinstance(d, SBool) and bool(d)): raise ValueError('operands could not be broadcast together')
        for a in args:
            if isinstance(a, (np.ndarray, list)): raise Unsupported('symbolic-length with concrete array')
        fs = [a.f if isinstance(a, SArr) else (lambda i, a=a: a) for a in args]   # snapshot: numpy copies eagerly
        return SArr(n, lambda i: g(*[f(i) for f in fs]), dom)
    def _b(s, o, g):
        if isinstance(o, (SArr, Num, SBool, int, float, np.number, bool, np.bool_)) : return SArr.ew(g, s, o)
        if isinstance(o, np.ndarray) and o.ndim == 0: return SArr.ew(g, s, o.item())
        if isinstance(o, np.ndarray) and o.shape == (1,): return SArr.ew(g, s, o[0])
        raise Unsupported('array op with %s' % type(o))
    def __add__(s, o): return s._b(o, lambda a, b: a + b)
    def __radd__(s, o): return s._b(o, lambda a, b: b + a)
    def __sub__(s, o): return s._b(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._b(o, lambda a, b: b - a)
    def __mul__(s, o): return s._b(o, lambda a, b: a * b)
    def __rmul__(s, o): return s._b(o, lambda a, b: b * a)
    def __truediv__(s, o): return s._b(o, lambda a, b: a / b)
    def __rtruediv__(s, o): return s._b(o, lambda a, b: b / a)
    def __pow__(s, o): return s._b(o, lambda a, b: a ** b)
    def __rpow__(s, o): return s._b(o, lambda a, b: b ** a)
    def __mod__(s, o): return s._b(o, lambda a, b: a % b)
    def __neg__(s): return SArr.ew(lambda a: -a, s)
    def __abs__(s): return SArr.ew(abs, s)
    def __lt__(s, o): return s._b(o, lambda a, b: a < b)
    def __le__(s, o): return s._b(o, lambda a, b: a <= b)
    def __gt__(s, o): return s._b(o, lambda a, b: a > b)
    def __ge__(s, o): return s._b(o, lambda a, b: a >= b)
    def __eq__(s, o): return s._b(o, lambda a, b: a == b)
    def __ne__(s, o): return s._b(o, lambda a, b: a != b)
    def __and__(s, o): return s._b(o, sand)
    __rand__ = __and__
    def __or__(s, o): return s._b(o, sor)
    __ror__ = __or__
    def __invert__(s): return SArr.ew(snot, s)
    __hash__ = None
    def __iadd__(s, o): s.f = (s + o).f; return s
    def __isub__(s, o): s.f = (s - o).f; return s
    def __imul__(s, o): s.f = (s * o).f; return s
    def __itruediv__(s, o): s.f = (s / o).f; return s
    def __bool__(s): raise Unsupported('truth value of symbolic array')
    def __iter__(s): raise Unsupported('iteration over symbolic-length array')
    def __len__(s): raise Unsupported('native len of symbolic-length array')
    def copy(s): return SArr(s.n, s.f, s.dom)
    def __deepcopy__(s, m): return s.copy()
    @property
    def shape(s): return (s.size,)
    @property
    def size(s): return s.n if s.dom is None else s.dom.sum()
    @property
    def ndim(s): return 1
    def astype(s, *a, **k): return s.copy()
    def flatten(s): return s.copy()
    def _idx(s, i):
        n = core._mknum(s.n)
        if isinstance(i, int):
            if i < 0: i = n + i
            else: i = core._mknum(i)
        if isinstance(i, Num):
            if ST.path.fork(z3.Or((i < 0).b if isinstance(i < 0, SBool) else z3.BoolVal(bool(i < 0)),
                                  (i >= n).b if isinstance(i >= n, SBool) else z3.BoolVal(bool(i >= n)))):
                raise IndexError('index out of bounds')
            use_index(i); return i
        raise Unsupported('index %r' % (i,))
    def __getitem__(s, k):
        if isinstance(k, SSel): k = k.mask
        if isinstance(k, SArr):
            if k.dom is not s.dom: raise Unsupported('selection mask')
            return SArr(s.n, s.f, k)
        if isinstance(k, slice):
            if s.dom is not None: raise Unsupported('slice of selection')
            n = core._mknum(s.n)
            lo, hi, st = k.start, k.stop, k.step
            if st not in (None, 1, -1): raise Unsupported('slice step')
            if st == -1:
                if lo is not None or hi is not None: raise Unsupported('slice')
                f, m = s.f, n
                return SArr(n, lambda i: f(m - 1 - i))
            def norm(x, d):
                if x is None: return d
                x = core._mknum(x)
                if x.const and x.t < 0: x = n + x
                elif not x.const and x < 0: x = n + x
                return n_min(n_max(x, 0), n)
            lo, hi = norm(lo, core._mknum(0)), norm(hi, n)
            f = s.f
            return SArr(n_max(hi - lo, 0), lambda i: f(i + lo))
        if s.dom is not None: raise Unsupported('index of selection')
        i = s._idx(k)
        return s.f(i)
    def _seldom(s, k):
        if k.dom is not s.dom: raise Unsupported('nested selection')
    def __setitem__(s, k, v):
        f = s.f
        if isinstance(k, SSel): k = k.mask
        if isinstance(k, SArr):
            if s.dom is not None: s._seldom(k)
            m = k
            if isinstance(v, SArr):
                if v.dom is not None and v.dom is not m and not (m.dom is not None and v.dom is m): raise Unsupported('assignment from a different selection')
                g = v.f
                if v.dom is None:
                    # an array as long as the number of selected elements: element rank(i) goes to position i
                    c = m.sum()
                    if not _same(core._mknum(v.n), c): raise Unsupported('assignment of an array of another length')
                    rk = z3.Function(ST.path.fresh_name('rank'), z3.IntSort(), z3.IntSort()); vf = v.f
                    def g(i):
                        r = rk(_it(core._mknum(i))); ST.path.axiom(z3.And(r >= 0, r < c.t)); return vf(Num(r))
            else: g = lambda i: v
            mf = m.f
            def h(i):
                c = mf(i)
                if isinstance(c, bool): return g(i) if c else f(i)
                # evaluate each side only under its condition
                return g(i) if bool(c) else f(i)
            s.f = h; return
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                s.f = v.f if isinstance(v, SArr) else (lambda i: v); return
            if k.step not in (None, 1) or isinstance(v, (SArr, np.ndarray, list, tuple)) or s.dom is not None: raise Unsupported('slice assignment')
            n = core._mknum(s.n)
            def norm(x, d):
                if x is None: return d
                x = core._mknum(x)
                if x.const and x.t < 0: x = n + x
                elif not x.const and x < 0: x = n + x
                return x
            lo, hi = norm(k.start, core._mknum(0)), norm(k.stop, n)
            s.f = lambda i: n_ite(sand(i >= lo, i < hi), v, f(i)); return
        j = s._idx(k)
        s.f = lambda i: n_ite(i == j, v, f(i)) 
    def _pred(s, neg=False):
        f, d = s.f, s.dom
        def p(i):
            x = _tb(f(i))
            if neg: x = snot(x)
            return x if d is None else sand(_sel(d, i), x)
        return p
    def _any(s, neg):
        """exists an element: a witness index; otherwise a universal fact, instantiated at every index the path looks at"""
        p = s._pred(neg); n = core._mknum(s.n)
        if ST.path.fork(z3.Bool(ST.path.fresh_name('any'))):
            k = Num(z3.Int(ST.path.fresh_name('witness'))); ST.path.assume(z3.And(k.t >= 0, k.t < _it(n)))
            use_index(k)
            if not bool(p(k)): raise Infeasible()
            return True
        forall(n, lambda i: snot(p(i)))
        return False
    def any(s, *a, **k): return s._any(False)
    def all(s, *a, **k): return not s._any(True)
    def _ext(s, better):
        if s.dom is not None: raise Unsupported('extremum of selection')
        n = core._mknum(s.n); f = s.f
        if ST.path.fork(_it(n) <= 0): raise ValueError('zero-size array to reduction operation which has no identity')
        k = Num(z3.Int(ST.path.fresh_name('extreme'))); ST.path.assume(z3.And(k.t >= 0, k.t < _it(n)))
        v = f(k); use_index(k)
        forall(n, lambda i: better(v, f(i)))
        return v
    def max(s, *a, **k): return s._ext(lambda v, x: v >= x)
    def min(s, *a, **k): return s._ext(lambda v, x: v <= x)
    def mean(s, *a, **k):
        """arithmetic mean: some value between the smallest and the largest element"""
        if s.dom is not None: raise Unsupported('mean of selection')
        lo, hi = s.min(), s.max(); v = Num(z3.Real(ST.path.fresh_name('mean')))
        ST.path.assume(z3.And(v.t >= core._mknum(lo).r(), v.t <= core._mknum(hi).r())); return v
    def std(s, *a, **k):
        """standard deviation: non-negative, and zero only if all elements agree"""
        if s.dom is not None: raise Unsupported('std of selection')
        n = core._mknum(s.n); f = s.f
        if ST.path.fork(_it(n) <= 0): return float('nan')
        v = Num(z3.Real(ST.path.fresh_name('std'))); ST.path.assume(v.t >= 0)
        if ST.path.fork(v.t == 0):
            m = Num(z3.Real(ST.path.fresh_name('same'))); forall(n, lambda i: f(i) == m)
            if ST.path._chk(z3.BoolVal(True), 2000) == z3.unsat: raise Infeasible()
        return v
    def sum(s, *a, **k):
        """number of true elements of a mask; sums of numbers are not supported"""
        e = s.f(Num(z3.Int(ST.path.fresh_name('probe'))))
        if not isinstance(e, (bool, np.bool_, SBool)): raise Unsupported('sum of symbolic array')
        for m, c in counts():
            if m is s.f: return c
        n = core._mknum(s.n); c = Num(z3.Int(ST.path.fresh_name('count')))
        ST.path.assume(z3.And(c.t >= 0, c.t <= _it(n)))
        if ST.path.fork(c.t > 0):
            k = Num(z3.Int(ST.path.fresh_name('witness'))); ST.path.assume(z3.And(k.t >= 0, k.t < _it(n))); use_index(k)
            if not bool(_sel(s, k)): raise Infeasible()
        else: forall(n, lambda i: snot(_sel(s, i)))
        counts().append((s.f, c))
        return c

def _sel(d, i):
    r = _tb(d.f(i))
    return r if d.dom is None else sand(_sel(d.dom, i), r)
def _it(n): return z3.IntVal(int(n.t)) if isinstance(n.t, Fraction) else n.t
def _tb(x):
    if isinstance(x, (bool, np.bool_, SBool)): return x
    return core._mknum(x) != 0
def counts():
    if not hasattr(ST.path, 'counts'): ST.path.counts = []
    return ST.path.counts
def _univ():
    p = ST.path
    if not hasattr(p, 'univ'): p.univ = []; p.indices = []; p.instantiating = False; p.ascending = []
    return p
def _inst(n, q, i):
    p = ST.path; p.instantiating = True
    try: b = q(i)
    finally: p.instantiating = False
    if b is True: return
    b = z3.BoolVal(False) if b is False else b.b if isinstance(b, SBool) else z3.BoolVal(bool(b))
    it = _it(core._mknum(i))
    p.assume(z3.Implies(z3.And(it >= 0, it < _it(n)), b))
def use_index(i):
    if not ST.active: return
    p = _univ()
    if p.instantiating: return
    i = core._mknum(i)
    if not isinstance(i, Num): return
    if any(_same(i, k) or (i.const and k.const and i.t == k.t) for k in p.indices): return
    p.indices.append(i)
    for n, q in list(p.univ): _inst(n, q, i)
    for n, f in list(p.ascending):
        for k in list(p.indices)[:-1]: _asc(n, f, i, k)
def forall(n, q):
    p = _univ()
    if p.instantiating: raise Unsupported('nested quantifier')
    p.univ.append((n, q))
    for i in list(p.indices): _inst(n, q, i)

def ascending(n, f):
    """every element is smaller than the next one: by induction any two elements are in order (instantiated at pairs of indices the path looks at)"""
    p = _univ(); p.ascending.append((n, f))
    for a in range(len(p.indices)):
        for b in range(a): _asc(n, f, p.indices[a], p.indices[b])
def _asc(n, f, i, k):
    p = ST.path; p.instantiating = True
    try: x, y = core._mknum(f(i)), core._mknum(f(k))
    finally: p.instantiating = False
    it, kt, nt = _it(core._mknum(i)), _it(core._mknum(k)), _it(core._mknum(n))
    ok = z3.And(it >= 0, it < nt, kt >= 0, kt < nt)
    p.assume(z3.Implies(ok, z3.And((x.r() < y.r()) == (it < kt), (x.r() == y.r()) == (it == kt))))
class SDiff(SArr):
    """np.diff of a symbolic array: `all(diff > 0)` also yields that the array is ascending"""
    def __gt__(s, o):
        r = SArr.__gt__(s, o)
        if isinstance(o, (int, float)) and o == 0 or isinstance(o, Num) and o.const and o.t == 0: r.__class__ = _SUp; r.src = s.src
        return r
class _SUp(SArr):
    def all(s, *a, **k):
        r = SArr.all(s)
        if r: ascending(*s.src)
        return r

class SSel:
    """np.where(mask)[0] of a symbolic-length mask: usable as an index only"""
    def __init__(s, mask): s.mask = mask
    @property
    def size(s): return s.mask.sum()

class SList(SArr):
    """python list of symbolic length"""
    def append(s, v):
        n, f = core._mknum(s.n), s.f
        s.n = n + 1
        s.f = lambda i: (v if (isinstance(i, Num) and _same(i, n)) else n_ite(i == n, v, f(i)))
    def copy(s): return SList(s.n, s.f)
    def __getitem__(s, k):
        r = SArr.__getitem__(s, k)
        return SList(r.n, r.f) if isinstance(r, SArr) else r
    def _b(s, o, g): raise Unsupported('arithmetic on list')

def _same(a, b):
    try:
        return a is b or (isinstance(a, Num) and isinstance(b, Num) and not isinstance(a.t, Fraction) and not isinstance(b.t, Fraction) and a.t.eq(b.t))
    except Exception:
        return False
