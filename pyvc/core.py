"""Symbolic values, path exploration and obligation discharge.

Numbers are mathematical reals/integers (exact rationals for literals) with an
optional NaN flag; the code of /repo executes natively on these proxies."""
import os, sys, time, math, re
from fractions import Fraction
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
sys.path.append(_VT)
import z3
sys.path.remove(_VT)
import numpy as np


class EngineExit(BaseException):
    """Base of engine control flow; never an Exception, so code cannot swallow it."""
class Infeasible(EngineExit): pass
class Unsupported(EngineExit): pass
class PathDone(EngineExit): pass


class State:
    """Per-process engine state (one path at a time)."""
    def __init__(s):
        s.active = False
        s.reset_totals()
    def reset_totals(s):
        s.solver_time = 0.0
        s.queries = 0

ST = State()


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float('inf'), float('-inf')):
            raise ValueError(x)
        return Fraction(repr(x))
    raise TypeError(type(x))


def is_concrete_number(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_)) and not isinstance(x, Num)


def zval(t):
    """Fraction -> z3 real."""
    if isinstance(t, Fraction):
        return z3.RealVal(t)
    return t


# --------------------------------------------------------------------------
class SBool:
    """Symbolic boolean (z3 BoolRef); bool() forks the path."""
    __slots__ = ('b',)
    def __init__(s, b): s.b = b
    def __bool__(s): return ST.path.fork(s.b)
    def __and__(s, o): return sand(s, o)
    def __or__(s, o): return sor(s, o)
    __rand__ = __and__
    __ror__ = __or__
    def __invert__(s): return snot(s)
    def __eq__(s, o):
        return mkb(bterm(s) == bterm(o))
    def __ne__(s, o):
        return mkb(bterm(s) != bterm(o))
    def __xor__(s, o): return mkb(z3.Xor(bterm(s), bterm(o)))
    def __hash__(s): return hash(bool(s))
    def _num(s): return Num(z3.If(s.b, z3.RealVal(1), z3.RealVal(0)))
    def __mul__(s, o): return s._num() * o
    __rmul__ = __mul__
    def __add__(s, o): return s._num() + o
    __radd__ = __add__
    def __sub__(s, o): return s._num() - o
    def __rsub__(s, o): return o - s._num()
    def __repr__(s): return 'SBool(%s)' % str(s.b)[:80]
    def item(s): return s
    def all(s, *a, **k): return s
    any = all

def bterm(x):
    if isinstance(x, SBool): return x.b
    if isinstance(x, z3.BoolRef): return x
    if isinstance(x, (bool, np.bool_)): return z3.BoolVal(bool(x))
    if isinstance(x, Num): return (x != 0).b if isinstance(x != 0, SBool) else z3.BoolVal(bool(x != 0))
    raise Unsupported('bool of %r' % type(x))

def mkb(b):
    if isinstance(b, bool): return b
    b = z3.simplify(b)
    if z3.is_true(b): return True
    if z3.is_false(b): return False
    return SBool(b)

def sand(*xs):
    xs = [x for x in xs]
    if any(isinstance(x, (bool, np.bool_)) and not x for x in xs): return False
    return mkb(z3.And([bterm(x) for x in xs])) if xs else True
def sor(*xs):
    if any(isinstance(x, (bool, np.bool_)) and x for x in xs): return True
    return mkb(z3.Or([bterm(x) for x in xs])) if xs else False
def snot(x):
    if isinstance(x, (bool, np.bool_)): return not x
    return mkb(z3.Not(bterm(x)))
def simplies(a, b): return sor(snot(a), b)


# --------------------------------------------------------------------------
def _mknum(x):
    """coerce to Num or special float; returns Num or float nan/inf"""
    if isinstance(x, Num): return x
    if isinstance(x, SBool): return x._num()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _mknum(x.item())
    if is_concrete_number(x):
        if isinstance(x, (float, np.floating)) and (x != x or abs(x) == float('inf')):
            return float(x)
        return Num(frac(x), isint=isinstance(x, (int, np.integer, bool)))
    return None


def simp(t):
    if isinstance(t, Fraction): return t
    t = z3.simplify(t)
    if z3.is_rational_value(t): return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t): return Fraction(t.as_long())
    return t

def canon(t):
    """canonical-ish form used for the arguments of uninterpreted functions"""
    if isinstance(t, Fraction): return z3.RealVal(t)
    if t.is_int(): t = z3.ToReal(t)
    return z3.simplify(t, som=True, hoist_mul=False, sort_sums=True)


NAMED = []          # the active table of named quantities (pyvc.ring.Names), if the contract declared some
class Num:
    """number: t is Fraction or z3 Real/Int term; nan is None or a z3 Bool."""
    __slots__ = ('t', 'nan', 'isint')
    __array_priority__ = 1e6
    def __init__(s, t, nan=None, isint=False):
        if isinstance(t, int): t = Fraction(t)
        if z3.is_expr(t):
            t = simp(t)
            if NAMED and z3.is_expr(t) and t.num_args(): t = NAMED[0].match(t)
        s.t = t
        s.isint = isint or (z3.is_expr(t) and t.is_int())
        if nan is not None:
            nan = z3.simplify(nan)
            if z3.is_false(nan): nan = None
        s.nan = nan

    # -- helpers
    @property
    def const(s): return isinstance(s.t, Fraction) and s.nan is None
    def r(s):
        t = s.t
        if isinstance(t, Fraction): return z3.RealVal(t)
        if t.is_int(): return z3.ToReal(t)
        return t
    def _nn(s, o):
        if s.nan is None: return o.nan
        if o.nan is None: return s.nan
        return z3.Or(s.nan, o.nan)
    def _bin(s, o, f, fname):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented if False else _ew(lambda e: f(s, e), o)
        if isinstance(o, list) or isinstance(o, str) or o is None:
            return NotImplemented
        if hasattr(o, '_sarr'):
            return NotImplemented
        q = _mknum(o)
        if q is None: return NotImplemented
        return f(s, q)
    def __add__(s, o): return s._bin(o, n_add, '+')
    def __radd__(s, o): return s._bin(o, lambda a, b: n_add(b, a), '+')
    def __sub__(s, o): return s._bin(o, n_sub, '-')
    def __rsub__(s, o): return s._bin(o, lambda a, b: n_sub(b, a), '-')
    def __mul__(s, o): return s._bin(o, n_mul, '*')
    def __rmul__(s, o): return s._bin(o, lambda a, b: n_mul(b, a), '*')
    def __truediv__(s, o): return s._bin(o, n_div, '/')
    def __rtruediv__(s, o): return s._bin(o, lambda a, b: n_div(b, a), '/')
    def __pow__(s, o): return s._bin(o, n_pow, '**')
    def __rpow__(s, o): return s._bin(o, lambda a, b: n_pow(b, a), '**')
    def __mod__(s, o): return s._bin(o, n_mod, '%')
    def __rmod__(s, o): return s._bin(o, lambda a, b: n_mod(b, a), '%')
    def __floordiv__(s, o): return s._bin(o, n_fdiv, '//')
    def __rfloordiv__(s, o): return s._bin(o, lambda a, b: n_fdiv(b, a), '//')
    def __neg__(s): return Num(-s.t, s.nan, s.isint)
    def __pos__(s): return s
    def __abs__(s):
        if isinstance(s.t, Fraction): return Num(abs(s.t), s.nan, s.isint)
        sg = ST.path.sign(s.t)
        if sg is not None: return s if sg >= 0 else -s
        return Num(z3.If(s.t >= 0, s.t, -s.t), s.nan, s.isint)
    def __lt__(s, o): return s._bin(o, lambda a, b: n_cmp(a, b, '<'), '<')
    def __le__(s, o): return s._bin(o, lambda a, b: n_cmp(a, b, '<='), '<=')
    def __gt__(s, o): return s._bin(o, lambda a, b: n_cmp(a, b, '>'), '>')
    def __ge__(s, o): return s._bin(o, lambda a, b: n_cmp(a, b, '>='), '>=')
    def __eq__(s, o):
        if o is None or isinstance(o, str): return False
        return s._bin(o, lambda a, b: n_cmp(a, b, '=='), '==')
    def __ne__(s, o):
        if o is None or isinstance(o, str): return True
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return _ew(lambda e: s != e, o)
        r = s.__eq__(o)
        return NotImplemented if r is NotImplemented else snot(r)
    def __bool__(s):
        if s.nan is not None:
            if ST.path.fork(s.nan): return True
        return bool(n_cmp(Num(s.t), Num(Fraction(0)), '!='))
    def __hash__(s):
        if s.const: return hash(s.t)
        raise Unsupported('hash of symbolic number')
    def __float__(s):
        if s.const: return float(s.t)
        raise Unsupported('concrete float() of a symbolic number')
    def __int__(s):
        if s.const: return int(s.t)
        raise Unsupported('concrete int() of a symbolic number')
    def __index__(s):
        if s.const and s.t.denominator == 1 and s.isint: return int(s.t)
        if s.const: raise TypeError('not an integer index')
        return ST.path.concretise_int(s)
    def __round__(s, nd=None):
        if s.const: return round(s.t, nd) if nd is not None else round(s.t)
        raise Unsupported('round of symbolic')
    def __format__(s, spec): return '<sym>'
    def __repr__(s): return 'Num(%s%s)' % (str(s.t)[:200], '' if s.nan is None else ' nan?%s' % str(s.nan)[:40])
    def __str__(s): return repr(s)
    def __array__(s, *a, **k):
        r = np.empty((), dtype=object); r[()] = s
        return r
    def __array_ufunc__(s, ufunc, method, *inputs, **kw):
        from . import shims
        return shims.ufunc_dispatch(ufunc, method, *inputs, **kw)
    def item(s): return s
    def copy(s): return s
    def __copy__(s): return s
    def __deepcopy__(s, memo): return s
    def astype(s, *a, **k): return s
    def squeeze(s): return s
    def flatten(s): return s
    def is_integer(s):
        if s.const: return s.t.denominator == 1
        raise Unsupported('is_integer')
    @property
    def real(s): return s
    @property
    def ndim(s): return 0
    @property
    def shape(s): return ()
    @property
    def size(s): return 1


def _ew(f, a):
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        e = _mknum(a[i])
        out[i] = f(e) if e is not None else NotImplemented
    return out

def _special(a, b): return isinstance(a, float) or isinstance(b, float)

def _sgn(x):
    """sign of x as python int, forking if necessary (x Num, not nan)"""
    if x.const: return (x.t > 0) - (x.t < 0)
    if x > 0: return 1
    if x < 0: return -1
    return 0

def _nanfork(*xs):
    for x in xs:
        if isinstance(x, Num) and x.nan is not None and ST.path.fork(x.nan): return True
    return False

def n_add(a, b, neg=False):
    if _special(a, b):
        if isinstance(a, float) and isinstance(b, float): return a + b
        f, n = (a, b) if isinstance(a, float) else (b, a)
        if f != f or _nanfork(n): return float('nan')
        return f
    if isinstance(a.t, Fraction) and isinstance(b.t, Fraction): return Num(a.t + b.t, a._nn(b), a.isint and b.isint)
    if isinstance(a.t, Fraction) and a.t == 0 and a.nan is None and (a.isint or not b.isint): return b
    if isinstance(b.t, Fraction) and b.t == 0 and b.nan is None and (b.isint or not a.isint): return a
    x, y = _pair(a, b)
    return Num(x + y, a._nn(b))
def _pair(a, b):
    if a.isint and b.isint:
        x = a.t if not isinstance(a.t, Fraction) else z3.IntVal(int(a.t))
        y = b.t if not isinstance(b.t, Fraction) else z3.IntVal(int(b.t))
        return x, y
    return a.r(), b.r()
def n_neg(a): return -a
def n_sub(a, b): return n_add(a, -b)
def n_mul(a, b):
    if _special(a, b):
        if isinstance(a, float) and isinstance(b, float): return a * b
        f, n = (a, b) if isinstance(a, float) else (b, a)
        if f != f or _nanfork(n): return float('nan')
        g = _sgn(Num(n.t))
        return f * g
    if isinstance(a.t, Fraction) and isinstance(b.t, Fraction): return Num(a.t * b.t, a._nn(b), a.isint and b.isint)
    x, y = _pair(a, b)
    return Num(x * y, a._nn(b))
def n_div(a, b):
    if _special(a, b):
        if isinstance(b, float):
            if b != b or (isinstance(a, float)): return float('nan')
            if _nanfork(a): return float('nan')
            return Num(Fraction(0))
        if a != a or _nanfork(b): return float('nan')
        g = _sgn(Num(b.t))
        if g == 0: raise ZeroDivisionError('float division by zero')
        return a * g
    if isinstance(b.t, Fraction):
        if b.t == 0:
            if b.nan is not None: 
                if ST.path.fork(b.nan): return float('nan')
            return ST.div0(a)
        if isinstance(a.t, Fraction): return Num(a.t / b.t, a._nn(b))
        return Num(a.r() * z3.RealVal(1 / b.t), a._nn(b))
    z = b.r() == 0
    if b.nan is not None: z = z3.And(z3.Not(b.nan), z)
    if ST.path.fork(z): return ST.div0(a)
    if isinstance(a.t, Fraction) and a.t == 0 and a.nan is None and b.nan is None: return Num(Fraction(0))
    return Num(a.r() / b.r(), a._nn(b))
def _div0(a):
    if getattr(ST.path, 'div0', False):
        if a.nan is not None and ST.path.fork(a.nan): return float('nan')
        g = _sgn(Num(a.t))
        return float('nan') if g == 0 else g * float('inf')
    raise ZeroDivisionError('float division by zero')
ST.div0 = _div0
def n_mod(a, b):
    if _special(a, b): raise Unsupported('mod special')
    if a.const and b.const:
        if b.t == 0: raise ZeroDivisionError
        return Num(a.t % b.t, isint=a.isint and b.isint)
    if a.isint and b.isint:
        x, y = _pair(a, b)
        if ST.path.fork(y == 0): raise ZeroDivisionError
        if ST.path.fork(y < 0): raise Unsupported('mod by negative')
        return Num(x % y)
    # real modulus: a - b*floor(a/b)
    if ST.path.fork(b.r() == 0): raise ZeroDivisionError
    q = z3.ToInt(a.r() / b.r())
    return Num(a.r() - b.r() * z3.ToReal(q), a._nn(b))
def n_fdiv(a, b):
    if _special(a, b): raise Unsupported('floordiv special')
    if a.const and b.const:
        if b.t == 0: raise ZeroDivisionError
        return Num(Fraction(a.t // b.t), isint=a.isint and b.isint)
    x, y = _pair(a, b)
    if ST.path.fork(y == 0): raise ZeroDivisionError
    if a.isint and b.isint:
        if ST.path.fork(y < 0): raise Unsupported('floordiv by negative')
        return Num(x / y)
    return Num(z3.ToReal(z3.ToInt(x / y)), a._nn(b))

def n_cmp(a, b, op):
    import operator as O
    ops = {'<': O.lt, '<=': O.le, '>': O.gt, '>=': O.ge, '==': O.eq, '!=': O.ne}
    f = ops[op]
    if _special(a, b):
        if isinstance(a, float) and isinstance(b, float): return f(a, b)
        fl, n = (a, b) if isinstance(a, float) else (b, a)
        if fl != fl: return op == '!='
        # infinite vs finite
        res = f(a, 0.0) if isinstance(a, float) else f(0.0, b)
        if n.nan is None: return bool(res)
        if op == '!=': return True
        return sand(mkb(z3.Not(n.nan)), bool(res))
    if a.nan is None and b.nan is None and isinstance(a.t, Fraction) and isinstance(b.t, Fraction): return f(a.t, b.t)
    x, y = _pair(a, b)
    c = f(x, y)
    nn = a._nn(b)
    if nn is not None:
        c = z3.Or(nn, c) if op == '!=' else z3.And(z3.Not(nn), c)
    return mkb(c)


# ------------------------------------------------------------- functions
_UF = {}
def uf(name, n=1):
    k = (name, n)
    if k not in _UF:
        _UF[k] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return _UF[k]

def app(name, *args):
    """uninterpreted real function on canonical args"""
    return uf(name, len(args))(*[canon(a.t) if isinstance(a, Num) else canon(a) for a in args])

def axiom(*bs):
    for b in bs: ST.path.axiom(b)

def n_root(x, q):
    """q-th root of nonneg Num (q>=2): UF with its defining equation"""
    if x.const:
        n, d = x.t.numerator, x.t.denominator
        if x.t == 0: return Num(Fraction(0))
        rn, rd = round(n ** (1 / q)) if n < 1e300 else None, round(d ** (1 / q)) if d < 1e300 else None
        if rn is not None and rd is not None and rn ** q == n and rd ** q == d: return Num(Fraction(rn, rd))
    # pull out perfect powers: root_q(y**q) when y>=0 is found by the defining equation
    t = app('root%d' % q, x)
    ct = canon(x.t)
    p = t
    for _ in range(q - 1): p = p * t
    axiom(z3.Implies(ct >= 0, z3.And(t >= 0, p == ct)), z3.Implies(ct > 0, t > 0))
    return Num(t, x.nan)

def n_sqrt(x):
    x = _mknum(x)
    if isinstance(x, float): return math.sqrt(x) if not x < 0 else float('nan')
    if x.const and x.t < 0: return float('nan')
    if not x.const:
        neg = x.r() < 0
        if x.nan is not None: neg = z3.And(z3.Not(x.nan), neg)
        if ST.path.fork(neg): return float('nan')
    return n_root(x, 2)

def n_ipow(a, n):
    if n == 0: return Num(Fraction(1))
    if isinstance(a.t, Fraction): return Num(a.t ** n, a.nan, a.isint)
    t = a.t; p = t
    for _ in range(n - 1): p = p * t
    return Num(p, a.nan)

def n_pow(a, b):
    if _special(a, b):
        if isinstance(a, float) and isinstance(b, float): return a ** b
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b: return float('nan')
        raise Unsupported('pow with inf')
    if b.const:
        e = b.t
        if e == 0: return Num(Fraction(1), None, a.isint and b.isint)
        if e.denominator == 1:
            n = int(e)
            if n > 0:
                if n <= 40:
                    r = n_ipow(a, n)
                    return r if (b.isint or not r.isint) else Num(r.r() if not isinstance(r.t, Fraction) else r.t, r.nan)
            elif -n <= 40:
                return n_div(Num(Fraction(1)), n_ipow(a, -n))
        if a.const and a.t > 0 and a.t == 1: return Num(Fraction(1))
        if a.const and a.t == 10 and e.denominator > 2: return n_exp10(b)
        if e.denominator <= 12 and abs(e.numerator) <= 40:
            # fractional power via q-th root
            if not a.const or a.t < 0:
                neg = a.r() < 0
                if a.nan is not None: neg = z3.And(z3.Not(a.nan), neg)
                if ST.path.fork(neg): raise Unsupported('fractional power of a negative number')
            if e.numerator < 0:
                z = a.r() == 0
                if a.nan is not None: z = z3.And(z3.Not(a.nan), z)
                if ST.path.fork(z): raise ZeroDivisionError('0.0 cannot be raised to a negative power')
            r = n_root(a, e.denominator)
            n = e.numerator
            if n > 0: return n_ipow(r, n)
            return n_div(Num(Fraction(1)), n_ipow(r, -n))
    if a.const and a.t == 10: return n_exp10(b)
    if a.const and a.t <= 0: raise Unsupported('pow of nonpositive const')
    if not a.const:
        neg = a.r() <= 0
        if a.nan is not None: neg = z3.And(z3.Not(a.nan), neg)
        if ST.path.fork(neg):
            if ST.path.fork(a.r() == 0):
                if b > 0: return Num(Fraction(0))
                if b < 0: raise ZeroDivisionError('0.0 cannot be raised to a negative power')
                return Num(Fraction(1))
            raise Unsupported('pow of negative base')
    # generic power of positive base: exp(b log a)
    t = app('pow', a, b)
    ca = canon(a.t)
    axiom(t > 0, z3.Implies(ca == 1, t == 1), z3.Implies(canon(b.t) == 0, t == 1), z3.Implies(canon(b.t) == 1, t == ca),
          z3.Implies(z3.And(ca > 1, canon(b.t) > 0), t > 1), z3.Implies(z3.And(ca < 1, canon(b.t) > 0), t < 1),
          z3.Implies(z3.And(ca > 1, canon(b.t) < 0), t < 1), z3.Implies(z3.And(ca < 1, canon(b.t) < 0), t > 1))
    # same exponent: monotone in the base; a power of a power with reciprocal exponents is the base
    cb = canon(b.t); lst = ST.path.mono.setdefault('pow', [])
    if not any(t2.eq(t) for t2, _, _ in lst):
        for t2, a2, b2 in lst:
            if b2.eq(cb):
                axiom(z3.Implies(cb > 0, (ca < a2) == (t < t2)), z3.Implies(cb < 0, (ca < a2) == (t > t2)), z3.Implies(ca == a2, t == t2))
            if ca.eq(t2) and ring_one(cb * b2): axiom(z3.Implies(a2 > 0, t == a2))
        lst.append((t, ca, cb))
    return Num(t, a._nn(b))

def ring_one(t):
    from . import ring
    try: return ring.identical(t, z3.RealVal(1))
    except Exception: return False

def _linear(t):
    """z3 real term -> list of (coef Fraction, term|None)"""
    out = []
    def go(t, k):
        if z3.is_rational_value(t): out.append((k * Fraction(t.numerator_as_long(), t.denominator_as_long()), None)); return
        d = t.decl().kind()
        if d == z3.Z3_OP_ADD:
            for c in t.children(): go(c, k)
        elif d == z3.Z3_OP_SUB:
            ch = t.children(); go(ch[0], k)
            for c in ch[1:]: go(c, -k)
        elif d == z3.Z3_OP_UMINUS: go(t.children()[0], -k)
        elif d == z3.Z3_OP_MUL and z3.is_rational_value(t.children()[0]) and t.num_args() == 2:
            c = t.children()[0]
            go(t.children()[1], k * Fraction(c.numerator_as_long(), c.denominator_as_long()))
        else: out.append((k, t))
    go(t, Fraction(1))
    return out

def _split_logs(b, fname):
    """b = rest + sum k_i * fname(x_i) + c  ->  (list of (x_i, k_i), c, rest term or None); only if some log term occurs"""
    t = canon(b.t)
    if isinstance(b.t, Fraction): return None
    logs, c, rest = [], Fraction(0), []
    for k, u in _linear(t):
        if u is None: c += k
        elif u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.num_args() == 1 and u.decl().name() == fname and k.denominator <= 12 and abs(k.numerator) <= 40:
            logs.append((u.children()[0], k))
        else: rest.append(z3.RealVal(k) * u)
    if not logs: return None
    return logs, c, (z3.Sum(rest) if rest else None)

def _recombine(b, fname, f, base_const):
    sp = _split_logs(b, fname)
    if sp is None: return None
    logs, c, rest = sp
    r = Num(Fraction(1))
    for x, k in logs: r = r * n_pow(Num(x), Num(k))
    if c: r = r * f(Num(c))
    if rest is not None: r = r * f(Num(rest))
    return Num(r.t, b.nan)

def _whole_log(b, fname):
    """b is, as a rational function, identical to one of the logarithms occurring in it: its argument"""
    t = canon(b.t); seen, atoms, nonlin = set(), [], [False]
    def go(u):
        if u.get_id() in seen: return
        seen.add(u.get_id())
        if len(seen) > 400: return
        if u.decl().kind() == z3.Z3_OP_DIV: nonlin[0] = True
        if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.num_args() == 1 and u.decl().name() == fname: atoms.append(u)
        else:
            for k in u.children(): go(k)
    go(t)
    if not nonlin[0] or not atoms or len(seen) > 400: return None
    from . import ring
    N = ring.Names(); v = N.val(t)
    for a in atoms[:12]:
        w = N.val(a)
        if w[0] != w[0] or abs(v[0] - w[0]) > 1e-6 * abs(w[0]) or abs(v[1] - w[1]) > 1e-6 * abs(w[1]): continue
        if ring.identical(t, a): return Num(a.children()[0], b.nan)
    return None

def n_exp10(b):
    b = _mknum(b)
    if isinstance(b, float): return 10.0 ** b
    if not b.const:
        q = _whole_log(b, 'log10')
        if q is not None: return q
    q = _recombine(b, 'log10', n_exp10, 10)
    if q is not None:
        if not q.const: ST.path.monotone('exp10', canon(q.t), canon(b.t))
        return q
    if b.const and b.t.denominator == 1 and abs(b.t) < 400: return Num(Fraction(10) ** int(b.t))
    t = app('exp10', b)
    cb = canon(b.t)
    axiom(t > 0, uf('log10')(t) == cb, (t > 1) == (cb > 0), (t < 1) == (cb < 0))
    ST.path.monotone('exp10', t, cb)
    return Num(t, b.nan)

def n_exp(b):
    b = _mknum(b)
    if isinstance(b, float): return math.exp(b)
    if b.const and b.t == 0: return Num(Fraction(1))
    q = _recombine(b, 'log', n_exp, None)
    if q is not None: return q
    t = app('exp', b)
    cb = canon(b.t)
    axiom(t > 0, uf('log')(t) == cb, (t > 1) == (cb > 0), (t < 1) == (cb < 0))
    ST.path.monotone('exp', t, cb)
    return Num(t, b.nan)

def _logfork(x):
    if x.const:
        if x.t > 0: return None
        return float('-inf') if x.t == 0 else float('nan')
    np_ = x.r() <= 0
    if x.nan is not None: np_ = z3.And(z3.Not(x.nan), np_)
    if ST.path.fork(np_):
        if ST.path.fork(x.r() == 0): return float('-inf')
        return float('nan')
    return None

def n_log10(x):
    x = _mknum(x)
    if isinstance(x, float): return float(np.log10(x))
    s = _logfork(x)
    if s is not None: return s
    if x.const and x.t == 1: return Num(Fraction(0))
    t = app('log10', x)
    cx = canon(x.t)
    axiom(z3.Implies(cx > 0, uf('exp10')(t) == cx), (t > 0) == (cx > 1), (t < 0) == z3.And(cx < 1, cx > 0))
    ST.path.monotone('log10', t, cx)
    return Num(t, x.nan)
def n_log(x):
    x = _mknum(x)
    if isinstance(x, float): return float(np.log(x))
    s = _logfork(x)
    if s is not None: return s
    if x.const and x.t == 1: return Num(Fraction(0))
    t = app('log', x)
    cx = canon(x.t)
    axiom(z3.Implies(cx > 0, uf('exp')(t) == cx), (t > 0) == (cx > 1), (t < 0) == z3.And(cx < 1, cx > 0))
    ST.path.monotone('log', t, cx)
    return Num(t, x.nan)

def _trig_arg(x):
    """split const*PI structure is not attempted; canonical argument, odd/even reduction by leading sign"""
    return canon(x.t)
def _neg_arg(c):
    """is the argument syntactically -k*x with k > 0"""
    if z3.is_rational_value(c): return c.numerator_as_long() < 0
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UMINUS: return True
    return z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL and z3.is_rational_value(c.arg(0)) and c.arg(0).numerator_as_long() < 0
def n_sin(x):
    x = _mknum(x)
    if isinstance(x, float): return float('nan')
    if x.const and x.t == 0: return Num(Fraction(0))
    c = canon(x.t)
    if _neg_arg(c): return -n_sin(Num(canon(-x.r()), x.nan))
    s_, c_ = uf('sin')(c), uf('cos')(c)
    axiom(s_ * s_ + c_ * c_ == 1, s_ <= 1, s_ >= -1, c_ <= 1, c_ >= -1)
    return Num(s_, x.nan)
def n_cos(x):
    x = _mknum(x)
    if isinstance(x, float): return float('nan')
    if x.const and x.t == 0: return Num(Fraction(1))
    c = canon(x.t)
    if _neg_arg(c): return n_cos(Num(canon(-x.r()), x.nan))
    s_, c_ = uf('sin')(c), uf('cos')(c)
    axiom(s_ * s_ + c_ * c_ == 1, s_ <= 1, s_ >= -1, c_ <= 1, c_ >= -1)
    return Num(c_, x.nan)
def n_tan(x):
    return n_sin(x) / n_cos(x)
PI = None
def pi():
    return Num(Fraction(repr(math.pi)))
def pi_axioms(): return []
def n_arccos(x):
    x = _mknum(x)
    if isinstance(x, float): return float('nan')
    if not x.const or abs(x.t) > 1:
        if ST.path.fork(z3.Or(x.r() > 1, x.r() < -1)): return float('nan')
    t = app('arccos', x); c = canon(x.t)
    axiom(t >= 0, t <= z3.RealVal(repr(math.pi)), uf('cos')(t) == c, uf('sin')(t) >= 0, uf('sin')(t) * uf('sin')(t) + c * c == 1)
    return Num(t, x.nan)
def n_arcsin(x):
    x = _mknum(x)
    if isinstance(x, float): return float('nan')
    if not x.const or abs(x.t) > 1:
        if ST.path.fork(z3.Or(x.r() > 1, x.r() < -1)): return float('nan')
    t = app('arcsin', x); c = canon(x.t)
    axiom(2 * t >= -z3.RealVal(repr(math.pi)), 2 * t <= z3.RealVal(repr(math.pi)), uf('sin')(t) == c, uf('cos')(t) >= 0, uf('cos')(t) * uf('cos')(t) + c * c == 1)
    return Num(t, x.nan)
def n_ufn(name):
    def f(*xs):
        xs = [_mknum(x) for x in xs]
        if any(isinstance(x, float) for x in xs): return float('nan')
        nan = None
        for x in xs: nan = x.nan if nan is None else (nan if x.nan is None else z3.Or(nan, x.nan))
        return Num(app(name, *xs), nan)
    return f
n_arctan2 = n_ufn('arctan2'); n_arctan = n_ufn('arctan'); n_tanh = n_ufn('tanh'); n_erf = n_ufn('erf')

def n_isnan(x):
    if isinstance(x, Num): return mkb(x.nan) if x.nan is not None else False
    if isinstance(x, SBool): return False
    return bool(np.isnan(x))
def n_isfinite(x):
    if isinstance(x, Num): return mkb(z3.Not(x.nan)) if x.nan is not None else True
    return bool(np.isfinite(x))
def n_ite(c, a, b):
    """if-then-else on numbers without forking"""
    if isinstance(c, (bool, np.bool_)): return a if c else b
    A, B = _mknum(a), _mknum(b)
    if A is None or B is None or isinstance(A, float) and abs(A) == float('inf') or isinstance(B, float) and abs(B) == float('inf'):
        return a if c else b
    na = z3.BoolVal(True) if isinstance(A, float) else (A.nan if A.nan is not None else z3.BoolVal(False))
    nb = z3.BoolVal(True) if isinstance(B, float) else (B.nan if B.nan is not None else z3.BoolVal(False))
    if isinstance(A, float): A = Num(Fraction(0))
    if isinstance(B, float): B = Num(Fraction(0))
    x, y = _pair(A, B)
    return Num(z3.If(c.b, x, y), z3.If(c.b, na, nb))
def n_max(a, b):
    """numpy maximum (NaN propagates)"""
    a, b = _mknum(a), _mknum(b)
    if _special(a, b):
        if a != a or b != b if isinstance(a, float) and isinstance(b, float) else False: return float('nan')
        f, n = (a, b) if isinstance(a, float) else (b, a)
        if isinstance(n, float): return max(a, b)
        if f != f: return f
        return f if f > 0 else n
    if a.const and b.const: return a if a.t >= b.t else b
    return Num(z3.If(a.r() >= b.r(), *_pair2(a, b)), a._nn(b))
def _pair2(a, b):
    return _pair(a, b)
def n_min(a, b):
    a, b = _mknum(a), _mknum(b)
    if _special(a, b):
        f, n = (a, b) if isinstance(a, float) else (b, a)
        if isinstance(n, float): return float('nan') if (a != a or b != b) else min(a, b)
        if f != f: return f
        return f if f < 0 else n
    if a.const and b.const: return a if a.t <= b.t else b
    return Num(z3.If(a.r() <= b.r(), *_pair(a, b)), a._nn(b))


# --------------------------------------------------------------------------
class SStr(str):
    """String over a finite domain, narrowed lazily by forking."""
    def __new__(cls, name, dom):
        o = str.__new__(cls, '\ue000<%s>' % name)
        o.name = name
        ST.path.doms[name] = tuple(dom)
        return o
    def dom(s): return ST.path.doms[s.name]
    def _split(s, f):
        """partition the domain by f(value); fork; return the outcome"""
        d = s.dom()
        groups = []
        for v in d:
            r = f(v)
            for g in groups:
                if g[0] == r and type(g[0]) is type(r):
                    g[1].append(v); break
            else: groups.append((r, [v]))
        if len(groups) == 1: return groups[0][0]
        i = ST.path.choose(len(groups), 'str:%s' % s.name)
        ST.path.doms[s.name] = tuple(groups[i][1])
        return groups[i][0]
    def value(s): return s._split(lambda v: v)
    def __eq__(s, o):
        if isinstance(o, SStr):
            if o.name == s.name: return True
            o = o.value()
        if not isinstance(o, str): return False
        o = str.__str__(o)
        return s._split(lambda v: v == o)
    def __ne__(s, o): return not s.__eq__(o)
    def __hash__(s): return hash(s.value())
    def __str__(s): return s.value()
    def __repr__(s): return 'SStr(%s:%s)' % (s.name, ','.join(map(str, s.dom()))[:80])
    def __format__(s, sp): return format(s.value(), sp)
    def __contains__(s, o): return s._split(lambda v: str(o) in v)
    def __add__(s, o): return s.value() + o
    def __radd__(s, o): return o + s.value()
    def __mod__(s, o): return s.value() % o
    def __getitem__(s, i): return s._split(lambda v: v[i])
    def __len__(s): return s._split(len)
    def __iter__(s): return iter(s.value())
    def __bool__(s): return s._split(bool)
    def __deepcopy__(s, m): return s
    def __copy__(s): return s
    def __reduce__(s): return (str, (s.value(),))
for _m in ('startswith', 'endswith', 'split', 'replace', 'lower', 'upper', 'strip', 'find', 'count', 'isdigit', 'rstrip',
           'lstrip', 'partition', 'rpartition', 'join', 'encode', 'index', 'isalpha', 'isnumeric', 'rsplit', 'title', 'format'):
    def _mk(m):
        def g(s, *a, **k): return s._split(lambda v: getattr(v, m)(*a, **k))
        return g
    setattr(SStr, _m, _mk(_m))
def _cmpop(m):
    def g(s, o): return s._split(lambda v: getattr(v, m)(str(o)))
    return g
for _m in ('__lt__', '__le__', '__gt__', '__ge__'): setattr(SStr, _m, _cmpop(_m))


# --------------------------------------------------------------------------
ZD = os.environ.get('PYVC_ZDEBUG')
class Path:
    """One execution path: decision prefix, path condition, recorded alternatives."""
    FORK_MS = 1500
    def __init__(s, prefix, pending, deadline=None):
        s.prefix = prefix
        s.dec = []
        s.pending = pending
        s.doms = {}
        s.solver = z3.Solver()
        s.solver.set('timeout', s.FORK_MS)
        s.pc = []
        s.axs = []
        s.opaque = []; s.opaque_from = 0; s.linear = None; s.lsolver = None; s.ldone = 0
        s.axset = set()
        s.mono = {}
        s.obls = []
        s.vars = {}     # name -> z3 term
        s.choices = {}
        s.fresh = 0
        s.deadline = deadline
        s.cache = {}
        s.syms = []; s.symdone = 0; s.mark = 0; s.marked = -1
        for a in pi_axioms(): s.axiom(a)
    def check_deadline(s):
        if s.deadline and time.time() > s.deadline: raise Unsupported('time budget exhausted')
    def axiom(s, b):
        k = b.get_id()
        b = z3.simplify(b)
        k = b.sexpr() if b.num_args() < 4 else b.get_id()
        if k in s.axset: return
        s.axset.add(k)
        s.axs.append(b)
        s.solver.add(b)
    def monotone(s, name, t, arg):
        lst = s.mono.setdefault(name, [])
        for (t2, a2) in lst:
            if t2.eq(t): return
        for (t2, a2) in lst[:12]:
            s.axiom((t < t2) == (arg < a2)) if name.startswith('exp') else s.axiom(z3.Implies(z3.And(arg > 0, a2 > 0), (t < t2) == (arg < a2)))
        lst.append((t, arg))
    def assume(s, b):
        b = bterm(b) if not isinstance(b, z3.BoolRef) else b
        b = z3.simplify(b)
        if z3.is_true(b): return
        if z3.is_false(b): raise Infeasible()
        s.pc.append(b); s.solver.add(b); s.mark += 1
        s.cache.clear()
    def _chk(s, b, ms=None):
        s.check_deadline()
        if s.linear is not None:
            from . import prove
            if prove.linear_unsat(s, b): return z3.unsat
            if ms is None:
                if b.decl().kind() == z3.Z3_OP_EQ:
                    t0 = time.time(); s.solver.set('timeout', 500); r = s.solver.check(b)
                    ST.solver_time += time.time() - t0; ST.queries += 1
                    if r == z3.unsat: return r
                if ZD: print('FORK?', str(b)[:300].replace('\n', ' '), flush=True)
                return z3.unknown
        if s.opaque:
            from . import prove
            if prove.light_unsat(s, b, 500): return z3.unsat
        t0 = time.time()
        s.solver.set('timeout', ms or (s.FORK_MS if not s.opaque and not NAMED else 300))
        r = s.solver.check(b)
        ST.solver_time += time.time() - t0; ST.queries += 1
        if r == z3.unknown and ms is None and not s.opaque and not NAMED:
            from . import prove
            r = prove.nlsat_check(s.pc + s.axs + [b], 1500)
        return r
    def _cheap(s, b):
        """is b decided by the conditions over its own variables alone?  (a path already known to be infeasible may then be explored; its obligations hold vacuously)"""
        from . import prove
        sy = prove.symbols(b)
        if len(sy) > 4: return None
        while s.symdone < len(s.pc):
            p = s.pc[s.symdone]; s.symdone += 1
            s.syms.append((p, prove.symbols(p)))
        hyp = [p for p, q in s.syms if q <= sy]
        if not hyp: return None
        so = z3.Solver(); so.set('timeout', 40)
        for p in hyp: so.add(p)
        t0 = time.time(); r = None
        if so.check(b) == z3.unsat: r = False
        elif so.check(z3.Not(b)) == z3.unsat: r = True
        ST.solver_time += time.time() - t0; ST.queries += 1
        return r
    def _quick(s, b):
        if s.marked == s.mark: return z3.unknown
        s.marked = s.mark
        t0 = time.time(); s.solver.set('timeout', 60); r = s.solver.check(b)
        ST.solver_time += time.time() - t0; ST.queries += 1
        return r
    def sign(s, t):
        return None
    def fork(s, b):
        b = z3.simplify(b)
        if z3.is_true(b): return True
        if z3.is_false(b): return False
        i = len(s.dec)
        if i < len(s.prefix):
            d = s.prefix[i]; s.dec.append(d)
            if isinstance(d, tuple): d = d[0]      # forced decision, no alternative
            s.assume_raw(b if d else z3.Not(b))
            return bool(d)
        d = s._cheap(b)
        if d is None:
            can_t = s._chk(b) != z3.unsat
            can_f = (s._chk(z3.Not(b)) if can_t else s._quick(z3.Not(b))) != z3.unsat
        else: can_t, can_f = d, not d
        if not can_t and not can_f: raise Infeasible()
        if can_t and can_f:
            s.mark += 1
            s.pending.append(s.dec + [0])
            s.dec.append(1); s.assume_raw(b); return True
        d = 1 if can_t else 0
        s.dec.append((d,))
        s.assume_raw(b if d else z3.Not(b))
        return bool(d)
    def assume_raw(s, b):
        s.pc.append(b); s.solver.add(b)
    def choose(s, n, label=''):
        i = len(s.dec)
        if i < len(s.prefix):
            d = s.prefix[i]; s.dec.append(d); return d
        for k in range(n - 1, 0, -1): s.pending.append(s.dec + [k])
        s.dec.append(0); return 0
    def concretise_int(s, n):
        raise Unsupported('symbolic integer used as index')
    def fresh_name(s, base):
        s.fresh += 1
        return '%s!%d' % (base, s.fresh)
    def sat_end(s):
        return s._chk(z3.BoolVal(True), 3000)
