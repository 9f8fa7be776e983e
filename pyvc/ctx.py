"""Verification contexts.  A contract is a Python function taking a context c:
it declares inputs (universally quantified), states the precondition with
c.assume, calls the real function with c.call, and states the postconditions
with c.check / c.eq / c.same.  SymCtx proves them for all inputs; ConCtx
evaluates the very same contract on the unmodified code for given inputs."""
import sys, math, copy, random, traceback, types, json, os, time
import numpy as np
from fractions import Fraction

class Discard(BaseException): pass
class ContractFailure(BaseException):
    def __init__(s, name, detail): s.name = name; s.detail = detail; BaseException.__init__(s, name)

REG = []
class Contract:
    def __init__(s, fn, prop, targets, name=None, bounded=None, samples=None, timeout_ms=8000, budget=240, unroll=None, notes=None, assumes=(), bound=None):
        s.fn, s.prop, s.targets = fn, prop, targets
        s.name = name or fn.__name__
        s.bounded = bounded          # None, or a text: this contract is checked concretely only, with that bound
        s.samples = samples
        s.timeout_ms = timeout_ms
        s.budget = budget
        s.unroll = unroll
        s.notes = notes
        s.bound = bound              # symbolic, but only up to this stated bound
        s.assumes = list(assumes)

def contract(prop, *targets, **k):
    def d(fn):
        REG.append(Contract(fn, prop, list(targets), **k)); return fn
    return d

_GONE = object()
class Outcome:
    def __init__(s, value=None, exc=None, tb=''): s.value, s.exc, s.tb = value, exc, tb
    def raised(s, *types): return s.exc is not None and isinstance(s.exc, types)

def resolve(target):
    """'pkg.mod:Qual.name' -> object"""
    import importlib
    m, q = target.split(':')
    o = importlib.import_module(m)
    for p in q.split('.'): o = getattr(o, p)
    return o

class BaseCtx:
    def fn(s, target): return resolve(target)
    def K(s, name):
        from posydon.utils import constants
        return s.num(getattr(constants, name))
    def call(s, f, *a, **k):
        if isinstance(f, str): f = resolve(f)
        return s._call(f, a, k)
    def run(s, name, f, *a, **k):
        """call and require normal return"""
        o = s.call(f, *a, **k)
        s.check(name + ':returns', o.exc is None, detail=repr(o.exc) + '\n' + o.tb if o.exc is not None else '')
        return o.value
    def snap(s, obj):
        return {k: (list(v) if isinstance(v, list) else (v.copy() if isinstance(v, (np.ndarray, dict)) else v)) for k, v in vars(obj).items()}
    def frame(s, name, obj, snap, modifies=()):
        cur = vars(obj)
        for k in sorted(set(snap) | set(cur)):
            if k in modifies: continue
            if k not in cur or k not in snap: s.check('%s:frame.%s' % (name, k), False, detail='attribute appeared/disappeared'); continue
            a, b = snap[k], cur[k]
            if a is b: continue
            s.same('%s:frame.%s' % (name, k), b, a)
    def same(s, name, a, b, rtol=1e-9):
        """structural equality of arbitrary values"""
        rtol = float(rtol)
        if s._isnum(a) and s._isnum(b): return s.eq(name, a, b, rtol)
        if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
            if not s.check(name + '.len', len(a) == len(b), detail='lengths %d vs %d' % (len(a), len(b))): return
            for i, (x, y) in enumerate(zip(a, b)): s.same('%s[%d]' % (name, i), x, y, rtol)
            return
        if isinstance(a, dict) and isinstance(b, dict):
            s.check(name + '.keys', set(a) == set(b), detail='%s vs %s' % (sorted(map(str, a)), sorted(map(str, b))))
            for k in a:
                if k in b: s.same('%s[%s]' % (name, k), a[k], b[k], rtol)
            return
        if a is b: s.check(name, True); return
        if type(a) in (bool, np.bool_) or type(b) in (bool, np.bool_) or s._isbool(a) or s._isbool(b):
            if a is None or b is None: return s.check(name, False, detail='%r vs %r' % (a, b))
            return s.check(name, s.iff(a, b), detail='%r vs %r' % (a, b))
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if s.symbolic: s._leak(a); s._leak(b)
            r = (a is b) if (a is None or b is None) else (isinstance(a, str) and isinstance(b, str) and a == b)
            return s.check(name, r, detail='%r vs %r' % (s._show(a), s._show(b)))
        s.check(name, a is b or bool(a == b), detail='%r vs %r' % (a, b))
    def _show(s, x): return x
    def _leak(s, x):
        from .core import SStr, Unsupported
        if isinstance(x, str) and not isinstance(x, SStr) and '\ue000' in x: raise Unsupported('symbolic string leaked into %r' % x)
    # patch module-level names everywhere a given object is bound
    def patch(s, obj, new):
        n = 0
        for m in list(sys.modules.values()):
            if m is None or not getattr(m, '__name__', '').startswith('posydon'): continue
            d = getattr(m, '__dict__', None)
            if not d: continue
            for k, v in list(d.items()):
                if v is obj:
                    s._undo.append((d, k, v)); d[k] = new; n += 1
        if n == 0: raise KeyError('nothing to patch for %r' % obj)
    def patch_attr(s, owner, name, new):
        if isinstance(owner, type): old = owner.__dict__.get(name, _GONE)
        else: old = getattr(owner, name)
        s._undo.append((owner, name, old)); setattr(owner, name, new)
    def unpatch(s):
        for o, k, v in reversed(s._undo):
            if isinstance(o, dict): o[k] = v
            elif v is _GONE: delattr(o, k)
            else: setattr(o, k, v)
        s._undo = []
    def pos(s, name, hi=None, **k): return s.real(name, 0, hi, lo_open=True, **k)
    def nonneg(s, name, hi=None, **k): return s.real(name, 0, hi, **k)

# ------------------------------------------------------------------ symbolic
class SymCtx(BaseCtx):
    symbolic = True
    def __init__(s, con, path, results, thorough=False):
        s.con, s.path, s.results, s.thorough = con, path, results, thorough
        s._undo = []
        s.failed = False
    # -- inputs
    def real(s, name, lo=None, hi=None, lo_open=False, hi_open=False, nan=False, **k):
        from .core import Num, z3, _mknum
        v = z3.Real(name); s.path.vars[name] = v
        if lo is not None: b = _mknum(lo).r(); s.path.assume(v > b if lo_open else v >= b)
        if hi is not None: b = _mknum(hi).r(); s.path.assume(v < b if hi_open else v <= b)
        if nan:
            f = z3.Bool(name + '?nan'); s.path.vars[name + '?nan'] = f
            return Num(v, f)
        return Num(v)
    def int(s, name, lo=None, hi=None, **k):
        from .core import Num, z3, _mknum
        v = z3.Int(name); s.path.vars[name] = v
        def t(x): return x.t if isinstance(x, Num) and not x.const else int(x)
        if lo is not None: s.path.assume(v >= t(lo))
        if hi is not None: s.path.assume(v <= t(hi))
        return Num(v)
    def bool(s, name, **k):
        return [False, True][s._choice(name, 2)]
    def _choice(s, name, n):
        i = s.path.choose(n, name); s.path.choices[name] = i
        return i
    def choice(s, name, values, **k):
        values = list(values)
        return values[s._choice(name, len(values))]
    def str(s, name, values):
        from .core import SStr
        return SStr(name, list(values))
    def arr(s, name, n, lo=None, hi=None, lo_open=False, nan=False, max_len=None, hi_open=False, **k):
        """array of symbolic length n (Num) whose elements are arbitrary reals in range"""
        from .core import z3, Num, _mknum
        from .sarr import SArr
        f = z3.Function(name, z3.IntSort(), z3.RealSort())
        path = s.path
        def at(i):
            i = _mknum(i); it = i.t if not isinstance(i.t, Fraction) else z3.IntVal(int(i.t))
            v = f(it)
            if lo is not None: b = _mknum(lo).r(); path.axiom(v > b if lo_open else v >= b)
            if hi is not None: b = _mknum(hi).r(); path.axiom(v < b if hi_open else v <= b)
            return Num(v)
        return SArr(n, at)
    def lst(s, name, n):
        """python list of symbolic length n with arbitrary real entries"""
        from .core import z3, Num, _mknum
        from .sarr import SList
        f = z3.Function(name, z3.IntSort(), z3.RealSort())
        def at(i):
            i = _mknum(i)
            return Num(f(i.t if not isinstance(i.t, Fraction) else z3.IntVal(int(i.t))))
        return SList(_mknum(n), at)
    def fresh(s, base, lo=None, hi=None, lo_open=False, hi_open=False, nan=False, **k):
        return s.real(s.path.fresh_name(base), lo, hi, lo_open, hi_open, nan)
    def num(s, x):
        from .core import _mknum
        return _mknum(x)
    def assume(s, cond):
        from .core import SBool, Infeasible
        if isinstance(cond, (bool, np.bool_)):
            if not cond: raise Infeasible()
            return
        s.path.assume(cond.b)
        s.path._needs_feas = True
    def _isnum(s, x):
        from .core import Num
        return isinstance(x, Num) or (isinstance(x, (int, float, np.number)) and not isinstance(x, (bool, np.bool_)))
    def _isbool(s, x):
        from .core import SBool
        return isinstance(x, SBool)
    def _show(s, x):
        return repr(x)
    # -- execution
    def _call(s, f, a, k):
        from .core import ST
        try:
            ST.active = True
            return Outcome(f(*a, **k))
        except Exception as e:
            from .core import Unsupported
            tb = e.__traceback__
            while tb.tb_next is not None: tb = tb.tb_next
            inner = tb.tb_frame.f_code.co_filename
            if isinstance(e, (TypeError, AttributeError, NotImplementedError, RecursionError)) and ('/pyvc/' in inner or 'Num' in str(e) or 'SArr' in str(e) or 'SBool' in str(e) or 'ufunc' in str(e)) \
               or not inner.startswith(('/repo', os.environ.get('PYVC_REPO', '/repo'))) and '/pyvc/' not in inner and '/contracts/' not in inner:
                raise Unsupported('library/engine exception %r at %s:%d' % (e, inner, tb.tb_lineno))
            return Outcome(exc=e, tb=traceback.format_exc(limit=-4))
        finally: ST.active = True
    # -- obligations
    def check(s, name, cond, detail='', **k):
        from .core import bterm, z3, SBool
        if isinstance(cond, (bool, np.bool_)):
            if cond: s._rec(name, 'trivial'); return True
            return s._fail(name, None, detail)
        return s._prove(name, bterm(cond), detail)
    def _prove(s, name, phi, detail=''):
        from . import prove
        from .core import z3
        phi = z3.simplify(phi)
        if z3.is_true(phi): s._rec(name, 'trivial'); return True
        if s.results.skip(): return True       # replayed prefix: decided on the path that recorded it
        r, info = prove.try_unsat(s.path, z3.Not(phi), s.con.timeout_ms, s.thorough)
        if r == 'unsat':
            s._rec(name, info)
            return True
        if r == 'sat': return s._fail(name, info, detail, phi)
        s._rec(name, 'unknown', str(info) + ' goal: ' + str(phi)[:400])
        return False
    def eq(s, name, a, b, rtol=1e-8, **k):
        from .core import _mknum, Num, z3, SBool
        from . import ring, prove
        rtol = float(rtol)
        A, B = _mknum(a), _mknum(b)
        if A is None or B is None: return s._fail(name, None, 'not a number: %r vs %r' % (a, b))
        if isinstance(A, float) or isinstance(B, float):
            if isinstance(A, float) and isinstance(B, float):
                return s.check(name, A == B or (A != A and B != B), detail='%r vs %r' % (A, B))
            f, n = (A, B) if isinstance(A, float) else (B, A)
            if f != f and n.nan is not None: return s._prove(name, n.nan, '%r vs %r' % (A, B))
            return s._fail(name, None, '%r vs %r' % (A, B))
        if A.nan is not None or B.nan is not None:
            na = A.nan if A.nan is not None else z3.BoolVal(False)
            nb = B.nan if B.nan is not None else z3.BoolVal(False)
            if not (A.nan is not None and B.nan is not None and na.eq(nb)):
                if not s._prove(name + '.nan', na == nb, '%r vs %r' % (A, B)): return False
            guard = z3.Not(na)
        else: guard = None
        x, y = A.r(), B.r()
        if s.results.skip(): return True
        phi = z3.simplify(x == y)
        if z3.is_true(phi): s._rec(name, 'trivial'); return True
        if ring.identical(x, y): s._rec(name, 'ring'); return True
        rt = ring.ratio(x, y)
        if rt is not None and abs(rt - 1) <= Fraction(repr(rtol)): s._rec(name, 'ring(tol)'); return True
        if prove.has_ite(x) or prove.has_ite(y):
            u, v = prove.resolve_ites(s.path, x), prove.resolve_ites(s.path, y)
            if not (u.eq(x) and v.eq(y)):
                if ring.identical(u, v): s._rec(name, 'ring'); return True
                rt = ring.ratio(u, v)
                if rt is not None and abs(rt - 1) <= Fraction(repr(rtol)): s._rec(name, 'ring(tol)'); return True
                x, y = u, v; phi = z3.simplify(x == y)
        if guard is not None: phi = z3.Implies(guard, phi)
        if rtol < 1e-6: r, info = prove.try_unsat(s.path, z3.Not(phi), s.con.timeout_ms, s.thorough)
        else: r = info = None
        if r == 'unsat': s._rec(name, info); return True
        # equality up to the relative tolerance of floating point
        tol = z3.RealVal(Fraction(repr(rtol)))
        ab = lambda t: z3.If(t >= 0, t, -t)
        phi2 = ab(x - y) <= tol * (ab(x) + ab(y))
        if guard is not None: phi2 = z3.Implies(guard, phi2)
        r2, info2 = prove.try_unsat(s.path, z3.Not(phi2), s.con.timeout_ms, s.thorough)
        if r2 == 'unsat': s._rec(name, info2 + '(tol)'); return True
        if r2 == 'sat': return s._fail(name, info2, 'got %s\nexpected %s' % (str(x)[:600], str(y)[:600]), phi2)
        if r == 'sat': return s._fail(name, info, 'got %s\nexpected %s' % (str(x)[:600], str(y)[:600]), phi, exact_only=True)
        s._rec(name, 'unknown', 'got %s expected %s' % (str(x)[:300], str(y)[:300]))
        return False
    def _rec(s, name, backend, detail=''):
        s.results.record(name, backend, detail)
    def _fail(s, name, model, detail='', phi=None, exact_only=False):
        from . import prove
        from .core import z3
        m = s.model_inputs(model)
        if model is None and s.path.sat_end() == z3.unsat: return False    # infeasible path
        trust = (model is not None or s.path.sat_end() == z3.sat) and not prove.has_uf(s.path.pc + ([phi] if phi is not None else [])) and not getattr(s.path, 'havocs', 0) and not exact_only
        s.results.fail(name, m, detail, str(phi)[:1500] if phi is not None else '', trust)
        s.failed = True
        return False
    def model_inputs(s, model):
        from .core import z3
        if model is None:
            if s.path.sat_end() == z3.sat:
                s.path.solver.check(); model = s.path.solver.model()
        out = {}
        if model is not None:
            for n, v in s.path.vars.items():
                try:
                    r = model.eval(v, model_completion=True)
                    if z3.is_bool(r): out[n] = z3.is_true(r)
                    elif z3.is_int_value(r): out[n] = r.as_long()
                    elif z3.is_rational_value(r): out[n] = float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
                    elif z3.is_algebraic_value(r): out[n] = float(r.approx(20).as_fraction())
                except Exception: pass
        for n, i in s.path.choices.items(): out[n] = i
        for n, d in s.path.doms.items(): out[n] = d[0]
        return out
    def define(s, **q):
        """proof hint: named quantities in terms of which comparisons are linear"""
        from .core import z3
        from . import ring
        if s.path.linear is None: s.path.linear = ring.Linear()
        for n, x in q.items(): s.path.linear.define(z3.Real('def!' + n), z3.substitute(x.t, *s.path.opaque) if s.path.opaque else x.t)
    def opaque(s, x):
        """proof hint: the value may be treated as an arbitrary constant (with its own assumptions) first"""
        from .core import z3; t = x.t
        if not z3.is_const(t): s.path.opaque.append((t, z3.Real('opaque!%d' % len(s.path.opaque))))
        s.path.opaque_from = len(s.path.axs)
    def name(s, n, x):
        """names a quantity: from here on, values identical to it are represented by the name (its definition is only used by c.fact)"""
        from .core import NAMED, Num, z3
        from . import ring
        if not NAMED: NAMED.append(ring.Names()); ring.ACTIVE[:] = [NAMED[0].R]; s.path._names = NAMED[0]
        N = NAMED[0]
        if x.const or z3.is_const(x.t) and x.t.decl().name().startswith('q!'): return x
        return Num(N.name(n, x.r()))
    def fact(s, name, cond):
        """a consequence of the definitions of the named quantities: proved with them, then available"""
        from .core import NAMED, bterm, z3
        if isinstance(cond, bool): return s.check(name, cond)
        n0 = len(s.path.pc)
        sv = s.path.pc[:]; s.path.pc = sv + (NAMED[0].defs if NAMED else [])
        s.path.solver.push()
        for d in (NAMED[0].defs if NAMED else []): s.path.solver.add(d)
        try: ok = s.check(name, cond)
        finally: s.path.solver.pop(); s.path.pc = sv
        s.path.assume(bterm(cond))
        return ok
    def ident(s, name, f):
        """an identity between the two values f() returns: proved, then available; returns it"""
        from .core import z3, SBool, _mknum, NAMED
        NAMED[0].off = True
        try: a, b = f()
        finally: NAMED[0].off = False
        s.eq(name, a, b); t = z3.simplify(_mknum(a).r() == _mknum(b).r())
        s.path.known = getattr(s.path, 'known', []) + [t]
        return SBool(t)
    def derive(s, name, cond, *given):
        """a consequence of the given facts alone (each of which must already be established on this path)"""
        from .core import bterm, z3
        from . import prove
        if isinstance(cond, bool): return s.check(name, cond)
        pool = s.path.pc + getattr(s.path, 'known', []); have = {t.get_id() for t in pool}; hyp = []
        for g in given:
            if isinstance(g, bool): continue
            parts = [z3.simplify(bterm(g))]
            if parts[0].get_id() not in have and z3.is_and(parts[0]): parts = list(parts[0].children())
            for p in parts:
                if p.get_id() not in have and not any(p.eq(t) for t in pool): raise RuntimeError('derive %s: not established: %s' % (name, p))
                hyp.append(p)
        sv, so = s.path.pc, s.path.solver
        s.path.pc = hyp; s.path.solver = z3.Solver(); sa, s.path.axs = s.path.axs, []
        for h in hyp: s.path.solver.add(h)
        try: ok = s.check(name, cond)
        finally: s.path.pc, s.path.solver, s.path.axs = sv, so, sa
        s.path.assume(bterm(cond))
        return ok
    def cover(s, name): s.results.covers.add(name)
    def raw(s, x):
        """value handed to the code from a stand-in (plain float when running concretely)"""
        return x
    def loop(s, target, inv, havoc):
        """invariant of the (single) while loop of target: inv(locals)->[(name, cond)]; havoc(locals)->{local: fresh value} (and makes the heap arbitrary)"""
        if not hasattr(s.path, 'loops'): s.path.loops = {}
        s.cover('loop-wanted:' + target)
        s.path.loops[target] = (s, dict(inv=inv, havoc=havoc, key=target))
    # -- math
    def iff(s, a, b):
        from .core import mkb, bterm
        if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)): return bool(a) == bool(b)
        return mkb(bterm(a) == bterm(b))
    def And(s, *x):
        from .core import sand; return sand(*x)
    def Or(s, *x):
        from .core import sor; return sor(*x)
    def Not(s, x):
        from .core import snot; return snot(x)
    def Implies(s, a, b): return s.Or(s.Not(a), b)
    def round(s, x, nd): from .shims import s_round; return s_round(x, nd)
    def sqrt(s, x): from .core import n_sqrt; return n_sqrt(x)
    def root(s, x, q): from .core import n_root, _mknum; return n_root(_mknum(x), q)
    def pow(s, x, y): from .core import n_pow, _mknum; return n_pow(_mknum(x), _mknum(y))
    def exp(s, x): from .core import n_exp; return n_exp(x)
    def log(s, x): from .core import n_log; return n_log(x)
    def log10(s, x): from .core import n_log10; return n_log10(x)
    def exp10(s, x): from .core import n_exp10; return n_exp10(x)
    def sin(s, x): from .core import n_sin; return n_sin(x)
    def cos(s, x): from .core import n_cos; return n_cos(x)
    def arccos(s, x): from .core import n_arccos; return n_arccos(x)
    def tan(s, x): from .core import n_tan; return n_tan(x)
    @property
    def pi(s): from .core import pi; return pi()
    def abs(s, x): return abs(x)
    def max(s, a, b): from .core import n_max; return n_max(a, b)
    def min(s, a, b): from .core import n_min; return n_min(a, b)
    def ite(s, c, a, b): from .core import n_ite; return n_ite(c, a, b)
    def isnan(s, x):
        from .core import n_isnan
        return n_isnan(x) if x is not None else False
    def isfinite(s, x): return s.Not(s.isnan(x)) if not isinstance(x, float) else math.isfinite(x)
    def uf(s, name, *args):
        """uninterpreted spec function (pure external callee)"""
        from .core import app, Num, _mknum
        s.path.havocs = getattr(s.path, 'havocs', 0) + 1
        return Num(app(name, *[_mknum(a) for a in args]))
    def divide_as_numpy(s):
        """array code: dividing by zero gives inf or nan, no exception"""
        s.path.div0 = True
    def havoc(s):
        s.path.havocs = getattr(s.path, 'havocs', 0) + 1
    def rng(s):
        from .shims import SymRNG
        return SymRNG()

# ------------------------------------------------------------------ concrete
class CFloat(float):
    """float that remembers being derived (rounded) and its magnitude"""
    __slots__ = ('mag', 'der')
    def __new__(cls, v, mag=None, der=False):
        o = float.__new__(cls, v); o.mag = abs(float(v)) if mag is None else mag; o.der = der
        return o
def _mag(x): return x.mag if isinstance(x, CFloat) else (abs(float(x)) if isinstance(x, (int, float, np.number)) else 0.0)
def _mkop(op, kind):
    def g(a, b):
        if isinstance(b, (np.ndarray,)) and b.ndim: return NotImplemented
        if not isinstance(b, (int, float, np.number)): return NotImplemented
        v = op(float(a), float(b))
        return _der(v, kind, a, b)
    return g
def _der(v, kind, a, b):
    if isinstance(v, complex): return v
    if kind == '+': m = max(_mag(a), _mag(b))
    else:
        fa, fb = abs(float(a)), abs(float(b))
        m = abs(v)
        if fa and math.isfinite(m): m = m * max(1.0, _mag(a) / fa)
        if kind == '*' and fb and math.isfinite(m): m = m * max(1.0, _mag(b) / fb)
    return CFloat(v, m, True)
import operator as _o
def _pw(a, b): return a ** b
for nm, op, kind in (('add', _o.add, '+'), ('sub', _o.sub, '+'), ('mul', _o.mul, '*'), ('truediv', _o.truediv, '*'), ('pow', _pw, '*'), ('mod', _o.mod, '+')):
    setattr(CFloat, '__%s__' % nm, _mkop(op, kind))
    setattr(CFloat, '__r%s__' % nm, _mkop((lambda op: lambda a, b: op(b, a))(op), kind))
CFloat.__neg__ = lambda s: CFloat(-float(s), s.mag, s.der)
CFloat.__abs__ = lambda s: CFloat(abs(float(s)), s.mag, s.der)
CFloat.__pos__ = lambda s: s
def _mkcmp(op):
    def g(a, b):
        if not isinstance(b, (int, float, np.number)): return NotImplemented
        fa, fb = float(a), float(b)
        if (getattr(a, 'der', False) or getattr(b, 'der', False)) and math.isfinite(fa) and math.isfinite(fb):
            if abs(fa - fb) <= 1e-9 * max(_mag(a), _mag(b)): raise Discard('tie')
        return op(fa, fb)
    return g
for nm, op in (('lt', _o.lt), ('le', _o.le), ('gt', _o.gt), ('ge', _o.ge), ('eq', _o.eq), ('ne', _o.ne)):
    setattr(CFloat, '__%s__' % nm, _mkcmp(op))
CFloat.__hash__ = float.__hash__
CFloat.__deepcopy__ = lambda s, m: s
CFloat.__reduce__ = lambda s: (float, (float(s),))

def strip(x, seen=None):
    """remove CFloat wrappers before handing values to the real code (objects in place)"""
    if isinstance(x, CFloat): return float(x)
    if isinstance(x, list):
        for i in range(len(x)): x[i] = strip(x[i], seen)
        return x
    if isinstance(x, tuple) and type(x) is tuple: return tuple(strip(e, seen) for e in x)
    if isinstance(x, dict):
        for k in list(x): x[k] = strip(x[k], seen)
        return x
    if isinstance(x, np.ndarray) and x.dtype == object and x.size and all(isinstance(e, (int, float)) for e in x.flat):
        return x.astype(float)
    if hasattr(x, '__dict__') and (type(x).__module__.startswith('posydon') or getattr(x, '_strip', False)) and not isinstance(x, (type, types.FunctionType)):
        seen = seen if seen is not None else set()
        if id(x) in seen: return x
        seen.add(id(x))
        for k, v in list(vars(x).items()):
            w = strip(v, seen)
            if w is not v: x.__dict__[k] = w
    return x

class ConCtx(BaseCtx):
    symbolic = False
    def __init__(s, con, rng, given=None, pool=()):
        s.con, s.rng, s.given, s.pool = con, rng, given or {}, list(pool)
        s._undo = []; s.inputs = {}; s.nchecks = 0; s.first = None
        s.seq = 0
    def _scale(s, v): return v
    def real(s, name, lo=None, hi=None, lo_open=False, hi_open=False, nan=False, special=(), slo=None, shi=None, **k):
        """slo/shi: sampling range (does not restrict the quantifier)"""
        if nan and (s.given.get(name + '?nan') or (name + '?nan' not in s.given and s.rng.random() < 0.15)):
            s.inputs[name + '?nan'] = True; s.inputs[name] = 0.0
            return CFloat(float('nan'))
        if nan: s.inputs[name + '?nan'] = False
        lo_, hi_ = (None if lo is None else float(lo)), (None if hi is None else float(hi))
        def ok(v): return (lo_ is None or v > lo_ or (not lo_open and v == lo_)) and (hi_ is None or v < hi_ or (not hi_open and v == hi_))
        if name in s.given and isinstance(s.given[name], (int, float)): v = float(s.given[name])
        else:
            r = s.rng
            a = slo if slo is not None else lo_; b = shi if shi is not None else hi_
            v = None
            cand = [p for p in list(special) + s.pool if ok(p) and (slo is None or p >= slo) and (shi is None or p <= shi)]
            u = r.random()
            if cand and u < 0.35:
                v = float(r.choice(cand))
                w = r.random()
                if w < 0.2: v *= 1 + 1e-6 * (1 if r.random() < .5 else -1)
                elif w < 0.45: v *= 1 + 0.3 * r.random() * (1 if r.random() < .5 else -1)
            elif u < 0.42 and lo_ is not None and not lo_open: v = lo_
            elif u < 0.46 and hi_ is not None and not hi_open: v = hi_
            elif s.inputs and u < 0.52:
                vals = [x for x in s.inputs.values() if isinstance(x, float) and ok(x)]
                if vals: v = float(r.choice(vals))
            if v is None or not ok(v):
                if a is None and b is None: v = r.choice([-1, 1]) * 10 ** r.uniform(-2, 2)
                elif a is None: v = b - 10 ** r.uniform(-2, 2)
                elif b is None: v = a + 10 ** r.uniform(-2.5, 2.5)
                elif a >= 0 and b / max(a, b * 1e-6) > 50 and r.random() < .7:
                    l = max(a, b * 1e-6); v = 10 ** r.uniform(math.log10(l), math.log10(b))
                else: v = r.uniform(a, b)
        if not ok(v): raise Discard('range')
        v = float(v)
        s.inputs[name] = v
        return CFloat(v)
    def int(s, name, lo=None, hi=None, slo=None, shi=None, **k):
        if name in s.given: v = int(s.given[name])
        else:
            a = slo if slo is not None else (int(lo) if lo is not None else -10); b = shi if shi is not None else (int(hi) if hi is not None else a + 20)
            v = s.rng.randint(a, max(a, b))
        if (lo is not None and v < lo) or (hi is not None and v > hi): raise Discard('range')
        s.inputs[name] = v
        return v
    def bool(s, name, **k): return [False, True][s._choice(name, 2)]
    def _choice(s, name, n):
        i = int(s.given[name]) if name in s.given and int(s.given[name]) < n else s.rng.randrange(n)
        s.inputs[name] = i
        return i
    def choice(s, name, values, **k):
        values = list(values); return values[s._choice(name, len(values))]
    def str(s, name, values):
        values = list(values)
        v = s.given.get(name)
        if v not in values: v = s.rng.choice(values)
        s.inputs[name] = v
        return v
    def arr(s, name, n, lo=None, hi=None, lo_open=False, nan=False, max_len=None, hi_open=False, slo=None, shi=None, **k):
        return np.array([float(s.real('%s[%d]' % (name, i), lo, hi, lo_open, hi_open, slo=slo, shi=shi, **k)) for i in range(int(n))])
    def lst(s, name, n): return [float(s.real('%s[%d]' % (name, i))) for i in range(int(n))]
    def num(s, x): return CFloat(float(x))
    def fresh(s, base, *a, **k):
        s.seq += 1; return s.real('%s!%d' % (base, s.seq), *a, **k)
    def assume(s, cond):
        if not cond: raise Discard('precondition')
    def _isnum(s, x): return isinstance(x, (int, float, np.number)) and not isinstance(x, (bool, np.bool_))
    def _isbool(s, x): return isinstance(x, (bool, np.bool_))
    def _call(s, f, a, k):
        a = [strip(x) for x in a]; k = {n: strip(v) for n, v in k.items()}
        if isinstance(f, types.MethodType): strip(f.__self__)
        try:
            with np.errstate(all='ignore'):
                return Outcome(f(*a, **k))
        except Exception as e:
            return Outcome(exc=e, tb=traceback.format_exc(limit=-4))
    def check(s, name, cond, detail='', **k):
        s.nchecks += 1
        if not cond:
            if s.first is None: s.first = (name, str(detail)[:2000])
            return False
        return True
    def eq(s, name, a, b, rtol=1e-8, **k):
        try: fa, fb = float(a), float(b)
        except Exception: return s.check(name, False, detail='not numbers: %r vs %r' % (a, b))
        if fa != fa or fb != fb: return s.check(name, fa != fa and fb != fb, detail='%r vs %r' % (fa, fb))
        if abs(fa) == math.inf or abs(fb) == math.inf: return s.check(name, fa == fb, detail='%r vs %r' % (fa, fb))
        tol = max(rtol, 1e-9) * max(abs(fa), abs(fb)) + 1e-10 * max(_mag(a), _mag(b)) + float(k.get("atol", 0.0)) + 1e-300
        return s.check(name, abs(fa - fb) <= tol, detail='got %r expected %r' % (fa, fb))
    def cover(s, name): pass
    def opaque(s, x): pass
    def name(s, n, x): return x
    def fact(s, name, cond): pass
    def define(s, **q): pass
    def raw(s, x): return strip(x)
    def loop(s, *a, **k): pass
    def iff(s, a, b): return bool(a) == bool(b)
    def And(s, *x): return all(bool(e) for e in x)
    def Or(s, *x): return any(bool(e) for e in x)
    def Not(s, x): return not x
    def Implies(s, a, b): return (not a) or bool(b)
    def _f1(s, f, x):
        x_ = float(x)
        try:
            with np.errstate(all='ignore'): v = float(f(x_))
        except (ValueError, OverflowError): v = float('nan')
        m = abs(v)
        if x_ and math.isfinite(v): m = max(m, 1e-3 * 0 + m * max(1.0, _mag(x) / abs(x_)))
        return CFloat(v, max(m, abs(v)), True)
    def round(s, x, nd): return s._f1(lambda v: round(v, nd), x)
    def sqrt(s, x): return s._f1(np.sqrt, x)
    def root(s, x, q): return s._f1(lambda v: v ** (1.0 / q), x)
    def pow(s, x, y): return s._f1(lambda v: v ** float(y), x)
    def exp(s, x): return s._f1(np.exp, x)
    def log(s, x): return s._f1(np.log, x)
    def log10(s, x): return s._f1(np.log10, x)
    def exp10(s, x): return s._f1(lambda v: 10.0 ** v, x)
    def sin(s, x): r = s._f1(np.sin, x); r.mag = 1.0; return r
    def cos(s, x): r = s._f1(np.cos, x); r.mag = 1.0; return r
    def tan(s, x): return s._f1(np.tan, x)
    def arccos(s, x): return s._f1(np.arccos, x)
    @property
    def pi(s): return CFloat(math.pi, der=True)
    def abs(s, x): return abs(x)
    def max(s, a, b):
        if math.isnan(float(a)) or math.isnan(float(b)): return CFloat(float('nan'))
        return a if float(a) >= float(b) else b
    def min(s, a, b):
        if math.isnan(float(a)) or math.isnan(float(b)): return CFloat(float('nan'))
        return a if float(a) <= float(b) else b
    def ite(s, c, a, b): return a if c else b
    def isnan(s, x):
        try: return math.isnan(float(x))
        except Exception: return False
    def isfinite(s, x):
        try: return math.isfinite(float(x))
        except Exception: return False
    def divide_as_numpy(s): pass
    def havoc(s): pass
    def rng_(s): return np.random.default_rng(0)
