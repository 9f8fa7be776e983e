"""Rational-function normaliser: decides identities a == b over the field of
fractions of polynomials in atoms (variables and uninterpreted applications),
using r**q = x for q-th roots and sin^2 = 1 - cos^2."""
from fractions import Fraction
import z3

LIMIT = 6000
class TooBig(Exception): pass

class Ring:
    def __init__(s):
        s.atoms = {}      # key -> id
        s.info = []       # id -> ('var',) | ('root', q, rf) | ('sin', cosid)
        s.memo = {}
        s.fam = {}
        s.expand = {}     # named constant -> rational function of its definition
    def atom(s, key, info):
        if key not in s.atoms:
            s.atoms[key] = len(s.info); s.info.append(info)
        return s.atoms[key]
    # polynomials: dict monomial(tuple of (id,exp) sorted) -> Fraction
    def padd(s, p, q, c=1):
        r = dict(p)
        for m, v in q.items():
            n = r.get(m, 0) + c * v
            if n: r[m] = n
            else: r.pop(m, None)
        return r
    def pmul(s, p, q):
        if len(p) * len(q) > LIMIT * 10: raise TooBig()
        r = {}
        for m1, v1 in p.items():
            for m2, v2 in q.items():
                m = s.mmul(m1, m2)
                n = r.get(m, 0) + v1 * v2
                if n: r[m] = n
                else: r.pop(m, None)
        if len(r) > LIMIT: raise TooBig()
        return r
    @staticmethod
    def mmul(a, b):
        if not a: return b
        if not b: return a
        d = dict(a)
        for k, e in b: d[k] = d.get(k, 0) + e
        return tuple(sorted(d.items()))
    ONE = {(): Fraction(1)}
    def rf(s, t):
        """z3 term -> (num, den)"""
        k = t.get_id()
        if k in s.memo: return s.memo[k][1]
        r = s._rf(t)
        s.memo[k] = (t, r)
        return r
    def _rf(s, t):
        if z3.is_rational_value(t): return ({(): Fraction(t.numerator_as_long(), t.denominator_as_long())} if t.numerator_as_long() else {}, s.ONE)
        if z3.is_int_value(t): return ({(): Fraction(t.as_long())} if t.as_long() else {}, s.ONE)
        d = t.decl().kind() if z3.is_app(t) else None
        ch = t.children()
        if d == z3.Z3_OP_TO_REAL: return s.rf(ch[0])
        if d == z3.Z3_OP_ADD:
            num, den = {}, s.ONE
            for c in ch:
                n2, d2 = s.rf(c)
                if d2 == den: num = s.padd(num, n2)
                else:
                    num = s.padd(s.pmul(num, d2), s.pmul(n2, den)); den = s.pmul(den, d2)
            return s.cancel(num, den)
        if d == z3.Z3_OP_SUB:
            num, den = s.rf(ch[0])
            for c in ch[1:]:
                n2, d2 = s.rf(c)
                if d2 == den: num = s.padd(num, n2, -1)
                else: num = s.padd(s.pmul(num, d2), s.pmul(n2, den), -1); den = s.pmul(den, d2)
            return s.cancel(num, den)
        if d == z3.Z3_OP_UMINUS:
            n, e = s.rf(ch[0]); return ({m: -v for m, v in n.items()}, e)
        if d == z3.Z3_OP_MUL:
            num, den = s.ONE, s.ONE
            for c in ch:
                n2, d2 = s.rf(c); num = s.pmul(num, n2); den = s.pmul(den, d2)
            return s.cancel(num, den)
        if d == z3.Z3_OP_DIV:
            n1, d1 = s.rf(ch[0]); n2, d2 = s.rf(ch[1])
            if not n2: return s._opaque(t)
            return s.cancel(s.pmul(n1, d2), s.pmul(d1, n2))
        if d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 40:
            n1, d1 = s.rf(ch[0]); e = ch[1].numerator_as_long()
            num, den = s.ONE, s.ONE
            for _ in range(e): num, den = s.pmul(num, n1), s.pmul(den, d1)
            return num, den
        if d == z3.Z3_OP_UNINTERPRETED and ch:
            nm = t.decl().name()
            keys = s.unify(nm, tuple(s.rf(c) for c in ch))
            if nm.startswith('root'):
                q = int(nm[4:]); rfx = s.rf(ch[0])
                if len(rfx[0]) <= 40 and s.padd(s.reduce(rfx[0]), s.reduce(rfx[1]), -1) == {}: return s.ONE, s.ONE
                return ({((s.atom((nm, keys), ('root', q, rfx)), 1),): Fraction(1)}, s.ONE)
            if nm == 'sin':
                c = s.atom(('cos', keys), ('var',))
                return ({((s.atom((nm, keys), ('sin', c)), 1),): Fraction(1)}, s.ONE)
            if nm == 'pow' and len(ch) == 2:
                pass
            return ({((s.atom((nm, keys), ('var',)), 1),): Fraction(1)}, s.ONE)
        if d == z3.Z3_OP_UNINTERPRETED and t.decl().name() in s.expand: return s.expand[t.decl().name()]
        return s._opaque(t)
    def unify(s, nm, rfs):
        """key of the arguments; arguments that are identical as rational functions share it"""
        keys = tuple(s.key(r) for r in rfs)
        fam = s.fam.setdefault((('cos',) if nm == 'sin' else (nm,), len(rfs)), {})
        if keys in fam: return fam[keys][0]
        for k2, r2 in list(fam.values()):
            if len(fam) > 40: break
            try:
                ok = True
                for (n1, d1), (n2, d2) in zip(rfs, r2):
                    if len(n1) * len(d2) > 20000 or len(n2) * len(d1) > 20000: ok = False; break
                    q = s.padd(s.pmul(n1, d2), s.pmul(n2, d1), -1)
                    if q and s.reduce(q): ok = False; break
            except TooBig: ok = False
            if ok: fam[keys] = (k2, rfs); return k2
        fam[keys] = (keys, rfs)
        return keys
    def _opaque(s, t):
        return ({((s.atom(('z', t.sexpr()), ('var',)), 1),): Fraction(1)}, s.ONE)
    def cancel(s, num, den):
        """divide by common monomial and scale"""
        if not num: return {}, s.ONE
        if den == s.ONE: return num, den
        # common monomial gcd
        g = None
        for p in (num, den):
            for m in p:
                d = dict(m)
                g = d if g is None else {k: min(e, d[k]) for k, e in g.items() if k in d}
                if not g: break
            if not g: break
        if g:
            def div(p): return {tuple(sorted((k, e - g.get(k, 0)) for k, e in m if e != g.get(k, 0))): v for m, v in p.items()}
            num, den = div(num), div(den)
        # scale den leading coefficient to 1
        lead = den[min(den)]
        if lead != 1:
            num = {m: v / lead for m, v in num.items()}; den = {m: v / lead for m, v in den.items()}
        if num == den: return s.ONE, s.ONE
        return num, den
    def key(s, rf):
        n, d = rf
        n, d = s.cancel(n, d)
        return (tuple(sorted(n.items())), tuple(sorted(d.items())))
    def reduce(s, p):
        """rewrite r**q and sin^2 in polynomial p (equated with zero); den factors dropped (nonzero)"""
        for _ in range(60):
            hit = None
            for m in p:
                for k, e in m:
                    i = s.info[k]
                    if i[0] == 'root' and e >= i[1]: hit = k; break
                    if i[0] == 'sin' and e >= 2: hit = k; break
                if hit is not None: break
            if hit is None: return p
            i = s.info[hit]; q = i[1] if i[0] == 'root' else 2
            # p = sum_j c_j * r^(e_j); replace r^e -> r^(e mod q) * X^(e//q), X = xn/xd
            if i[0] == 'root': xn, xd = i[2]
            else: xn, xd = {(): Fraction(1), ((i[1], 2),): Fraction(-1)}, s.ONE
            maxk = max((dict(m).get(hit, 0) // q) for m in p)
            xnp, xdp = [s.ONE], [s.ONE]
            for _k in range(maxk): xnp.append(s.pmul(xnp[-1], xn)); xdp.append(s.pmul(xdp[-1], xd))
            r = {}
            for m, v in p.items():
                d = dict(m); e = d.pop(hit, 0)
                if e % q: d[hit] = e % q
                base = {tuple(sorted(d.items())): v}
                r = s.padd(r, s.pmul(s.pmul(base, xnp[e // q]), xdp[maxk - e // q]))
            p = r
        return p

ACTIVE = []          # ring of the named quantities in force
def _ring(): return ACTIVE[0] if ACTIVE else Ring()

def identical(a, b):
    """True if a == b is a rational-function identity (given all denominators nonzero)"""
    try:
        R = _ring()
        n1, d1 = R.rf(a); n2, d2 = R.rf(b)
        p = R.padd(R.pmul(n1, d2), R.pmul(n2, d1), -1)
        if not p: return True
        return not R.reduce(p)
    except (TooBig, RecursionError):
        return False

def ratio(a, b):
    """constant Fraction r with a == r*b identically, or None"""
    try:
        R = _ring()
        n1, d1 = R.rf(a); n2, d2 = R.rf(b)
        z = R.atom('ratio!z', ('var',))
        p = R.padd(R.pmul(n1, d2), R.pmul(R.pmul(n2, d1), {((z, 1),): Fraction(1)}))
        p = R.reduce(p)
        p1 = {m: v for m, v in p.items() if not any(k == z for k, e in m)}
        p2 = {tuple((k, e) for k, e in m if k != z): v for m, v in p.items() if any(k == z for k, e in m)}
        if not p2 or set(p1) != set(p2): return None
        m0 = next(iter(p1)); r = p1[m0] / p2[m0]
        return r if all(v == r * p2[m] for m, v in p1.items()) else None
    except (TooBig, RecursionError):
        return None


class Linear:
    """rewrites comparison atoms as linear ones over named quantities, when the difference of the two sides
    is (identically, as a rational function) a linear combination of the quantities, 1 and single atoms"""
    SHARED = {}       # across the paths of one process: ring and results per set of quantities
    def __init__(s):
        s.R = Linear.SHARED.setdefault('ring', Ring()); s.defs = []; s.cache = {}; s.bools = {}; s.roots = {}; s.sig = ()
    def define(s, const, t):
        s.defs.append((const, s.R.rf(t))); s.sig += ((const.decl().name(), t.get_id()),); s.cache = {}
        Linear.SHARED.setdefault('keep', []).append(t)
    def lin(s, t):
        """z3 term -> linear z3 expression or None"""
        k = (s.sig, t.get_id())
        if k not in Linear.SHARED: Linear.SHARED[k] = (t, s._lin(t))
        return Linear.SHARED[k][1]
    def _lin(s, t):
        R = s.R
        try: n, d = R.rf(t)
        except (TooBig, RecursionError): return None
        one = [(z3.RealVal(1), R.ONE, R.ONE)]
        defs = [(c, a, b) for c, (a, b) in s.defs]
        ats = sorted({k for m in n for k, e in m if R.info[k][0] == 'root'})[:6]
        for m in n:
            if len(m) == 1 and m[0][1] == 1: ats.append(m[0][0])
        ats = [(z3.Real('atom!%d' % k), {((k, 1),): Fraction(1)}, R.ONE) for k in sorted(set(ats))[:10]]
        e = s._solve(n, d, one + [x for x in defs if x[2] == R.ONE or x[2] == d] + ats)
        if e is None:
            for x in defs:
                e = s._solve(n, d, [x])
                if e is not None: return e
            e = s._solve(n, d, one + defs + ats)
        return e
    def _solve(s, n, d, basis):
        R = s.R
        try:
            L = [d] + [b for _, _, b in basis]
            uniq = []
            for q in L:
                if q != R.ONE and q not in uniq: uniq.append(q)
            def scaled(num, den):
                p = num; skipped = False
                for q in uniq:
                    if q == den and not skipped: skipped = True; continue
                    p = R.pmul(p, q)
                return p
            zs = [R.atom('lin!z%d' % i, ('var',)) for i in range(len(basis))]
            P = scaled(n, d)
            for z, (_, a, b) in zip(zs, basis): P = R.padd(P, R.pmul(scaled(a, b), {((z, 1),): Fraction(-1)}))
            P = R.reduce(P)
        except (TooBig, RecursionError): return None
        zi = {z: i for i, z in enumerate(zs)}
        rows = {}
        for m, v in P.items():
            i = None; rest = []
            for k, e in m:
                if k in zi: i = zi[k]
                else: rest.append((k, e))
            row = rows.setdefault(tuple(rest), [Fraction(0)] * (len(basis) + 1))
            if i is None: row[-1] += v
            else: row[i] -= v
        # sum_i c_i row[i] = row[-1]
        M = [r for r in rows.values() if any(r)]
        piv = []; r0 = 0
        for col in range(len(basis)):
            k = next((j for j in range(r0, len(M)) if M[j][col]), None)
            if k is None: continue
            M[r0], M[k] = M[k], M[r0]
            f = M[r0][col]; M[r0] = [x / f for x in M[r0]]
            for j in range(len(M)):
                if j != r0 and M[j][col]:
                    g = M[j][col]; M[j] = [x - g * y for x, y in zip(M[j], M[r0])]
            piv.append(col); r0 += 1
        if any(row[-1] for row in M[r0:]): return None
        out = [z3.RealVal(M[i][-1]) * basis[col][0] for i, col in enumerate(piv) if M[i][-1]]
        return z3.Sum(out) if out else z3.RealVal(0)
    def formula(s, b):
        k = b.get_id()
        if k in s.cache: return s.cache[k][1]
        s.cache[k] = (b, s._formula(b)); return s.cache[k][1]
    def _formula(s, b):
        if z3.is_true(b) or z3.is_false(b): return b
        kd = b.decl().kind(); ch = b.children()
        if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or (kd == z3.Z3_OP_EQ and z3.is_bool(ch[0])) or (kd == z3.Z3_OP_ITE and z3.is_bool(b)):
            return b.decl()(*[s.formula(c) for c in ch])
        if kd in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_arith(ch[0]) and len(ch) == 2:
            e = s.lin(ch[0] - ch[1])
            if e is not None:
                z = z3.RealVal(0)
                return {z3.Z3_OP_LE: e <= z, z3.Z3_OP_LT: e < z, z3.Z3_OP_GE: e >= z, z3.Z3_OP_GT: e > z, z3.Z3_OP_EQ: e == z, z3.Z3_OP_DISTINCT: e != z}[kd]
        key = b.sexpr()
        if key not in s.bools: s.bools[key] = z3.Bool('abs!%d' % len(s.bools))
        return s.bools[key]


class Names:
    """Named quantities: whenever the code computes a value that is identically (as a rational function, up to a constant
    factor) a named quantity, it is represented by the name.  Keeps terms small; sound because the two are equal."""
    R = Ring(); vals = {}; memo = {}; ratios = {}; reg = {}      # shared by the paths of a process; a name is never given two definitions
    def __init__(s): s.tab = []; s.seen = {}; s.defs = []; s.off = False
    def name(s, nm, t):
        lst = s.reg.setdefault(nm, [])
        for i, u in enumerate(lst):
            if u.eq(t): break
        else: i = len(lst); lst.append(t)
        full = 'q!%s' % nm if i == 0 else 'q!%s~%d' % (nm, i)
        c = z3.Real(full)
        rf = s.R.rf(t); v = s.val(t)
        s.R.expand[full] = rf
        s.vals[full] = v
        s.tab.append((c, t, rf, v)); s.defs.append(c == t); s.seen = {}
        return c
    def val(s, t):
        """numerical values at two sample points (a filter only)"""
        k = t.get_id()
        if k in s.memo: return s.memo[k][1]
        try: r = s._val(t)
        except (ZeroDivisionError, OverflowError, ValueError): r = (float('nan'),) * 2
        s.memo[k] = (t, r)
        return r
    def _val(s, t):
        import math, hashlib
        def rnd(key): 
            h = hashlib.md5(key.encode()).digest()
            return tuple(0.3 + 0.6 * int.from_bytes(h[4 * i:4 * i + 4], 'big') / 2**32 for i in range(2))
        if z3.is_rational_value(t): v = t.numerator_as_long() / t.denominator_as_long(); return (v, v)
        if z3.is_int_value(t): v = float(t.as_long()); return (v, v)
        d = t.decl().kind(); ch = [s.val(c) if z3.is_arith(c) else None for c in t.children()]
        if None in ch: return rnd(t.sexpr())
        if d == z3.Z3_OP_TO_REAL: return ch[0]
        if d == z3.Z3_OP_ADD: return tuple(math.fsum(x) for x in zip(*ch))
        if d == z3.Z3_OP_SUB: return tuple(x[0] - math.fsum(x[1:]) for x in zip(*ch))
        if d == z3.Z3_OP_UMINUS: return tuple(-x for x in ch[0])
        if d == z3.Z3_OP_MUL: return tuple(math.prod(x) for x in zip(*ch))
        if d == z3.Z3_OP_DIV: return tuple(a / b for a, b in zip(*ch))
        if d == z3.Z3_OP_POWER: return tuple(a ** b for a, b in zip(*ch))
        nm = t.decl().name()
        if not ch: return s.vals.get(nm) or rnd(nm)
        if nm.startswith('root'): return tuple(abs(x) ** (1 / int(nm[4:])) for x in ch[0])
        if nm in ('sin', 'cos', 'exp', 'log'): return tuple(getattr(math, nm)(x) for x in ch[0])
        out = [rnd('%s:%s' % (nm, ','.join('%.6e' % c[i] for c in ch)))[i] for i in range(2)]
        return tuple(out)
    def match(s, t):
        if s.off: return t
        k = t.get_id()
        if k in s.seen: return s.seen[k][1]
        r = s._match(t); s.seen[k] = (t, r)
        return r
    def _match(s, t):
        v = s.val(t)
        if v[0] != v[0] or v[0] == 0 or v[1] == 0: return t
        for c, dt, rf, w in s.tab:
            if w[0] == 0 or w[0] != w[0]: continue
            k0, k1 = v[0] / w[0], v[1] / w[1]
            if abs(k0 - k1) > 1e-6 * abs(k0) or k0 != k0: continue
            kk = (t.get_id(), c.decl().name())
            if kk not in s.ratios: s.ratios[kk] = (t, ratio(t, c))
            q = s.ratios[kk][1]
            if q is None: continue
            return c if q == 1 else z3.RealVal(q) * c
        return t
