"""Obligation discharge: rational normaliser, z3 (several strategies), cvc5."""
import time, subprocess, os, tempfile
import z3
from .core import *
from . import ring

CVC5 = '/usr/local/bin/cvc5'
import shutil
CVC5 = shutil.which('cvc5') or CVC5

def has_uf(terms):
    seen = set(); st = list(terms)
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: return True
        st.extend(t.children())
    return False

def abstract_ufs(terms):
    """replace UF applications by fresh constants (weakens hypotheses: sound for unsat)"""
    cache = {}; names = {}
    def go(t):
        k = t.get_id()
        if k in cache: return cache[k][1]
        if not z3.is_app(t): r = t
        elif t.num_args() == 0: r = t
        else:
            ch = [go(c) for c in t.children()]
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                key = t.decl().name() + '(' + ','.join(c.sexpr() for c in ch) + ')'
                if key not in names: names[key] = z3.Const('uf!%d' % len(names), t.sort())
                r = names[key]
            else: r = t.decl()(*ch)
        cache[k] = (t, r)
        return r
    return [go(t) for t in terms]

def symbols(t, memo={}):
    """free constants and UF applications' heads of a term"""
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if x.num_args() == 0: out.add(x.decl().name())
        st.extend(x.children())
    return out

def sliced(path, neg):
    """hypotheses with the contract's opaque terms generalised to constants, restricted to the ones
    connected to the goal (both weaken the hypotheses: sound for unsat)"""
    names = {c.decl().name() for _, c in path.opaque}
    old = [z3.substitute(t, *path.opaque) for t in path.axs[:path.opaque_from]]
    ts = [t for t in old if not (symbols(t) & names)]      # the definitions of the opaque terms are dropped
    ts += [z3.substitute(t, *path.opaque) for t in path.axs[path.opaque_from:] + path.pc + [neg]]
    syms = [symbols(t) for t in ts]
    keep = {len(ts) - 1}; cur = set(syms[-1])
    while True:
        new = [i for i in range(len(ts)) if i not in keep and (syms[i] & cur)]
        if not new: break
        for i in new: keep.add(i); cur |= syms[i]
    return [ts[i] for i in sorted(keep)]

def resolve_ites(path, t, ms=300):
    """replace every conditional term of t whose condition the path decides (innermost first) by the branch taken"""
    cache = {}; conds = {}
    pcs = None
    def decide(c):
        nonlocal pcs
        k = c.get_id()
        if k in conds: return conds[k][1]
        if pcs is None: pcs = [(p, symbols(p)) for p in path.pc + path.axs]
        sy = symbols(c); r = None
        s = z3.Solver(); s.set('timeout', ms)
        for p, ps in pcs:
            if ps <= sy: s.add(p)
        if _time(lambda: s.check(z3.Not(c))) == z3.unsat: r = True
        elif _time(lambda: s.check(c)) == z3.unsat: r = False
        conds[k] = (c, r)
        return r
    def go(x):
        k = x.get_id()
        if k in cache: return cache[k][1]
        if not z3.is_app(x) or x.num_args() == 0: r = x
        elif x.decl().kind() == z3.Z3_OP_ITE:
            c = z3.simplify(go(x.arg(0)))
            d = True if z3.is_true(c) else False if z3.is_false(c) else decide(c)
            if d is None:
                a, b = go(x.arg(1)), go(x.arg(2)); sy = symbols(c) | symbols(a) | symbols(b)
                s = z3.Solver(); s.set('timeout', ms)
                for p, ps in pcs or ():
                    if ps <= sy: s.add(p)
                if _time(lambda: s.check(c, a != b)) == z3.unsat: r = b
                elif _time(lambda: s.check(z3.Not(c), a != b)) == z3.unsat: r = a
                else: r = z3.If(c, a, b)
            else: r = go(x.arg(1) if d else x.arg(2))
        else:
            ch = [go(y) for y in x.children()]
            r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else x.decl()(*ch)
        cache[k] = (x, r)
        return r
    return go(t)

def has_ite(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: return True
        st.extend(x.children())
    return False

def light_unsat(path, neg, ms):
    if not path.opaque: return False
    ts = sliced(path, neg)
    s = z3.Solver(); s.set('timeout', ms)
    for t in ts: s.add(t)
    r = _time(s.check)
    if r == z3.unsat: return True
    if r == z3.unknown: return nlsat_check(ts, ms) == z3.unsat
    return False

def linear_unsat(path, neg, ms=1000):
    """unsat after rewriting every comparison as a linear one over the contract's named quantities (others are abstracted)"""
    L = path.linear
    sub = lambda t: z3.substitute(t, *path.opaque) if path.opaque else t
    if path.lsolver is None: path.lsolver = z3.Solver(); path.lsolver.set('timeout', ms)
    while path.ldone < len(path.pc): path.lsolver.add(L.formula(sub(path.pc[path.ldone]))); path.ldone += 1
    path.lsolver.push(); path.lsolver.add(L.formula(sub(neg)))
    r = _time(path.lsolver.check)
    path.lsolver.pop()
    return r == z3.unsat

def _time(f):
    t0 = time.time(); r = f(); ST.solver_time += time.time() - t0; ST.queries += 1
    if os.environ.get('PYVC_ZDEBUG') and time.time() - t0 > 2:
        import traceback; print('SLOW %.1f' % (time.time() - t0), r, ' / '.join('%s:%d' % (x.name, x.lineno) for x in traceback.extract_stack()[-9:-1]), flush=True)
    return r

def try_unsat(path, neg, ms, thorough=False):
    """is pc & axioms & neg unsat?  returns ('unsat',backend)|('sat',model)|('unknown',why)"""
    path.check_deadline()
    hyp = path.pc + path.axs
    if path.linear is not None and linear_unsat(path, neg): return 'unsat', 'ring+z3-linear'
    if light_unsat(path, neg, ms): return 'unsat', 'z3'
    s = path.solver
    s.set('timeout', ms)
    s.push(); s.add(neg)
    r = _time(s.check)
    model = s.model() if r == z3.sat else None
    s.pop()
    if r == z3.unsat: return 'unsat', 'z3'
    if r == z3.sat: return 'sat', model
    # nlsat on the UF-abstracted problem
    try:
        ts = abstract_ufs(hyp + [neg])
        s2 = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'simplify', 'qfnra-nlsat').solver()
        s2.set('timeout', ms)
        for t in ts: s2.add(t)
        r = _time(s2.check)
        if r == z3.unsat: return 'unsat', 'z3-nlsat'
        if r == z3.sat and not has_uf(hyp + [neg]): return 'sat', s2.model()
    except z3.Z3Exception: pass
    r = cvc5_check(hyp + [neg], ms)
    if r == 'unsat': return 'unsat', 'cvc5'
    return 'unknown', 'z3/nlsat/cvc5 undecided within %d ms' % ms

def nlsat_check(terms, ms):
    """unsat/unknown on the UF-abstracted problem"""
    try:
        s2 = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'simplify', 'qfnra-nlsat').solver()
        s2.set('timeout', ms)
        for t in abstract_ufs(terms): s2.add(t)
        return z3.unsat if _time(s2.check) == z3.unsat else z3.unknown
    except z3.Z3Exception: return z3.unknown

def cvc5_check(terms, ms):
    s = z3.Solver()
    for t in terms: s.add(t)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    try:
        f.write(txt); f.close()
        t0 = time.time()
        try:
            o = subprocess.run([CVC5, '--tlimit=%d' % ms, f.name], capture_output=True, text=True, timeout=ms / 1000 + 5)
            out = o.stdout.strip().splitlines()
        except subprocess.TimeoutExpired: out = []
        ST.solver_time += time.time() - t0; ST.queries += 1
        return out[0] if out else 'unknown'
    finally: os.unlink(f.name)
