"""Import hook: loads posydon.* from /repo with function bodies mechanically
instrumented.  What the rewriting does (and all it does):
  * float literals inside function bodies become exact rationals,
  * '/' and '**' go through helpers so that int/int is an exact rational,
  * 'is'/'is not'/'in'/'not in' go through a helper so symbolic booleans/strings can be compared,
  * a computed subscript passes through a helper that turns a mask of symbolic booleans into
    a real mask (one path per mask value),
  * bare 'except:' becomes 'except Exception:' (so engine control flow passes),
  * while loops with an invariant registered by the contract are cut at it,
  * numpy, math and a few builtins are rebound to stand-ins that call the real
    library whenever no symbolic value is involved.
Control flow, calls, attribute accesses and data flow are the code's own."""
import ast, sys, os, importlib.abc, importlib.util, importlib.machinery, math, types
import numpy as _np

REPO = os.environ.get('PYVC_REPO', '/repo')
LOOPS = {}       # (module, qualname) -> {loop ordinal: spec key}
INSTRUMENTED = {}

class T(ast.NodeTransformer):
    def __init__(s, modname): s.mod = modname; s.depth = 0; s.q = []; s.loopn = [0]
    def _call(s, fn, *args, node):
        return ast.copy_location(ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=list(args), keywords=[]), node)
    def visit_FunctionDef(s, n):
        n.decorator_list = n.decorator_list
        s.q.append(n.name); s.depth += 1
        args = n.args
        n.body = s._body(n.body)
        s.depth -= 1; s.q.pop()
        INSTRUMENTED.setdefault(s.mod, set()).add('.'.join(s.q + [n.name]))
        return n
    visit_AsyncFunctionDef = visit_FunctionDef
    def _body(s, body):
        out = []
        for i, st in enumerate(body):
            if i == 0 and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str):
                out.append(st); continue
            r = s.visit(st)
            if isinstance(r, list): out.extend(r)
            elif r is not None: out.append(r)
        return out
    def visit_Lambda(s, n):
        s.depth += 1; n.body = s.visit(n.body); s.depth -= 1
        return n
    def visit_ClassDef(s, n):
        s.q.append(n.name)
        n.body = s._body(n.body)
        s.q.pop(); return n
    def visit_Constant(s, n):
        if s.depth and isinstance(n.value, float): return s._call('__pyvc_L__', n, node=n)
        return n
    def visit_JoinedStr(s, n): return n
    def visit_BinOp(s, n):
        s.generic_visit(n)
        if s.depth and isinstance(n.op, ast.Div): return s._call('__pyvc_DIV__', n.left, n.right, node=n)
        if s.depth and isinstance(n.op, ast.Pow): return s._call('__pyvc_POW__', n.left, n.right, node=n)
        return n
    def visit_Compare(s, n):
        s.generic_visit(n)
        if s.depth and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = s._call('__pyvc_IN__', n.left, n.comparators[0], node=n)
            return r if isinstance(n.ops[0], ast.In) else ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=r), n)
        if s.depth and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            return s._call('__pyvc_IS__' if isinstance(n.ops[0], ast.Is) else '__pyvc_ISNOT__', n.left, n.comparators[0], node=n)
        return n
    def visit_Subscript(s, n):
        s.generic_visit(n)
        if not s.depth: return n
        def w(x): return x if isinstance(x, (ast.Slice, ast.Constant, ast.Starred)) else s._call('__pyvc_IX__', x, node=x)
        if isinstance(n.slice, ast.Tuple): n.slice.elts = [w(x) for x in n.slice.elts]
        else: n.slice = w(n.slice)
        return n
    def visit_AnnAssign(s, n):
        if n.value is not None: n.value = s.visit(n.value)
        return n
    def visit_ExceptHandler(s, n):
        s.generic_visit(n)
        if s.depth and n.type is None: n.type = ast.copy_location(ast.Name(id='Exception', ctx=ast.Load()), n)
        return n
    def visit_match_value(s, n): return n
    def visit_MatchValue(s, n): return n
    def visit_For(s, n): return s._loop(n)
    def visit_While(s, n): return s._loop(n)
    def _loop(s, n):
        s.loopn[0] += 1
        orig = n
        s.generic_visit(n)
        if not s.depth or not isinstance(n, ast.While) or n.orelse or _jumps(n.body): return n
        import copy
        key = '%s:%s' % (s.mod, '.'.join(s.q))
        names = sorted({t.id for b in n.body for t in ast.walk(b) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store) and not t.id.startswith('__pyvc')})
        lv = '__pyvc_loop%d' % s.loopn[0]
        src = ['%s = __pyvc_LOOP__(%r, %r)' % (lv, key, ast.unparse(n.test)), 'if %s is None: pass' % lv, 'else:', '    %s.enter(locals())' % lv]
        for m in names: src.append('    %s = %s.hav(%r, locals())' % (m, lv, m))
        src += ['    %s.assume(locals())' % lv, '    if True: pass', '    %s.preserve(locals())' % lv]
        tree = ast.parse('\n'.join(src)).body
        iff = tree[1]
        iff.body = [n]
        inner = iff.orelse[-2]
        inner.test = copy.deepcopy(n.test); inner.body = [copy.deepcopy(b) for b in n.body] + [iff.orelse[-1]]
        iff.orelse = iff.orelse[:-1]
        for x in tree:
            for y in ast.walk(x):
                if not hasattr(y, 'lineno'): y.lineno = n.lineno; y.col_offset = n.col_offset
                if isinstance(y, ast.stmt) or isinstance(y, ast.expr): y.lineno = getattr(y, 'lineno', n.lineno)
        return [ast.copy_location(x, n) for x in tree]

def _jumps(body):
    """break/continue belonging to this loop"""
    for b in body:
        if isinstance(b, (ast.Break, ast.Continue)): return True
        if isinstance(b, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)): continue
        for f in ('body', 'orelse', 'finalbody'):
            if _jumps(getattr(b, f, []) or []): return True
        for h in getattr(b, 'handlers', []) or []:
            if _jumps(h.body): return True
    return False

class LoopCut:
    """loop invariant: checked on entry, arbitrary iteration assumed, preservation checked"""
    def __init__(s, c, spec): s.c, s.spec = c, spec
    def enter(s, L):
        for n, v in s.spec['inv'](L): s.c.check('loop-entry:' + n, v)
        s.new = s.spec['havoc'](L)
        s.c.path.havocs = getattr(s.c.path, 'havocs', 0) + 1
        s.c.cover('loop-cut:' + s.spec['key'])
    def hav(s, name, L):
        if name in s.new: return s.new[name]
        if name in L: 
            from .core import Unsupported
            raise Unsupported('loop variable %s not covered by the invariant' % name)
        return None
    def assume(s, L):
        for n, v in s.spec['inv'](L): s.c.assume(v)
    def preserve(s, L):
        from .core import PathDone
        for n, v in s.spec['inv'](L): s.c.check('loop-preserved:' + n, v)
        raise PathDone()

def LOOP(key, test):
    from .core import ST
    p = ST.path if ST.active else None
    specs = getattr(p, 'loops', None)
    if not specs or key not in specs: return None
    return LoopCut(*specs[key])

class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(s, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        T(s.name).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)
    def get_code(s, fullname):
        path = s.get_filename(fullname)
        return s.source_to_code(s.get_data(path), path)
    def exec_module(s, module):
        from . import shims
        d = module.__dict__
        d['__pyvc_L__'] = shims.L; d['__pyvc_DIV__'] = shims.DIV; d['__pyvc_POW__'] = shims.POW
        d['__pyvc_LOOP__'] = LOOP; d['__pyvc_IS__'] = shims.IS; d['__pyvc_ISNOT__'] = shims.ISNOT; d['__pyvc_IN__'] = shims.IN; d['__pyvc_IX__'] = shims.IX
        super().exec_module(module)
        rebind(module)

def rebind(module):
    from . import shims
    d = module.__dict__
    for k, v in list(d.items()):
        if v is _np: d[k] = shims.NPS
        elif v is math: d[k] = shims.MATHS
        elif getattr(v, '__name__', None) == 'pandas' and isinstance(v, types.ModuleType): d[k] = shims.PDS
        elif v is _np.random: d[k] = shims.NPS.random
        elif callable(v) and getattr(v, '__module__', None) == 'math' and k == getattr(v, '__name__', None):
            d[k] = _lazy(shims.MATHS, k)
        elif isinstance(v, _np.ufunc): d[k] = _lazy(shims.NPS, v.__name__)
    for k, v in shims.BUILTINS.items():
        if k not in d: d[k] = v

def _lazy(mod, name):
    def f(*a, **k): return getattr(mod, name)(*a, **k)
    f.__name__ = name
    return f

class Finder(importlib.abc.MetaPathFinder):
    def find_spec(s, name, path, target=None):
        if name.startswith('contracts.'):
            p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), name.replace('.', '/') + '.py')
            return importlib.util.spec_from_file_location(name, p, loader=Loader(name, p)) if os.path.exists(p) else None
        if name != 'posydon' and not name.startswith('posydon.'): return None
        if name.startswith('posydon.unit_tests') : return None
        rel = name.replace('.', '/')
        for cand, pkg in ((rel + '/__init__.py', True), (rel + '.py', False)):
            p = os.path.join(REPO, cand)
            if os.path.exists(p):
                return importlib.util.spec_from_file_location(name, p, loader=Loader(name, p),
                                                              submodule_search_locations=[os.path.dirname(p)] if pkg else None)
        return None

def install():
    sys.meta_path.insert(0, Finder())
    if REPO not in sys.path: sys.path.insert(0, REPO)
