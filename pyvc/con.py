"""Concrete process: evaluates the same contracts on the unmodified code —
CPython cross-check of the engine, replay of counter-models, and
contract-directed search for a failing input."""
import sys, os, json, time, random, traceback, importlib, ast, inspect, textwrap, multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor

CONTRACTS = {}
def load(prop):
    from . import ctx
    sys.path.insert(0, os.environ.get('PYVC_REPO', '/repo'))
    ctx.REG.clear()
    importlib.import_module('contracts.%s' % prop.lower())
    for c in ctx.REG: CONTRACTS[c.name] = c

def pool_of(con):
    """float/int literals of the functions under contract and of the contract: directed sample points"""
    from .ctx import resolve
    vals = set()
    objs = [con.fn]
    for t in con.targets:
        try: objs.append(resolve(t))
        except Exception: pass
    for o in objs:
        try: tree = ast.parse(textwrap.dedent(inspect.getsource(o)))
        except Exception: continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and abs(n.value) < 1e12:
                vals.add(float(n.value))
    return sorted(vals)[:400]

def renamed(e):
    """the contract's target no longer exists under its name (a refactoring, not a wrong result)"""
    tb = e.__traceback__
    while tb.tb_next is not None: tb = tb.tb_next
    inner = tb.tb_frame.f_code.co_filename
    if isinstance(e, ImportError) and ('cannot import name' in str(e) or isinstance(e, ModuleNotFoundError)) and '/repo/' not in inner and not inner.startswith(os.environ.get('PYVC_REPO', '/repo')): return True
    return isinstance(e, AttributeError) and tb.tb_frame.f_code.co_name == 'resolve'

def one(con, rng, given, pool):
    from .ctx import ConCtx, Discard
    import warnings
    c = ConCtx(con, rng, given, pool)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            con.fn(c)
    except Discard: 
        if c.first is None: return 'discard', c
    except Exception as e:
        if c.first is None:
            if renamed(e): raise
            c.first = ('evaluates', 'the contract cannot be evaluated on the result: %r\n%s' % (e, traceback.format_exc(limit=-4)))
    finally: c.unpatch()
    if c.first is not None: return 'fail', c
    return 'ok', c

def batch(name, n, seed, given_list, secs):
    """returns dict(evals, discards, checks, failure|None, samples)"""
    sys.stdout = open(os.devnull, 'w'); 
    con = CONTRACTS[name]
    pool = pool_of(con)
    t0 = time.time(); rng = random.Random('%s-%s' % (name, seed))
    import numpy as np
    np.random.seed(abs(hash((name, seed))) % 2**31 if False else (seed * 7919 + sum(map(ord, name))) % 2**31)
    ev = dis = chk = 0; distinct = set(); samples = []; fail = None; err = None
    i = 0
    gl = list(given_list)
    while (i < n or gl) and time.time() - t0 < secs:
        i += 1
        given = gl.pop(0) if gl else None
        try: r, c = one(con, rng, given, pool)
        except Exception as e:
            err = traceback.format_exc(limit=-5); ev += 1
            if given is None: break
            continue
        ev += 1
        if r == 'discard': dis += 1; continue
        chk += c.nchecks
        distinct.add(json.dumps(c.inputs, sort_keys=True, default=str))
        if len(samples) < 2: samples.append(dict(c.inputs))
        if r == 'fail':
            fail = dict(obligation=c.first[0], detail=c.first[1], inputs=c.inputs, seed=seed, index=i, replayed=given is not None)
            # confirm deterministically
            r2, c2 = one(con, random.Random(1), dict(c.inputs), pool)
            fail['confirmed'] = r2 == 'fail'
            if r2 == 'fail': fail['obligation'], fail['detail'] = c2.first
            break
    return name, dict(evals=ev, discards=dis, checks=chk, distinct=len(distinct), failure=fail, samples=samples, error=err, wall=time.time() - t0)

def main(prop, req_path, out):
    load(prop)
    req = json.load(open(req_path))
    res = {}
    nw = int(os.environ.get('PYVC_JOBS', '8'))
    with ProcessPoolExecutor(nw, mp_context=mp.get_context('fork')) as ex:
        fs = []
        for r in req:
            if r['name'] not in CONTRACTS: continue
            for sh in range(r.get('shards', 1)):
                fs.append(ex.submit(batch, r['name'], r['n'], r['seed'] * 1000 + sh, r.get('given', []) if sh == 0 else [], r['secs']))
        for f in fs:
            n, d = f.result()
            if n not in res: res[n] = d
            else:
                a = res[n]
                for k in ('evals', 'discards', 'checks', 'distinct'): a[k] += d[k]
                a['failure'] = a['failure'] or d['failure']; a['error'] = a['error'] or d['error']
    info = {n: dict(targets=c.targets, bounded=c.bounded, samples=c.samples, notes=c.notes, assumes=c.assumes, bound=c.bound) for n, c in CONTRACTS.items()}
    json.dump({'results': res, 'info': info}, open(out, 'w'), default=str)

if __name__ == '__main__':
    main(*sys.argv[1:4])
