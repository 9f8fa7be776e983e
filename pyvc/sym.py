"""Symbolic verification process: proves every obligation of a property's contracts."""
import sys, os, json, time, traceback, importlib, multiprocessing as mp
import multiprocessing.connection as mpc
from . import loader

class Results:
    def __init__(s):
        s.by = {}        # obligation -> {backend: n}
        s.fails = []     # dicts
        s.unknown = []
        s.covers = set()
        s.paths = 0; s.ends_sat = 0; s.infeasible = 0
        s.unsupported = []
        s.skip = lambda: False
    def record(s, name, backend, detail=''):
        if s.skip(): return
        d = s.by.setdefault(name, {}); d[backend] = d.get(backend, 0) + 1
        if backend == 'unknown' and len(s.unknown) < 20: s.unknown.append({'obligation': name, 'detail': detail})
    def fail(s, name, model, detail, phi, trust):
        if s.skip(): return
        d = s.by.setdefault(name, {}); d['failed'] = d.get('failed', 0) + 1
        if sum(1 for f in s.fails if f['obligation'] == name) < 3:
            s.fails.append({'obligation': name, 'model': model, 'detail': detail, 'vc': phi, 'trust': trust})
    def dump(s):
        return dict(by=s.by, fails=s.fails, unknown=s.unknown, covers=sorted(s.covers), paths=s.paths, ends_sat=s.ends_sat,
                    infeasible=s.infeasible, unsupported=s.unsupported)

CONTRACTS = {}
def load(prop):
    from . import ctx
    ctx.REG.clear()
    importlib.import_module('contracts.%s' % prop.lower())
    CONTRACTS.clear()
    for c in ctx.REG:
        assert c.name not in CONTRACTS, c.name
        CONTRACTS[c.name] = c
    return CONTRACTS

def explore(name, prefixes, slice_s, deadline, thorough):
    from . import core, ring
    from .core import ST, Path, Infeasible, Unsupported, EngineExit, PathDone, z3
    from .ctx import SymCtx
    import warnings
    warnings.simplefilter('ignore')
    con = CONTRACTS[name]
    R = Results()
    ST.reset_totals()
    pending = [list(p) for p in prefixes]
    t0 = time.time()
    ST.max_unroll = con.unroll or 6
    if thorough: con.timeout_ms = con.timeout_ms * 4
    while pending and time.time() - t0 < slice_s and time.time() < deadline:
        pre = pending.pop()
        path = Path(pre, pending, deadline)
        ST.path = path
        core.NAMED.clear(); ring.ACTIVE.clear()
        c = SymCtx(con, path, R, thorough)
        R.skip = lambda p=path: len(p.dec) < len(p.prefix)
        ST.active = True
        try:
            try: con.fn(c)
            except PathDone: pass
            R.paths += 1
            if R.ends_sat == 0 or R.paths % 50 == 0:
                if path.sat_end() != z3.unsat: R.ends_sat += 1
                else: R.infeasible += 1
        except Infeasible: R.infeasible += 1
        except Unsupported as e:
            R.paths += 1
            if len(R.unsupported) < 10: R.unsupported.append({'why': str(e), 'where': traceback.format_exc(limit=-6)[-1500:]})
            else: R.unsupported.append({'why': str(e)[:100]})
            if len(R.unsupported) > 40: pending.clear(); break
        except EngineExit as e:
            R.unsupported.append({'why': repr(e)})
        except Exception as e:      # an error in the contract text itself on this path
            R.unsupported.append({'why': 'contract error: %r' % e, 'where': traceback.format_exc(limit=-5)[-1500:]})
            if len(R.unsupported) > 40: pending.clear(); break
        finally:
            ST.active = False
            c.unpatch()
    out = R.dump()
    out.update(solver_time=ST.solver_time, queries=ST.queries, cpu=time.time() - t0)
    return name, out, pending

def merge(a, b):
    for n, d in b['by'].items():
        e = a['by'].setdefault(n, {})
        for k, v in d.items(): e[k] = e.get(k, 0) + v
    for k in ('fails', 'unknown', 'unsupported'): a[k] = (a[k] + b[k])[:60]
    a['covers'] = sorted(set(a['covers']) | set(b['covers']))
    for k in ('paths', 'ends_sat', 'infeasible', 'solver_time', 'queries', 'cpu'): a[k] += b[k]

def main(prop, out, tier, only=None):
    thorough = tier == 'thorough'
    loader.install()
    cons = load(prop)
    total = float(os.environ.get('PYVC_BUDGET', '1500' if thorough else '420'))
    t0 = time.time(); deadline = t0 + total
    names = [n for n, c in cons.items() if not c.bounded and (not only or n in only)]
    acc = {}
    empty = lambda: dict(by={}, fails=[], unknown=[], covers=[], paths=0, ends_sat=0, infeasible=0, unsupported=[], solver_time=0.0, queries=0, cpu=0.0)
    nw = int(os.environ.get('PYVC_JOBS', '8'))
    if os.environ.get('PYVC_SERIAL'):
        for n in names:
            _, r, left = explore(n, [[]], total, deadline, thorough)
            acc[n] = r; r['left'] = len(left)
    else:
        for n in names: acc[n] = empty(); acc[n]['left'] = 0
        queue = [(n, [[]], 4.0) for n in names]; running = {}
        cx = mp.get_context('fork')
        def child(conn, n, pre, sl):
            try: conn.send(explore(n, pre, sl, deadline, thorough))
            finally: conn.close(); os._exit(0)
        while queue or running:
            while queue and len(running) < nw:
                n, pre, sl = queue.pop(0)
                r, w = cx.Pipe(False); p = cx.Process(target=child, args=(w, n, pre, sl)); p.start(); w.close()
                running[r] = (p, n, pre, time.time())
            for r in mpc.wait(list(running), timeout=5):
                p, n, pre, _ = running.pop(r)
                try: _, res, left = r.recv()
                except (EOFError, OSError) as e:
                    p.join(); acc[n]['unsupported'].append({'why': 'worker died with status %s' % p.exitcode}); r.close(); continue
                r.close(); p.join()
                merge(acc[n], res)
                if left:
                    if time.time() > deadline: acc[n]['left'] += len(left)
                    else:
                        k = max(1, min(nw, len(left)))
                        queue.extend((n, left[i::k], 8.0) for i in range(k))
            for r, (p, n, pre, ts) in list(running.items()):      # a single query that does not come back
                if time.time() - ts > (900 if thorough else 180): p.kill(); p.join(); r.close(); del running[r]; acc[n]['left'] += max(1, len(pre))
            if time.time() > deadline + 60 or os.path.exists(out + '.stop'):
                for p, n, pre, _ in running.values(): acc[n]['left'] += 1; p.kill()
                for n, pre, sl in queue: acc[n]['left'] += 1
                break
    json.dump({'contracts': acc, 'wall': time.time() - t0}, open(out, 'w'), default=str)

if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else 'quick', set(sys.argv[4:]) or None)
