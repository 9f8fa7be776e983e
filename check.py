#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: decide one property on /repo's current tree.
Exit 0: held.  Exit 1 + 'VIOLATION property=... replay=...': broken."""
import sys, os, json, subprocess, time, tempfile, shutil, hashlib
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYVC_REPO', '/repo')
PY = '/opt/venv/bin/python'

def env():
    e = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', QT_QPA_PLATFORM='offscreen', TZ='UTC',
             PATH_TO_POSYDON='./', PATH_TO_POSYDON_DATA='./posydon/unit_tests/_data/', MESA_DIR='./', PYTHONPATH=V,
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYVC_REPO=REPO)
    return e

def spawn(args, log, limit=None):
    return subprocess.Popen([PY, '-W', 'ignore', '-m'] + args, cwd=REPO, env=env(), stdout=log, stderr=subprocess.STDOUT, start_new_session=True)

def wait(p, secs):
    try: return p.wait(timeout=secs)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except Exception: pass
        p.wait(); return -9

def concrete(prop, req, tmp, tag, log, secs):
    rq, out = os.path.join(tmp, tag + '.req'), os.path.join(tmp, tag + '.out')
    json.dump(req, open(rq, 'w'))
    p = spawn(['pyvc.con', prop, rq, out], log)
    return p, out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='pyvc_')
    try: rc = run(prop, tier, seed, t0, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def listed(prop, contract, v):
    """the entry of the known-findings file this failure belongs to, if any"""
    kf = os.path.join(V, 'known_findings.json')
    for k in (json.load(open(kf)).get('findings', []) if os.path.exists(kf) else []):
        if k['property'] == prop and k['contract'] == contract and v['obligation'].split('[')[0] in k['obligations']: return k

def run(prop, tier, seed, t0, tmp):
    thorough = tier == 'thorough'
    logp = os.path.join(tmp, 'log'); log = open(logp, 'w')
    symout = os.path.join(tmp, 'sym.json')
    sp = spawn(['pyvc.sym', prop, symout, tier], log)
    names = json.loads(subprocess.run([PY, '-W', 'ignore', '-c', 'import sys,json,runpy\nsys.path[:0]=[%r,%r]\nfrom pyvc import con\ncon.load(%r)\n'
        'print("@@"+json.dumps({n:dict(bounded=c.bounded,samples=c.samples,bound=c.bound) for n,c in con.CONTRACTS.items()}))' % (V, REPO, prop)],
        cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=log, text=True).stdout.split('@@')[-1] or '{}')
    if not names:
        wait(sp, 1); log.flush(); sys.stderr.write(open(logp).read()[-4000:])
        # the code under contract cannot even be imported: every contract on it is broken
        return report(prop, tier, seed, t0, {}, {}, {}, [dict(contract='*', obligation='module-importable', detail=open(logp).read()[-3000:], kind='proof', inputs=None)], {}, [])
    mult = 10 if thorough else 1
    req = []
    for n, c in names.items():
        k = c['samples'] or 300
        if c['bounded']: req.append(dict(name=n, n=k * mult * 4, seed=seed, secs=60 if not thorough else 300, shards=2))
        else: req.append(dict(name=n, n=k * mult, seed=seed, secs=20 if not thorough else 120))
    cp, cout = concrete(prop, req, tmp, 'cross', log, 300)
    rc2 = wait(cp, 400 if not thorough else 2400)
    con = json.load(open(cout)) if os.path.exists(cout) else {'results': {}, 'info': {}}
    if any(r['failure'] and not listed(prop, n, r['failure']) for n, r in con['results'].items()) and not thorough:
        # a failing input is already in hand: the proof gets two minutes to name further obligations
        try: sp.wait(timeout=max(5, 120 - (time.time() - t0)))
        except subprocess.TimeoutExpired: open(symout + '.stop', 'w').close()
    rc1 = wait(sp, 560 if not thorough else 2400)
    sym = json.load(open(symout)) if os.path.exists(symout) else {'contracts': {}, 'wall': 0}
    viol = []
    for n, r in con['results'].items():
        if r['failure']: viol.append(dict(contract=n, kind='input', **r['failure']))
    # obligations the verifier could not discharge: replay models, then search
    again = []; status = {}
    for n, c in names.items():
        if c['bounded']: status[n] = 'bounded'; continue
        s = sym['contracts'].get(n)
        if s is None: status[n] = 'undecided:no result'; again.append(dict(name=n, given=[])); continue
        bad = []
        if s['fails']: bad.append('failed')
        if s['unknown'] or any('unknown' in d for d in s['by'].values()): bad.append('unknown')
        if s['unsupported']: bad.append('unsupported')
        if s['left']: bad.append('unfinished')
        if s['ends_sat'] == 0 and not bad: bad.append('vacuous')
        if not s['by']: bad.append('no obligations')
        if any(x.startswith('loop-wanted:') and x.replace('wanted', 'cut') not in s['covers'] for x in s['covers']): bad.append('loop invariant not applied')
        status[n] = 'proved' if not bad else 'undecided:' + ','.join(bad)
        if bad and not any(v['contract'] == n for v in viol):
            again.append(dict(name=n, given=[f['model'] for f in s['fails']]))
    extra = {}
    if again and (thorough or all(listed(prop, v['contract'], v) for v in viol)):
        req = [dict(name=a['name'], n=(names[a['name']]['samples'] or 300) * 40 * (4 if thorough else 1), seed=seed + 17, given=a['given'], secs=45 if not thorough else 300, shards=8 if len(again) < 4 else 2) for a in again]
        p, o = concrete(prop, req, tmp, 'search', log, 300)
        wait(p, 240 if not thorough else 1500)
        if os.path.exists(o):
            extra = json.load(open(o))['results']
            for n, r in extra.items():
                if r['failure']: viol.append(dict(contract=n, kind='input', **r['failure']))
    # a failed obligation whose counter-model is exact but was not reproduced by execution
    for n in names:
        if any(v['contract'] == n for v in viol): continue
        s = sym['contracts'].get(n) or {'fails': []}
        tr = [f for f in s['fails'] if f['trust']]
        if tr: viol.append(dict(contract=n, kind='proof', obligation=tr[0]['obligation'], detail=tr[0]['detail'], inputs=tr[0]['model'], vc=tr[0]['vc']))
    log.flush()
    errs = [(n, r['error']) for n, r in list(con['results'].items()) + list(extra.items()) if r.get('error')]
    if os.environ.get('PYVC_DEBUG'):
        for n in names:
            s = sym['contracts'].get(n, {})
            print(n, status.get(n), 'paths', s.get('paths'), 'cpu %.1f' % s.get('cpu', 0), {k: sum(d.get(k, 0) for d in s.get('by', {}).values()) for k in set(x for d in s.get('by', {}).values() for x in d)},
                  {k: con['results'].get(n, {}).get(k) for k in ('evals', 'discards', 'distinct')})
            if status[n] not in ('proved', 'bounded'):
                for k in ('fails', 'unknown', 'unsupported'):
                    for f in s.get(k, [])[:3]: print('   ', k, str({a: b for a, b in f.items() if a != 'model'})[:1500].replace('\\n', '\n'))
                    for f in s.get(k, [])[:1]: print('   model', f.get('model'))
        for e in errs: print('CONERR', e[0], e[1])
        sys.stderr.write(open(logp).read()[-3000:])
    return report(prop, tier, seed, t0, names, sym, con, viol, status, errs)

def report(prop, tier, seed, t0, names, sym, con, viol, status, errs):
    known = []
    kf = os.path.join(V, 'known_findings.json')
    if os.path.exists(kf): known = [k for k in json.load(open(kf)).get('findings', []) if k['property'] == prop]
    real = []
    for v in viol:
        k = listed(prop, v['contract'], v)
        if k: v['known'] = k['what']
        else: real.append(v)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    backends = {}; obl = dis = 0; cs = sym.get('contracts', {})
    for n, s in cs.items():
        for o, d in s['by'].items():
            for b, k in d.items():
                obl += k; backends[b] = backends.get(b, 0) + k
                if b not in ('unknown', 'failed'): dis += k
    info = con.get('info', {})
    for n in names:
        if names[n].get('bound') and status.get(n) == 'proved': status[n] = 'bounded'; names[n]['bounded'] = names[n]['bound']
    bounded = [n for n in names if status.get(n) != 'proved']
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    import re
    ev = dict(property=prop, tier=tier, seed=seed, level='proof',
        coverage=dict(obligations=obl, discharged=dis, checker_cmd='check.py %s %s' % (prop, tier), backends=backends,
            trusted_base=['pyvc symbolic executor (pyvc/*.py): semantics of Python/numpy operations on real-number proxies', 'z3 4.x, cvc5 1.1.2, built-in rational-function normaliser',
                          'floating point treated as real arithmetic; transcendental functions uninterpreted with standard axioms'] + sorted({a for i in info.values() for a in i.get('assumes', [])}),
            functions_under_contract=sorted({t for n, i in info.items() for t in i['targets']}),
            contracts_proved=sorted(n for n in names if status.get(n) == 'proved'),
            contracts_bounded={n: (names[n]['bounded'] or status.get(n)) for n in bounded},
            paths=sum(s['paths'] for s in cs.values()), solver_queries=sum(s['queries'] for s in cs.values()),
            solver_seconds=round(sum(s['solver_time'] for s in cs.values()), 2),
            crosscheck=dict(evaluations=sum(r['evals'] for r in con.get('results', {}).values()), distinct=sum(r['distinct'] for r in con.get('results', {}).values()),
                            contract_checks=sum(r['checks'] for r in con.get('results', {}).values()), samples={n: r['samples'][:1] for n, r in list(con.get('results', {}).items())[:8]}),
            contract_errors=[e[0] for e in errs]),
        assumptions=sorted({a for i in info.values() for a in i.get('assumes', [])} | {i['notes'] for i in info.values() if i.get('notes')}),
        wall_s=round(time.time() - t0, 2), violations=len(real))
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    if not real:
        print('%s: %d obligations, %d discharged (%s), %d contracts proved, %d bounded/undecided, %.0f s' % (prop, obl, dis, backends, sum(1 for n in names if status.get(n) == 'proved'), len(bounded), time.time() - t0))
        for n in bounded:
            if not names[n]['bounded']: print('  note: %s %s (%s)' % (n, status.get(n), 'a listed finding' if any(v['contract'] == n for v in viol) else 'bounded concrete check passed'))
        return 0
    rdir = os.path.join(V, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    for v in real:
        rp = os.path.join(rdir, '%s_%s.json' % (prop, re.sub(r'\W', '_', v['contract'])))
        v['how_to_replay'] = '/verif/replay.py ' + rp
        json.dump(dict(property=prop, **v), open(rp, 'w'), indent=1, default=str)
        print('failed obligation %s / %s: %s' % (v['contract'], v['obligation'], str(v['detail'])[:600]))
        if v.get('inputs'): print('  inputs: %s' % json.dumps(v['inputs'], default=str)[:800])
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if v['kind'] == 'input' else ' no-failing-input-found'))
    return 1

main()
