"""The evolution loop of a binary: which step runs, what is recorded, when it stops."""
from pyvc.ctx import contract
BS = 'posydon.binary_evol.binarystar'
SP = 'posydon.binary_evol.simulationproperties'
S1, S2 = 'H-rich_Core_He_burning', 'H-rich_Core_H_burning'
FLOW = {(S1, S2, 'detached', None): 'step_detached', (S1, S2, 'RLO1', 'oRLO1'): 'step_CO_HMS_RLO', (S1, S2, 'detached', 'redirect_from_ZAMS'): 'step_detached',
        (S1, S2, 'contact', 'oCE1'): 'step_without_function', ('BH', S2, 'detached', 'CC2'): 'step_SN', ('BH', S2, 'detached', None): 'step_SN', (S1, S2, 'RLO2', None): 'step_SN',
        (S1, S2, 'detached', 'user_end'): 'step_SN', (S1, S2, 'user_state', None): 'step_SN', (S1, S2, 'detached', 'END'): 'step_SN', (S1, S2, 'detached', 'FAILED'): 'step_SN'}
# what a step can leave behind: (state of star 1, binary state, event)
OUT = [(S1, 'detached', None), (S1, 'RLO1', 'oRLO1'), (S1, 'detached', 'redirect_from_ZAMS'), ('BH', 'detached', None), (S1, 'detached', 'END'), (S1, 'detached', 'FAILED'),
       (S1, 'detached', 'user_end'), (S1, 'user_state', None), (S1, 'detached', 'unknown'), ('BH', 'detached', 'CC2'), (S1, 'contact', 'oCE1')]
class Boom(Exception): pass


class G:
    """ghost state of one evolution"""
    def __init__(g): g.t = []; g.k = 0; g.cut = False; g.b = None; g.rows = 0
    def sync(g):
        """new history rows since the last recorded event"""
        n = len(g.b.time_history) if g.b is not None else 0
        while g.rows < n: g.rows += 1; g.t.append(('row',))
    def log(g, *e): g.sync(); g.t.append(e)


def terminal(o): return o[2] in ('END', 'FAILED', 'user_end') or o[1] == 'user_state'


def check_iteration(c, g, tot, seg, verbose):
    """seg: what happened in one iteration started in total state tot"""
    name = FLOW.get((tot[0], S2, tot[1], tot[2]))
    undefined = tot == ('BH', 'detached', 'CC2')
    c.check('nonterminal', not terminal(tot))
    if undefined or name is None or name == 'step_without_function':
        c.check('nothing-run', [e[0] for e in seg] == ['alarm'], detail=str(seg)); return 'error'
    want = [('alarm', 120)] + [('pre', h, name) for h in 'ABx'] + [('step', name)]
    st = [e for e in seg if e[0] == 'step']
    c.check('one-step', len(st) == 1, detail=str(seg))
    if not st: return 'error'
    after = st[0][2]
    if after != 'boom':
        want += [('row',)]
        if not ((not verbose) and after[2] is not None and 'redirect' in after[2]): want += [('post', h, name) for h in 'ABx']
        else: want = want[:-1]
    got = [e[:2] if e[0] == 'step' else e for e in seg]
    c.check('order', got == want, detail='%s\nexpected %s' % (got, want))
    return after


def split(trace):
    segs = []
    for e in trace:
        if e[0] == 'alarm' and e[1] != 0 or not segs: segs.append([])
        segs[-1].append(e)
    return segs


@contract('C02', BS + ':BinaryStar.evolve', BS + ':BinaryStar.run_step', BS + ':BinaryStar.get_next_step', BS + ':BinaryStar.get_next_step_name', BS + ':BinaryStar.append_state',
          SP + ':SimulationProperties.pre_step', SP + ':SimulationProperties.post_step', SP + ':SimulationProperties.pre_evolve', SP + ':SimulationProperties.post_evolve', samples=400,
          assumes=['signal.alarm is replaced by a recorder', 'evolutionary steps are arbitrary callables changing states and events, or raising'])
def evolve(c):
    import signal, posydon.binary_evol.binarystar as M
    from posydon.binary_evol.simulationproperties import SimulationProperties, EvolveHooks
    g = G()
    class HA(EvolveHooks):
        tag = 'A'
        def pre_evolve(s, b): g.log('pre_evolve', s.tag); return b
        def pre_step(s, b, n): g.log('pre', s.tag, n); return b
        def post_step(s, b, n): g.log('post', s.tag, n); return b
        def post_evolve(s, b): g.log('post_evolve', s.tag); return b
    class HB(HA): tag = 'B'
    px = SimulationProperties(extra_hooks=[(HA, {}), ('extra_pre_step', lambda b, n: g.log('pre', 'x', n)), (HB, {}), ('extra_post_step', lambda b, n: g.log('post', 'x', n)),
                                           ('extra_pre_evolve', lambda b: g.log('pre_evolve', 'x')), ('extra_post_evolve', lambda b: g.log('post_evolve', 'x'))])
    maxn = c.choice('limit', [None, 'n'])
    if maxn == 'n': maxn = c.int('max_steps', 0, shi=4)
    px.max_n_steps_per_binary = maxn; px.end_events = ['user_end']; px.end_states = ['user_state']; px.max_simulation_time = c.pos('tmax')
    px.flow = FLOW
    b = M.BinaryStar(M.SingleStar(mass=3., state=S1), M.SingleStar(mass=2., state=S2), properties=px)
    b.index = 1; b.time = 0.; b.history_verbose = c.bool('verbose')
    cur = c.choice('start', OUT)
    def put(o): b.star_1.state, b.state, b.event = o
    put(cur)
    def total(): return (b.star_1.state, b.state, b.event)
    def mk(name):
        def step(x):
            g.k = g.k + 1
            n = sum(1 for e in g.t if e[0] == 'step')
            if not g.cut and n >= 5: out = (S1, 'detached', 'END')
            else:
                k = c.choice('out%d' % n, range(len(OUT) + 1))
                out = 'boom' if k == len(OUT) else OUT[k]
            g.log('step', name, out, total())
            if out == 'boom': raise Boom()
            put(out)
        return step
    for name in ('step_detached', 'step_CO_HMS_RLO', 'step_SN'): setattr(px, name, mk(name))
    c.patch_attr(signal, 'alarm', lambda s: g.log('alarm', s))
    g.b = b; g.rows = len(b.time_history)
    # loop invariant: the step counter equals the number of executed steps and has not passed the limit
    def inv(L):
        r = [('counter', L['n_steps'] == g.k)]
        if maxn is not None: r.append(('limit', g.k <= maxn))
        if g.cut and g.seg is not None:
            g.sync(); segs = g.t[g.seg:]
            if segs:
                r0 = check_iteration(c, g, g.tot, segs, b.history_verbose)
                c.check('continues', r0 not in ('error', 'boom'))
            else: g.tot = total()
        return r
    def havoc(L):
        c.check('entry', [e[0] for e in g.t] == ['pre_evolve'] * 3, detail=str(g.t))
        g.cut = True; g.k = c.int('k', 0); g.seg = len(g.t)
        put(c.choice('arbitrary', OUT))
        return {'n_steps': c.int('n_steps', 0)}
    g.seg = None
    c.loop(BS + ':BinaryStar.evolve', inv, havoc)
    o = c.call(b.evolve)
    g.sync(); t = g.t
    c.check('pre_evolve-first', t[:3] == [('pre_evolve', h) for h in 'ABx'], detail=str(t[:4]))
    rest = t[3:]
    # -- how it ended
    post = [e for e in rest if e[0] == 'post_evolve']
    body = [e for e in rest if e[0] != 'post_evolve']
    c.check('alarm-off', bool(body) and body[-1] == ('alarm', 0) and body.count(('alarm', 0)) == 1, detail=str(body[-2:]))
    body = body[:-1]
    if o.exc is None:
        c.check('ends-terminal', terminal(total()), detail=str(total()))
        c.check('post_evolve', post == [('post_evolve', h) for h in 'ABx'] and rest[-3:] == post, detail=str(rest[-5:]))
    else: c.check('no-post_evolve', not post)
    last = None
    if g.cut:
        if body: last = check_iteration(c, g, g.tot, body, b.history_verbose); before = g.k - (1 if any(e[0] == 'step' for e in body) else 0)
        else: c.check('stops', terminal(g.tot)); c.check('normal', o.exc is None); return
    else:
        tot = cur
        for seg in split(body):
            last = check_iteration(c, g, tot, seg, b.history_verbose)
            if last in ('error', 'boom'): break
            tot = last
        if last is None: c.check('stops', terminal(cur)); c.check('normal', o.exc is None); return
    # -- the last iteration decides the outcome
    from posydon.utils.posydonerror import FlowError
    if last == 'boom': c.check('propagates', o.raised(Boom), detail=repr(o.exc))
    elif last == 'error':
        at = g.tot if g.cut else tot
        c.check('flow-error', o.raised(FlowError if at == ('BH', 'detached', 'CC2') else ValueError), detail=repr(o.exc))
    elif o.exc is not None:
        c.check('limit-error', o.raised(RuntimeError) and maxn is not None, detail=repr(o.exc) + o.tb)
        if maxn is not None: c.check('limit-exceeded', g.k > maxn)
    elif maxn is not None: c.check('within-limit', g.k <= maxn)


@contract('C02', BS + ':BinaryStar.evolve')
def born_too_late(c):
    """a binary born after the maximum simulation time is rejected before any step"""
    from posydon.binary_evol.simulationproperties import SimulationProperties
    from posydon.binary_evol.binarystar import BinaryStar
    px = SimulationProperties(); ran = []
    px.flow = {(None, None, 'detached', None): 'step_x'}
    def step(b): ran.append(1); b.event = 'END'
    px.step_x = step
    px.max_simulation_time = c.pos('tmax', special=(1.,)); t = c.nonneg('t', special=(1.,))
    b = BinaryStar(properties=px); b.star_1.state = b.star_2.state = None; b.state, b.event, b.time = 'detached', None, t
    o = c.call(b.evolve)
    if t > px.max_simulation_time: c.check('rejected', o.raised(ValueError) and not ran)
    else: c.check('evolved', o.exc is None and len(ran) == 1, detail=o.tb)


@contract('C02', SP + ':StepNamesHooks.post_step', SP + ':TimingHooks.post_step', SP + ':StepNamesHooks.pre_evolve', SP + ':TimingHooks.pre_evolve', bound='at most 3 steps adding at most 2 rows each')
def hook_columns(c):
    """step names and times stay aligned with the history: the first new row of each step carries its name"""
    from posydon.binary_evol.simulationproperties import StepNamesHooks, TimingHooks
    class B: pass
    b = B(); b.event = None; b.event_history = ['ZAMS']; b.index = 0
    hooks = [StepNamesHooks(), TimingHooks()]
    want = ['initial_cond']
    for h in hooks: c.run('pre', h.pre_evolve, b)
    for i in range(c.choice('steps', [0, 1, 2, 3])):
        name = 'step_%d' % i
        for h in hooks: c.run('pre_step', h.pre_step, b, name)
        r = c.choice('rows%d' % i, [1, 2])
        b.event_history += [None] * r; want += [name] + [None] * (r - 1)
        for h in hooks: c.run('post_step', h.post_step, b, name)
        c.same('names', list(b.step_names), want)
        c.check('times', len(b.step_times) == len(b.event_history))
    b.event = c.choice('end', ['END', 'FAILED', None])
    b.event_history += [b.event] if b.event else []
    for h in hooks: c.run('post_evolve', h.post_evolve, b)
    c.check('aligned', len(b.step_names) == len(b.step_times) == len(b.event_history))


@contract('C02', BS + ':BinaryStar.check_who_exists')
def who_exists(c):
    from posydon.binary_evol.binarystar import BinaryStar
    class S: pass
    b = BinaryStar.__new__(BinaryStar)
    def star(n):
        k = c.choice(n, [None, 'massless_remnant', 'BH', 'H-rich_Core_H_burning'])
        if k is None: return None, False
        s = S(); s.state = k
        return s, k != 'massless_remnant'
    (b.star_1, e1), (b.star_2, e2) = star('s1'), star('s2')
    c.run('who', b.check_who_exists)
    c.same('companion_1_exists', b.companion_1_exists, e1); c.same('companion_2_exists', b.companion_2_exists, e2)
    c.same('missing', b.non_existent_companion, 0 if e1 and e2 else (2 if e1 else (1 if e2 else -1)))
