"""C07: every finished run stops and joins its workers."""
from .common import *
from ..skeleton import Skeleton, Tr, Bad
from ..engine import State

EXPLANATION = ('Event skeletons of the main loop, of CPNest.run and of every worker class. Main loop: on every path that returns, after the last step an infinite value is '
               'written to the shared contour and stays there, and a stop message is sent to every pipe (the pipe index is evaluated over the loop). Run: start and join '
               'events are evaluated over pools of several sizes. Worker: typestate over every order in which the stop message and the infinite contour can be seen.')
MUTANTS = [
    ('cpnest/NestedSampling.py', '''        # Signal worker threads to exit
        self.logLmin.value = np.inf
''', ''),
    ('cpnest/NestedSampling.py', '''        # Signal worker threads to exit
        self.logLmin.value = np.inf
        for c in self.manager.consumer_pipes:
''', '''        # Signal worker threads to exit
        self.logLmin.value = np.inf
        for c in self.manager.consumer_pipes[1:]:
'''),
    ('cpnest/NestedSampling.py', '''            self.logLmin.value = np.inf
            self.logLmin.value = np.inf
            for c in self.manager.consumer_pipes:
                c.send(None)
''', '''            self.logLmin.value = np.inf
            self.logLmin.value = np.inf
'''),
    ('cpnest/cpnest.py', '                for each in self.process_pool:\n                    each.join()\n', '                for each in self.process_pool[:-1]:\n                    each.join()\n'),
    ('cpnest/cpnest.py', '                    each.join()\n', '                    each.join(60)\n'),
    ('cpnest/cpnest.py', '                for each in self.process_pool:\n                    each.join()\n', '                if not self.NS.prior_sampling:\n                    for each in self.process_pool:\n                        each.join()\n'),
    ('cpnest/sampler.py', '''                logLmin = self.logLmin.value
                if logLmin==np.inf:
                    break

                self.evol''', '''                logLmin = self.logLmin.value

                self.evol'''),
    ('cpnest/sampler.py', '''            logLmin = self.logLmin.value
            if logLmin==np.inf:
                break

            if time''', '''            logLmin = self.logLmin.value

            if time'''),
    ('cpnest/sampler.py', '''                if p is None:
                    break
''', '''                if p is None:
                    continue
'''),
    ('cpnest/sampler.py', '''                if p is None:
                    break
''', ''),
]
LOOP = 'NestedSampler.nested_sampling_loop'
RUN = 'CPNest.run'


def check(P, R, tier):
    with R.guard('stop-broadcast', LOOP):
        broadcast(P, R)
    with R.guard('join', RUN):
        join(P, R)
    for c in concrete_samplers(P):
        with R.guard('worker-stops', c.qual):
            worker(P, R, c)


def broadcast(P, R):
    M = Main(P)
    R.covers(M.W.eng)
    for o in M.rets:
        mode = {True: ' (prior sampling)', False: '', None: ''}[M.prior_mode(o)]
        last = last_index(o.trace, lambda e: e.kind == 'mark' and e.a['name'] in ('step', 'reset'))
        tail = o.trace[(last + 1) if last is not None else 0:]
        w = [e for e, l in events(tail, 'shared_write') if e.a['name'].endswith('logLmin')]
        if not w:
            if events(o.trace, 'opaquecall'):
                R.undet('contour-infinite', LOOP + mode, 'no write of the contour after the last step was recognised')
            else:
                R.violation('contour-infinite', LOOP + mode, 'the run ends without publishing an infinite contour', o.trace[-1].loc)
        else:
            R.verdict(cmp(w[-1].value, INF), 'contour-infinite', LOOP + mode, 'the contour ends infinite',
                      'the contour published at the end is %s' % show(w[-1].value)[:80], w[-1].loc)
        # stop messages
        missed, guess, dup, loc = None, False, False, o.trace[-1].loc
        for n in (1, 2, 3, 5):
            def on(e, t, sk):
                if e.kind != 'send':
                    return None
                v = sk.value(t, e.a['pipe'])
                if not isinstance(v, Obj) or v.key[0] != 'elem' or sk.vague(e.a['pipe'], t.env):
                    t.guess = True
                    return None
                if e.value is NONE:
                    return t.gs | {v.key[2]}
                return None
            sk = Skeleton(M.W.eng, {M.W.field(M.st, M.manager, 'nthreads'): n, M.W.field(M.st, M.me, 'Nlive'): n + 4}, {M.pipes: n}, lambda e, t: None, on, maxiter=7)
            sk.rel = sk.relevant(tail, lambda e: (e.a['pipe'],) if e.kind == 'send' else ())
            for t in sk.run(tail, [Tr({}, frozenset())]):
                if t.gs != frozenset(range(n)):
                    if t.guess:
                        guess = True
                    else:
                        missed = (n, sorted(t.gs))
        if missed:
            R.violation('stop-message', LOOP + mode, 'with %d workers only workers %s are sent the stop message' % missed, loc)
        elif guess:
            R.undet('stop-message', LOOP + mode, 'the pipes that get the stop message could not be determined', loc)
        else:
            R.ok('stop-message', LOOP + mode, 'every worker is sent the stop message', loc)
        R.count('finished paths of the main loop')


def join(P, R):
    r = Run(P)
    R.covers(r.W.eng)
    if not r.rets:
        R.undet('join', RUN, 'no path returns')
    for o in r.rets:
        for n in (1, 2, 4):
            def on(e, t, sk):
                started, joined, ran = t.gs
                if e.kind == 'mark' and e.a['name'] == 'sampling':
                    return (started, joined, True)
                if e.kind not in ('proc_start', 'proc_join'):
                    return None
                v = sk.value(t, e.a['proc'])
                if not isinstance(v, Obj) or v.key[0] != 'elem' or sk.vague(e.a['proc'], t.env):
                    t.guess = True
                    return None
                i = v.key[2]
                if e.kind == 'proc_start':
                    return (started | {i}, joined, ran)
                a = [x for x in e.a['args']] + [e.a['kwargs'][k] for k in e.a['kwargs'] if k == 'timeout']
                if a and a[0] is not NONE:
                    return Bad('join', 'a worker is waited for only until a timeout', e.loc)
                return (started, joined | ({i} if ran and i in started else set()), ran)
            sk = Skeleton(r.W.eng, {}, {r.pool: n}, lambda e, t: None, on)
            sk.rel = sk.relevant(o.trace, lambda e: (e.a['proc'],) if e.kind in ('proc_start', 'proc_join') else ())
            res = sk.filter(sk.run(o.trace, [Tr({}, (frozenset(), frozenset(), False))]), ())
            for t in res:
                started, joined, ran = t.gs
                cond = '; '.join(show(f)[:60] for f in o.facts)
                if t.bad:
                    R.verdict(False if not t.guess else None, 'join', RUN, '', t.bad.msg, t.bad.loc)
                elif t.guess:
                    R.undet('join', RUN, 'the processes started or joined could not be determined')
                elif not ran:
                    R.undet('join', RUN, 'no sampling on this path: %s' % cond)
                elif len(started) < n:
                    R.violation('start', RUN, 'with %d workers only %s are started' % (n, sorted(started)), o.trace[-1].loc)
                elif joined != started:
                    R.violation('join', RUN, 'with %d workers only %s are waited for when %s' % (n, sorted(joined), cond), o.trace[-1].loc)
                else:
                    R.ok('join', RUN, 'every started worker is joined after sampling')
        R.count('finished paths of the run')


def worker(P, R, c):
    w = Worker(P, c)
    R.covers(w.W.eng)
    where = c.name + '.produce_sample'

    def choices(e, t):
        if e.kind == 'recv':
            return [{e.value: None}, {e.value: Obj(('request',))}]
        if e.kind == 'poll':
            return [{e.value: True}, {e.value: False}]
        if e.kind == 'shared_read' and e.a['name'].endswith('logLmin'):
            return [{e.value: math.inf}] if t.gs[1] else [{e.value: math.inf}, {e.value: -2.5}]
        if e.kind == 'shared_read' and e.a['name'].endswith('checkpoint_flag'):
            return [{e.value: 0}]
        return None

    def on(e, t, sk):
        stop, inf, moves = t.gs
        if e.kind == 'recv':
            if stop:
                return Bad('stop-obeyed', 'the worker waits for another message after the stop message', e.loc)
            if t.env[e.value] is None:
                return (True, inf, moves)
        elif e.kind == 'poll' and stop:
            return Bad('stop-obeyed', 'the worker goes on after the stop message', e.loc)
        elif e.kind == 'mut' and stop and e.obj is w.pool:
            if any(is_request(x) for x in subterms(e.after)) and not any(is_request(x) and contains(e.before, x) for x in subterms(e.after)):
                return Bad('stop-not-a-point', 'the stop message is put into the pool as if it were a point', e.loc)
        elif e.kind == 'shared_read' and e.a['name'].endswith('logLmin'):
            return (stop, inf or t.env[e.value] == math.inf, moves)
        elif e.kind == 'mark' and e.a['name'] == 'move':
            if stop:
                return Bad('stop-obeyed', 'the worker draws another sample after the stop message', e.loc)
            lim = sk.value(t, e.a['args'][0]) if e.a['args'] and e.a['args'][0] is not None else Undef
            if isinstance(lim, float) and lim == math.inf:
                return Bad('no-infinite-contour', 'the worker samples against the infinite contour that ends the run', e.loc)
            if lim is Undef:
                t.guess = True
            return (stop, inf, moves + 1 if moves < 2 else 2)
        return None
    bads, ended, ended_inf, seen_moves = {}, 0, 0, 0
    for o in w.outs:
        if any(e.kind in ('async', 'except') for e in o.trace):
            continue
        sk = Skeleton(w.W.eng, w.bind, {}, choices, on, maxiter=2)
        sk.rel = sk.relevant(o.trace, lambda e: tuple(x for x in e.a['args'] if is_term(x)) if e.kind == 'mark' and e.a['name'] == 'move' else (), o.facts)
        for t in sk.filter(sk.run(o.trace, [Tr({}, (False, False, 0))]), o.facts):
            if t.bad:
                bads.setdefault((t.bad.rule, t.guess), t.bad)
            else:
                ended += t.gs[0] and o.kind == 'return'
                ended_inf += t.gs[1] and not t.gs[0] and o.kind == 'return'
                seen_moves += t.gs[2]
        # moves that never reach an exit of the loop (no way out) are met in the loop bodies
        R.count('worker trajectories', sk.steps)
    for (rule, guess), b in sorted(bads.items()):
        if not guess:
            R.violation(rule, where, b.msg, b.loc)
        elif (rule, False) not in bads:
            R.undet(rule, where, 'possibly: ' + b.msg, b.loc)
    for rule in ('stop-obeyed', 'stop-not-a-point', 'no-infinite-contour'):
        if not any(k[0] == rule for k in bads):
            R.ok(rule, where, 'holds on every way through the worker loop') if ended and seen_moves else R.undet(rule, where, 'no way out of the worker loop was recognised')
    if not ended and not any(r == 'stop-obeyed' for r, g in bads):
        R.verdict(False if w.outs and not events_all(w, 'opaquecall') and ended_inf == 0 else None, 'stop-obeyed', where, '', 'no path leaves the worker loop after the stop message', where)


def events_all(w, kind):
    return [1 for o in w.outs for e, l in events(o.trace, kind)]
