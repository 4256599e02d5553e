"""C38: periodic checkpoints are made once per interval."""
from .common import *
from ..engine import State
from . import c28

EXPLANATION = ('The passes of the main loop of the nested sampler and of every worker are summarised as paths with their conditions and the new value of the clock variable the conditions compare with the time. '
               'Starting from the value the constructor gives that variable, the passes are followed for many intervals and pass durations by evaluating these terms: a checkpoint has to be made in the first pass that '
               'begins or ends more than the interval after the previous one, in no other pass, and in none when no interval is configured: the manager then keeps an infinite one. A condition other than the time must not decide.')
TECHNIQUE = 'static analysis: abstract interpretation of one loop pass, recurrence of the clock variable followed over all interval lengths tried'
S, N = 'cpnest/sampler.py', 'cpnest/NestedSampling.py'
NSAVE = '''                    self.checkpoint()
                    self.last_checkpoint_time = time.time()
'''
MUTANTS = [
    (N, NSAVE, "                    self.checkpoint()\n"),
    (N, NSAVE, "                    self.last_checkpoint_time = time.time()\n"),
    (N, "                if time.time() - self.last_checkpoint_time > self", "                if time.time() - self.last_checkpoint_time < self"),
    (N, "                if time.time() - self.last_checkpoint_time > self", "                if self.iteration % self.Nlive == 0 and time.time() - self.last_checkpoint_time > self"),
    (N, "                if time.time() - self.last_checkpoint_time > self.manager", "                if self.last_checkpoint_time > self.manager"),
    (N, NSAVE, "                    self.checkpoint()\n                self.last_checkpoint_time = time.time()\n"),
    (N, NSAVE, "                    self.checkpoint()\n                    self.last_checkpoint_time += 1\n"),
    (N, NSAVE, "                    self.checkpoint()\n                    self.last_checkpoint_time = self.manager.periodic_checkpoint_interval\n"),
    (N, "                if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:\n", "                if time.time() - self.last_checkpoint_time > 60*self.manager.periodic_checkpoint_interval:\n"),
    (S, "                self.checkpoint()\n                self.last_checkpoint_time = time.time()\n", "                self.checkpoint()\n"),
    (S, "            if time.time() - self.last_checkpoint_time > self.manager", "            if not self.producer_pipe.poll() and time.time() - self.last_checkpoint_time > self.manager"),
    (S, "            if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:\n", "            if self.counter > self.manager.periodic_checkpoint_interval:\n"),
    (S, "            if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:\n", "            self.last_checkpoint_time = max(self.last_checkpoint_time, time.time() - 5)\n            if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:\n"),
]


def isclock(x):
    return x.op == 'sym' and x.args[0] == 'time'


def saves(e):
    return (e.kind == 'mark' and e.a['name'] == 'checkpoint') or e.kind == 'dump'


def check(P, R, tier):
    with R.guard('interval', 'NestedSampler.nested_sampling_loop'):
        M = Main(P, inline=('checkpoint',))
        R.covers(M.W.eng)
        follow(P, R, P.cls(NS), M.W, M.me, M.outs, 'step', 'NestedSampler.nested_sampling_loop', tier)
    with R.guard('configured', 'CPNest.__init__'):
        # the interval all of them compare with, none given means an infinite one
        c28.interval(P, R, 'CPNest.__init__', Init(P))
    for ci in concrete_samplers(P):
        with R.guard('interval', ci.name + '.produce_sample'):
            K = Worker(P, ci, inline=('checkpoint',))
            R.covers(K.W.eng)
            follow(P, R, ci, K.W, K.me, K.outs, 'move', ci.name + '.produce_sample', tier)


def loops(outs, name):
    """the loop whose passes make a step; the same loop met on several paths is taken once"""
    seen = {}
    for o in outs:
        for e, l in walk(o.trace):
            if e.kind != 'loop' or any(x.kind == 'async' for x in o.trace):
                continue
            if any(marks(p.trace, name) for p in e.a['paths']):
                seen.setdefault(e.loc, e)
    return list(seen.values())


def initial(P, ci, field):
    """the value a constructed object holds in a field"""
    W = World(P, hooks={'purecalls': True})
    fi = P.method(ci, '__init__')
    types = {'manager': 'cpnest.RunManager', 'model': 'usermodel', 'usermodel': 'usermodel', 'output': 'str', 'resume_file': 'str'}
    args = {a.arg: W.param(a.arg, types.get(a.arg, 'number')) for a in fi.node.args.args[1:] + fi.node.args.kwonlyargs}
    got = []
    for st, me in W.eng.instantiate(State(), ci, [], args, None):
        got.append(W.eng.val(st, W.eng.getfield(st, me, field)))
    return got


def follow(P, R, ci, W, me, outs, stepname, C, tier):
    les = loops(outs, stepname)
    if not les:
        R.undet('interval', C, 'the main loop was not recognised')
        return
    for le in les:
        one(P, R, ci, W, me, le, C, tier)


def one(P, R, ci, W, me, le, C, tier):
    paths = [p for p in le.a['paths'] if p.end in ('fall', 'continue')]
    phis = le.a.get('phis') or {}
    timed = lambda f: any(isclock(x) for x in subterms(f)) or any(x.op == 'fld' and x.args[1] == 'periodic_checkpoint_interval' for x in subterms(f))
    if not any(saves(e) for p in paths for e, l in walk(p.trace)):
        R.violation('interval', C, 'no pass of the loop makes a periodic checkpoint', le.loc)
        return
    clocks = {x for p in paths for f in p.facts if timed(f) for x in subterms(f) if x in phis}
    if not clocks:
        untimed = [f for p in paths for f in p.facts if timed(f) and not any(isclock(y) for y in subterms(f)) and not configured(f)]
        parts = {x for p in paths for f in p.facts for x in subterms(f) if x.op == 'fld' and not x.args[1] == 'periodic_checkpoint_interval'
                 and any(timed(g) and any(isclock(y) for y in subterms(g)) for g in [f]) and not has_sub(p, f, x)}
        if len(parts) == 1:
            clocks = parts          # never changed in the loop
            phis = dict(phis)
            phis[list(parts)[0]] = list(parts)[0]
        else:
            clocked = any(timed(f) and any(isclock(y) for y in subterms(f)) for p in paths for f in p.facts)
            R.verdict(None if clocked else False, 'interval', C, '', 'the periodic checkpoint does not depend on the time' + (': ' + show(untimed[0])[:160] if untimed else ''), le.loc)
            return
    start = {}
    for c in clocks:
        i = phis.get(c)
        if i is not None and i.op == 'fld' and i.args[0] is me:
            vs = initial(P, ci, i.args[1])
            start[c] = vs[0] if vs else None
        elif i is not None:
            start[c] = i
        if start.get(c) is None:
            R.undet('interval', C, 'the first value of the clock is unknown', le.loc)
            return
    n = 0
    for interval in (3.5, 0.25, 10.25, 61.5, math.inf) + ((1000.125,) if tier == 'thorough' else ()):
        for dt in (1.0, 0.125, 7.0, 40.0):
            v, why = simulate(W, paths, phis, clocks, start, timed, interval, dt, 45 if interval < 500 else 1100)
            n += 1
            if v is not True:
                R.verdict(v, 'interval', C, '', 'with an interval of %g s and passes of %g s %s' % (interval, dt, why), le.loc)
                return
    R.count('schedules followed', n)
    R.ok('interval', C, 'one checkpoint per elapsed interval', le.loc)


def configured(f):
    """a condition that only asks whether an interval was given"""
    return not any(x.op in ('phi', 'sym') for x in subterms(f)) and not any(x.op in ('lt', 'le') for x in subterms(f))


def has_sub(p, f, x):
    return any(y is not x and y.op == 'fld' and y.args[0] is x for y in subterms(f))


def simulate(W, paths, phis, clocks, start, timed, interval, dt, passes):
    t = 1000.0
    cur = {}
    binds = lambda term, t: {x: t for x in subterms(term) if isclock(x)}
    flds = lambda term: {x: interval for x in subterms(term) if x.op == 'fld' and x.args[1] == 'periodic_checkpoint_interval'}
    try:
        for c in clocks:
            cur[c] = Model(0, bind=dict(binds(start[c], t), **{})).num(Model(0, bind=dict(list(binds(start[c], t).items()) + list(flds(start[c]).items()))).ev(start[c]))
    except (Undef, TypeError, ValueError) as e:
        return None, 'the first value of the clock is not understood'
    last = t
    for k in range(passes):
        t += dt
        apply_, vague = [], False
        for p in paths:
            fs = [f for f in p.facts if timed(f) or any(c in clocks for c in subterms(f))]
            got = None
            for seed in range(6):
                b = {}
                for f in fs:
                    b.update(binds(f, t))
                    b.update(flds(f))
                b.update(cur)
                mm = Model(seed, bind=b)
                try:
                    if all(mm.truth(mm.ev(f)) for f in fs):
                        got = True
                        break
                    got = got or False
                except (Undef, TypeError, ValueError, ZeroDivisionError):
                    vague = True
            if got:
                apply_.append((p, b))
        kinds = {any(saves(e) for e, l in walk(p.trace)) for p, b in apply_}
        if len(kinds) != 1:
            if vague or not kinds:
                return None, 'the condition of the checkpoint is not understood'
            due = t - last > interval
            p = [p for p, b in apply_ if any(saves(e) for e, l in walk(p.trace)) is not due][0]
            return False, 'the checkpoint also depends on something else than the time: %s' % '; '.join(show(f)[:120] for f in p.facts if timed(f))[:200]
        due = t - last > interval
        made = kinds.pop()
        if made != due:
            return False, 'a checkpoint is %s %g s after the last one' % ('made' if made else 'not made', t - last)
        new = None
        for p, b in apply_:
            try:
                x = {}
                for c in clocks:
                    s = p.sigma.get(c, c)
                    bb = dict(b)
                    bb.update(binds(s, t))
                    bb.update(flds(s))
                    bb.update(cur)
                    mm = Model(0, bind=bb)
                    x[c] = mm.num(mm.ev(s))
            except (Undef, TypeError, ValueError) as e:
                return None, 'the new value of the clock is not understood'
            if new is not None and new != x:
                return None, 'the new value of the clock depends on the path'
            new = x
        cur = new
        if made:
            last = t
    return True, ''
