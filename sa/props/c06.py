"""C06: balanced requests and replies."""
from .common import *
from ..skeleton import Skeleton, Tr, Bad
from ..engine import State

EXPLANATION = ('The send and receive events of the master (initial fill and one step) and of every worker class are extracted by abstract interpretation with their '
               'path conditions, pipe indices and loop-carried variables. A typestate automaton (requests outstanding per pipe; request owed by the worker) is run over '
               'every way through that skeleton for small numbers of workers and live points, with every kind of reply (accepted, on the contour, below it, zero prior, zero '
               'likelihood) and request (point, stop, checkpoint) and every appearance of the final contour enumerated. The reply tuple is compared with what the master unpacks.')
MUTANTS = [
    ('cpnest/NestedSampling.py', '                    self.manager.consumer_pipes[self.queue_counter].send(self.params[k])\n', '                    pass\n'),
    ('cpnest/NestedSampling.py', '                    self.manager.consumer_pipes[self.queue_counter].send(self.params[k])\n', '                    self.manager.consumer_pipes[k].send(self.params[k])\n'),
    ('cpnest/NestedSampling.py', '                        self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())\n', ''),
    ('cpnest/NestedSampling.py', '                        self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())\n', '                        self.manager.consumer_pipes[j].send(self.model.new_point())\n'),
    ('cpnest/NestedSampling.py', 'for i in np.random.permutation(range(nreplace)): self', 'for i in np.random.permutation(range(1,nreplace)): self'),
    ('cpnest/NestedSampling.py', 'for i in np.random.permutation(range(nreplace)): self', 'for i in [0]*nreplace: self'),
    ('cpnest/NestedSampling.py', '                    self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)\n                    self.accepted', '                    self.accepted'),
    ('cpnest/sampler.py', '                (Nmcmc, outParam) = next(self.yield_sample(logLmin))\n', '                (Nmcmc, outParam) = next(self.yield_sample(logLmin))\n                if Nmcmc >= self.maxmcmc: continue\n'),
    ('cpnest/sampler.py', 'self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))', 'self.producer_pipe.send((self.acceptance,self.sub_acceptance,outParam,Nmcmc))'),
    ('cpnest/sampler.py', '                _, _ = next(self.yield_sample(logLmin))\n', '                _, extra = next(self.yield_sample(logLmin))\n                if extra.logL > self.logLmax.value: self.producer_pipe.send((self.acceptance,self.sub_acceptance,0,extra))\n'),
]
ROLES = ('acceptance', 'sub_acceptance', 'count', 'point')
STEP = 'NestedSampler.consume_sample'
FILL = 'NestedSampler.reset'


def check(P, R, tier):
    layout = None
    for c in concrete_samplers(P):
        with R.guard('worker', c.qual):
            w = Worker(P, c)
            R.covers(w.W.eng)
            l = worker(R, w)
            layout = layout or l
    with R.guard('step', STEP):
        master(P, R, STEP, 'consume_sample', layout, tier)
    with R.guard('fill', FILL):
        master(P, R, FILL, 'reset', layout, tier)


# ------------------------------------------------------------------ worker
def layout_of(w, v):
    """roles of the parts of a reply"""
    if v.op not in ('tuple', 'list'):
        return None
    out = []
    for x in v.args:
        if x in w.points:
            out.append('point')
        elif x in w.counts:
            out.append('count')
        elif w.after.get(x) in ('acceptance', 'sub_acceptance'):
            out.append(w.after[x])
        elif x.op == 'fld' and x.args[1] in ('acceptance', 'sub_acceptance'):
            out.append(x.args[1])
        else:
            out.append('?')
    return tuple(out)


def worker(R, w):
    where = w.cls.name + '.produce_sample'
    layouts = {}
    requests = set()
    for o in w.outs:
        for e, l in walk(o.trace):
            if e.kind == 'recv':
                requests.add(e.value)
            if e.kind == 'send':
                layouts.setdefault(layout_of(w, e.value), e)
    R.count('reply sites', len(layouts))
    flag = set()

    def choices(e, t):
        if e.kind == 'recv':
            return [{e.value: None}, {e.value: 'checkpoint'}, {e.value: Obj(('request',))}]
        if e.kind == 'poll':
            return [{e.value: True}, {e.value: False}]
        if e.kind == 'shared_read' and e.a['name'].endswith('logLmin'):
            return [{e.value: math.inf}] if t.gs[1] else [{e.value: math.inf}, {e.value: -2.5}]
        if e.kind == 'shared_read' and e.a['name'].endswith('checkpoint_flag'):
            return [{e.value: 0}, {e.value: 1}]
        if e.kind == 'mark' and e.a['name'] == 'move':
            return [{e.a['count']: c, mk('fld', e.a['point'], 'logL'): l} for c, l in ((1, -9.0), (60, -9.0), (7, 1.0))]
        return None

    def on(e, t, sk):
        owed, inf, fl, sent = t.gs
        if e.kind == 'recv':
            if owed:
                return Bad('one-reply', 'a second request is taken from the pipe before the first is answered', e.loc)
            if isinstance(t.env[e.value], Obj):
                return (1, inf, fl, sent)
        elif e.kind == 'send':
            if not owed:
                return Bad('no-unasked-reply', 'a reply is sent that no request asked for', e.loc)
            return (0, inf, fl, sent + 1)
        elif e.kind == 'shared_read' and e.a['name'].endswith('logLmin'):
            return (owed, inf or t.env[e.value] == math.inf, fl, sent)
        elif e.kind == 'shared_read' and e.a['name'].endswith('checkpoint_flag'):
            return (owed, inf, fl or bool(t.env[e.value]), sent)
        return None
    good = full = 0
    bads = {}
    for o in w.outs:
        sk = Skeleton(w.W.eng, w.bind, {}, choices, on, maxiter=2)
        sk.rel = sk.relevant(o.trace, lambda e: (), o.facts)
        for t in sk.filter(sk.run(o.trace, [Tr({}, (0, False, False, 0))]), o.facts):
            b = t.bad
            owed, inf, fl, sent = t.gs
            interrupted = any(e.kind in ('async', 'except') for e in o.trace)
            if b is None and owed and not inf and not fl and o.kind == 'return' and not interrupted:
                b = Bad('one-reply', 'the worker leaves its loop without answering the point it received', o.trace[-1].loc)
            if b is not None:
                bads.setdefault((b.rule, t.guess), b)
            else:
                good += 1
                full += sent > 0
        if sk.overflow:
            R.undet('one-reply', where, 'too many ways through the loop')
        R.count('worker trajectories', sk.steps)
        if any(not g for _, g in bads):
            break
    report(R, where, bads, good and full, ('one-reply', 'no-unasked-reply'), 'no way through the worker loop that answers a request was recognised')
    seen = None
    for l, e in layouts.items():
        if l is None:
            R.undet('layout', where, 'the reply is not a tuple: %s' % show(e.value)[:80], e.loc)
        elif l.count('point') != 1:
            R.verdict(None if '?' in l or unresolved(e.value) else False, 'layout', where, '', 'the reply %s does not carry the new point' % (l,), e.loc)
        else:
            seen = l
            if any(x != l for x in layouts):
                R.violation('layout', where, 'replies have different layouts: %s' % sorted(map(str, layouts)), e.loc)
            else:
                R.ok('layout', where, 'reply is %s' % (l,), e.loc)
    return seen


def report(R, where, bads, complete, rules, none):
    for (rule, guess), b in sorted(bads.items()):
        if not guess:
            R.violation(rule, where, b.msg, b.loc)
        elif (rule, False) not in bads:
            R.undet(rule, where, 'possibly: ' + b.msg, b.loc)
    for r in rules:
        if not any(k[0] == r for k in bads):
            if complete:
                R.ok(r, where, 'holds on every way through the skeleton')
            else:
                R.undet(r, where, none)


# ------------------------------------------------------------------ master
def master(P, R, where, method, layout, tier):
    std = layout is None
    lay = layout or ('acceptance', 'sub_acceptance', 'count', 'point')
    made = {}

    def recv(eng, st, base, node):
        parts = []
        for r in lay:
            t = fresh('reply_' + r)
            eng.settype(t, LP if r == 'point' else 'number')
            made[t] = r
            parts.append(t)
        v = mk('tuple', *parts)
        return v
    W = World(P, volatile=('logLmax',), hooks={'purecalls': True, 'recv': recv})
    me = W.instance(NS)
    st = State()
    params = W.field(st, me, 'params')
    manager = W.field(st, me, 'manager')
    pipes = W.field(st, manager, 'consumer_pipes')
    nlive = W.field(st, me, 'Nlive')
    nthreads = W.field(st, manager, 'nthreads')
    counter = W.field(st, me, 'queue_counter')
    W.field(st, me, 'jumps')
    outs = W.run(NS, method, me)
    R.covers(W.eng)
    for o in outs:
        for e, l in events(o.trace, 'arity', 'unpack'):
            R.violation('layout', where, 'the reply %s cannot be unpacked' % (lay,), e.loc)
    # what is stored of a reply is its point
    stored = {}
    kept = set()
    for o in returns(outs):
        c = W.eng.seqcontent(o.state, W.eng.getfield(o.state, me, 'params'))
        for e, l in walk(o.trace):
            if e.kind == 'mut':
                for x in subterms(e.after):
                    if x in made and not contains(e.before, x):
                        stored.setdefault(made[x], e)
            for p in (e.a.get('paths') or ()):
                for ph, s in (p.sigma or {}).items():
                    if any(y.op in ('store', 'ins', 'cat', 'mutated') for y in subterms(s)):
                        for x in subterms(s):
                            if x in made and W.eng.typ(ph) in ('seq', None):
                                kept.add(made[x])
        for x in subterms(c):
            if x in made:
                kept.add(made[x])
    roles = set(stored) | kept
    if 'point' in roles:
        R.ok('layout', where, 'the point of each reply is what is stored')
    elif roles:
        R.violation('layout', where, 'the master stores the %s of a reply %s as the live point' % (sorted(roles), lay), where)
    else:
        R.undet('layout', where, 'no reply is seen to be stored')
    good = 0
    bads = {}
    sent = {}
    logl = [e for o in outs for e, l in events(o.trace, 'recv')]
    for n, L in ((1, 3), (2, 3), (2, 4), (3, 4)) if tier != 'thorough' else ((1, 3), (2, 3), (2, 4), (2, 5), (3, 4), (3, 5), (3, 7), (4, 6)):
        for q in range(n):
            for seed in ((1,) if tier != 'thorough' else (1, 2, 3)):
                for o in returns(outs):
                    g, full = run(R, W, o, bads, sent, where, method, n, L, q, seed, (params, pipes, nlive, nthreads, counter))
                    good += g
    report(R, where, bads, good, ('request-before-wait', 'balance'), 'no complete way through the exchange was recognised')
    for v, e in sent.items():
        if v is NONE or v.op == 'str':
            R.violation('request-is-point', where, 'the message sent to request a sample is %s' % show(v), e.loc)
        else:
            R.ok('request-is-point', where, 'a request carries a point', e.loc)
    R.count('messages', len(sent))


def run(R, W, o, bads, sent, where, method, n, L, q, seed, f):
    params, pipes, nlive, nthreads, counter = f
    n, L = n, L if method == 'reset' else L + n

    def number(m, key):
        if isinstance(key, tuple) and key[0] == 'fld' and key[2] == 'logL' and isinstance(key[1], tuple) and key[1][0] == 'elem':
            return -5.0 + key[1][2]
        return None
    level = -5.0 + n - 1

    def choices(e, t):
        if e.kind != 'recv' or e.value.op != 'tuple':
            return None
        pt = [x for x in e.value.args if x.args[0] == 'reply_point'][0]
        ll, lp = mk('fld', pt, 'logL'), mk('fld', pt, 'logP')
        if method == 'reset':
            return [{ll: 0.5, lp: -math.inf}, {ll: -math.inf, lp: 0.25}, {ll: math.nan, lp: 0.25}, {ll: 0.5, lp: 0.25}]
        return [{ll: level - 0.5, lp: 0.25}, {ll: level, lp: 0.25}, {ll: level + 0.5, lp: 0.25}, {ll: level + 0.75, lp: -math.inf}, {ll: math.nan, lp: 0.25}]

    def pipe(e, t, sk):
        v = sk.value(t, e.a['pipe'])
        if sk.vague(e.a['pipe'], t.env) or not isinstance(v, Obj) or not (isinstance(v.key, tuple) and v.key[0] == 'elem'):
            return None
        return v.key[2]

    def on(e, t, sk):
        if e.kind not in ('send', 'recv'):
            return None
        i = pipe(e, t, sk)
        if i is None or not 0 <= i < n:
            t.guess = True
            return None
        out, ever = t.gs
        if e.kind == 'send':
            sent.setdefault(e.value, e)
            return (out[:i] + (out[i] + 1,) + out[i + 1:], ever | {i})
        if out[i] == 0:
            return Bad('request-before-wait', 'with %d workers and %d live points the master waits for worker %d, which has no unanswered request' % (n, L, i), e.loc)
        return (out[:i] + (out[i] - 1,) + out[i + 1:], ever)
    bind = {nlive: L, nthreads: n, counter: q}
    sk = Skeleton(W.eng, bind, {pipes: n, params: L}, choices, on, seed=seed, maxiter=5, number=number)
    sk.far = method != 'reset'
    sk.rel = sk.relevant(o.trace, lambda e: (e.a['pipe'],) if e.kind in ('send', 'recv') else (), o.facts)
    trs = sk.run(o.trace, [Tr({}, ((0,) * n, frozenset()))])
    good = 0
    for t in sk.filter(trs, o.facts):
        b = t.bad
        if b is None:
            out, ever = t.gs
            if method != 'reset' and any(out):
                b = Bad('balance', 'with %d workers a step leaves %s requests unanswered in pipes 0..%d' % (n, out, n - 1), o.trace[-1].loc)
            elif method != 'reset' and len(ever) < n:
                b = Bad('balance', 'with %d workers a step asks only workers %s for a sample' % (n, sorted(ever)), o.trace[-1].loc)
        if b is not None:
            bads.setdefault((b.rule, t.guess), b)
        elif not t.guess:
            good += 1
    if sk.overflow:
        R.undet('balance', where, 'too many ways through the exchange')
    R.count('exchange events', sk.steps)
    return good, True
