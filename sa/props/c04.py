"""C04: prior volume and evidence bookkeeping."""
from .common import *
from ..engine import State

EXPLANATION = ('Abstract interpretation of the evidence integrator (increment, finalise, reset), of one nested-sampling step and of the end of the main loop. The terms for the '
               'new volume, evidence and history are compared with the required formulas by random interpretation; calls of the integrator are counted as terms '
               'over the number of workers and live points and their arguments compared with the discarded points and remaining live-point counts.')
MUTANTS = [
    ('cpnest/NestedSampling.py', 'logt=-nreplace/nlive', 'logt=-1.0/nlive'),
    ('cpnest/NestedSampling.py', 'logt=-nreplace/nlive', 'logt=-nreplace/(nlive+1)'),
    ('cpnest/NestedSampling.py', 'Wt = self.logw + logL + logsubexp(0,logt)', 'Wt = self.logw + logL + logt'),
    ('cpnest/NestedSampling.py', 'self.log_vols.append(self.logw)', 'self.log_vols.append(self.logw - logt)'),
    ('cpnest/NestedSampling.py', 'self.logLs.append(logL)', 'self.logLs.append(max(logL, self.logLs[-1]))'),
    ('cpnest/NestedSampling.py', 'self.state.increment(self.params[nreplace-1].logL, nreplace=nreplace)', 'self.state.increment(self.params[0].logL, nreplace=nreplace)'),
    ('cpnest/NestedSampling.py', 'self.state.increment(self.params[nreplace-1].logL, nreplace=nreplace)', 'self.state.increment(self.params[nreplace-1].logL)'),
    ('cpnest/NestedSampling.py', 'self.state.increment(p.logL,nlive=self.Nlive-i)', 'self.state.increment(p.logL,nlive=self.Nlive-i-1)'),
    ('cpnest/NestedSampling.py', 'self.state.increment(p.logL,nlive=self.Nlive-i)', 'self.state.increment(p.logL)'),
    ('cpnest/NestedSampling.py', 'nest2pos.log_integrate_log_trap(np.array(self.logLs), np.array(self.log_vols))', 'nest2pos.log_integrate_log_trap(np.array(self.logLs[1:]), np.array(self.log_vols[1:]))'),
    ('cpnest/nest2pos.py', 'log_func_sum = logaddexp(log_func[:-1], log_func[1:]) - np.log(2)', 'log_func_sum = logaddexp(log_func[:-1], log_func[1:])'),
    ('cpnest/NestedSampling.py', '        self.state.finalise()\n', ''),
    ('cpnest/NestedSampling.py', "        self.log_vols = [0.0]", "        self.log_vols = [-1.0]"),
]
I = 'NestedSampling._NSintegralState'


def lse(xs):
    m = max(xs)
    if m == -math.inf:
        return m
    return m + math.log(sum(math.exp(x - m) for x in xs))


def check(P, R, tier):
    with R.guard('increment', I + '.increment'):
        increment(P, R)
    with R.guard('initial', I + '.reset'):
        initial(P, R)
    with R.guard('trapezoid', I + '.finalise'):
        finalise(P, R)
    with R.guard('step', 'NestedSampler.consume_sample'):
        step(P, R)
    with R.guard('end', 'NestedSampler.nested_sampling_loop'):
        end(P, R)


def increment(P, R):
    for mode in ('explicit', 'default'):
        W = World(P)
        me = W.instance(I)
        st = State()
        F = I + '.increment(%s live-point count)' % mode
        x = W.param('logL')
        nr = W.param('nreplace', integer=True)
        nl = W.param('nlive', integer=True)
        own = W.field(st, me, 'nlive')
        w0, z0 = W.field(st, me, 'logw'), W.field(st, me, 'logZ')
        ls, vs = W.field(st, me, 'logLs'), W.field(st, me, 'log_vols')
        kw = {'nreplace': nr}
        if mode == 'explicit':
            kw['nlive'] = nl
        outs = W.run(I, 'increment', me, [x], kw, st)
        R.covers(W.eng)
        rets = returns(outs)
        R.count('paths of increment', len(outs))
        if not rets:
            R.undet('increment', F, 'no normal return')
        for o in rets:
            logw, logZ = W.field(o.state, me, 'logw'), W.field(o.state, me, 'logZ')
            al, av = appended(o.trace, W.field(o.state, me, 'logLs')), appended(o.trace, W.field(o.state, me, 'log_vols'))
            where = [e for e in o.trace if e.kind == 'mut']
            where = where[-1].loc if where else F
            rw, rz, rl, rv = [], [], [], []
            for k in range(1, 64):
                n, L = 1 + k % 5, (1, 4, 9, 30, 100, 1000)[k % 6] + k % 3
                other = L if mode == 'default' else (L, L + 3, 2 * L + 1, 5 * L, 40 * L)[k % 5]
                wb, zb, xb = -0.3 * k, -2.0 + 0.4 * k, -3 + 0.5 * k
                if k % 8 == 3:
                    zb = -math.inf
                elif k % 8 == 6:
                    xb = zb = -math.inf
                m = Model(k, bind={nr: n, nl: L, own: other, w0: wb, z0: zb, x: xb})
                if not feasible(m, o.facts):
                    continue
                lw = wb - n / float(L)
                lz = lse([zb, xb + wb + math.log(1 - math.exp(-n / float(L)))])

                def close(t, v):
                    if t is None:
                        return None
                    try:
                        q = m.num(m.ev(t))
                        return q == v or abs(q - v) < 1e-8 * max(1, abs(v))
                    except Undef:
                        return None
                rw.append(close(logw, lw))
                rz.append(close(logZ, lz))

                def one(t, v):
                    if t is None:
                        return None
                    try:
                        q = m.seq(m.ev(t))
                        return len(q) == 1 and (m.num(q[0]) == v or abs(m.num(q[0]) - v) < 1e-8 * max(1, abs(v)))
                    except Undef:
                        return None
                rl.append(one(al, xb))
                rv.append(one(av, lw))

            def V(rs, t):
                v = allof(rs)
                return None if v is False and (t is None or unresolved(t)) else v
            R.verdict(V(rw, logw), 'volume-update', F, 'log-volume decreases by replaced/live', 'the log-volume becomes %s' % show(logw)[:140], where)
            R.verdict(V(rz, logZ), 'evidence-update', F, 'evidence grows by likelihood times the shell between the two volumes', 'the evidence becomes %s' % show(logZ)[:200], where)
            R.verdict(V(rl, al), 'history-likelihood', F, 'one likelihood is appended', 'the likelihood history receives %s' % (show(al)[:120] if al is not None else '?'), where)
            R.verdict(V(rv, av), 'history-volume', F, 'one volume, the new one, is appended', 'the volume history receives %s' % (show(av)[:120] if av is not None else '?'), where)


def initial(P, R):
    W = World(P)
    nl = W.param('nlive', integer=True)
    outs = W.eng.instantiate(State(), P.cls(I), [nl], {}, None)
    R.covers(W.eng)
    for st, me in outs:
        F = I
        for f, want in (('nlive', nl), ('logw', ZERO)):
            got = W.field(st, me, f)
            R.verdict(cmp(got, want), 'initial-' + f, F, 'starts at %s' % show(want), 'the integrator starts with %s = %s' % (f, show(got)[:80]), 'NestedSampling.py')
        for f, want in (('logZ', -math.inf),):
            v = value_of(W.field(st, me, f))
            R.verdict(None if v is None else v == want, 'initial-' + f, F, 'starts at -inf', 'the evidence starts at %s' % v, 'NestedSampling.py')
        for f, want in (('logLs', -math.inf), ('log_vols', 0.0)):
            c = W.content(st, W.field(st, me, f))
            v = None
            if c.op == 'list':
                v = len(c.args) == 1 and value_of(c.args[0]) == want
            R.verdict(v, 'initial-' + f, F, 'starts with the dummy sample enclosing the whole prior', 'the history %s starts as %s' % (f, show(c)[:80]), 'NestedSampling.py')


def value_of(t):
    try:
        m = Model(1)
        return m.num(m.ev(t))
    except Undef:
        return None


def finalise(P, R):
    W = World(P)
    me = W.instance(I)
    st = State()
    ls, vs = W.field(st, me, 'logLs'), W.field(st, me, 'log_vols')
    outs = W.run(I, 'finalise', me, st=st)
    R.covers(W.eng)
    F = I + '.finalise'
    for o in returns(outs):
        z = W.field(o.state, me, 'logZ')
        rs, rr = [], []
        for k in range(1, 17):
            n = 3 + k % 4 if k < 12 else (2, 10, 33, 80, 120)[k - 12]
            L = [-6 + 1.3 * i + 0.7 * math.sin(k * 2.1 + i) for i in range(n)]
            if k % 3 == 0:
                L[0] = -math.inf
            if k % 4 == 2:
                L[n - 2] = L[n - 1]
            V = [-0.4 * i - 0.05 * k * i * i if n < 10 else -0.05 * i - 0.001 * k for i in range(n)]
            m = Model(k, bind={mk('c0', ls): L, mk('c0', vs): V})
            if not feasible(m, o.facts):
                continue
            want = lse([math.log(math.exp(V[i]) - math.exp(V[i + 1])) + lse([L[i], L[i + 1]]) - math.log(2) for i in range(n - 1)])
            for t, acc in ((z, rs), (o.value, rr)):
                try:
                    acc.append(abs(m.num(m.ev(t)) - want) < 1e-7)
                except Undef:
                    acc.append(None)
        v = allof(rs)
        R.verdict(None if v is False and unresolved(z) else v, 'trapezoid', F, 'trapezoidal integral of the whole likelihood history over the whole volume history',
                  'the final evidence is %s, which is not that integral' % show(z)[:200], W.eng.p.method(I, 'finalise').node.lineno)


def marked(trace, name, value):
    """term of the sequence of values of the marks of one kind along a path"""
    parts = []
    for e in trace:
        if e.kind == 'mark' and e.a['name'] == name:
            v = value(e)
            if v is None:
                return None
            parts.append(mk('list', v))
        elif e.get('paths'):
            xs = [marked(p.trace, name, value) for p in e.a['paths']]
            if any(x is None for x in xs):
                return None
            if all(x is EMPTY for x in xs):
                continue
            if e.kind != 'loop' or not is_term(e.n):
                return None
            x = xs[0]
            if any(y is not x for y in xs):
                x = gated(e, xs)
            if x.op == 'list' and len(x.args) == 1:
                parts.append(mapterm(e.n, x.args[0], e.uid))
            else:
                parts.append(mk('call', 'concat', mapterm(e.n, x, e.uid)))
    return cat(*parts) if parts else EMPTY


def inc_args(P, e, own):
    """(logL, nlive, nreplace) of a marked call of increment"""
    fi = P.method(I, 'increment')
    names = [a.arg for a in fi.node.args.args][1:]
    vals = dict(zip(names, e.a['args']))
    vals.update(e.a['kwargs'])
    if not names:
        return None
    x = vals.get(names[0])
    nl = vals.get('nlive', NONE)
    nr = vals.get('nreplace', ONE)
    if x is None:
        return None
    return mk('list', x, own if nl is NONE else nl, nr)


def step(P, R):
    def eff(eng, st, args):
        for f in ('logw', 'logZ', 'info'):
            t = fresh('incr_' + f)
            eng.settype(t, 'number')
            st.heap[(args[0], f)] = t
    S = Step(P, stubs={'_NSintegralState.increment': marker('increment', effect=eff)})
    R.covers(S.W.eng)
    F = 'NestedSampler.consume_sample'
    for o in S.rets:
        t = marked(o.trace, 'increment', lambda e: inc_args(P, e, S.snlive))
        where = (marks(o.trace, 'increment') or [(o.trace[-1], ())])[0][0].loc
        rec = S.discarded(o)
        if t is None or rec is None:
            R.undet('one-increment', F, 'the calls of the integrator were not recognised', where)
            continue
        r1, r2 = [], []
        for k in range(1, 12):
            m = S.model(k)
            if not feasible(m, o.facts):
                continue
            try:
                q = m.seq(m.ev(t))
                top = max(m.num(Obj(('fld', m.key(x), 'logL'))) for x in m.seq(m.ev(rec)))
            except (Undef, ValueError):
                r1.append(None)
                continue
            r1.append(len(q) == 1)
            if len(q) == 1:
                a = [m.num(x) for x in q[0]]
                r2.append(abs(a[0] - top) < 1e-9 and a[1] == m.L and a[2] == m.n)
        def U(v):
            return None if v is False and unresolved(t) else v
        R.verdict(U(allof(r1)), 'one-increment', F, 'the integrator is advanced once per step', 'a step advances the integrator by %s' % show(t)[:160], where)
        R.verdict(U(allof(r2)) if r2 else None, 'increment-arguments', F, 'highest discarded likelihood, number of live points, points replaced',
                  'a step advances the integrator with %s, not (highest discarded log-likelihood, live points, points replaced)' % show(t)[:200], where)


def end(P, R):
    M = Main(P)
    R.covers(M.W.eng)
    G = 'NestedSampler.nested_sampling_loop'
    own = mk('fld', M.state, 'nlive')
    n = 0
    for o in M.rets:
        if M.prior_mode(o) is not False:
            continue
        n += 1
        li = last_index(o.trace, lambda e: e.kind == 'mark' and e.a['name'] in ('step', 'reset'))
        tail = o.trace[(li + 1) if li is not None else 0:]
        t = marked(tail, 'increment', lambda e: inc_args(P, e, own))
        w = [e for e, l in walk(tail) if e.kind == 'mark' and e.a['name'] == 'increment']
        where = w[0].loc if w else (o.trace[-1].loc if o.trace else G)
        par = M.W.field(o.state, M.me, 'params')
        base = M.W.eng.seqcontent(o.state, par)
        while base.op in ('sorted', 'perm', 'reversed'):
            base = base.args[0]
        if t is None:
            R.undet('remaining-points', G, 'the calls of the integrator were not recognised', where)
        else:
            rs = []
            for k in range(1, 9):
                L = 4 + k % 4
                m = sorted_model(k, [base], L, bind={M.nlive: L, own: L})
                if not feasible(m, o.facts):
                    continue
                try:
                    got = [[m.num(y) for y in x] for x in m.seq(m.ev(t))]
                    pts = m.seq(m.ev(base))
                    want = [[m.num(Obj(('fld', m.key(p), 'logL'))), L - i, 1] for i, p in enumerate(pts)]
                except Undef:
                    rs.append(None)
                    continue
                rs.append(len(got) == len(want) and all(abs(a - b) < 1e-9 for x, y in zip(got, want) for a, b in zip(x, y)))
            v = allof(rs)
            R.verdict(None if v is False and unresolved(t) else v, 'remaining-points', G, 'each remaining point is added with the number of points left, from Nlive down to 1',
                      'the remaining points are added to the evidence as %s' % show(t)[:200], where)
        fin = lambda e: e.kind == 'mark' and e.a['name'] == 'finalise'
        inc = lambda e: e.kind == 'mark' and e.a['name'] == 'increment'
        fi, ii = last_index(tail, fin), last_index(tail, inc)
        zs = [e for e, l in walk(tail) if e.kind == 'setattr' and e.get('name') == 'logZ']
        if fi is None:
            R.violation('finalised', G, 'the evidence is reported without the final trapezoidal integration', where)
        else:
            R.verdict(ii is None or ii < fi, 'finalised', G, 'the integral is taken after the last point was added', 'points are added after the final integration', where)
        # the reported value is the one left by the final integration
        if fi is not None and o.value.op == 'tuple' and o.value.args:
            z = M.W.field(o.state, M.state, 'logZ')
            rep = o.value.args[0]
            v = True if rep is z and rep.op == 'sym' and rep.args[0] == 'final_logZ' else (False if rep.op in ('fld', 'num', 'sym') else None)
            R.verdict(v, 'reported', G, 'the reported evidence is the final integral', 'the evidence returned is %s, not the value of the final integration' % show(rep)[:100], where)
    R.count('ways an evidence run ends', n)
