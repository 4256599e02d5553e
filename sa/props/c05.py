"""C05: the stopping rule."""
from .common import *
from ..engine import State

EXPLANATION = ('Abstract interpretation of the main loop: the path conditions under which a step is made and under which sampling ends are decided for the stopping estimate '
               'below, equal to and above the tolerance. The estimate left by a step is compared, by random interpretation, with the change of log-evidence from the '
               'remaining prior volume computed from the evidence after that step, the shared maximum and the number of points replaced; the tolerance is traced to the constructor option.')
MUTANTS = [
    ('cpnest/NestedSampling.py', 'while self.condition > self.tolerance:', 'while self.condition >= self.tolerance:'),
    ('cpnest/NestedSampling.py', 'while self.condition > self.tolerance:', 'while self.condition > self.tolerance and self.iteration < 100*self.Nlive:'),
    ('cpnest/NestedSampling.py', 'while self.condition > self.tolerance:', 'while self.condition > self.tolerance or self.iteration < self.Nlive:'),
    ('cpnest/NestedSampling.py', 'self.logLmax.value - self.iteration/(float(self.Nlive))) - self.state.logZ', 'self.logLmin.value - self.iteration/(float(self.Nlive))) - self.state.logZ'),
    ('cpnest/NestedSampling.py', 'self.logLmax.value - self.iteration/(float(self.Nlive))) - self.state.logZ', 'self.logLmax.value - self.iteration/(float(self.Nlive)))'),
    ('cpnest/NestedSampling.py', 'self.logLmax.value - self.iteration/(float(self.Nlive))) - self.state.logZ', 'self.logLmax.value - self.iteration) - self.state.logZ'),
    ('cpnest/NestedSampling.py', '            self.iteration += 1\n', '            self.iteration += 2\n'),
    ('cpnest/NestedSampling.py', 'self.tolerance      = stopping', 'self.tolerance      = 0.1'),
    ('cpnest/NestedSampling.py', 'self.tolerance      = stopping', 'self.tolerance      = max(stopping, 0.01)'),
    ('cpnest/NestedSampling.py', 'self.condition      = np.inf', 'self.condition      = 0'),
    ('cpnest/NestedSampling.py', '        self.condition = logaddexp(self.state.logZ', '        if self.iteration % 2: self.condition = logaddexp(self.state.logZ'),
]
F = 'NestedSampler.consume_sample'
G = 'NestedSampler.nested_sampling_loop'


def check(P, R, tier):
    with R.guard('loop', G):
        loop(P, R)
    with R.guard('estimate', F):
        estimate(P, R)
    with R.guard('tolerance', 'NestedSampler.__init__'):
        init(P, R)


def loop(P, R):
    M = Main(P)
    R.covers(M.W.eng)
    R.count('paths of the main loop', len(M.outs))
    nstep = nend = 0

    def poss(facts, cond, values):
        res = None
        for name, d in values:
            for k in range(1, 4):
                m = Model(k, bind={M.tolerance: 0.1 * k})
                m.bind[cond] = 0.1 * k + d
                r = satisfiable(facts, cond, m)
                if r:
                    return name
                if r is None:
                    res = 'unknown'
        return res
    for o in M.outs:
        for e, l in marks(o.trace, 'step'):
            nstep += 1
            c = e.a['condition']
            r = poss(e.facts, c, (('below', -0.05), ('equal to', 0.0)))
            R.verdict(True if r is None else (None if r == 'unknown' else False), 'continues-only-above', G, 'a step is made only with the estimate above the tolerance',
                      'a step can be made with the estimate %s the tolerance' % r, e.loc)
    for o in M.rets:
        if M.prior_mode(o) is not False:
            continue
        nend += 1
        c = M.W.field(o.state, M.me, 'condition')
        r = poss(o.facts, c, (('above', 0.05), ('far above', 50.0)))
        where = (o.trace[0] if o.trace else None)
        R.verdict(True if r is None else (None if r == 'unknown' else False), 'stops-only-below', G, 'sampling ends only with the estimate at or below the tolerance',
                  'sampling can end with the estimate %s the tolerance; conditions on that path: %s' % (r, '; '.join(show(f)[:80] for f in o.facts if contains(f, c)) or 'none on the estimate'),
                  where.loc if where else G)
    R.count('steps', nstep)
    R.count('ends of sampling', nend)
    if not nstep or not nend:
        R.undet('loop', G, 'no step or no end of sampling recognised')


def estimate(P, R):
    S = Step(P)
    R.covers(S.W.eng)
    it = None
    for o in S.rets:
        cond = S.W.field(o.state, S.me, 'condition')
        itx = S.W.field(o.state, S.me, 'iteration')
        it0 = mk('fld', S.me, 'iteration')
        z = S.W.field(o.state, S.state, 'logZ')
        old = mk('fld', S.me, 'condition')
        reads = set(e.a['value'] for e, l in events(o.trace, 'shared_read') if e.a['name'] == 'logLmax')
        where = o.trace[-1].loc
        if cond is old:
            R.violation('estimate', F, 'a step can end without recomputing the stopping estimate', where)
            continue
        rs, ri = [], []
        for k in range(1, 16):
            m = S.model(k)
            m.bind[it0] = 3 + 5 * k
            m.bind[mk('fld', S.state, 'logZ')] = -4.0 - 0.1 * k
            m.bind[mk('fld', S.state, 'logw')] = -0.2 * k
            for j, r in enumerate(sorted(reads, key=show)):
                m.bind[r] = 1.5 + 0.3 * k
            if not feasible(m, o.facts):
                continue
            try:
                zz = m.num(m.ev(z))
                got = m.num(m.ev(cond))
                ok = False
                for d in range(m.n + 1):
                    w = (1.5 + 0.3 * k) - (3 + 5 * k + d) / float(m.L)
                    want = zz + math.log1p(math.exp(w - zz)) if w < zz else w + math.log1p(math.exp(zz - w))
                    ok = ok or abs(got - (want - zz)) < 1e-8
                rs.append(ok)
            except Undef:
                rs.append(None)
            try:
                ri.append(m.num(m.ev(itx)) == 3 + 5 * k + m.n)
            except Undef:
                ri.append(None)
        v = allof(rs)
        R.verdict(None if v is False and unresolved(cond) else v, 'estimate', F, 'log(1 + Lmax X / Z) from the current evidence, maximum and volume',
                  'the stopping estimate left by a step is %s' % show(cond)[:240], where)
        v = allof(ri)
        R.verdict(None if v is False and unresolved(itx) else v, 'replaced-count', F, 'the iteration counts the points replaced',
                  'a step changes the number of points replaced to %s' % show(itx)[:120], where)


def init(P, R):
    W = World(P, hooks={'purecalls': True})
    ci = P.cls(NS)
    fi = P.method(NS, '__init__')
    names = [a.arg for a in fi.node.args.args][1:]
    kw = {}
    for n in names:
        if n == 'n_periodic_checkpoint':
            kw[n] = NONE
        elif n == 'manager':
            t = W.sym(n, 'cpnest.RunManager')
            kw[n] = t
        elif n == 'model':
            kw[n] = W.sym(n, 'usermodel')
        else:
            kw[n] = W.sym(n, 'str' if n == 'output' else 'number')
    outs = W.eng.instantiate(State(), ci, [], kw, None)
    R.covers(W.eng)
    for st, me in outs:
        tol, cond = W.field(st, me, 'tolerance'), W.field(st, me, 'condition')
        R.verdict(passthrough(tol, kw['stopping']), 'tolerance', 'NestedSampler.__init__', 'the tolerance is the stopping option', 'the tolerance is %s instead of the stopping option' % show(tol)[:100], 'NestedSampling.py')
        try:
            v = Model(1).num(Model(1).ev(cond)) == math.inf
        except Undef:
            v = None
        R.verdict(v, 'initial-estimate', 'NestedSampler.__init__', 'sampling starts with an infinite estimate', 'the estimate starts at %s' % show(cond)[:60], 'NestedSampling.py')
