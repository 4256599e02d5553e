"""C01: admission against the contour of the current step."""
from .common import *

EXPLANATION = ('Path-partitioned abstract interpretation of one nested-sampling step (NestedSampler.consume_sample with everything it calls inlined). '
               'For every path on which a received point enters the live points, the branch conditions on that path are decided for the three possible '
               'orderings of its log-likelihood and the largest log-likelihood among the points recorded in the same step; the contour '
               'published through the shared value is compared with the same term. All paths of the step are covered, for any number of workers, live points and retries.')

MUTANTS = [
    ('cpnest/NestedSampling.py', 'if proposed.logL > self.logLmin.value:', 'if proposed.logL >= self.logLmin.value:'),
    ('cpnest/NestedSampling.py', 'if proposed.logL > self.logLmin.value:', 'if proposed.logL > self.logLmin.value or loops > 1000:'),
    ('cpnest/NestedSampling.py', 'if proposed.logL > self.logLmin.value:', 'if proposed.logL > logLtmp[k]:'),
    ('cpnest/NestedSampling.py', 'self.logLmin.value = float(self.params[n-1].logL)', 'self.logLmin.value = float(self.params[0].logL)'),
]


def top(S, o, m):
    """largest log-likelihood among the points discarded in the step, in model m"""
    rec = S.discarded(o)
    if rec is None:
        return None
    try:
        r = m.seq(m.ev(rec))
        if not r:
            return None
        return max(m.num(Obj(('fld', m.key(x), 'logL'))) for x in r)
    except Undef:
        return None


def early(S, o, facts, loops, n):
    """the facts as they read in the first rounds of the loops on the path.  The points below the contour keep their places while
    points above it are only inserted, so the live points of an earlier round stand for those of a later one"""
    grows = all(e.obj is not S.params or (mut_op(e) or ('',))[0] == 'ins' for x, l in events(o.trace, 'loop') if is_term(x.a.get('uid'))
                for y in x.a['paths'] for e, _ in events(y.trace, 'mut'))
    put = {e.uid: ZERO for e, _ in events(o.trace, 'loop') if is_term(e.a.get('uid'))}
    for j in range(n if grows and loops and is_term(loops[0][0].a.get('uid')) else 1):
        if j:
            put[loops[0][0].uid] = num(j)
        fs = list(facts)
        for _ in range(4):
            for f in fs:
                for x in subterms(f):
                    if x.op == 'phi' and S.W.eng.loopinfo.get(x) is not None and (not j or S.W.eng.loopinfo[x] is mk('c0', S.params)):
                        put[x] = S.W.eng.loopinfo[x]
            fs = [subst(f, put) for f in fs]
        yield fs


def check(P, R, tier):
    with R.guard('admission', 'NestedSampler.consume_sample'):
        S = Step(P)
        R.covers(S.W.eng)
        R.count('paths of a step', len(S.outs))
        seen = 0
        for o in S.rets:
            adm = S.admissions(o)
            for e, l, p in adm:
                seen += 1
                where = '%s <- insertion at %s' % (S.replies()[p].loc if p in S.replies() else '?', e.loc)
                pl = mk('fld', p, 'logL')
                bad, unknown = None, False
                for k in range(1, 7):
                    for name, d in (('below', -0.9), ('just below', -1e-4), ('a hair below', -1e-9), ('equal to', 0.0)):
                        m = S.model(k)
                        c = top(S, o, m)
                        if c is None:
                            unknown = True
                            break
                        m.bind[pl] = c + d
                        r = satisfiable(e.facts, pl, m)
                        if r is None and any(satisfiable(f, pl, m) for f in early(S, o, e.facts, l, m.n)):
                            r = True        # already in the first rounds of the loops
                        if r is None:
                            unknown = True
                        elif r:
                            bad = name
                            break
                    if bad or unknown:
                        break
                if bad:
                    R.violation('admission-above-contour', 'NestedSampler.consume_sample',
                                'a received point whose log-likelihood is %s the largest one discarded in this step can be admitted; conditions on the path: %s'
                                % (bad, '; '.join(show(f)[:140] for f in e.facts if contains(f, pl)) or 'none on its log-likelihood'), where)
                elif unknown:
                    R.undet('admission-above-contour', 'NestedSampler.consume_sample', 'the admission conditions could not be interpreted', where)
                else:
                    R.ok('admission-above-contour', 'NestedSampler.consume_sample',
                         'admitted only strictly above the largest discarded log-likelihood', where)
            # published contour
            ws = [(e, l) for e, l in events(o.trace, 'shared_write') if e.a['name'] == 'logLmin']
            sends = [i for i, e in enumerate(o.trace) if any(x.kind == 'send' for x, _ in walk((e,)))]
            if not ws:
                R.violation('contour-published', 'NestedSampler.consume_sample', 'no path writes the shared contour in a step', o.trace[0].loc if o.trace else '')
            for e, l in ws:
                res = []
                for k in range(1, 8):
                    m = S.model(k)
                    c = top(S, o, m)
                    try:
                        v = m.num(m.ev(e.value))
                    except Undef:
                        v = None
                    if c is None or v is None:
                        res.append(None)
                    else:
                        res.append(abs(v - c) <= 4e-15 * max(1.0, abs(c)))      # the very number, not one near it
                v = False if False in res else (True if res and all(x is True for x in res) else None)
                R.verdict(v, 'contour-value', 'NestedSampler.consume_sample', 'the published contour is the largest discarded log-likelihood',
                          'the shared contour is set to %s, which is not the largest log-likelihood among the points discarded in the step' % show(e.value)[:160], e.loc)
            first = min([i for i, e in enumerate(o.trace) if any(x.kind == 'shared_write' and x.a['name'] == 'logLmin' for x, _ in walk((e,)))] or [10 ** 6])
            firstr = min([i for i, e in enumerate(o.trace) if any(x.kind == 'recv' for x, _ in walk((e,)))] or [10 ** 6])
            firsts = min(sends or [10 ** 6])
            R.verdict(first < min(firstr, firsts), 'contour-before-requests', 'NestedSampler.consume_sample',
                      'the contour is published before the first request of the step',
                      'a request of this step is sent before its contour is published', o.trace[firsts].loc if sends else '')
        R.count('admissions', seen)
        if not seen:
            R.undet('admission-above-contour', 'NestedSampler.consume_sample', 'no admission of a received point was recognised')
