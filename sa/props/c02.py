"""C02: conservation of live points, every discarded point recorded once."""
from .common import *

EXPLANATION = ('Abstract interpretation of one nested-sampling step and of the main loop. On every path of a step the net effect on the live points '
               '(removals from the low end, insertions with their loop multiplicities) and on the nested samples is computed as a term over the number of '
               'workers and compared with the required one; on every path that ends sampling the points appended to the nested samples are compared with the live '
               'points in increasing order, before any output.')
MUTANTS = [
    ('cpnest/NestedSampling.py', 'self.params.remove_n_worst_points(nreplace)', 'self.params.remove_n_worst_points(nreplace-1)'),
    ('cpnest/NestedSampling.py', 'self.nested_samples.extend(self.params[:nreplace])', 'self.nested_samples.extend(self.params[:nreplace-1])'),
    ('cpnest/NestedSampling.py', 'self.nested_samples.extend(self.params[:nreplace])', 'self.nested_samples.extend(self.params[1:nreplace+1])'),
    ('cpnest/NestedSampling.py', 'for k in reversed(self.worst):', 'for k in reversed(self.worst[1:]):'),
    ('cpnest/NestedSampling.py', "            self.nested_samples.append(p)\n", "            if i: self.nested_samples.append(p)\n"),
    ('cpnest/NestedSampling.py', "        for i,p in enumerate(self.params):\n", "        for i,p in enumerate(self.params[1:]):\n"),
    ('cpnest/NestedSampling.py', "self.params.sort(key=attrgetter('logL'))", "self.params.sort(key=attrgetter('logL'), reverse=True)"),
]
F = 'NestedSampler.consume_sample'
G = 'NestedSampler.nested_sampling_loop'


def check(P, R, tier):
    with R.guard('step', F):
        step(P, R)
    with R.guard('end', G):
        end(P, R)


def step(P, R):
    S = Step(P)
    R.covers(S.W.eng)
    R.count('paths of a step', len(S.outs))
    ms0 = [S.model(k, ties=k > 12) for k in range(1, 16)]
    for o in S.rets:
        ms = [m for m in ms0 if feasible(m, o.facts)]
        where = o.trace[-1].loc if o.trace else F
        want = slc(mk('c0', S.params), NONE, mk('len', S.pipes)) if False else None
        rem, rec = S.removed(o), S.recorded(o)
        pts = mk('c0', S.params)

        def lowest(t):
            if t is None:
                return None
            rs = []
            for m in ms:
                try:
                    v = [m.key(x) for x in m.seq(m.ev(t))]
                    w = [m.key(x) for x in m.ev(pts)[:m.n]]
                except Undef:
                    rs.append(None)
                    continue
                rs.append(v == w)
            v = allof(rs)
            return None if v is False and unresolved(t) else v
        R.verdict(lowest(rem), 'removed', F, 'exactly the n lowest live points leave the live set',
                  'the step removes %s from the live points instead of the n lowest' % (show(rem)[:120] if rem is not None else 'an unrecognised part'), where)
        extra = None
        if rec is None:
            # the n lowest are recorded by this step itself, and a repeated part may add more
            effs = seq_effects(o.trace, S.nested)
            sure = [op[1] if op[0] == 'ext' else mk('list', op[1]) for op, m, e in effs if op is not None and m is ONE and op[0] in ('ext', 'app')]
            more = [e for op, m, e in effs if op is None and (mut_op(e) or ('',))[0] == 'app']
            if sure and more and lowest(cat(*sure)) is True:
                extra = more[0]
        if extra is not None:
            R.violation('recorded', F, 'besides the n lowest live points the step may record %s' % show(mut_op(extra)[1])[:120], extra.loc)
            continue
        R.verdict(lowest(rec), 'recorded', F, 'the n lowest live points are recorded once each, in order',
                  'the step adds %s to the nested samples instead of the n lowest live points' % (show(rec)[:120] if rec is not None else 'an unrecognised part'), where)
        n = total(o.trace, lambda e: e.kind == 'mut' and e.obj is S.params and (mut_op(e) or ('?',))[0] in ('ins', 'app'))
        bad = [e for e, l in walk(o.trace) if e.kind == 'mut' and e.obj is S.params and (mut_op(e) or ('?',))[0] not in ('ins', 'app', 'delfront', 'sort')]
        if n is None or bad:
            R.undet('admitted', F, 'number of insertions depends on the path', where)
        else:
            rs = []
            for m in ms:
                try:
                    rs.append(abs(m.num(m.ev(n)) - m.n) < 1e-9)
                except Undef:
                    rs.append(None)
            R.verdict(allof(rs), 'admitted', F, 'n replacements are inserted', 'the step inserts %s points instead of one per worker' % show(n)[:100], where)
        # nothing else replaces the collection
        fin = S.W.field(o.state, S.me, 'params')
        R.verdict(fin is S.params, 'same-collection', F, 'the live set stays the same collection', 'the live set is rebound to %s' % show(fin)[:80], where)


def followed(M, o, tail, nest, basec):
    """what is appended depends on what was appended before: the passes are followed one by one"""
    from ..skeleton import Skeleton, Tr
    rs = []
    for k in range(1, 13):
        m0 = sorted_model(k, [basec], 6, ties=k > 6)
        if not feasible(m0, o.facts):
            continue

        def on(e, t, sk):
            if e.kind != 'mut' or e.obj is not nest:
                return None
            op = mut_op(e)
            m = sk.model(t)
            m.skeys = m0.skeys
            if t.gs is None or op is None or op[0] not in ('app', 'ext') or sk.vague(op[1], t.env):
                t.gs = (None,)
                return (None,)
            try:
                new = [m.ev(op[1])] if op[0] == 'app' else m.seq(m.ev(op[1]))
                return t.gs + tuple(m.key(x) for x in new)
            except Undef:
                return (None,)
        sk = Skeleton(M.W.eng, {}, m0.lens, lambda e, t: None, on, seed=k, maxiter=7, number=lambda m, key: m0.numhook(m0, key))
        sk.rel = sk.relevant(tail, lambda e: mut_op(e)[1:2] if e.kind == 'mut' and e.obj is nest and mut_op(e) else (), o.facts)
        want = tuple(m0.key(x) for x in m0.seq(m0.ev(basec)))
        ts = sk.run(tail, [Tr({}, ())])
        if sk.overflow or not ts:
            rs.append(None)
        for t in ts:
            rs.append(None if t.guess or None in t.gs else t.gs == want)
    return allof(rs)


def end(P, R):
    M = Main(P)
    R.covers(M.W.eng)
    R.count('paths of the main loop', len(M.outs))
    ended = 0
    for o in M.rets:
        where = o.trace[-1].loc if o.trace else G
        isw = lambda e: e.kind == 'mark' and e.a['name'] in ('write_chain', 'write_evidence')
        wi = first_index(o.trace, isw)
        par = M.W.field(o.state, M.me, 'params')
        nest = M.W.field(o.state, M.me, 'nested_samples')
        pm = M.prior_mode(o)
        cont = M.W.eng.seqcontent(o.state, par)
        basec = cont
        while basec.op in ('sorted', 'perm', 'reversed'):
            basec = basec.args[0]
        # points recorded after the last step
        li = last_index(o.trace, lambda e: e.kind == 'mark' and e.a['name'] in ('step', 'reset'))
        # a step inside a loop event: mutations in the same event come before or after unpredictably
        tail = o.trace[(li + 1) if li is not None else 0:]
        if pm is True:
            nc = M.W.eng.seqcontent(o.state, nest)
            rs = []
            for k in range(1, 25):
                m = sorted_model(k, [basec], 6, lowest=float('-inf') if 12 < k < 19 else None, ties=k > 18)
                if not feasible(m, o.facts):
                    continue
                try:
                    rs.append([m.key(x) for x in m.seq(m.ev(nc))] == [m.key(x) for x in m.seq(m.ev(basec))])
                except Undef:
                    rs.append(None)
            v = allof(rs)
            if v is False and unresolved(nc):
                v = None
            R.verdict(v, 'prior-all-recorded', G, 'in prior mode every live point is a nested sample, in order', 'prior mode records %s' % show(nc)[:120], where)
            ended += 1
        elif pm is False:
            rec = appended(tail, nest)
            if nest is not M.nested:
                rec = None
            if rec is None:
                R.undet('end-recorded', G, 'what is appended to the nested samples at the end was not recognised', where)
            else:
                rs = []
                for k in range(1, 25):
                    m = sorted_model(k, [basec], 6, lowest=float('-inf') if 12 < k < 19 else None, ties=k > 18)
                    if not feasible(m, o.facts):
                        continue
                    try:
                        rs.append([m.key(x) for x in m.seq(m.ev(rec))] == [m.key(x) for x in m.seq(m.ev(basec))])
                    except Undef:
                        rs.append(None)
                v = allof(rs)
                if v is not True and unresolved(rec):
                    v = followed(M, o, tail, nest, basec)
                R.verdict(v, 'end-recorded', G, 'every remaining live point is recorded once, in increasing order',
                          'at the end the nested samples receive %s, not every remaining live point once in increasing order' % show(rec)[:160], where)
            ended += 1
        else:
            R.undet('mode', G, 'an outcome belongs to both modes', where)
        # recorded before output
        lm = last_index(o.trace, lambda e: e.kind == 'mut' and e.obj is nest)
        if wi is not None and lm is not None:
            R.verdict(lm < wi, 'recorded-before-output', G, 'all points are recorded before output is written',
                      'output is written at %s before all remaining live points are recorded' % o.trace[wi].loc, o.trace[lm].loc)
    R.count('ways sampling ends', ended)
    # in the loop: every step's points leave only through a step
    for o in M.outs:
        for e, l in walk(o.trace):
            if e.kind == 'mut' and e.obj in (M.params, M.nested) and any(x.kind == 'loop' and has_kind(x, lambda y: y.kind == 'mark' and y.a['name'] == 'step') for x, _ in l):
                R.undet('outside-step', G, 'live points or nested samples are changed in the main loop outside a step', e.loc)
