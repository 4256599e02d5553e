"""C35: a proposal cycle plays its jumps in the configured proportions."""
from .common import *
from ..engine import State

EXPLANATION = ('Every class of proposal cycle is built symbolically with opaque proposals and concrete weights; the draw of the cycle is a term that holds the population, the probabilities and the size handed to the random '
               'generator. The proposal that is asked for a jump is a term over that draw: its distribution is obtained by substituting every value the draw can take and adding up the probabilities, and compared with the '
               'weights, before and after proposals are added. Jumps are then requested as often as the cycle is long: every position of the cycle must be used once, with the point (and options) of the caller, and the '
               'result handed back must be the one of the proposal that was asked.')
TECHNIQUE = 'static analysis: abstract interpretation with symbolic draws; exact distribution of the selected proposal, position coverage of the cycle'
L = 'cpnest/proposal.py'
MUTANTS = [
    (L, "            weights[i]=weights[i] / norm\n        return weights", "            weights[i]=weights[i] / norm\n        return weights[::-1]"),
    (L, "                                      p=self.weights, replace=True)", "                                      replace=True)"),
    (L, "                                      p=self.weights, replace=True)", "                                      p=sorted(self.weights), replace=True)"),
    (L, "                                      p=self.weights, replace=True)", "                                      p=self.weights, replace=False)"),
    (L, "        norm = sum(weights)\n", "        norm = max(weights)\n"),
    (L, "        self.idx = (self.idx + 1) % self.N\n        p = self.cycle[self.idx]\n        new = p.get_sample(old,**kwargs)", "        self.idx = (self.idx + 2) % self.N\n        p = self.cycle[self.idx]\n        new = p.get_sample(old,**kwargs)"),
    (L, "        self.idx = (self.idx + 1) % self.N\n        p = self.cycle[self.idx]\n        new = p.get_sample(old,**kwargs)", "        self.idx = (self.idx + 1) % (self.N - 1)\n        p = self.cycle[self.idx]\n        new = p.get_sample(old,**kwargs)"),
    (L, "        self.idx = (self.idx + 1) % self.N\n        p = self.cycle[self.idx]\n        new = p.get_sample(old,**kwargs)", "        self.idx = (self.idx + 1) % len(self.proposals)\n        p = self.cycle[self.idx]\n        new = p.get_sample(old,**kwargs)"),
    (L, "        self.idx = (self.idx + 1) % self.N\n        p = self.cycle[self.idx]\n        new = p.get_sample(old,**kwargs)", "        p = self.cycle[self.idx]\n        new = p.get_sample(old,**kwargs)"),
    (L, "        p = self.cycle[self.idx]\n        new = p.get_sample(old,**kwargs)", "        p = self.proposals[self.idx % len(self.proposals)]\n        new = p.get_sample(old,**kwargs)"),
    (L, "        new = p.get_sample(old,**kwargs)\n", "        new = p.get_sample(old)\n"),
    (L, "        self.proposals = self.proposals + [proposal]\n        self.weights = self.weights + [weight]\n        self.set_cycle()", "        self.proposals = self.proposals + [proposal]\n        self.weights = self.weights + [weight]"),
    (L, "        self.proposals = self.proposals + [proposal]\n", "        self.proposals = [proposal] + self.proposals\n"),
    (L, "        self.weights = self.weights + [weight]\n", "        self.weights = [1]*len(self.weights) + [weight]\n"),
    (L, "        self.weights = self.weights + [weight]\n", "        self._weights = self.normalise_weights(self.weights[:-1] + [self.weights[-1], weight]); self._weights[-1] = weight\n"),
    (L, "        self.idx = (self.idx + 1) % self.N\n        p = self.cycle[self.idx]\n        new = p.get_direction(mu = mu, **kwargs)", "        p = self.cycle[self.idx]\n        self.idx = (self.idx + 1) % len(self.proposals)\n        new = p.get_direction(mu = mu, **kwargs)"),
    (L, "        new = p.get_direction(mu = mu, **kwargs)", "        new = p.get_direction(**kwargs)"),
    (L, "        self.cycle = np.random.choice(self.proposals, size=self.cyclelength,", "        self.cycle = np.random.choice(self.proposals[:2], size=self.cyclelength,"),
]
MUTANTS[-1] = (L, "        self.cycle = np.random.choice(self.proposals, size=self.cyclelength,\n                                      p=self.weights, replace=True)",
               "        keep = [k for k, w in enumerate(self.weights) if w > 0.1]\n        total = sum(self.weights[k] for k in keep)\n        self.cycle = np.random.choice([self.proposals[k] for k in keep], size=self.cyclelength,\n                                      p=[self.weights[k]/total for k in keep], replace=True)")
BASE = 'proposal.ProposalCycle'
ENTRIES = ('get_sample', 'get_direction')
WEIGHTS = ((5, 1, 10), (0.2, 0.3, 0.5), (1, 1, 1), (1, 40, 3))


def opaque(P):
    """an instantiate hook that stands an opaque proposal in for every jump that is created"""
    cyc = P.cls(BASE)

    def hook(eng, st, ci, args, kwargs, node):
        mro = [c for c in ci.mro() if not isinstance(c, str)]
        if cyc in mro or not any(c.name == 'Proposal' for c in mro):
            return None
        made.append(mk('sym', 'jump_%s' % ci.name, -900 - len(made)))
        return [(st, made[-1])]
    made = []
    return hook, made


def weight_of(t, binds, props):
    """the proposal a term denotes under the bindings"""
    m = Model(1, bind=dict(binds))
    v = m.ev(t)
    for i, p in enumerate(props):
        if v == m.ev(p):
            return i
    raise Undef('selected %s' % show(t)[:60])


def selected(t, props, bind):
    """distribution of the selected proposal: {index: probability}, and how it was drawn"""
    if t in props:
        return {props.index(t): 1.0}, 'fixed'
    cs = [x for x in subterms(t) if x.op == 'choices' or (x.op == 'draw' and x.args[0] in ('choice', 'int', 'u01'))]
    cs = [x for x in cs if not any(x is not y and contains(y, x) for y in cs)]
    out = {}
    if t.op == 'idx' and t.args[0].op == 'choices':
        # the entries are alike: which one is used does not matter here
        pos = [x for x in cs if x is not t.args[0]]
        bind = dict(bind)
        bind.update({x: 0.5 if x.args[0] == 'u01' else 1 for x in pos})
        cs = [t.args[0]]
    if len(cs) != 1:
        raise Undef('selection %s' % show(t)[:80])
    d = cs[0]
    m = Model(1, bind=dict(bind))
    if d.op == 'choices':
        pop, size, rep, pv = d.args[:4]
    elif d.args[0] == 'choice':
        pop, pv = d.args[1], d.args[2]
    else:
        n = 4000
        for k in range(n):
            u = (k + 0.5) / n
            if d.args[0] == 'int':
                lo, hi = m.num(m.ev(d.args[2])), m.num(m.ev(d.args[3]))
                u = math.floor(lo + u * (hi - lo))
            b = dict(bind)
            b[d] = u
            i = weight_of(t, b, props)
            out[i] = out.get(i, 0.0) + 1.0 / n
        return out, 'grid'
    items = m.ev(pop)
    if not isinstance(items, list):
        items = list(range(int(m.num(items))))
    ps = [1.0 / len(items)] * len(items) if pv is NONE else [m.num(x) for x in m.ev(pv)]
    if len(ps) != len(items):
        return None, 'of %d probabilities for %d proposals' % (len(ps), len(items))
    if abs(sum(ps) - 1) > 1e-6 or min(ps) < 0:
        return None, 'the probabilities %s do not add up to one' % [round(x, 3) for x in ps]
    if d.op == 'choices':
        if not m.truth(m.ev(rep)) and m.num(m.ev(size)) > len(items):
            return None, 'a cycle longer than the list of proposals is drawn without replacement'
        if not m.truth(m.ev(rep)) and m.num(m.ev(size)) > 1 and len(items) > 1:
            return None, 'the entries of a cycle no longer than the list of proposals are drawn without replacement, so not independently'
    for k, (x, p) in enumerate(zip(items, ps)):
        b = dict(bind)
        b[d] = [x] * 50 if d.op == 'choices' else k
        i = weight_of(t, b, props)
        out[i] = out.get(i, 0.0) + p
    return out, 'choice'


def positions(t, size):
    """which position of the drawn cycle a term uses"""
    for d in subterms(t):
        if d.op == 'choices':
            m = Model(1, bind={d: [Slot(k) for k in range(size)]})
            x = [y for y in subterms(t) if y.op == 'idx' and y.args[0] is d]
            if len(x) == 1:
                v = m.ev(x[0])
                if isinstance(v, Slot):
                    return v.k
    return None


class Slot(object):
    def __init__(self, k):
        self.k = k


def asked(o, n0, meth):
    """(proposal, event) of the jumps asked for on a path after the first n0 events"""
    return [e for e, l in walk(o.trace[n0:]) if e.kind == 'proposal_' + meth]


def check(P, R, tier):
    base = P.cls(BASE)
    cycles = [base] + sorted(P.subclasses(base), key=lambda c: c.qual)
    for ci in cycles:
        one(P, R, ci, ci is base, tier)
    R.count('cycle classes', len(cycles))


def built(P, R, ci, generic, ws, length=6):
    hook, made = opaque(P)
    W = World(P, hooks={'purecalls': True, 'instantiate': hook})
    if generic:
        props = [mk('sym', 'jump%d' % k, -300 - k) for k in range(len(ws))]
        outs = W.eng.instantiate(State(), ci, [mk('list', *props), mk('list', *[num(w) for w in ws])], {'cyclelength': num(length)}, None)
    else:
        fi = P.method(ci, '__init__')
        kw = {}
        a = fi.node.args.args
        for x in a[1:len(a) - len(fi.node.args.defaults)] + [y for y in a[1:] if y.arg == 'model']:
            kw[x.arg] = W.param(x.arg, 'usermodel' if x.arg == 'model' else None)
        outs = W.eng.instantiate(State(), ci, [], kw, None)
        props = None
    return W, outs, props, made


def ask(P, W, ci, me, st, meth, k):
    """request one jump; -> outcomes with the argument terms"""
    fi = P.method(ci, meth)
    names = [a.arg for a in fi.node.args.args[1:]]
    args, kw = [], {}
    sent = []
    if meth == 'get_sample':
        old = mk('sym', 'current', -400 - k)
        W.eng.settype(old, LP)
        lim = mk('sym', 'contour', -450)
        args, kw = [old], ({'logLmin': lim} if fi.node.args.kwarg else {})
        sent = [old] + list(kw.values())
    else:
        mu = mk('sym', 'scale', -460)
        W.eng.settype(mu, 'number')
        kw = {'mu': mu} if 'mu' in names else {}
        sent = list(kw.values())
    n0 = len(st.trace)
    return W.run(ci, meth, me, args, kw, st=st.fork()), n0, sent


def one(P, R, ci, generic, tier):
    name = ci.name
    meths = [m for m in ENTRIES if ci.find(m) and ci.find(m)[0] == 'method']
    for ws in (WEIGHTS if generic else (None,)):
        with R.guard('draw', name):
            W, outs, props, made = built(P, R, ci, generic, ws)
            if not outs:
                R.undet('draw', name, 'the cycle could not be built')
                continue
            for st, me in outs:
                ps = props or list(made)
                expect = [w / float(sum(ws)) for w in ws] if ws else None
                drawn(P, R, W, ci, me, st, ps, expect, meths, '')
                if ws is None or ws is WEIGHTS[0]:
                    length = 6 if generic else 100
                    played(P, R, W, ci, me, st, ps, meths, length)
                if generic:
                    new = mk('sym', 'jump_added', -350)
                    for w in (0.5, 2):
                        for o in W.run(ci, 'add_proposal', me, [new, num(w)], {}, st=st.fork()):
                            if o.kind != 'return':
                                R.violation('draw', name + '.add_proposal', 'adding a proposal fails', '')
                                continue
                            e2 = [x / (1 + w) for x in expect] + [w / (1 + w)]
                            alt = [x / float(sum(ws) + w) for x in ws] + [w / float(sum(ws) + w)]
                            drawn(P, R, W, ci, me, o.state, ps + [new], e2, meths, '.add_proposal', alt)
            R.covers(W.eng)
        if generic and len(ws) > 1:
            # a cycle no longer than its list of proposals
            with R.guard('draw', name):
                for size in (len(ws), max(1, len(ws) - 1)):
                    W, outs, props, made = built(P, R, ci, generic, ws, size)
                    for st, me in outs:
                        drawn(P, R, W, ci, me, st, props, [w / float(sum(ws)) for w in ws], meths, ' (cycle of %d)' % size)


def drawn(P, R, W, ci, me, st, props, expect, meths, suffix, alt=None):
    for meth in meths:
        outs, n0, sent = ask(P, W, ci, me, st, meth, 0)
        C = ci.name + suffix
        for o in outs:
            es = asked(o, n0, meth)
            where = es[0].loc if es else ''
            if o.kind != 'return' or len(es) != 1:
                R.undet('draw', C, '%s does not ask one proposal (%s, %d asked)' % (meth, o.kind, len(es)), where)
                continue
            try:
                got, how = selected(W.eng.val(o.state, es[0].a['obj']), props, {})
            except (Undef, TypeError, ValueError, IndexError, ZeroDivisionError) as u:
                R.undet('draw', C, 'the selected proposal is not understood: %s' % u, where)
                continue
            if got is None:
                R.violation('draw', C, how, where)
                continue
            if how == 'fixed' and len(props) > 1:
                R.violation('draw', C, 'always the same proposal is used', where)
                continue
            tol = 1e-6 if how != 'grid' else 2e-3
            want = [expect] + ([alt] if alt else [])
            if expect is None:
                bad = [props[i] for i in range(len(props)) if got.get(i, 0) <= 0]
                R.verdict(not bad, 'draw', C, 'all %d proposals are drawn' % len(props), 'a proposal of the cycle is never drawn', where)
                continue
            ok = any(all(abs(got.get(i, 0.0) - w) <= tol for i, w in enumerate(x)) for x in want)
            R.verdict(ok, 'draw', C, 'drawn with probability proportional to the weights',
                      'the proposals are drawn with probabilities %s, their weights give %s' % ([round(got.get(i, 0), 4) for i in range(len(props))], [round(x, 4) for x in expect]), where)


def played(P, R, W, ci, me, st, props, meths, length):
    """every position of the cycle is used once, with the caller's point"""
    for meth in meths:
        C = '%s.%s' % (ci.name, meth)
        cur, used, where = st, [], ''
        size = None
        for k in range(length):
            if size is not None and k >= size:
                break
            outs, n0, sent = ask(P, W, ci, me, cur, meth, k)
            rets = [o for o in outs if o.kind == 'return']
            if len(rets) != 1 or len(outs) != 1:
                R.undet('play', C, 'not a single path', '')
                return
            o = rets[0]
            es = asked(o, n0, meth)
            if len(es) != 1:
                R.verdict(None if es else False, 'play', C, '', '%d proposals are asked for one jump' % len(es), '')
                return
            e = es[0]
            where = e.loc
            missing = [x for x in sent if x not in list(e.a['args']) + list(e.a['kwargs'].values())]
            direct = not [x for a in list(e.a['args']) + list(e.a['kwargs'].values()) for x in unresolved(a)]
            v = True
            if missing:
                held = [x for x in missing if any(contains(a, x) for a in list(e.a['args']) + list(e.a['kwargs'].values()))]
                v = None if held else (False if direct else None)
            R.verdict(v, 'forward', C, "the caller's arguments reach the proposal", 'the proposal that is asked does not get %s of the caller' % ', '.join(show(x) for x in missing), where)
            if meth == 'get_sample':
                prs = [x for x, l in walk(o.trace[n0:]) if x.kind == 'proposed']
                R.verdict(True if prs and o.value is prs[0].a['result'] else (False if prs and not unresolved(o.value) else None), 'result', C, 'the proposed point is handed back',
                          'the point handed back is not the one that was proposed', where)
            t = W.eng.val(o.state, e.a['obj'])
            ds = [x for x in subterms(t) if x.op == 'choices']
            if not ds:
                if list(props) == [t]:
                    R.ok('play', C, 'the only proposal is asked', where)
                elif any(x.op == 'draw' for x in subterms(t)):
                    R.ok('play', C, 'a proposal is drawn for every jump', where)
                else:
                    R.undet('play', C, 'selection %s' % show(t)[:80], where)
                return
            where_to = [x for x in subterms(t) if x.op == 'idx' and x.args[0] is ds[0]]
            if len(ds) == 1 and len(where_to) == 1 and any(x.op == 'draw' for x in subterms(where_to[0].args[1])):
                R.violation('play', C, 'the entry of the cycle to use is drawn at random (%s), so entries are used again before the others had their turn' % show(where_to[0].args[1])[:60], where)
                break
            size = numval(ds[0].args[1])
            if size is None:
                R.undet('play', C, 'cycle of unknown length', where)
                return
            try:
                pos = positions(t, int(size))
            except (Undef, IndexError) as u:
                R.violation('play', C, 'the cycle of %d entries is left after %d jumps' % (size, k), where) if isinstance(u, IndexError) else R.undet('play', C, str(u), where)
                return
            used.append(pos)
            cur = o.state
        if size is None:
            continue
        if None in used:
            R.undet('play', C, 'position in the cycle not understood', where)
            continue
        R.verdict(len(set(used)) == len(used), 'play', C, 'positions %s of %d' % (used, size), 'consecutive jumps use the positions %s of a cycle of %d entries' % (used, size), where)
