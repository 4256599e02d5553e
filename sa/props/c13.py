"""C13: points that have been handed over are never modified in place."""
from .common import *
from ..engine import State
from . import c23

EXPLANATION = ('Every in-place change of a point (coordinate, log-likelihood, log-prior, in-place arithmetic) on the paths of the samplers, of every jump class and of the nested sampler is an obligation: '
               'the changed object must be one created by the code itself, or the private copy a jump is given, and must not have been put into a pool, chain, live set or list before. '
               'The point handed to a jump must be a copy made for it, and a jump must return that copy or a point it created. A copy has coordinate storage of its own (points of each dimension up to five).')
S, Q, N = 'cpnest/sampler.py', 'cpnest/proposal.py', 'cpnest/NestedSampling.py'
MUTANTS = [
    (S, 'newparam = self.proposal.get_sample(oldparam.copy())', 'newparam = self.proposal.get_sample(oldparam)'),
    (S, 'newparam     = self.proposal.get_sample(oldparam.copy(), logLmin = logLmin)', 'newparam     = self.proposal.get_sample(oldparam, logLmin = logLmin)'),
    (S, '''                # append the sample to the array of samples
                self.samples.append(oldparam)

                if (sub''', '''                # append the sample to the array of samples
                self.samples.append(newparam)
                newparam.logP = logp_old

                if (sub'''),
    (S, '                    newparam      = direction_vector * Xprime + oldparam\n', '                    newparam      = oldparam\n                    newparam     += direction_vector * Xprime\n'),
    (Q, '        out = old.copy()\n        # pick', '        out = random.choice(self.ensemble)\n        # pick'),
    (Q, '        out = a + (old - a)*Z\n', '        out = a\n        out += (old - a)*Z\n'),
    (Q, '        out = old + (b-a)*gauss(1.0,sigma)\n', '        b -= a\n        out = old + b*gauss(1.0,sigma)\n'),
    (Q, '            out += (x - center_of_mass)*gauss(0,1)\n', '            x -= center_of_mass\n            out += x*gauss(0,1)\n'),
    (Q, '        return direction * mu\n\nclass EnsembleSliceCorr', '        subset[0] *= mu\n        return subset[0] - subset[1]\n\nclass EnsembleSliceCorr'),
    (Q, '        out = old + (b-a)*gauss(1.0,sigma)\n        return out\n', '        out = old + (b-a)*gauss(1.0,sigma)\n        return out if np.isfinite(out.logL) else a\n'),
    (S, '''                oldparam        = self.evolution_points.popleft()
                if oldparam.logL > logLmin:
                    break
''', '''                oldparam        = self.evolution_points.popleft()
                if oldparam.logL > logLmin:
                    break
                oldparam.logL = logLmin
'''),
    (N, '                    self.params.insert_live_point(proposed)', '                    self.params.insert_live_point(proposed)\n                    proposed.logP = 0.0') if False else
    (S, '            self.evolution_points.append(p)\n\n        self.proposal.set', '            self.evolution_points.append(p)\n            p.logL = max(p.logL, -1e300)\n\n        self.proposal.set'),
    (Q, 'p, q, reflected = self.evolve_trajectory_one_step_momentum(p0.copy(), q0.copy(), logLmin, half = True)\n', 'p, q, reflected = self.evolve_trajectory_one_step_momentum(p0.copy(), q0, logLmin, half = True)\n        trajectory.append((q,p.copy()))\n'),
    (Q, '            trajectory.append((q.copy(),p.copy()))\n            i += 1\n\n        # evolve backward', '            trajectory.append((q,p.copy()))\n            i += 1\n\n        # evolve backward'),
]


def uid_of(t):
    return t.args[1] if t.op == 'ref' else None


def loop_uid(le):
    u = le.a.get('uid')
    if is_term(u):
        for x in u.args:
            if isinstance(x, int):
                return x
    return None


def same_value(W, e):
    """the value written is the one the point already has"""
    o, f, v = e.a['obj'], e.a['field'], e.a['value']
    if v is mk('fld', o, f):
        return True
    fn = {'logL': 'LL', 'logP': 'LP'}.get(f)
    return bool(fn) and v is mk('call', fn, mk('fld', o, '$coords'))


class Walk(object):
    """goes through a trace in order and knows which points have been handed over"""

    def __init__(self, R, G, W, private=(), lent=()):
        self.R, self.G, self.W, self.private, self.lent = R, G, W, private, lent
        self.n = 0

    def trace(self, tr, stored, loops=()):
        """-> points stored at the end"""
        for e in tr:
            if e.kind == 'mut':
                for p, c, a, b in e.a.get('lps') or ():
                    stored = stored | {p}
            elif e.kind == 'send' and is_term(e.a.get('value')):
                stored = stored | set(x[0] for x in self.W.eng.points_in(State(), (e.a['value'],)))
            elif e.kind == 'lpset':
                self.write(e, stored, loops)
            elif e.kind == 'proposed':
                self.handed(e, stored, loops)
            if e.get('paths'):
                for p in e.a['paths']:
                    # a second pass: what the first one stored and the loop did not create anew
                    first = self.W and p.trace
                    mine = set(x for ev, _ in walk(p.trace) if ev.kind == 'mut' for x, _c, _a, _b in ev.a.get('lps') or ())
                    lu = loop_uid(e) if e.kind == 'loop' else None
                    keep = set(x for x in mine if uid_of(x) is not None and lu is not None and uid_of(x) < lu)
                    keep |= set(x for x in mine if x.op == 'phi' and p.sigma.get(x, x) is x) if e.kind == 'loop' else set()
                    # the variable that carries a stored point into the next pass
                    for r in (e.a.get('phis') or {}):
                        if r.op == 'phi' and self.W.eng.is_lp(r) and any(q.sigma.get(r, r) in mine_of(q) for q in e.a['paths']):
                            keep.add(r)
                    self.trace(p.trace, stored | keep, loops + ((e, p),))
                for p in e.a['paths']:
                    stored = stored | set(x for ev, _ in walk(p.trace) if ev.kind == 'mut' for x, _c, _a, _b in ev.a.get('lps') or ())
        return stored

    def owner(self, p, loops):
        """where a point that the code did not create comes from: 'own', 'foreign' or None"""
        if p in self.private:
            return 'own'
        if p in self.lent:
            return 'foreign'
        if p.op == 'ref':
            return 'own'
        if p.op == 'sym':
            if p.args[0] in ('request', 'reply_point', 'newpoint', 'unpickled'):
                return 'own'
            return None
        if p.op in ('idx', 'fld', 'heapitem', 'draw'):
            return 'foreign'
        if p.op == 'phi':
            for le, path in loops:
                ph = le.a.get('phis') or {}
                if p in ph:
                    srcs = [ph[p]] + [q.sigma.get(p, p) for q in le.a['paths']]
                    owns = [self.owner(x, loops) if x is not None and x is not p else 'own' for x in srcs]
                    if 'foreign' in owns:
                        return 'foreign'
                    return 'own' if all(o == 'own' for o in owns) else None
        if p.op == 'ite':
            owns = [self.owner(x, loops) for x in p.args[1:]]
            return 'foreign' if 'foreign' in owns else None if None in owns else 'own'
        return None

    def write(self, e, stored, loops):
        self.n += 1
        p, f = e.a['obj'], e.a['field']
        if f not in ('logL', 'logP', '$coords'):
            return
        nm = {'$coords': 'coordinates', 'logL': 'log-likelihood', 'logP': 'log-prior'}[f]
        w = self.owner(p, loops)
        if same_value(self.W, e):
            v, why = True, ''
        elif p in stored:
            v, why = False, 'the %s of a point is modified after the point was stored' % nm
        elif w == 'foreign':
            v, why = False, 'the %s of a point of a collection (%s) is modified in place' % (nm, show(p)[:80])
        elif w is None:
            v, why = None, 'owner of %s not known' % show(p)[:80]
        else:
            v, why = True, ''
        self.R.verdict(v, 'in-place', self.G, 'only points of its own are modified, before they are stored', why, e.loc)

    def handed(self, e, stored, loops):
        self.n += 1
        p = e.a['arg']
        w = self.owner(p, loops)
        if p in stored or w == 'foreign':
            v = False
        elif w is None:
            v = None
        else:
            v = True
        self.R.verdict(v, 'private copy', self.G, 'a jump gets a copy of its own', 'a jump is given %s itself, not a copy' % show(p)[:80], e.loc)


def mine_of(path):
    return set(x for ev, _ in walk(path.trace) if ev.kind == 'mut' for x, _c, _a, _b in ev.a.get('lps') or ())


def jumps(P):
    base = P.cls('proposal.Proposal')
    out = []
    for c in P.subclasses(base):
        names = [x.name for x in c.mro() if not isinstance(x, str)]
        if 'ProposalCycle' in names:
            continue
        for m in ('get_sample', 'get_direction'):
            fi = P.method(c, m) if c.find(m) else None
            if fi and not abstract(fi):
                out.append((c, m))
    return out


def abstract(fi):
    import ast
    body = [b for b in fi.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
    return all(isinstance(b, (ast.Pass, ast.Raise)) for b in body)


def hmcfield(eng, st, base, name, args, kw, node):
    if not args or not eng.is_lp(args[0]):
        return None
    c = eng.val(st, eng.getfield(st, args[0], '$coords'))
    if name == 'log_likelihood':
        return [(st, eng.settype(mk('call', 'LL', c), 'number'))]
    if name == 'V':
        return [(st, eng.settype(neg(mk('call', 'LP', c)), 'number'))]
    if name == 'dV':
        return [(st, eng.settype(mk('call', 'dV', c), 'array'))]
    return None


def check(P, R, tier):
    total_writes = 0
    with R.guard('copy', 'LivePoint'):
        c23.copying(P, R, P.cls('parameter.LivePoint'))
    for ci in concrete_samplers(P):
        G = ci.name + '.yield_sample'
        with R.guard('in-place', G):
            M = Move(P, ci.name)
            for W in M.parts:
                R.covers(W.eng)
            k = 0
            for W, o in M.returns():
                w = Walk(R, G, W)
                w.trace(o.trace, frozenset())
                k += w.n
            R.count('writes and jumps of ' + G, k)
            if not k:
                R.undet('in-place', G, 'no change of a point was found', '')
        G = ci.name + '.reset'
        with R.guard('in-place', G):
            D = Reset(P, ci)
            R.covers(D.W.eng)
            k = 0
            for o in returns(D.outs):
                w = Walk(R, G, D.W)
                w.trace(o.trace, frozenset())
                k += w.n
            R.count('writes of ' + G, k)
        G = ci.name + '.produce_sample'
        with R.guard('in-place', G):
            K = Worker(P, ci)
            for o in K.outs:
                w = Walk(R, G, K.W)
                w.trace(o.trace, frozenset(K.points))
    with R.guard('in-place', 'NestedSampler.consume_sample'):
        X = Step(P)
        R.covers(X.W.eng)
        for o in X.outs:
            Walk(R, 'NestedSampler.consume_sample', X.W).trace(o.trace, frozenset())
        for meth in ('reset',):
            W = World(P, hooks={'purecalls': True})
            for o in W.run(NS, meth, W.instance(NS)):
                Walk(R, 'NestedSampler.' + meth, W).trace(o.trace, frozenset())
        R.ok('in-place', 'NestedSampler', 'the nested sampler does not modify the points it holds', '')
    with R.guard('in-place', 'NestedSampler.nested_sampling_loop'):
        B = Main(P)
        R.covers(B.W.eng)
        for o in B.outs:
            Walk(R, 'NestedSampler.nested_sampling_loop', B.W).trace(o.trace, frozenset())
        R.ok('in-place', 'NestedSampler.nested_sampling_loop', 'the final adjustments do not modify the points', '')
    for cls, meth, args in (('NestedSampler', 'write_chain_to_file', ()), ('NestedSampler', 'write_evidence_to_file', ()), ('NestedSampler', 'check_insertion_indices', ()),
                            ('NestedSampler', 'checkpoint', ()), ('OrderedLivePoints', 'insert_live_point', (LP,)), ('OrderedLivePoints', 'remove_n_worst_points', ('int',)),
                            ('CPNest', 'get_nested_samples', ()), ('Model', 'in_bounds', (LP,)), ('Model', 'log_prior', (LP,)), ('Model', 'potential', (LP,)),
                            ('Model', 'to_normalised', (LP,)), ('Model', 'strsample', (LP,))):
        ci = [m.classes[cls] for m in P.modules.values() if cls in m.classes]
        if not ci or not ci[0].find(meth):
            continue
        G = '%s.%s' % (cls, meth)
        with R.guard('in-place', G):
            W = World(P, hooks={'purecalls': True})
            ts = [W.param('a%d' % i, t) for i, t in enumerate(args)]
            outs = W.run(ci[0], meth, W.instance(ci[0]), ts)
            R.covers(W.eng)
            for o in outs:
                Walk(R, G, W, lent=[t for t, k_ in zip(ts, args) if k_ == LP]).trace(o.trace, frozenset())
            R.ok('in-place', G, 'the points it is given or holds are not modified', '')
    k = 0
    for c, m in jumps(P):
        G = '%s.%s' % (c.name, m)
        with R.guard('jumps', G):
            W = World(P, hooks={'hmcfield': hmcfield})
            me = W.instance(c)
            fi = P.method(c, m)
            args = []
            old = None
            for a in fi.node.args.args[1:]:
                t = W.param(a.arg, LP if not args and m == 'get_sample' else 'number')
                args.append(t)
            old = args[0] if args and m == 'get_sample' else None
            if m == 'get_sample' and c.name == 'LeapFrog':
                pass
            outs = W.run(c, m, me, args)
            R.covers(W.eng)
            for o in returns(outs):
                k += 1
                w = Walk(R, G, W, (old,) if old is not None else ())
                w.trace(o.trace, frozenset())
                v = o.value
                if not W.eng.is_lp(v):
                    continue
                ow = w.owner(v, ())
                R.verdict(False if ow == 'foreign' and not local(W, o, v) else True if ow == 'own' or local(W, o, v) else None, 'result', G, 'it returns a point of its own',
                          'it returns %s, a point of the ensemble, which the caller then modifies' % show(v)[:80], o.trace[-1].loc if o.trace else '')
    R.count('jump paths', k)


def local(W, o, v):
    """an element of a list the function built itself"""
    while v.op in ('idx', 'fld') and is_term(v.args[0]):
        v = v.args[0]
    return v.op in ('phi', 'list', 'cat', 'map') and not any(x.op == 'fld' and x.args[1] == 'ensemble' for x in subterms(v))
