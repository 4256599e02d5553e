"""C29: a move of a Metropolis or slice worker ends after a bounded number of steps."""
from .common import *
from ..engine import State

EXPLANATION = ('Every loop on the paths of yield_sample (Metropolis and slice) up to the delivery of a sample is an obligation: the conditions under which a pass is followed by another one, evaluated '
               'for a pass number beyond the limit of the loop, must be contradictory. The pass number is the value of the counters that grow by one in every pass. For the walk itself the limit is '
               'the configured maximum chain length and the number delivered with the sample must be the number of passes.')
S = 'cpnest/sampler.py'
MUTANTS = [
    (S, "        self.max_slices     = self.maxmcmc ", "        self.max_slices     = np.inf "),
    (S, 'if (sub_counter >= self.Nmcmc and sub_accepted > 0 ) or sub_counter >= self.maxmcmc:', 'if sub_counter >= self.Nmcmc and sub_accepted > 0:'),
    (S, 'if (sub_counter >= self.Nmcmc and sub_accepted > 0 ) or sub_counter >= self.maxmcmc:', 'if sub_accepted > 0 and (sub_counter >= self.Nmcmc or sub_counter >= self.maxmcmc):'),
    (S, 'if (sub_counter >= self.Nmcmc and sub_accepted > 0 ) or sub_counter >= self.maxmcmc:', 'if (sub_counter >= self.Nmcmc and sub_accepted > 0 ) or sub_counter >= self.maxmcmc + self.poolsize:'),
    (S, '''                sub_counter += 1
                newparam = self.proposal.get_sample(oldparam.copy())
                newparam.logP = self.model.log_prior(newparam)
''', '''                newparam = self.proposal.get_sample(oldparam.copy())
                newparam.logP = self.model.log_prior(newparam)
                if np.isfinite(newparam.logP): sub_counter += 1
'''),
    (S, '''            sub_counter = 0
            sub_accepted = 0
            oldparam = self.evolution_points.popleft()
''', '''            sub_counter = 1
            sub_accepted = 0
            oldparam = self.evolution_points.popleft()
'''),
    (S, '''                if sub_counter > self.maxmcmc:
                    break
''', ''),
    (S, '''                if sub_counter > self.maxmcmc:
                    break
''', '''                if sub_counter > self.maxmcmc and sub_accepted > 0:
                    break
'''),
    (S, '''                self.evolution_points.append(oldparam)
                j += 1
''', '''                self.evolution_points.append(oldparam)
'''),
    (S, '''                            self.increase_left_boundary()
                            J -= 1
''', '''                            self.increase_left_boundary()
'''),
    (S, '''                            self.increase_right_boundary()
                            K -= 1
''', '''                            self.increase_right_boundary()
                            J -= 1
'''),
    (S, '''                        self.Nc = self.Nc + 1

                    slice += 1
''', '''                        self.Nc = self.Nc + 1
                        slice += 1
'''),
    (S, '                while slice < self.max_slices:\n', '                while self.R - self.L > 0:\n'),
    (S, '''                self.reset_boundaries()
                sub_counter += 1
''', '''                self.reset_boundaries()
                if sub_accepted == 0: sub_counter += 1
'''),
    (S, '            yield (sub_counter, oldparam)\n\nclass HamiltonianMonteCarloSampler', '            yield (self.mcmc_counter, oldparam)\n\nclass HamiltonianMonteCarloSampler'),
]


def iota(le):
    return le.a['uid']


def bounded(W, le, p, at):
    """is a pass after the given pass number impossible?  (verdict, why)"""
    got = [onwards(W, le, p, facts, at) for facts in (p.onward or (p.facts,))]
    for want in (False, None, True):
        for v, why in got:
            if v is want:
                return v, why
    return True, ''


def onwards(W, le, p, facts, at):
    i = iota(le)
    rel = [f for f in facts if contains(f, i)]
    bind0 = {i: float(at)}
    unknown = bad = False
    for k in range(1, 6):
        m = Model(k, bind=dict(bind0), default_len=6)
        for f in rel:
            for x in subterms(f):
                if x.op == 'fld' and x.args[1] in LIMITS:
                    m.bind[x] = LIMITS[x.args[1]] if k != 3 or x.args[1] != 'Nmcmc' else 60.0
        r = satisfiable(facts, i, m)
        if r is None:
            unknown = True
        elif r:
            bad = True
    if not bad:
        return (None, 'condition not understood') if unknown else (True, '')
    # what carries the loop on does not change
    phis = le.a.get('phis') or {}
    moving = [r for r in phis if p.sigma.get(r, r) is not r and any(contains(f, r) for f in facts)]
    grow = [r for r in moving if numval(sub(p.sigma[r], r)) is not None]
    if grow and not rel:
        return None, 'counter %s does not change by the same amount in every pass' % show(grow[0])
    odd = [f for f in facts for u in unresolved_terms(f) if u.op != 'phi' and contains(u, i)]
    if odd:
        return None, 'condition not understood'
    return False, '; '.join(show(f)[:150] for f in (rel or facts)) or 'always'


LIMITS = {'maxmcmc': 50.0, 'Nmcmc': 20.0, 'poolsize': 8.0, 'max_steps_out': 50.0, 'max_slices': 50.0, 'initial_mcmc': 5.0}


def check(P, R, tier):
    for ci in concrete_samplers(P):
        mro = [c.name for c in ci.mro() if not isinstance(c, str)]
        if HMC in mro:
            continue
        G = ci.name + '.yield_sample'
        with R.guard('bounded', G):
            M = Move(P, ci.name)
            for W in M.parts:
                R.covers(W.eng)
            n = 0
            for W, o in M.returns():
                p = M.point(W, o)
                cnt = None
                if p is not None and o.value.op == 'tuple':
                    rest = [a for a in o.value.args if a is not p]
                    cnt = rest[0] if len(rest) == 1 else None
                main = None
                tops = [e for e in o.trace if e.kind == 'loop']
                # the walk: the last loop of the path that moves the chain
                walks = [e for e in tops if any(x.kind in ('proposed', 'proposal_get_direction') for q in e.a['paths'] for x, _ in walk(q.trace))]
                if not walks and not any(e.kind in ('proposed', 'proposal_get_direction') for e in o.trace):
                    R.undet('bounded', G, 'the walk was not recognised', '')
                    continue
                main = walks[-1] if walks else None
                for e, l in events(o.trace, 'loop'):
                    for q in e.a['paths']:
                        if q.end not in ('fall', 'continue'):
                            continue
                        n += 1
                        v, why = bounded(W, e, q, 50 if e is main else 10 ** 7)
                        what = 'the walk' if e is main else 'an inner search loop'
                        lim = 'the first step after the maximum chain length' if e is main else 'any number of passes'
                        R.verdict(v, 'bounded', G, what + ' ends', '%s can go on after %s: %s' % (what, lim, why), e.loc)
                if cnt is None:
                    R.undet('count', G, 'the delivered step count was not recognised', '')
                elif main is not None:
                    i = iota(main)
                    good = cnt in (i, add(i, ONE), main.n)
                    bad = None
                    if not good and not [u for u in unresolved_terms(subst(cnt, {i: ONE})) if u.op != 'phi']:
                        bad = False
                    R.verdict(True if good else bad, 'count', G, 'the number delivered is the number of steps', 'the number delivered with the sample is %s after %s steps' % (show(cnt)[:100], show(add(i, ONE))), o.trace[-1].loc)
                    n += 1
            finite(P, R, ci, M)
            R.count('loop conditions of %s' % ci.name, n)
            if not n:
                R.undet('bounded', G, 'no loop was found', '')


def finite(P, R, ci, M):
    """the limits the loops compare with are finite numbers once the sampler is made"""
    used = set()
    for W, o in M.returns():
        for e, l in events(o.trace, 'loop'):
            for q in e.a['paths']:
                for f in q.facts:
                    used.update(x.args[1] for x in subterms(f) if x.op == 'fld' and x.args[1] in LIMITS)
    W = World(P, hooks={'purecalls': True})
    R.covers(W.eng)
    fi = P.method(ci, '__init__')
    args = {a.arg: W.param(a.arg, TYPES.get(a.arg)) for a in fi.node.args.args[1:] + fi.node.args.kwonlyargs}
    writes = []
    for st, me in W.eng.instantiate(State(), ci, [], dict(args), None):
        writes += [(W, st, w) for w in W.eng.attr_writes if w[0] is me]
    K = Reset(P, ci)
    R.covers(K.W.eng)
    writes += [(K.W, State(), w) for w in K.W.eng.attr_writes if w[0] is K.me]
    for W2, o in M.returns():
        writes += [(W2, o.state, w) for w in W2.eng.attr_writes if w[1] in used and w[0] is getattr(M, 'me', None)]
    seen = set()
    for W2, st, (ob, nm, v, node, func) in writes:
        if nm not in used or (nm, v) in seen:
            continue
        seen.add((nm, v))
        v = W2.eng.val(st, v)
        try:
            m = Model(1, bind={a: 29 for k, a in args.items() if TYPES.get(k) == 'number'})
            for x in subterms(v):
                if x.op == 'fld' and x.args[1] in LIMITS:
                    m.bind[x] = LIMITS[x.args[1]]
            x = m.num(m.ev(v))
        except (Undef, TypeError, ValueError):
            continue
        R.verdict(x < math.inf, 'limit', func, '%s is finite' % nm, 'the limit %s of a loop is infinite' % nm, '%s:%d' % (fi.module.relpath, getattr(node, 'lineno', 0)))


TYPES = {'manager': 'cpnest.RunManager', 'model': 'usermodel', 'output': 'str', 'resume_file': 'str', 'seed': 'number', 'maxmcmc': 'number', 'poolsize': 'number', 'verbose': 'number'}
