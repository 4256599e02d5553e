"""C27: the likelihood is evaluated only where the prior is not zero."""
from .common import *
from .c11 import canonical

EXPLANATION = ('Every call of the user likelihood on the paths of reset and of yield_sample of every sampler class is an obligation: the branch conditions that hold at the call, evaluated for a '
               'log-prior of minus infinity at exactly the coordinates passed to the likelihood, must exclude it. The Hamiltonian trajectory, which needs the likelihood on its way, is outside the property.')
S = 'cpnest/sampler.py'
MUTANTS = [
    (S, '                if np.isfinite(p.logP): break\n            p.logL=self.model.log_likelihood(p)\n', '                p.logL=self.model.log_likelihood(p)\n                if np.isfinite(p.logP): break\n'),
    (S, '                if np.isfinite(p.logP): break\n', '                if not np.isnan(p.logP): break\n'),
    (S, '''                if newparam.logP-logp_old + self.proposal.log_J > log(random()):
                    newparam.logL = self.model.log_likelihood(newparam)
''', '''                newparam.logL = self.model.log_likelihood(newparam)
                if newparam.logP-logp_old + self.proposal.log_J > log(random()):
'''),
    (S, 'if newparam.logP-logp_old + self.proposal.log_J > log(random()):', 'if not newparam.logP-logp_old + self.proposal.log_J < log(random()) or newparam.logP == -np.inf:'),
    (S, '                    newparam.logP = self.model.log_prior(newparam)\n\n                    if newparam.logP > Yp:', '                    newparam.logP = self.model.log_prior(newparam)\n\n                    if newparam.logP >= min(Yp, newparam.logP):'),
    (S, '                    newparam.logP = self.model.log_prior(newparam)\n\n                    if newparam.logP > Yp:', '                    newparam.logP = oldparam.logP\n\n                    if newparam.logP > Yp:'),
    (S, '''                    if newparam.logP > Yp:
                        # compute''', '''                    if newparam.logP > Yp or Xprime > 0.0:
                        # compute'''),
    (S, '                newparam.logP = self.model.log_prior(newparam)\n\n                if newparam.logP-logp_old', '                newparam.logP = self.model.log_prior(newparam)\n                newparam = self.proposal.get_sample(newparam)\n\n                if newparam.logP-logp_old'),
]


def excluded(facts, coords, lim):
    """do the conditions exclude a log-prior of minus infinity at these coordinates?"""
    piv = mk('call', 'LP', coords)
    rel = [f for f in facts if contains(f, piv)]
    bad, unknown = False, False
    for k in range(1, 5):
        m = Model(k, bind={piv: float('-inf')})
        r = satisfiable(facts, piv, m)
        if r is None:
            unknown = True
        elif r:
            bad = True
    if bad:
        known = {piv: mk('sym', 'known', 0), coords: mk('sym', 'known', 1)}
        odd = [f for f in facts if any(contains(u, coords) or contains(u, piv) for u in unresolved_terms(f))]
        odd += [f for f in rel if [u for u in unresolved_terms(subst(f, known)) if u.op != 'phi']]
        if odd:
            return None, rel
        return False, rel
    return (None if unknown else True), rel


def check(P, R, tier):
    for ci in concrete_samplers(P):
        mro = [c.name for c in ci.mro() if not isinstance(c, str)]
        jobs = [('reset', lambda: Reset(P, ci))]
        if HMC not in mro:
            jobs.append(('yield_sample', lambda: Move(P, ci.name)))
        for nm, make in jobs:
            G = '%s.%s' % (ci.name, nm)
            with R.guard('prior first', G):
                D = make()
                parts = [(D.W, o) for o in D.outs] if nm == 'reset' else [(W, o) for W in D.parts for o in W.outs]
                for W in set(W for W, _ in parts):
                    R.covers(W.eng)
                n = 0
                seen = {}
                for W, o in parts:
                    for e, l in events(o.trace, 'll'):
                        n += 1
                        facts = tuple(e.facts)
                        for _, p in l:
                            facts += tuple(f for f in p.facts if f not in facts and before(f, e))
                        v, rel = excluded(facts, e.a['coords'], getattr(W, 'lim', None))
                        R.verdict(v, 'prior first', G, 'the likelihood is called only for a point with non-zero prior',
                                  'the likelihood can be called for a point whose log-prior is minus infinity or was not computed; conditions on it: %s' % ('; '.join(show(f)[:160] for f in rel) or 'none'), e.loc)
                R.count('likelihood calls in %s' % G, n)
                if not n:
                    R.undet('prior first', G, 'no call of the likelihood was found', '')


def before(f, e):
    return False
