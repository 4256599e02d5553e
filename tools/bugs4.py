import os, runpy
_b = runpy.run_path('/verif/tools/bugs2.py')
PRELUDE = _b['PRELUDE']
BUGS = []
def bug(id, property, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
N = 'cpnest/NestedSampling.py'
S = 'cpnest/sampler.py'
C = 'cpnest/cpnest.py'
P = 'cpnest/proposal.py'
Q = 'cpnest/nest2pos.py'
M = 'cpnest/model.py'
L = 'cpnest/parameter.pyx'
U = 'cpnest/utils.py'

bug('c01-contour-read-early', 'C01', [(N, """        logLmin = self.get_worst_n_live_points(nreplace)
""", """        logLmin = self.logLmin.value
        self.get_worst_n_live_points(nreplace)
"""), (N, """                if proposed.logL > self.logLmin.value:
""", """                if proposed.logL > logLmin:
""")],
    needs='a proposal between the contour of the previous step and that of the current one',
    breaks='proposals are compared with the contour of the step before',
    demo="""
m = Manager(2, {0: [reply(pt(-1.0, -1.0)), reply(pt(10.0))], 1: [reply(pt(11.0))]})
s = ns([pt(float(i)) for i in range(4)], m)
m.logLmin.value = -5.0
s.logLmin = m.logLmin
s.consume_sample()
low = min(p.logL for p in s.params)
assert low > 1.0, 'a point with logL %s was admitted above the contour 1.0' % low
""")
bug('c11-no-deep-descent', 'C11', [(S, """                    if newparam.logL > logLmin:
                        self.update_logLmax(newparam.logL)
                        oldparam = newparam.copy()
""", """                    if newparam.logL > max(logLmin, oldparam.logL - 1000.0):
                        self.update_logLmax(newparam.logL)
                        oldparam = newparam.copy()
""")],
    needs='a chain at a point far above the contour that jumps to one just above it',
    breaks='the chain refuses points above the contour that lose much likelihood, so it does not sample the prior within the contour',
    demo="""
import cpnest.sampler as SM
SM.random = lambda: 0.5
w = mh(Model(), Scripted([pt(-4000.0)]), poolsize=4, maxmcmc=2)
p = pt(0.0); p.logP = Model().log_prior(p)
w.evolution_points.clear()
w.evolution_points.append(p)
w.Nmcmc = 1
Model.bounds[0][0] = -9000.0
n, q = next(w.yield_sample(-5000.0))
assert q['x'] == -4000.0, 'a point above the contour was refused: still at %s' % q['x']
""")
bug('c24-each-draw-once', 'C24', [(C, """        posterior_samples  = np.array(posterior_samples)
""", """        posterior_samples  = np.unique(np.array(posterior_samples))
""")],
    needs='a sample that is drawn more than once',
    breaks='repeated posterior draws are dropped, so the draws no longer follow the weights',
    demo="""
from cpnest import nest2pos
row = np.array([(0.5, 1.0), (0.5, 1.0), (0.25, 2.0)], dtype=[('x', 'f8'), ('logL', 'f8')])
nest2pos.draw_posterior_many = lambda *a, **k: row.copy()
c = core.CPNest.__new__(core.CPNest)
class Sub(object): pass
c.NS = Sub(); c.NS.Nlive = 2; c.NS.output_folder = scratch
c.verbose = 0
c.get_nested_samples = lambda *a, **k: row
got = c.get_posterior_samples()
assert len(got) == 3, '%d of 3 draws are returned' % len(got)
""")
bug('c40-full-kick-without-contour', 'C40', [(P, """            p += - 0.5 * self.dt * dV
            return p, q, reflected""", """            p += - 0.5 * self.dt * dV if logLmin > -np.inf else - self.dt * dV
            return p, q, reflected""")],
    needs='a trajectory on the unconstrained prior',
    breaks='without a contour the first half kick is a full one, so the integrator is not reversible',
    demo="""
from cpnest import proposal
class One(model.Model):
    names = ['x']
    bounds = [[-10.0, 10.0]]
    def log_likelihood(self, p): return 0.0
    def force(self, p): return np.array([(2.0,)], dtype={'names': ['x'], 'formats': ['f8']})
c = proposal.ConstrainedLeapFrog(model=One())
c.d = 1
c.dt = 0.5
c.dV = One().force
res = []
for lim in (-1e6, -np.inf):
    p, q, r = c.evolve_trajectory_one_step_momentum(np.array([1.0]), pt(0.0), lim, half=True)
    res.append(float(p[0]))
assert res[0] == res[1], 'half kick: momentum %s with a contour far below, %s without one' % tuple(res)
""")
