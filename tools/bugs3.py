import os, runpy
_b = runpy.run_path('/verif/tools/bugs2.py')
PRELUDE = _b['PRELUDE']
BUGS = []
def bug(id, property, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
N = 'cpnest/NestedSampling.py'
S = 'cpnest/sampler.py'
C = 'cpnest/cpnest.py'
P = 'cpnest/proposal.py'
Q = 'cpnest/nest2pos.py'
M = 'cpnest/model.py'
L = 'cpnest/parameter.pyx'
U = 'cpnest/utils.py'

bug('c02-final-plateau-once', 'C02', [(N, """            self.nested_samples.append(p)
""", """            if not self.nested_samples or p is not self.nested_samples[-1] and p.logL != self.nested_samples[-1].logL:
                self.nested_samples.append(p)
""")],
    needs='live points of equal log-likelihood when the run ends (a plateau at the maximum)',
    breaks='only the first of several live points with the same log-likelihood is recorded at the end, although the evidence counts all of them',
    demo="""
m = Manager(1)
s = ns([pt(0.0), pt(1.0, 5.0), pt(2.0, 5.0), pt(3.0, 7.0)], m, stopping=1e9)
s.condition = 0.0
s.nested_sampling_loop()
assert len(s.nested_samples) == 4, len(s.nested_samples)
""")
bug('c06-counter-stays-after-long-wait', 'C06', [(N, """                    self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                    self.accepted += 1
""", """                    if loops < 50:
                        self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                    self.accepted += 1
""")],
    needs='a worker that needs fifty tries or more to find a point above the contour, in a run with several workers',
    breaks='the master goes on listening to that worker, which has nothing left to answer: the run deadlocks',
    demo="""
Late(60)
low = [reply(pt(-5.0)) for i in range(60)]
m = Manager(2, {0: low + [reply(pt(20.0))], 1: [reply(pt(30.0))]})
s = ns([pt(float(i)) for i in range(6)], m)
try:
    s.consume_sample()
except IndexError:
    print('waits for a worker that was not asked')
    sys.exit(1)
assert len(s.params) == 6
""")
bug('c09-maximum-set-from-live-points', 'C09', [(N, """        self.params = OrderedLivePoints(params)
""", """        self.params = OrderedLivePoints(params)
        self.logLmax.value = max(self.logLmax.value, self.params[-1].logL)
""")],
    needs='a worker that raises the shared maximum between the read and the write of the master, at the end of the initialisation',
    breaks='the master writes the shared maximum without its lock and can undo the update of a worker',
    demo="""
m = Manager(1, {0: [reply(pt(1.0)), reply(pt(2.0))]})
s = NS.NestedSampler(Model(), nlive=2, manager=m, output=scratch, verbose=0)
class Race(Value):
    held = False
    def __init__(self, v):
        self.v = v
    def __enter__(self):
        self.held = True
    def __exit__(self, *a):
        self.held = False
    @property
    def value(self):
        v = self.v
        if not self.held:
            self.v = max(self.v, 100.0)     # the worker's update, right after the read
        return v
    @value.setter
    def value(self, v):
        self.v = v
m.logLmax = s.logLmax = Race(1.0)
s.reset()
assert s.logLmax.v in (1.0, 100.0), 'the update of the worker is lost: %s' % s.logLmax.v
""")
bug('c11-prior-of-best-move', 'C11', [(S, """                        logp_old = newparam.logP
""", """                        logp_old = max(logp_old, newparam.logP)
""")],
    needs='a chain that moves downhill in the prior and then proposes a point of intermediate prior',
    breaks='later moves of the chain are compared with the highest prior met so far instead of that of the current point, and are refused',
    demo="""
import cpnest.sampler as SM
class Slope(Model):
    def log_prior(self, p):
        return -abs(p['x'])
    def log_likelihood(self, p):
        return 1.0
us = [1e-9, 0.9]
SM.random = lambda: us.pop(0) if us else 0.999
w = mh(Slope(), Scripted([pt(10.0), pt(9.5)]), poolsize=4, maxmcmc=2)
p = pt(0.0, 1.0); p.logP = 0.0
w.evolution_points.clear()
w.evolution_points.append(p)
w.Nmcmc = 2
w.logLmin = Value(-np.inf)
n, q = next(w.yield_sample(-np.inf))
assert q['x'] == 9.5, q['x']
""")
bug('c16-saved-when-diagnosed', 'C16', [(N, """        self.params.remove_n_worst_points(nreplace)

    def""", """        try:
            if self.iteration % (10*self.Nlive) < nreplace:
                self.check_insertion_indices()
        except CheckPoint:
            self.checkpoint()
            raise
        self.params.remove_n_worst_points(nreplace)

    def""")],
    needs='a signal while the insertion indices are tested inside a step',
    breaks='the state is saved after the replacements are in and before the discarded points are removed; a resumed run has too many live points',
    demo="""
m = Manager(1, {0: [reply(pt(10.0))]})
s = ns([pt(float(i)) for i in range(3)], m)
s.iteration = 10*3 - 1
saved = []
def ks(*a, **k):
    raise NS.CheckPoint()
s.check_insertion_indices = ks
s.checkpoint = lambda: saved.append(len(s.params))
try:
    s.consume_sample()
except NS.CheckPoint:
    pass
assert not [n for n in saved if n != 3], 'saved with %s live points' % saved
""")
bug('c17-proposal-keeps-model-method', 'C17', [(S, """        self.proposal.set_ensemble(self.evolution_points)
        # initialise""", """        self.proposal.set_ensemble(self.evolution_points)
        self.proposal.in_bounds = self.model.in_bounds
        # initialise""")],
    needs='a checkpoint of a sampler whose user model cannot be serialised (it holds an open file, a lock or a lambda)',
    breaks='the proposal keeps a method of the user model, and the checkpoint fails',
    demo="""
import pickle, threading
from cpnest import proposal
class Odd(Model):
    def __init__(self):
        self.lock = threading.Lock()
w = mh(Odd(), proposal.DefaultProposalCycle(), poolsize=8, maxmcmc=5)
w.reset()
pickle.dumps(w)
""")
bug('c35-short-cycle-deals', 'C35', [(P, """replace=True""", """replace=self.cyclelength > len(self.proposals)""")],
    needs='a cycle not longer than its list of proposals',
    breaks='the entries of a short cycle are drawn without replacement: a rare proposal appears far more often than its weight says',
    demo="""
from cpnest import proposal
class J(object):
    def __init__(self, n): self.n = n
    log_J = 0.0
    def get_sample(self, old, **k): return self.n
np.random.seed(3)
c = {0: 0, 1: 0}
for i in range(400):
    cyc = proposal.ProposalCycle([J(0), J(1)], [9, 1], cyclelength=2)
    for k in range(2):
        c[cyc.get_sample(None)] += 1
f = c[1]/800.
assert f < 0.2, 'the proposal of weight one tenth is used %.2f of the time' % f
""")
bug('c41-widths-of-first-bound', 'C41', [(P, """        ranges = [self.prior_bounds[j][1] - self.prior_bounds[j][0] for j in range(self.d)]
""", """        ranges = [self.prior_bounds[j][1] - self.prior_bounds[0][0] for j in range(self.d)]
""")],
    needs='parameters whose prior ranges start at different values',
    breaks='the widths of the prior ranges are measured from the lower bound of the first parameter',
    demo="""
from cpnest import proposal
class Two(model.Model):
    names = ['x', 'y']
    bounds = [[0.0, 1.0], [10.0, 14.0]]
    def log_likelihood(self, p): return 0.0
    def force(self, p): return np.zeros(1, dtype={'names': self.names, 'formats': ['f8', 'f8']})
p = proposal.ConstrainedLeapFrog(model=Two())
p.d = 2
p.set_integration_parameters()
assert p.base_L == 10 + int(4.0 * 2**0.25), p.base_L
""")
