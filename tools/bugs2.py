PRELUDE = '''
import os, sys, shutil, tempfile, time, signal
import numpy as np
scratch = tempfile.mkdtemp(prefix='cpnest-demo.')
import atexit
atexit.register(shutil.rmtree, scratch, True)
import cpnest
from cpnest import NestedSampling as NS, parameter, model, sampler, cpnest as core
from cpnest.parameter import LivePoint


class Value(object):
    def __init__(self, v):
        self.value = v
    def get_lock(self):
        return self
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass


def pt(x, logL=None):
    p = LivePoint(['x'], d=__import__('array').array('d', [x]))
    p.logL = x if logL is None else logL
    p.logP = 0.0
    return p


class Model(model.Model):
    names = ['x']
    bounds = [[-1000.0, 1000.0]]
    def log_likelihood(self, p):
        return p['x']


class Pipe(object):
    """stands for one end of the connection between master and worker"""
    def __init__(self, replies=()):
        self.sent, self.replies = [], list(replies)
    def send(self, x):
        self.sent.append(x)
    def poll(self, *a):
        return bool(self.replies)
    def recv(self):
        r = self.replies.pop(0)
        if isinstance(r, BaseException):
            raise r
        return r


class Manager(object):
    def __init__(self, n, replies=None):
        self.nthreads = n
        self.consumer_pipes = [Pipe((replies or {}).get(i, ())) for i in range(n)]
        self.logLmin, self.logLmax = Value(-np.inf), Value(-np.inf)
        self.checkpoint_flag = Value(0)
        self.periodic_checkpoint_interval = np.inf
        self.nconnected = 0
    def connect_producer(self):
        return self.pipe, 0


def reply(p):
    return (0.5, 0.5, 10, p)


def mh(model_, proposal=None, cls='MetropolisHastingsSampler', **k):
    m = Manager(1)
    m.pipe = Pipe()
    o = dict(maxmcmc=100, poolsize=10, seed=1, output=scratch, verbose=0, manager=m, proposal=proposal, resume_file=os.path.join(scratch, 'w.pkl'))
    o.update(k)
    return getattr(sampler, cls)(model_, o.pop('maxmcmc'), **o)


def p2(x, y, logL=0.0, logP=0.0):
    p = LivePoint(['x', 'y'], d=__import__('array').array('d', [x, y]))
    p.logL, p.logP = logL, logP
    return p


class Scripted(object):
    """jumps to given points in turn (the last one again and again)"""
    log_J = 0.0
    def __init__(self, points):
        self.points = list(points)
    def set_ensemble(self, e):
        pass
    def get_sample(self, old, **k):
        return (self.points.pop(0) if len(self.points) > 1 else self.points[0]).copy()


class Late(object):
    """gives up after some seconds"""
    def __init__(self, n):
        def late(*a):
            print('no answer')
            os._exit(1)
        signal.signal(signal.SIGALRM, late)
        signal.alarm(n)


def ns(points, manager, **k):
    s = NS.NestedSampler(Model(), nlive=len(points), manager=manager, output=scratch, verbose=0, **k)
    s.params = NS.OrderedLivePoints(points)
    s.initialised = True
    return s

'''
BUGS = []
def bug(id, property, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
N = 'cpnest/NestedSampling.py'
S = 'cpnest/sampler.py'
C = 'cpnest/cpnest.py'
P = 'cpnest/proposal.py'
Q = 'cpnest/nest2pos.py'
M = 'cpnest/model.py'
L = 'cpnest/parameter.pyx'
U = 'cpnest/utils.py'

bug('c09-slot-read-before-lock', 'C09', [(C, """        with self.nconnected.get_lock():
            n = self.nconnected.value
            pipe = self.producer_pipes[n]
            self.nconnected.value+=1
        return pipe, n""", """        n = self.nconnected.value
        with self.nconnected.get_lock():
            pipe = self.producer_pipes[n]
            self.nconnected.value = n + 1
        return pipe, n""")],
    needs='two workers connecting at the same time: the second reads the counter while the first one holds the lock',
    breaks='both get the same connection slot, so two workers share one pipe',
    demo="""
import threading
class Slow(object):
    # a counter whose lock is given to the others while a thread waits for it
    def __init__(self):
        self.v, self.lock = 0, threading.Lock()
    def get_lock(self):
        time.sleep(0.3)
        return self.lock
    value = property(lambda s: s.v, lambda s, v: setattr(s, 'v', v))
m = core.RunManager.__new__(core.RunManager)
m.nconnected = Slow()
m.producer_pipes = ['a', 'b', 'c', 'd']
got = []
ts = [threading.Thread(target=lambda: got.append(m.connect_producer())) for _ in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
print(got)
sys.exit(len(set(got)) != 4)
""")

bug('c10-trajectory-before-constraint', 'C10', [(P, """        p, q, reflected = self.evolve_trajectory_one_step_momentum(p0.copy(), q0.copy(), logLmin, half = True)
        while (i < self.L):
            p, q            = self.evolve_trajectory_one_step_position(p, q)
            p, q, reflected = self.evolve_trajectory_one_step_momentum(p, q, logLmin, half = False)
            trajectory.append((q.copy(),p.copy()))
            i += 1
""", """        p, q, reflected = self.evolve_trajectory_one_step_momentum(p0.copy(), q0.copy(), logLmin, half = True)
        while (i < self.L):
            p, q            = self.evolve_trajectory_one_step_position(p, q)
            trajectory.append((q.copy(),p.copy()))
            p, q, reflected = self.evolve_trajectory_one_step_momentum(p, q, logLmin, half = False)
            i += 1
""")], also=['C40'],
    needs='a Hamiltonian move whose drawn point lies on the forward half of the trajectory',
    breaks='the point carries the log-likelihood of the step before it, so it may be accepted above a contour it is below',
    demo="""
class G(model.Model):
    names = ['x', 'y']
    bounds = [[-10.0, 10.0], [-10.0, 10.0]]
    def log_likelihood(self, p):
        return -0.5 * (p['x']**2 + p['y']**2)
    def force(self, p):
        return np.zeros(1, dtype={'names': p.names, 'formats': ['f8' for _ in p.names]})
np.random.seed(3)
m = G()
h = proposal.ConstrainedLeapFrog(model=m) if False else None
from cpnest.proposal import ConstrainedLeapFrog
h = ConstrainedLeapFrog(model=m)
ens = []
for _ in range(200):
    p = m.new_point()
    p.logL, p.logP = m.log_likelihood(p), m.log_prior(p)
    ens.append(p)
h.set_ensemble(ens)
for k in range(40):
    q = h.get_sample(ens[k].copy(), logLmin=-1000.0)
    if not np.isclose(q.logL, m.log_likelihood(q)):
        print('stale', q.logL, m.log_likelihood(q))
        sys.exit(1)
""")

bug('c11-prior-of-refused-point', 'C11', [(S, """                        oldparam = newparam.copy()
                        logp_old = newparam.logP
                        sub_accepted+=1
""", """                        oldparam = newparam.copy()
                        sub_accepted+=1
                    logp_old = newparam.logP
""")],
    needs='a prior that is not flat, and a proposal that passes the prior test but not the likelihood test, followed by another one',
    breaks='later proposals are compared with the prior of the refused point instead of that of the current one',
    demo="""
class G(model.Model):
    names = ['x']
    bounds = [[-10.0, 10.0]]
    def log_likelihood(self, p):
        return -100.0 if p['x'] == 1.0 else 1.0
    def log_prior(self, p):
        return -p['x'] if p['x'] < 2 else -3.0
sampler.random = lambda: 0.1
s = mh(G(), Scripted([pt(1.0), pt(2.0)]), maxmcmc=3)
s.Nmcmc = 2
start = pt(0.0, 0.0)
s.evolution_points.append(start)
n, p = next(s.yield_sample(0.0))
print(p)
sys.exit(p['x'] != 0.0)
""")

bug('c12-jacobian-read-first', 'C12', [(P, """        p = self.cycle[self.idx]
        new = p.get_sample(old,**kwargs)
        self.log_J = p.log_J
        return new

    def set_ensemble""", """        p = self.cycle[self.idx]
        self.log_J = p.log_J
        return p.get_sample(old,**kwargs)

    def set_ensemble""")], also=['C35'],
    needs='a jump with a Jacobian that changes from one use to the next (the stretch move)',
    breaks='the cycle reports the log-Jacobian of the previous use of the jump',
    demo="""
from cpnest.proposal import ProposalCycle, EnsembleStretch
st = EnsembleStretch()
c = ProposalCycle([st], [1.0])
ens = [p2(a, b) for a, b in ((1, 2), (3, -1), (0.5, 7), (-2, 4))]
c.set_ensemble(ens)
for k in range(20):
    old = ens[k % 4].copy()
    new = c.get_sample(old)
    if not np.isclose(c.log_J, st.log_J):
        print('reported', c.log_J, 'is', st.log_J)
        sys.exit(1)
""")

bug('c13-nudged-ties', 'C13', [(N, """        self.params.sort(key=attrgetter('logL'))
        for i,p in enumerate(self.params):
""", """        self.params.sort(key=attrgetter('logL'))
        for i,p in enumerate(self.params):
            # keep the integrator monotonic when there are ties
            if p.logL <= self.state.logLs[-1]:
                p.logL = np.nextafter(self.state.logLs[-1], inf)
""")], also=['C10', 'C04', 'C02'],
    needs='two final live points with the same log-likelihood',
    breaks='points that are already recorded get a log-likelihood that the model never returned',
    demo="""
m = Manager(1)
points = [pt(1.0), pt(2.0), pt(2.0), pt(2.0), pt(3.0)]
s = ns(points, m)
s.condition = -1.0
s.nested_sampling_loop()
bad = [p for p in s.nested_samples if p.logL != p['x']]
print(bad)
sys.exit(bool(bad))
""")

bug('c14-maximum-of-live-points', 'C14', [(N, """        state['llmax'] = self.logLmax.value
""", """        state['llmax'] = max([p.logL for p in self.params if p is not None] or [self.logLmax.value])
""")],
    needs='a worker that has seen a higher log-likelihood than any live point when the checkpoint is made',
    breaks='the resumed run starts from a smaller shared maximum, so its stopping condition differs',
    demo="""
m = Manager(1)
s = ns([pt(1.0), pt(2.0), pt(3.0)], m)
m.logLmax.value = 7.5
m.logLmin.value = 0.5
s.checkpoint()
n = Manager(1)
r = NS.NestedSampler.resume(s.resume_file, n, Model())
print(n.logLmax.value, n.logLmin.value)
sys.exit((n.logLmax.value, n.logLmin.value) != (7.5, 0.5))
""")

bug('c17-lambda-key', 'C17', [(N, """        super(OrderedLivePoints, self).__init__(live_points, key=attrgetter('logL'))""",
 """        super(OrderedLivePoints, self).__init__(live_points, key=lambda p: p.logL)""")],
    needs='a checkpoint of the nested sampler after the live points were drawn',
    breaks='the live points hold a function that cannot be pickled, so no checkpoint is ever written',
    demo="""
s = ns([pt(1.0), pt(2.0), pt(3.0)], Manager(1))
s.checkpoint()
r = NS.NestedSampler.resume(s.resume_file, Manager(1), Model())
sys.exit([p['x'] for p in r.params] != [1.0, 2.0, 3.0])
""")

bug('c18-slice-seeds-overlap', 'C18', [(C, "seed        = self.seed+nmhs+nhamiltonian+i,", "seed        = self.seed+nmhs+i,")],
    needs='a run with both Hamiltonian and slice workers',
    breaks='the slice workers repeat the seeds of the Hamiltonian ones',
    demo="""
class G(Model):
    def force(self, p):
        return np.zeros(1, dtype={'names': p.names, 'formats': ['f8']})
w = core.CPNest(G(), nlive=10, nthreads=4, nhamiltonian=1, nslice=2, output=scratch, poolsize=10, maxmcmc=10)
seeds = [p._target.__self__.seed for p in w.process_pool]
w.manager.shutdown()
print(seeds)
sys.exit(len(set(seeds)) != 4)
""")

bug('c19-insertion-indices-in-cwd', 'C19', [(N, """            np.savetxt(os.path.join(
                self.output_folder, filename),
                self.insertion_indices,""", """            np.savetxt(filename,
                self.insertion_indices,""")],
    needs='an output folder other than the working directory, and the final diagnostic',
    breaks='the file is written into the working directory and overwrites what lies there',
    demo="""
os.makedirs(os.path.join(scratch, 'work'))
os.makedirs(os.path.join(scratch, 'out'))
os.chdir(os.path.join(scratch, 'work'))
s = ns([pt(1.0), pt(2.0), pt(3.0)], Manager(1))
s.output_folder = os.path.join(scratch, 'out')
s.insertion_indices = [0.1, 0.5, 0.7]
s.check_insertion_indices(rolling=False, filename='insertion_indices.dat')
sys.exit(os.listdir(os.path.join(scratch, 'out')) != ['insertion_indices.dat'] or os.listdir('.') != [])
""")

bug('c20-prior-column-without-header', 'C20', [(M, """        line+='{0:20e}'.format(sample.logL)
""", """        line+='{0:20e}'.format(sample.logL)
        if sample.logP != 0:
            line+='{0:20e}'.format(sample.logP)
""")],
    needs='a model whose prior is not flat',
    breaks='the rows of the chain file have one column more than its header',
    demo="""
m = Manager(1)
a, b = pt(1.0), pt(2.0)
a.logP = b.logP = -1.5
s = ns([a, b], m)
s.nested_samples = [a, b]
s.write_chain_to_file()
rows = [l.split() for l in open(s.output_file)]
print(rows)
sys.exit(len(set(len(r) for r in rows)) != 1)
""")

bug('c21-chain-trimmed-for-acl', 'C21', [(S, """        samples = np.array([x.values for x in self.samples[-5*self.maxmcmc:]])
""", """        self.samples = self.samples[-5*self.maxmcmc:]
        samples = np.array([x.values for x in self.samples])
""")],
    needs='full verbosity and a chain longer than five times the longest move',
    breaks='the older part of the chain is thrown away, and is missing from the table of mcmc samples',
    demo="""
s = mh(Model(), Scripted([pt(1.0)]), verbose=3, maxmcmc=10)
np.random.seed(1)
s.samples = [pt(x) for x in np.random.normal(size=200)]
s.estimate_nmcmc()
print(len(s.samples))
sys.exit(len(s.samples) != 200)
""")

bug('c22-undefined-in-warning', 'C22', [(N, """self.logger.warn("Likelihood function returned NaN for params "+str(params))""",
 """self.logger.warn("Likelihood function returned NaN for params "+str(param))""")],
    needs='a likelihood that returns NaN for an initial live point',
    breaks='the warning raises NameError and ends the run',
    demo="""
import logging
if not hasattr(logging.Logger, 'warn'):
    logging.Logger.warn = logging.Logger.warning
b = pt(2.0, float('nan'))
m = Manager(1, {0: [reply(pt(1.0)), reply(b), reply(pt(3.0)), reply(pt(4.0))]})
s = NS.NestedSampler(Model(), nlive=3, manager=m, output=scratch, verbose=0)
try:
    s.reset()
except NameError as e:
    print(e)
    sys.exit(1)
""")

bug('c23-pickled-names-sorted', 'C23', [(L, """        return (rebuild_livepoint, (self.names,),self.__getstate__())""",
 """        return (rebuild_livepoint, (sorted(self.names),),self.__getstate__())""")],
    needs='parameters whose names are not in alphabetical order, and a point sent to another process',
    breaks='after a pickle round trip the coordinates belong to other names',
    demo="""
import pickle
p = LivePoint(['mass', 'distance', 'angle'], d=__import__('array').array('d', [1.0, 2.0, 3.0]))
q = pickle.loads(pickle.dumps(p))
print(p, q)
sys.exit(any(q[n] != p[n] for n in p.names) or q.names != p.names)
""")

bug('c24-length-of-first-run', 'C24', [(Q, "    Ns=[fracs[i]/len(datas[i]) for i in range(len(fracs))]", "    Ns=[fracs[i]/len(datas[0]) for i in range(len(fracs))]")],
    needs='two runs of different lengths drawn from together',
    breaks='the longer run contributes more than its evidence allows',
    demo="""
from cpnest import nest2pos
np.random.seed(5)
def run(n, tag):
    d = np.zeros(n, dtype=[('x', 'f8'), ('logL', 'f8')])
    d['x'] = tag
    d['logL'] = -1e-9 * np.arange(n, 0, -1)
    return d
a, b = run(1000, 1.0), run(4000, 2.0)
tot = [0, 0]
for _ in range(5):
    r = nest2pos.draw_posterior_many([a, b], [100, 100])
    tot[0] += int(sum(r['x'] == 1.0)); tot[1] += int(sum(r['x'] == 2.0))
# equal evidences: the shares of the draws must not depend on the lengths
la, wa = nest2pos.compute_weights(a['logL'], 100)
lb, wb = nest2pos.compute_weights(b['logL'], 100)
ea, eb = np.exp(wa - max(wa)).sum(), np.exp(wb - max(wb)).sum()
want = (np.exp(la)/1000*ea) / (np.exp(lb)/4000*eb)
got = tot[0] / float(tot[1])
print(tot, want, got)
sys.exit(not 0.7 < got/want < 1.4)
""")

bug('c25-new-point-gives-up', 'C25', [(M, """        logP=-inf
        while(logP==-inf):
            p = LivePoint""", """        logP=-inf
        tries=0
        while(logP==-inf and tries<1000):
            tries+=1
            p = LivePoint""")],
    needs='a prior whose support is a small part of the box, so that a thousand draws miss it',
    breaks='a point with zero prior is returned',
    demo="""
class Tiny(model.Model):
    names = ['x', 'y']
    bounds = [[0.0, 1.0], [0.0, 1.0]]
    n = 0
    def log_prior(self, p):
        self.n += 1
        return 0.0 if self.n > 1500 else -np.inf
Late(30)
m = Tiny()
p = m.new_point()
print(m.n)
sys.exit(m.n <= 1500)
""")

bug('c26-log-kept-after-error', 'C26', [(U, """    def __exit__(self, type, value, traceback):
        self.close()""", """    def __exit__(self, type, value, traceback):
        if type is None:
            self.close()""")],
    needs='an exception, or the exit of an interrupted run, inside the context',
    breaks='the handler stays attached and the file open',
    demo="""
import logging
from cpnest.utils import LogFile
f = LogFile(os.path.join(scratch, 'x.log'))
before = list(logging.getLogger('cpnest').handlers)
try:
    with f:
        raise SystemExit(130)
except SystemExit:
    pass
sys.exit(logging.getLogger('cpnest').handlers != before)
""")

bug('c27-likelihood-before-prior', 'C27', [(S, """                    newparam.logP = self.model.log_prior(newparam)

                    if newparam.logP > Yp:
                        # compute the new value of logL
                        newparam.logL = self.model.log_likelihood(newparam)
                        if newparam.logL > Y:
""", """                    newparam.logP = self.model.log_prior(newparam)
                    # compute the new value of logL
                    newparam.logL = self.model.log_likelihood(newparam)

                    if newparam.logP > Yp:
                        if newparam.logL > Y:
""")],
    needs='a slice worker whose interval reaches out of the bounds, and a likelihood that is undefined there',
    breaks='the user likelihood is called where the prior is zero',
    demo="""
class G(model.Model):
    names = ['x']
    bounds = [[0.0, 1.0]]
    def log_likelihood(self, p):
        if not 0 < p['x'] < 1:
            print('called at', p['x'])
            os._exit(1)
        return 1.0
class D(Scripted):
    def get_direction(self, mu=1.0):
        return np.array([5.0])
Late(60)
np.random.seed(2)
s = mh(G(), D([pt(0.5)]), cls='SliceSampler', maxmcmc=20)
s.mu, s.max_steps_out, s.max_slices, s.tuning_steps = 1.0, 20, 20, 0
s.samples = []
for k in range(10):
    s.evolution_points.append(pt(0.1 * k + 0.05, 1.0))
for k in range(10):
    next(s.yield_sample(0.0))
""")

bug('c28-pool-of-hamiltonian', 'C28', [(C, """                        output      = output,
                        poolsize    = poolsize,
                        seed        = self.seed+nmhs+i,
""", """                        output      = output,
                        seed        = self.seed+nmhs+i,
""")],
    needs='a Hamiltonian worker and a pool size other than the default of the samplers',
    breaks='the pool size chosen by the user is ignored by these workers',
    demo="""
class G(Model):
    def force(self, p):
        return np.zeros(1, dtype={'names': p.names, 'formats': ['f8']})
w = core.CPNest(G(), nlive=10, nthreads=3, nhamiltonian=1, nslice=1, output=scratch, poolsize=37, maxmcmc=10)
sizes = [p._target.__self__.poolsize for p in w.process_pool]
w.manager.shutdown()
print(sizes)
sys.exit(sizes != [37, 37, 37])
""")

bug('c29-needs-an-acceptance', 'C29', [(S, """                if (sub_counter >= self.Nmcmc and sub_accepted > 0 ) or sub_counter >= self.maxmcmc:
                    break
""", """                if sub_accepted > 0 and (sub_counter >= self.Nmcmc or sub_counter >= self.maxmcmc):
                    break
""")],
    needs='a contour so high that no proposal of a move is accepted',
    breaks='the move never ends, and the master waits for ever',
    demo="""
Late(20)
s = mh(Model(), Scripted([pt(1.0)]), maxmcmc=50)
s.evolution_points.append(pt(5.0))
n, p = next(s.yield_sample(4.0))
print(n, p)
sys.exit(n > 50)
""")

bug('c30-dropped-without-acceptance', 'C30', [(S, """            # Put sample back in the stack, unless that sample led to zero accepted points
            self.evolution_points.append(oldparam)

            self.sub_acceptance = float(sub_accepted)/float(sub_counter)
            self.mcmc_accepted += sub_accepted
            self.mcmc_counter += sub_counter
""", """            # Put sample back in the stack, unless that sample led to zero accepted points
            if sub_accepted > 0:
                self.evolution_points.append(oldparam)

            self.sub_acceptance = float(sub_accepted)/float(sub_counter)
            self.mcmc_accepted += sub_accepted
            self.mcmc_counter += sub_counter
""")],
    needs='moves without any accepted step, as many as there are points in the pool',
    breaks='the pool shrinks and finally an empty pool is popped',
    demo="""
Late(60)
s = mh(Model(), Scripted([pt(1.0)]), maxmcmc=5)
for k in range(4):
    s.evolution_points.append(pt(5.0 + k))
try:
    for k in range(10):
        next(s.yield_sample(100.0))
except IndexError as e:
    print(e)
    sys.exit(1)
sys.exit(len(s.evolution_points) != 4)
""")

bug('c32-same-ensemble-skipped', 'C32', [(P, """        by calling it on each :obj:`EnsembleProposal`
        \"\"\"
        self.ensemble=ensemble
""", """        by calling it on each :obj:`EnsembleProposal`
        \"\"\"
        if ensemble is self.ensemble:
            return # nothing to update
        self.ensemble=ensemble
""")],
    needs='the second and later updates of the ensemble, which pass the same pool object with other points in it',
    breaks='eigenvectors and covariances keep the values of the initial pool for the whole run',
    demo="""
from collections import deque
from cpnest.proposal import DefaultProposalCycle, EnsembleEigenVector
np.random.seed(1)
c = DefaultProposalCycle()
pool = deque([p2(a, b) for a, b in np.random.normal(size=(50, 2))], maxlen=50)
c.set_ensemble(pool)
for a, b in np.random.normal(size=(50, 2)):
    pool.append(p2(100*a, 0.01*b))
c.set_ensemble(pool)
e = [p for p in c.proposals if isinstance(p, EnsembleEigenVector)][0]
print(e.eigen_values)
sys.exit(bool(max(e.eigen_values) < 1000))
""")

bug('c35-random-entry', 'C35', [(P, """    def get_sample(self,old,**kwargs):
        # Call the current proposal and increment the index
        self.idx = (self.idx + 1) % self.N
""", """    def get_sample(self,old,**kwargs):
        # Call the current proposal and increment the index
        self.idx = np.random.randint(1, self.N) if self.N > 1 else 0
""")],
    needs='counting how often each entry of the cycle is used (entry 0 never is)',
    breaks='the entries are no longer used in turn, and the first one is never used',
    demo="""
from cpnest.proposal import ProposalCycle
np.random.seed(1)
class J(Scripted):
    pass
a, b, c = (J([pt(float(k))]) for k in range(3))
cy = ProposalCycle([a, b, c], [1., 1., 1.], cyclelength=6)
want = [p.points[0]['x'] for p in cy.cycle]
got = [cy.get_sample(pt(0.0))['x'] for _ in range(12)]
k = [got[i:i+6] == want[s:] + want[:s] for s in range(6) for i in (0,)]
print(want, got)
sys.exit(not any(k) or got[:6] != got[6:])
""")

bug('c36-mean-acl', 'C36', [(S, "        self.Nmcmc = int(np.max(ACL))", "        self.Nmcmc = int(np.mean(ACL))")],
    needs='parameters with different autocorrelation lengths',
    breaks='the chains are too short for the slowest parameter',
    demo="""
np.random.seed(1)
class G(Model):
    names = ['x', 'y']
    bounds = [[-1000., 1000.]] * 2
s = mh(G(), Scripted([p2(1.0, 1.0)]), maxmcmc=1000)
slow = np.cumsum(np.random.normal(size=3000))
s.samples = [p2(a, b) for a, b in zip(slow, np.random.normal(size=3000))]
want = int(sampler.acl(slow))
got = s.estimate_nmcmc()
print(want, got)
sys.exit(got != want)
""")

bug('c37-weights-before-shuffle', 'C37', [(Q, """    chain = chain[::ACL]
    np.random.shuffle(chain)
    # compute the normalised log posterior density
    logpost = chain['logL']+chain['logPrior']
""", """    chain = chain[::ACL]
    # compute the normalised log posterior density
    logpost = chain['logL']+chain['logPrior']
    np.random.shuffle(chain)
""")],
    needs='any chain: the weights stay in the old order while the rows are shuffled',
    breaks='rows are kept or dropped by the posterior of other rows',
    demo="""
from cpnest import nest2pos
bad = 0
nest2pos.uniform = lambda *a, **k: 1.0
for seed in range(5):
    np.random.seed(seed)
    d = np.zeros(200, dtype=[('x', 'f8'), ('logL', 'f8'), ('logPrior', 'f8')])
    d['x'] = np.random.normal(size=200)
    d['logL'] = d['x']
    np.random.seed(seed)
    r = nest2pos.resample_mcmc_chain(d.copy())
    np.random.seed(seed)
    c = d.copy()[::int(np.round(nest2pos.acl(d['x'])))]
    np.random.shuffle(c)
    want = [c['x'][0]] + [c['x'][i] for i in range(1, len(c)) if c['x'][i] > c['x'][i-1]]
    bad += list(r['x']) != want
print(bad)
sys.exit(bool(bad))
""")

bug('c38-clock-advanced-by-interval', 'C38', [(N, """                    self.checkpoint()
                    self.last_checkpoint_time = time.time()

                if (self.iteration""", """                    self.checkpoint()
                    self.last_checkpoint_time += self.manager.periodic_checkpoint_interval

                if (self.iteration""")],
    needs='a step of the nested sampler that takes several intervals',
    breaks='checkpoints are repeated in every following step until the clock has caught up',
    demo="""
class Clock(object):
    now = 0.0
    def time(self):
        return self.now
NS.time = clock = Clock()
m = Manager(1)
m.periodic_checkpoint_interval = 10.0
s = ns([pt(1.0), pt(2.0), pt(3.0)], m)
made = []
s.checkpoint = lambda: made.append(clock.now)
steps = iter([100.0, 101.0, 102.0, 103.0, 112.5, 113.0])
def step():
    try:
        clock.now = next(steps)
    except StopIteration:
        s.condition = -1.0
s.consume_sample = step
s.check_insertion_indices = lambda *a, **k: None
s.nested_sampling_loop()
print(made)
sys.exit(made != [100.0, 112.5])
""")

bug('c39-adapts-for-ever', 'C39', [(S, """            if self.mcmc_counter < self.tuning_steps:
                self.adapt_length_scale()
""", """            if sub_counter < self.tuning_steps:
                self.adapt_length_scale()
""")],
    needs='a slice worker that has made more than ten steps per point of its pool',
    breaks='the length scale goes on changing with the chain, which is then no longer a Markov chain with the wanted distribution',
    demo="""
class G(model.Model):
    names = ['x']
    bounds = [[0.0, 1.0]]
    def log_likelihood(self, p):
        return 1.0
class D(Scripted):
    def get_direction(self, mu=1.0):
        return np.array([0.1 * mu])
Late(60)
np.random.seed(2)
s = mh(G(), D([pt(0.5)]), cls='SliceSampler', maxmcmc=20)
s.mu, s.max_steps_out, s.max_slices, s.tuning_steps = 1.0, 20, 20, 100
s.samples = []
s.mcmc_counter = 1000
for k in range(10):
    s.evolution_points.append(pt(0.1 * k + 0.05, 1.0))
for k in range(10):
    next(s.yield_sample(0.0))
print(s.mu)
sys.exit(s.mu != 1.0)
""")

bug('c40-backward-half-shared', 'C40', [(P, """            trajectory.append((q.copy(),p.copy()))
            i += 1
#            if i""", """            trajectory.append((q,p.copy()))
            i += 1
#            if i""")], also=['C10', 'C13'],
    needs='a Hamiltonian move whose drawn point lies on the backward half of the trajectory',
    breaks='every point of that half is the last one reached, with the momenta of others',
    demo="""
from cpnest.proposal import ConstrainedLeapFrog
class G(model.Model):
    names = ['x', 'y']
    bounds = [[-10.0, 10.0], [-10.0, 10.0]]
    def log_likelihood(self, p):
        return -0.5 * (p['x']**2 + p['y']**2)
    def force(self, p):
        return np.zeros(1, dtype={'names': p.names, 'formats': ['f8' for _ in p.names]})
np.random.seed(3)
m = G()
h = ConstrainedLeapFrog(model=m)
ens = []
for _ in range(200):
    p = m.new_point()
    p.logL, p.logP = m.log_likelihood(p), m.log_prior(p)
    ens.append(p)
h.set_ensemble(ens)
seen = []
h.sample_trajectory = lambda t: seen.append(t) or t[1]
h.get_sample(ens[0].copy(), logLmin=-1000.0)
xs = [q['x'] for q, p in seen[0]]
print(len(xs), len(set(xs)))
sys.exit(len(set(xs)) < len(xs))
""")
