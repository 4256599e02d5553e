PRELUDE = '''
import os, sys, shutil, tempfile, time, signal
import numpy as np
scratch = tempfile.mkdtemp(prefix='cpnest-demo.')
import atexit
atexit.register(shutil.rmtree, scratch, True)
import cpnest
from cpnest import NestedSampling as NS, parameter, model, sampler, cpnest as core
from cpnest.parameter import LivePoint


class Value(object):
    def __init__(self, v):
        self.value = v
    def get_lock(self):
        return self
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass


def pt(x, logL=None):
    p = LivePoint(['x'], d=__import__('array').array('d', [x]))
    p.logL = x if logL is None else logL
    p.logP = 0.0
    return p


class Model(model.Model):
    names = ['x']
    bounds = [[-1000.0, 1000.0]]
    def log_likelihood(self, p):
        return p['x']


class Pipe(object):
    """stands for one end of the connection between master and worker"""
    def __init__(self, replies=()):
        self.sent, self.replies = [], list(replies)
    def send(self, x):
        self.sent.append(x)
    def poll(self, *a):
        return bool(self.replies)
    def recv(self):
        r = self.replies.pop(0)
        if isinstance(r, BaseException):
            raise r
        return r


class Manager(object):
    def __init__(self, n, replies=None):
        self.nthreads = n
        self.consumer_pipes = [Pipe((replies or {}).get(i, ())) for i in range(n)]
        self.logLmin, self.logLmax = Value(-np.inf), Value(-np.inf)
        self.checkpoint_flag = Value(0)
        self.periodic_checkpoint_interval = np.inf
        self.nconnected = 0
    def connect_producer(self):
        return self.pipe, 0


def reply(p):
    return (0.5, 0.5, 10, p)


def ns(points, manager, **k):
    s = NS.NestedSampler(Model(), nlive=len(points), manager=manager, output=scratch, verbose=0, **k)
    s.params = NS.OrderedLivePoints(points)
    s.initialised = True
    return s

'''
BUGS = []
def bug(id, property, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
N = 'cpnest/NestedSampling.py'
S = 'cpnest/sampler.py'
C = 'cpnest/cpnest.py'

bug('c01-stale-contour-after-rejection', 'C01', [(N, '''                if proposed.logL > self.logLmin.value:
''', '''                if proposed.logL > (logLmin if loops == 1 else logLtmp[k]):
''')], 'two or more workers and a proposal that was refused once', 'after a refusal the retry is compared with the point it was evolved from instead of the contour of the step, so a point below the contour can be admitted', '''
m = Manager(2, {0: [reply(pt(0.5)), reply(pt(1.5))], 1: [reply(pt(30.0))]})
# queue starts at pipe 0; refused once, then a point above its own parent but below the contour
m.consumer_pipes[0].replies = [reply(pt(0.5)), reply(pt(1.5)), reply(pt(40.0))]
m.consumer_pipes[1].replies = [reply(pt(0.5)), reply(pt(1.5)), reply(pt(41.0))]
s = ns([pt(1.0), pt(2.0), pt(3.0), pt(4.0)], m)
s.consume_sample()
low = [p.logL for p in s.params if p.logL <= 2.0]
assert not low, 'admitted below the contour: %s' % low
''')
bug('c02-worst-capped', 'C02', [(N, '''        self.worst = np.arange(n)
''', '''        self.worst = np.arange(min(n, self.Nlive//2))
''')], 'more workers than half the number of live points', 'fewer points are replaced than are removed, the live set shrinks', '''
m = Manager(3, {i: [reply(pt(10.0 + i))] for i in range(3)})
s = ns([pt(float(i)) for i in range(4)], m)
s.consume_sample()
assert len(s.params) == 4, 'live points left: %d' % len(s.params)
''')
bug('c03-search-from-second', 'C03', [(N, '''        return bisect.bisect(self._keys, self._key(item))
''', '''        # the first entry is the one being replaced, never look before it
        return bisect.bisect(self._keys, self._key(item), min(1, len(self._keys)))
''')], 'an insertion below the smallest entry', 'an item smaller than every entry is inserted in second place, the list is no longer sorted', '''
l = NS.KeyOrderedList([3.0, 5.0])
l.add(1.0)
assert list(l) == sorted(l), list(l)
assert l._keys == list(l)
''')
bug('c04-skip-plateau-increment', 'C04', [(N, '''            self.logger.warning('NS integrator received non-monotonic logL. {0:.5f} -> {1:.5f}'.format(self.logLs[-1], logL))
''', '''            self.logger.warning('NS integrator received non-monotonic logL. {0:.5f} -> {1:.5f}'.format(self.logLs[-1], logL))
            logL = self.logLs[-1] if nlive is None else logL
            nreplace = nreplace if np.isfinite(logL) else 0
''')], 'a first discarded point whose log-likelihood is minus infinity, i.e. an initial live point in a region of zero likelihood', 'the prior volume is not reduced for discarded points of zero likelihood', '''
st = NS._NSintegralState(10)
st.increment(-np.inf, nreplace=2)
assert abs(st.logw + 0.2) < 1e-12, st.logw
''')
bug('c05-tolerance-from-manager-equality', 'C05', [(N, '''            while self.condition > self.tolerance:
''', '''            while self.condition >= self.tolerance:
''')], 'a remaining evidence that is exactly the tolerance, e.g. tolerance 0 once the estimate underflows to 0', 'sampling goes on although the estimate does not exceed the tolerance', '''
m = Manager(1)
s = ns([pt(1.0), pt(2.0)], m, stopping=0.0)
s.condition = 0.0
s.state.logZ = 0.0
calls = []
def consume():
    calls.append(1)
    s.condition = -1.0
s.consume_sample = consume
s.nested_sampling_loop()
assert not calls, 'sampled %d more steps' % len(calls)
''')
bug('c06-no-reply-for-exhausted-walk', 'C06', [(S, '''                self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))
''', '''                if Nmcmc <= self.maxmcmc:
                    self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))
''')], 'a slice walk that runs through its whole budget of steps (it then reports one step more than the maximum)', 'the worker sends no reply for a request and the master waits forever', '''
m = Manager(1)
m.pipe = Pipe([pt(1.0), None])
w = sampler.MetropolisHastingsSampler(Model(), 10, manager=m, output=scratch, poolsize=8, seed=1, resume_file=os.path.join(scratch, 'r.pkl'))
w.initialised = True
w.mcmc_counter = 1
def walk(logLmin):
    while True:
        yield 11, pt(0.0)      # budget exhausted
w.yield_sample = walk
w.produce_sample()
assert len(m.pipe.sent) == 1, 'replies: %d' % len(m.pipe.sent)
''')
bug('c07-stop-only-idle-workers', 'C07', [(N, '''        # Signal worker threads to exit
        self.logLmin.value = np.inf
        for c in self.manager.consumer_pipes:
            c.send(None)
''', '''        # Signal worker threads to exit
        for c in self.manager.consumer_pipes[self.queue_counter:]:
            c.send(None)
        self.logLmin.value = np.inf
''')], 'several workers and a run that ends when the turn is not with the first of them', 'some workers get no stop message', '''
m = Manager(3)
s = ns([pt(1.0), pt(2.0), pt(3.0)], m)
s.condition = -1.0
s.queue_counter = 2
s.nested_sampling_loop()
assert all(p.sent and p.sent[-1] is None for p in m.consumer_pipes), [p.sent for p in m.consumer_pipes]
''')
bug('c08-nothing-to-save-yet', 'C08', [(N, '''        except CheckPoint:
            self.checkpoint()
''', '''        except CheckPoint:
            if self.iteration > 0:
                self.checkpoint()
''')], 'a signal during the first step', 'the workers are told to save and exit while the nested sampler saves nothing', '''
m = Manager(1)
def interrupted(x):
    if x != 'checkpoint':
        raise core.CheckPoint()
m.consumer_pipes[0].send = interrupted
s = ns([pt(1.0), pt(2.0), pt(3.0)], m)
try:
    s.nested_sampling_loop()
except SystemExit as e:
    assert e.code == 130
assert os.path.exists(s.resume_file), 'nested sampler state was not saved'
''')
bug('c16-checkpoint-inside-step', 'C16', [(N, '''        # Reversed since the for the first point the current number of
''', '''        if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
            self.checkpoint()
            self.last_checkpoint_time = time.time()
        # Reversed since the for the first point the current number of
'''), (N, '''                if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
                    self.checkpoint()
                    self.last_checkpoint_time = time.time()

                if (self''', '''                if (self''')], 'a periodic checkpoint', 'the checkpoint holds discarded points that are still in the live set', '''
m = Manager(1, {0: [reply(pt(10.0))]})
m.periodic_checkpoint_interval = -1.0
s = ns([pt(1.0), pt(2.0), pt(3.0)], m)
seen = []
def cp():
    seen.append((len(s.params), set(id(p) for p in s.params) & set(id(p) for p in s.nested_samples), len(s.insertion_indices), len(s.nested_samples)))
s.checkpoint = cp
def stop(real=s.consume_sample):
    real()
    s.condition = -1.0
s.consume_sample = stop
s.nested_sampling_loop()
assert seen
for n, both, a, b in seen:
    assert n == 3 and not both and a == b, seen
''')
bug('c33-chain-before-last-points', 'C33', [(N, '''        # final adjustments
''', '''        # output the chain
        self.write_chain_to_file()
        # final adjustments
'''), (N, '''        # output the chain and evidence
        self.write_chain_to_file()
''', '''        # output the evidence
''')], 'any completed run; seen only in the number of rows', 'the chain file lacks the final live points', '''
m = Manager(1)
s = ns([pt(1.0), pt(2.0), pt(3.0)], m)
s.condition = -1.0
s.nested_sampling_loop()
rows = open(s.output_file).read().splitlines()[1:]
assert len(rows) == len(s.nested_samples) == 3, len(rows)
''')
bug('c34-common-denominator', 'C34', [(N, '''                    self.insertion_indices.append((index - nreplace) / (self.Nlive - k - 1))
''', '''                    self.insertion_indices.append((index - nreplace) / (self.Nlive - nreplace))
''')], 'more than one worker', 'later insertions of a step are ranked against more points than they are divided by: indices above 1', '''
m = Manager(2, {0: [reply(pt(11.0))], 1: [reply(pt(12.0))]})
s = ns([pt(1.0), pt(2.0), pt(3.0)], m)
s.consume_sample()
assert all(0 <= i <= 1 for i in s.insertion_indices), s.insertion_indices
''')
