"""C17: everything reachable from a checkpointed object can be serialised."""
import ast
from .common import *
from .c14 import Restored, params
from ..engine import State, TooComplex
from ..library import dictterm, dictlookup

EXPLANATION = ('Every method of the checkpointed classes (nested sampler, evidence state, live-point list, samplers, all proposals) and the code that constructs them is executed symbolically with a hook on attribute stores; '
               'the kind of every value stored in an attribute, or put into a container an attribute holds, is determined. An attribute that may be a generator, lambda or local function, lock, pipe, shared value, manager, file, process, '
               'the user model or one of its methods must be removed or replaced in the state __getstate__ returns. Attributes that hold an instance of another package class make that class checkpointed too.')
TECHNIQUE = 'static analysis: abstract interpretation of all attribute stores with a value-kind lattice, checked against the symbolic result of __getstate__'
S, N, F = 'cpnest/sampler.py', 'cpnest/NestedSampling.py', 'cpnest/proposal.py'
MUTANTS = [
    (N, "        del state['model']\n", ""),
    (N, "        del state['logLmin']\n", ""),
    (N, "        del state['logLmax']\n", ""),
    (N, "        del state['manager']\n", ""),
    (N, "        nreplace = len(self.manager.consumer_pipes)\n", "        self.pipes = self.manager.consumer_pipes\n        nreplace = len(self.pipes)\n"),
    (S, "        del state['model']\n", ""),
    (S, "        del state['logLmin']\n", ""),
    (S, "        del state['logLmax']\n", ""),
    (S, "        del state['manager']\n", ""),
    (S, "        del state['producer_pipe']\n", ""),
    (N, "        self._key = key", "        self._key = lambda p: key(p)"),
    (S, "        self.initialised        = False\n", "        self.initialised        = False\n        self.metropolis     = self.yield_sample(-np.inf)\n"),
    (S, "        self.initialised        = False\n", "        self.initialised        = False\n        self.on_move        = lambda p: p.logL\n"),
    (S, "        self.initialised        = False\n", "        self.initialised        = False\n        self.evaluate       = model.log_likelihood\n"),
    (S, "        self.initialised        = False\n", "        self.initialised        = False\n        self.likelihood     = getattr(model, 'log_likelihood')\n"),
    (S, "        self.initialised        = False\n", "        self.initialised        = False\n        self.flag           = self.manager.checkpoint_flag\n"),
    (F, "        for name in ('V', 'dV', 'log_likelihood'):", "        for name in ('V', 'dV'):"),
    (F, "        self.prior_bounds   = model.bounds\n", "        self.prior_bounds   = model.bounds\n        self.in_bounds      = model.in_bounds\n"),
    (F, "        self.prior_bounds   = model.bounds\n", "        self.prior_bounds   = model.bounds\n        self.model          = model\n"),
    (F, "        self.normal = []\n", "        self.normal = []\n        self.hooks = [lambda x: -x]\n"),
    (F, "#            self.normal.append(lambda x: -x)", "            self.normal.append(lambda x: -x)"),
    (F, "        proposals = [ConstrainedLeapFrog(model=model)]\n", "        proposals = [ConstrainedLeapFrog(model=model)]\n        self.model = model\n"),
    (N, "        self.log_vols = [0.0]", "        self.out = open('evidence.log','a')\n        self.log_vols = [0.0]"),
    (N, "        self.rolling_p      = []", "        self.rolling_p      = (x for x in self.insertion_indices)"),
    ('cpnest/cpnest.py', "                p = mp.Process(target=sampler.produce_sample)\n", "                p = mp.Process(target=sampler.produce_sample)\n                sampler.process = p\n"),
    ('cpnest/cpnest.py', "            self.nested_samples = self.get_nested_samples(filename=None)\n", "            self.nested_samples = self.get_nested_samples(filename=None)\n"),
    ('cpnest/cpnest.py', "            nmhs = self.nthreads-nhamiltonian-nslice\n", "            nmhs = self.nthreads-nhamiltonian-nslice\n            self.NS.workers = self.process_pool\n"),
]
MUTANTS = [m for m in MUTANTS if m[1] != m[2]]
HEAVY = ('yield_sample', 'reset', 'produce_sample', '_produce_sample', 'get_sample', 'nested_sampling_loop', 'consume_sample')
TYPES = {'lock': 'a lock', 'pipe': 'a pipe end', 'mpvalue': 'a shared value', 'process': 'a process', 'file': 'an open file', 'usermodel': 'the user model', 'cpnest.RunManager': 'the manager of the run',
         'utils.LogFile': 'the log file', 'cpnest.CPNest': 'the run itself'}
UNSAFE_EXT = ('threading.Lock', 'threading.RLock', 'threading.Thread', 'threading.Event', 'threading.Condition', 'multiprocessing.Pool', 'multiprocessing.Queue', 'multiprocessing.Lock', 'socket.socket', 'weakref.ref')
MAKERS = ('list', 'tuple', 'cat', 'fill', 'set')


class Kinds(object):
    """what a value is, as far as serialising it goes"""

    def __init__(self, P):
        self.P = P
        self.model = P.cls('model.Model')

    def bad(self, eng, st, v, seen=()):
        """description of why the value cannot be serialised, or None"""
        if not is_term(v) or v in seen or len(seen) > 12:
            return None
        seen = seen + (v,)
        op = v.op
        if op == 'closure':
            return 'a lambda or local function'
        if op == 'gen':
            return 'a generator'
        if op == 'lock':
            return 'a lock'
        if op == 'tqdm':
            return 'a progress bar'
        if op == 'module' or op == 'extmod':
            return 'a module'
        t = eng.typ(v)
        if isinstance(t, str) and t in TYPES:
            return TYPES[t]
        if isinstance(t, tuple) and len(t) == 2 and t[1] in TYPES and op in ('fld', 'sym', 'ref'):
            return 'a collection with ' + TYPES[t[1]]
        if op in ('fld', 'sym') and eng.elemtype(v) in TYPES:
            return 'a collection with ' + TYPES[eng.elemtype(v)]
        if op in ('fld', 'extbound') and eng.typ(v.args[0]) == 'usermodel' and isinstance(v.args[1], str) and (self.model.find(v.args[1]) or ('',))[0] == 'method':
            return 'the method %s of the user model' % v.args[1]
        if op == 'extbound' and op:
            k = self.bad(eng, st, v.args[0], seen)
            return 'a method of ' + k if k else None
        if op == 'bound':
            k = self.bad(eng, st, v.args[0], seen)
            return 'a method of ' + k if k else None
        if op == 'partial':
            for a in (v.args[0],) + tuple(v.args[1].args):
                k = self.bad(eng, st, a, seen)
                if k:
                    return 'a partial of ' + k
            return None
        if op == 'call' and v.args and isinstance(v.args[0], str) and v.args[0] in UNSAFE_EXT:
            return 'a ' + v.args[0]
        if op == 'ite':
            return self.bad(eng, st, v.args[1], seen) or self.bad(eng, st, v.args[2], seen)
        if op == 'ref':
            # containers; the attributes of package objects are looked at in their own class
            if eng.classinfo(v) is not None:
                return None
            for key in ('$c', '$d'):
                c = st.heap.get((v, key))
                if is_term(c):
                    k = self.inside(eng, st, c, seen)
                    if k:
                        return k
            return None
        if op in MAKERS or op in ('dictset', 'map', 'store', 'storemap', 'dict'):
            return self.inside(eng, st, v, seen)
        return None

    def inside(self, eng, st, c, seen):
        if not is_term(c):
            return None
        if c.op in MAKERS:
            for a in c.args:
                if is_term(a):
                    k = self.inside(eng, st, a, seen) if a.op in MAKERS else self.bad(eng, st, a, seen)
                    if k:
                        return k if k.startswith('a collection') else 'a collection with ' + k
        if c.op in ('dictset', 'store', 'storemap', 'map', 'dict'):
            for a in c.args:
                if is_term(a):
                    k = self.bad(eng, st, a, seen)
                    if k:
                        return k if k.startswith('a collection') else 'a collection with ' + k
        return None


def genexps(P, fi):
    """generator expressions that are themselves stored or returned"""
    out = []
    for n in ast.walk(fi.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.Return, ast.AugAssign)) and isinstance(n.value, ast.GeneratorExp):
            out.append(n)
    return out


class Stores(object):
    """every value an attribute of a class may get"""

    def __init__(self, P, R):
        self.P, self.R = P, R
        self.kinds = Kinds(P)
        self.found = {}          # (class, attr) -> {description: where}
        self.seen = set()        # (class, attr)
        self.holds = {}          # class -> classes its attributes may be instances of
        self.covered = set()     # (file, line) of stores evaluated
        self.failed = []

    def hook(self, owner):
        def h(eng, st, base, name, v, node):
            ci = owner if base is owner.me else eng.classinfo(base)
            if ci is None and base is owner.made:
                ci = owner.ci
            if ci is owner:
                ci = owner.ci
            if ci is None and base.op == 'fld' and base.args[0] in (owner.me, owner.made) and eng.typ(base) in (None, 'proposal'):
                # an object of unknown class that an attribute holds
                where = '%s:%d' % (eng.frames[-1].fi.module.relpath if eng.frames else '', getattr(node, 'lineno', 0))
                k = self.kinds.bad(eng, st, v)
                if k:
                    self.found.setdefault((owner.ci.qual, base.args[1]), {}).setdefault('an object that holds ' + k, where)
                return
            if ci is not None and not isinstance(ci, str):
                self.store(eng, st, ci, name, v, '%s:%d' % (eng.frames[-1].fi.module.relpath if eng.frames else '', getattr(node, 'lineno', 0)))
        return h

    def store(self, eng, st, ci, name, v, where):
        self.seen.add((ci.qual, name))
        self.covered.add(where)
        k = self.kinds.bad(eng, st, v)
        if k is None and v.op in ('map', 'filtermap') and eng.typ(v) in (None, 'seq'):
            if any(genexps(self.P, fi) for fi in self.functions(eng)):
                k = 'a generator'
        if k:
            self.found.setdefault((ci.qual, name), {}).setdefault(k, where)
        c = eng.classinfo(v) if v.op == 'ref' else None
        if c is not None and not isinstance(c, str):
            self.holds.setdefault(ci.qual, set()).add(c.qual)
        elif v.op == 'ref':
            for x in subterms(eng.val(st, v)):
                c = eng.classinfo(x) if x.op == 'ref' else None
                if c is not None and not isinstance(c, str):
                    self.holds.setdefault(ci.qual, set()).add(c.qual)

    def functions(self, eng):
        return [fr.fi for fr in eng.frames]

    def method(self, ci, name, fi, depth=()):
        owner = Owner()
        owner.ci, owner.me, owner.made = ci, None, None
        stubs = {}
        for c in ci.mro():
            if isinstance(c, str):
                continue
            for m in c.methods:
                if m != name and m in HEAVY:
                    stubs[c.name + '.' + m] = skip
                    stubs['next:' + c.name + '.' + m] = skipnext
        hk = {'setattr': self.hook(owner), 'purecalls': True}
        W = World(self.P, hooks=hk, stubs=stubs)

        def unp(eng, st, f, node):
            u = eng.new(ci.qual)
            owner.made = u
            return u
        W.eng.hooks['unpickle'] = unp
        me = W.instance(ci)
        owner.me = me
        a = fi.node.args.args
        args = [W.param(x.arg, ARGS.get(x.arg)) for x in a[(0 if fi.is_static else 1):]]
        with self.R.guard('stores', '%s.%s' % (ci.name, name)):
            if name == '__init__':
                outs = [(st, me2) for st, me2 in W.eng.instantiate(State(), ci, args, {}, None)]
                for st, me2 in outs:
                    self.final(W.eng, st, ci, me2, fi)
            else:
                outs = W.run(ci, name, None if fi.is_class else me, args)
                for o in outs:
                    self.final(W.eng, o.state, ci, me, fi)
                    self.mutations(W.eng, o.state, ci, me, o.trace)
            self.R.covers(W.eng)
            return True
        self.failed.append((ci, fi))

    def final(self, eng, st, ci, me, fi):
        where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
        for (ob, nm), v in list(st.heap.items()):
            if not isinstance(nm, str) or not is_term(v):
                continue
            c = None
            if ob is me and not nm.startswith('$'):
                c, name = ci, nm
            elif nm in ('$c', '$d') and ob.op == 'fld' and ob.args[0] is me:
                c, name = ci, ob.args[1]
            elif ob.op == 'ref' and not nm.startswith('$'):
                c, name = eng.classinfo(ob), nm
            if c is None or isinstance(c, str):
                continue
            k = self.kinds.bad(eng, st, v) or self.kinds.inside(eng, st, v, ())
            if k:
                self.found.setdefault((c.qual, name), {}).setdefault(k, where)

    def mutations(self, eng, st, ci, me, trace):
        """values put into containers that attributes hold"""
        held = {}
        for (ob, nm), v in st.heap.items():
            if isinstance(nm, str) and not nm.startswith('$') and is_term(v) and v.op == 'ref':
                c = ci if ob is me else eng.classinfo(ob)
                if c is not None and not isinstance(c, str):
                    held.setdefault(v, []).append((c.qual, nm))
        for e, l in events(trace, 'mut'):
            if e.a['name'] in ('sort', 'sorted'):
                continue            # the key is not kept
            ob = e.a['obj']
            at = list(held.get(ob, ()))
            if ob.op == 'fld' and ob.args[0] is me:
                at.append((ci.qual, ob.args[1]))
            if not at:
                continue
            for v in e.a['args']:
                if is_term(v):
                    k = self.kinds.bad(eng, st, v)
                    if k:
                        for q in at:
                            self.found.setdefault(q, {}).setdefault('a collection with ' + k, e.loc)


class Owner(object):
    pass


def skip(eng, st, fi, args, kwargs, node):
    if fi.is_generator:
        g = mk('gen', fi.qual, next(T._uid))
        eng.gens[g] = (fi, args, kwargs)
        return [(st, g)]
    v = fresh('skipped')
    if fi.name == 'get_sample':
        eng.settype(v, LP)
    return [(st, v)]


def skipnext(eng, st, fi, args, kwargs, node):
    n, p = fresh('count'), fresh('point')
    eng.settype(n, 'number')
    eng.settype(p, LP)
    return [(st, mk('tuple', n, p))]


ARGS = {'q0': LP, 'old': LP, 'oldparam': LP, 'manager': 'cpnest.RunManager', 'model': 'usermodel', 'usermodel': 'usermodel', 'user': 'usermodel', 'filename': 'str', 'resume_file': 'str'}


def methods(ci):
    seen = set()
    for c in ci.mro():
        if isinstance(c, str):
            continue
        for nm, fi in list(c.methods.items()) + list(c.setters.items()):
            if nm not in seen:
                seen.add(nm)
                yield nm, fi


def check(P, R, tier):
    X = Stores(P, R)
    base = P.cls('proposal.Proposal')
    classes = [P.cls(NS)] + list(concrete_samplers(P)) + [base] + list(P.subclasses(base))
    todo, done = list(classes), []
    while todo:
        ci = todo.pop(0)
        if ci in done or ci.module.is_cython:
            continue
        done.append(ci)
        for nm, fi in methods(ci):
            if nm in ('__getstate__', '__setstate__', '__reduce__'):
                continue
            X.method(ci, nm, fi)
            for n in genexps(P, fi):
                for x in getattr(n, 'targets', [getattr(n, 'target', None)]):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and fi.node.args.args and x.value.id == fi.node.args.args[0].arg:
                        X.found.setdefault((ci.qual, x.attr), {}).setdefault('a generator', '%s:%d' % (fi.module.relpath, n.lineno))
        for q in sorted(X.holds.get(ci.qual, ())):
            c = P.cls(q)
            if c not in done:
                todo.append(c)
    outside(P, R, X)
    saved = {}
    for ci in done:
        G = ci.name
        names = sorted({a for (q, a) in X.seen if q == ci.qual} | {a for (q, a) in X.found if q == ci.qual})
        where = '%s:%d' % (ci.module.relpath, ci.node.lineno)
        if any(m in c.methods for c in ci.mro() if not isinstance(c, str) for m in ('__reduce__', '__reduce_ex__')):
            R.undet('state', G, 'a reduction of its own', where)
            continue
        with R.guard('state', G):
            states = saved_state(P, ci)
            for a in names:
                bad = dict(X.found.get((ci.qual, a), {}))
                for c in ci.mro():
                    if not isinstance(c, str):
                        bad.update(X.found.get((c.qual, a), {}))
                if not bad:
                    R.ok('state', G, 'self.%s can be serialised' % a, where)
                    continue
                what, at = sorted(bad.items())[0]
                for me, d, eng, st in states:
                    v = dictlookup(d, s(a)) if d is not None else mk('fld', me, a)
                    if v is None and d is not None and d.op == 'objdict':
                        v = mk('fld', me, a)
                    if v is False:
                        R.ok('state', G, 'self.%s (%s) is left out of the saved state' % (a, what), at)
                    elif v is None:
                        R.undet('state', G, 'self.%s (%s) in the saved state' % (a, what), at)
                    elif v is mk('fld', me, a):
                        R.violation('state', G, 'self.%s may be %s, and is part of the saved state' % (a, what), at)
                    else:
                        k = X.kinds.bad(eng, st, v) if eng is not None else None
                        R.verdict(False if k else True, 'state', G, 'self.%s (%s) is replaced in the saved state' % (a, what), 'self.%s is %s in the saved state' % (a, k), at)
        R.count('attributes', len(names))
    R.count('classes', len(done))
    missed(P, R, X, done)


def saved_state(P, ci):
    get = ci.find('__getstate__')
    if not get or get[0] != 'method':
        W = World(P)
        return [(W.instance(ci), None, None, None)]
    W = World(P, hooks={'purecalls': True})
    me = W.instance(ci)
    out = []
    for o in W.run(ci, '__getstate__', me, []):
        if o.kind == 'return':
            out.append((me, dictterm(W.eng, o.state, o.value), W.eng, o.state))
    return out


def outside(P, R, X):
    """attributes of checkpointed objects that other code assigns"""
    owner = Owner()
    owner.ci = owner.me = owner.made = None
    for q, meth in (('cpnest.CPNest', '__init__'), ('cpnest.CPNest', 'run')):
        with R.guard('stores', q + '.' + meth):
            ci = P.cls(q)
            fi = P.method(ci, meth)
            if not any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == fi.node.args.args[0].arg) for n in ast.walk(fi.node)):
                R.ok('stores', q + '.' + meth, 'assigns attributes of its own object only', '%s:%d' % (fi.module.relpath, fi.node.lineno))
                continue
            stubs = {}
            for c in [P.cls(NS)] + list(concrete_samplers(P)):
                for d in c.mro():
                    if not isinstance(d, str):
                        for m in HEAVY + ('resume',):
                            if m in d.methods:
                                stubs[d.name + '.' + m] = skip
            W = World(P, hooks={'setattr': X.hook(owner), 'purecalls': True}, stubs=stubs)
            me = W.instance(ci)
            args = [W.param(x.arg, ARGS.get(x.arg)) for x in fi.node.args.args[1:]]
            for o in W.run(ci, meth, me, args):
                X.mutations(W.eng, o.state, ci, me, o.trace)


def missed(P, R, X, done):
    """stores the execution did not reach"""
    for ci in done:
        for nm, fi in methods(ci):
            if nm in ('__getstate__', '__setstate__') or not fi.node.args.args:
                continue
            me = fi.node.args.args[0].arg
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me and n.attr != '__dict__':
                    if not any((c.qual, n.attr) in X.seen for c in [ci] + [c for c in ci.mro() if not isinstance(c, str)]):
                        R.undet('stores', '%s.%s' % (ci.name, nm), 'self.%s is assigned where the analysis does not get' % n.attr, '%s:%d' % (fi.module.relpath, n.lineno))
