"""C14: restoring a checkpoint gives back the state that was saved."""
import ast
from .common import *
from ..engine import State
from ..library import dictterm, dictlookup
from . import c23

EXPLANATION = ('What __getstate__ puts into the saved state, __setstate__ makes of it and resume does with the restored object are composed symbolically: for every attribute that any method of the class assigns, the value after resuming is '
               'derived as a term over the attributes of the saved object and the arguments of resume. Persistent attributes must come back as the saved ones; attributes the constructor takes from the manager or the model must be those of the new run, '
               'built the same way as the constructor builds them; the shared contour and maximum must get the saved values; no attribute that any code reads may be missing. A restored object is not initialised again.')
S, N, F = 'cpnest/sampler.py', 'cpnest/NestedSampling.py', 'cpnest/proposal.py'
MUTANTS = [
    (N, "        del state['logger']\n        return state", "        del state['logger']\n        del state['insertion_indices']\n        return state"),
    (N, "        del state['logger']\n        return state", "        del state['logger']\n        state['rolling_p'] = []\n        return state"),
    (N, "        obj.logLmin.value = obj.llmin\n", ""),
    (N, "        obj.logLmin.value = obj.llmin\n", "        obj.logLmin.value = obj.llmax\n"),
    (N, "        obj.logLmax.value = obj.llmax\n", ""),
    (N, "        state['llmax'] = self.logLmax.value", "        state['llmax'] = self.logLmin.value"),
    (N, "        obj.logLmax = obj.manager.logLmax\n", "        obj.logLmax = obj.manager.logLmin\n"),
    (N, "        obj.model = usermodel\n", ""),
    (N, "        obj.manager = manager\n        obj.logLmin = obj.manager.logLmin\n        obj.logLmin.value = obj.llmin\n        obj.logLmax = obj.manager.logLmax\n        obj.logLmax.value = obj.llmax\n", "        obj.logLmin = manager.logLmin\n        obj.logLmin.value = obj.llmin\n        obj.logLmax = manager.logLmax\n        obj.logLmax.value = obj.llmax\n"),
    (N, "        obj.last_checkpoint_time = time.time()\n        return obj", "        obj.iteration = 0\n        return obj"),
    (N, "        obj.last_checkpoint_time = time.time()\n        return obj", "        obj.state = _NSintegralState(obj.Nlive)\n        return obj"),
    (N, "        obj.logger = logging.getLogger(\"cpnest.NestedSampling.NestedSampler\")\n", "        logger = logging.getLogger(\"cpnest.NestedSampling.NestedSampler\")\n"),
    (N, "    def __setstate__(self, state):\n        self.__dict__ = state\n", "    def __setstate__(self, state):\n        self.__dict__ = state\n        self.initialised = False\n"),
    (N, "        obj.last_checkpoint_time = time.time()\n        return obj", "        obj.params.sort(key=attrgetter('logL'))\n        obj.initialised = False\n        return obj"),
    (S, "        obj.producer_pipe , obj.thread_id = obj.manager.connect_producer()\n", "        obj.producer_pipe , _ = obj.manager.connect_producer()\n"),
    (S, "        obj.producer_pipe , obj.thread_id = obj.manager.connect_producer()\n", "        obj.producer_pipe , obj.thread_id = obj.manager.consumer_pipes[0], 0\n"),
    (S, "        del state['logger']\n", "        del state['logger']\n        del state['Nmcmc_exact']\n"),
    (S, "        del state['thread_id']\n", "        del state['thread_id']\n        state['evolution_points'] = deque(maxlen = self.poolsize)\n"),
    (S, "        self.__dict__ = state\n        self.manager = None\n", "        self.__dict__ = state\n        self.manager = None\n        self.samples = deque(maxlen = None if self.verbose >=3 else 5*self.maxmcmc)\n"),
    (S, "        obj.logLmin = obj.manager.logLmin\n        obj.logLmax = obj.manager.logLmax\n        obj.logger", "        obj.logLmin = obj.manager.logLmin\n        obj.logger"),
    (S, "        obj.model   = model\n        if has", "        if has"),
    (S, "        obj.last_checkpoint_time = time.time()\n        return obj", "        obj.mcmc_accepted = obj.mcmc_counter = 0\n        return obj"),
    (S, "        obj.last_checkpoint_time = time.time()\n        return obj", "        obj.counter = 0\n        return obj"),
    (N, "        state = self.__dict__.copy()\n        del state['logger']\n", "        state = self.__dict__.copy()\n        del state['logger']\n        del state['log_vols']\n"),
    (N, "        if 'logger' not in state:\n", "        state['log_vols'] = [0.0]\n        if 'logger' not in state:\n"),
    (N, "        if 'logger' not in state:\n", "        state['info'] = 0\n        if 'logger' not in state:\n"),
    (N, "        if 'logger' not in state:\n", "        if 'logger' in state:\n"),
    (S, "        self.proposal.set_ensemble(self.evolution_points)\n        self.initialised=True", "        self.proposal.set_ensemble(self.evolution_points)"),
    (N, "        if not self.initialised:\n            self.reset()", "        self.reset()"),
    (S, "        if hasattr(obj.proposal, 'set_model'):\n            obj.proposal.set_model(model)\n", ""),
    (F, "        for p in self.proposals:\n            p.set_model(model)", "        for p in self.proposals[1:]:\n            p.set_model(model)"),
    (F, "        for name in ('V', 'dV', 'log_likelihood'):", "        for name in ('V', 'dV', 'log_likelihood', 'normal'):"),
]
TRANSIENT = ('last_checkpoint_time',)
LIVE_ARGS = ('manager', 'model', 'usermodel', 'user')


def attributes(P, ci):
    """attributes that some method of the class assigns on self"""
    out = set()
    for c in ci.mro():
        if isinstance(c, str):
            continue
        for fi in list(c.methods.values()) + list(c.setters.values()):
            if fi.is_class or fi.name in ('__getstate__', '__setstate__'):
                continue
            a = fi.node.args.args
            if not a:
                continue
            me = a[0].arg
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me and n.attr not in c.setters:
                    out.add(n.attr)
    return out


def loads(P, name):
    """first place where an attribute of that name is read"""
    for fi in P.all_functions():
        if fi.name in ('__getstate__', '__setstate__'):
            continue
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Load):
                return '%s:%d' % (fi.module.relpath, n.lineno)
    return None


PTYPES = {'manager': 'cpnest.RunManager', 'model': 'usermodel', 'usermodel': 'usermodel', 'user': 'usermodel', 'filename': 'str', 'resume_file': 'str', 'output': 'str'}


def params(W, fi, suffix=''):
    out = []
    for a in fi.node.args.args[1:]:
        out.append((a.arg, W.param(a.arg + suffix, PTYPES.get(a.arg))))
    return out


class Restored(object):
    """an object that was saved, restored and, where the class can, resumed"""

    def __init__(self, P, ci):
        self.P, self.ci = P, ci
        self.problem = None
        self.W = W = World(P, hooks={'unpickle': self.unpickle, 'purecalls': True})
        self.me = me = W.instance(ci)
        self.outs = []
        get = ci.find('__getstate__')
        if get and get[0] == 'method':
            first = [(o.state, o.value) for o in W.run(ci, '__getstate__', me, []) if o.kind == 'return']
        else:
            first = [(State(), None)]
        self.res = ci.find('resume')
        for st, saved in first:
            self.saved = saved
            self.savedterm = dictterm(W.eng, st, saved) if saved is not None else mk('objdict', me)
            if self.res and self.res[0] == 'method':
                fi = self.res[1]
                self.args = params(W, fi)
                for o in W.run(ci, 'resume', None, [t for n, t in self.args], st=st.fork()):
                    if o.kind == 'return':
                        self.outs.append((o, o.value))
            else:
                self.args = []
                u = self.unpickle(W.eng, st, None, None)
                self.outs.append((_Out(st), u))

    def unpickle(self, eng, st, f, node):
        u = eng.new(self.ci.qual)
        sets = self.ci.find('__setstate__')
        if sets and sets[0] == 'method' and self.saved is not None:
            got = eng.call_func(st, sets[1], [u, self.saved], {}, node or sets[1].node)
            if len(got) != 1:
                self.problem = '__setstate__ has %d paths' % len(got)
            s2 = got[0][0]
            if s2 is not st:
                st.heap.clear()
                st.heap.update(s2.heap)
        else:
            st.heap[(u, '$dict')] = self.savedterm
        return u

    def value(self, o, u, name):
        """value of an attribute after resuming; False: missing; None: not known"""
        v = o.state.heap.get((u, name))
        if v is None:
            d = o.state.heap.get((u, '$dict'))
            if d is None:
                return None
            v = dictlookup(d, s(name))
            if v is not None and v is not False and v.op == 'fld' and v.args[0] is u:
                return None
        return v


class _Out(object):
    def __init__(self, st):
        self.state, self.trace, self.facts = st, st.trace, st.facts


def constructed(P, ci, args):
    """attribute values the constructor gives, over the arguments resume gets: those that come from the manager or the model"""
    W = World(P, hooks={'purecalls': True})
    init = P.method(ci, '__init__')
    ps = params(W, init)
    live, syms = {}, {n: t for n, t in ps if n in LIVE_ARGS}
    for st, me in W.eng.instantiate(State(), ci, [t for n, t in ps], {}, None):
        for (ob, nm), v in st.heap.items():
            if ob is me and isinstance(nm, str) and not nm.startswith('$') and is_term(v):
                t = W.eng.val(st, v)
                hit = [n for n, x in syms.items() if contains(t, x)]
                if hit:
                    live.setdefault(nm, set()).add(t)
    return live, syms


def same_role(a, b):
    def role(n):
        return 'model' if n in ('model', 'usermodel', 'user') else n
    return role(a) == role(b)


def restored(P, R, ci, live_attrs=True):
    G = ci.name + ('.resume' if ci.find('resume') else '.__setstate__')
    with R.guard('restore', G):
        X = Restored(P, ci)
        R.covers(X.W.eng)
        W = X.W
        where = ''
        if X.res:
            where = '%s:%d' % (X.res[1].module.relpath, X.res[1].node.lineno)
        if X.problem:
            R.undet('restore', G, X.problem, where)
        if not X.outs:
            return R.undet('restore', G, 'no path returns', where)
        live, syms = constructed(P, ci, X.args) if X.res else ({}, {})
        given = dict(X.args)
        names = sorted(attributes(P, ci))
        R.count('attributes of ' + ci.name, len(names))
        for o, u in X.outs:
            for nm in names:
                v = X.value(o, u, nm)
                old = mk('fld', X.me, nm)
                used = loads(P, nm)
                if v is False:
                    if used:
                        R.violation('missing', G, 'self.%s, read at %s, is not set after a checkpoint is restored' % (nm, used), where)
                    continue
                if v is None:
                    R.undet('restore', G, 'self.%s' % nm, where)
                    continue
                t = W.eng.val(o.state, v)
                if nm in live:
                    want = set()
                    for w in live[nm]:
                        m = {}
                        for n, x in syms.items():
                            for n2, x2 in given.items():
                                if same_role(n, n2):
                                    m[x] = x2
                        want.add(subst(w, m))
                    if t in want or v in want:
                        R.ok('live', G, 'self.%s is that of the new run' % nm, where)
                    elif contains(t, X.me) or t is NONE or any(t is x2 for x2 in given.values()) or t.op == 'num' or (t.op in ('idx', 'fld') and any(contains(t, x2) for x2 in given.values())):
                        R.violation('live', G, 'self.%s is %s after resuming, a new object has %s' % (nm, show(t)[:80], show(list(want)[0])[:80]), where)
                    else:
                        R.undet('live', G, 'self.%s is %s' % (nm, show(t)[:80]), where)
                    continue
                if nm in TRANSIENT:
                    R.ok('restore', G, 'self.%s is set anew' % nm, where)
                    continue
                if v is old or t is old:
                    R.ok('restore', G, 'self.%s is the saved one' % nm, where)
                elif t.op == 'logger' or X.W.eng.typ(v) == 'logger':
                    R.ok('restore', G, 'self.%s is a logger' % nm, where)
                else:
                    c = None
                    if not unresolved_terms(t):
                        c = cmp(t, old) if X.W.eng.typ(old) == 'number' else (False if not contains(t, old) else None)
                        if c is None and contains(t, old):
                            c = entries(W, t, old)
                    R.verdict(c, 'restore', G, 'self.%s has the saved value' % nm, 'self.%s is %s after a checkpoint is restored, not the saved value' % (nm, show(t)[:80]), where)
            if master(ci):
                for nm in ('logLmin', 'logLmax'):
                    mv = [x2 for n2, x2 in given.items() if n2 == 'manager']
                    if not mv:
                        continue
                    got = o.state.heap.get((mk('fld', mv[0], nm), '$v'))
                    want = mk('fld', mk('fld', X.me, nm), 'value')
                    if got is None:
                        R.violation('shared value', G, 'the saved value of %s is not given to the shared value of the new run' % nm, where)
                    else:
                        got = W.eng.val(o.state, got)
                        R.verdict(True if got is want else False if contains(got, X.me) or got.op == 'num' else None, 'shared value', G, '%s gets its saved value' % nm, '%s gets %s, not its saved value' % (nm, show(got)[:80]), where)


def given_again(P):
    """calls that resuming a sampler makes on its proposal: [(name, args)], with the arguments named by their role"""
    out = {}
    for ci in concrete_samplers(P):
        X = Restored(P, ci)
        calls = []
        for o, u in X.outs:
            mine = [(e.a['name'], e.a['args'], e.a['kwargs']) for e, l in events(o.trace, 'appliedcall') if e.a['obj'] is mk('fld', X.me, 'proposal')]
            if len(mine) > len(calls):
                calls = mine
        out[ci] = (calls, {t: n for n, t in X.args})
    return out


def dropped(P, W, st, ob, ci):
    """attributes of an object that its __getstate__ leaves out of the saved state"""
    get = ci.find('__getstate__')
    if not get or get[0] != 'method':
        return []
    W2 = World(P, hooks={'purecalls': True})
    me = W2.instance(ci)
    out = []
    for o in W2.run(ci, '__getstate__', me, []):
        if o.kind == 'return':
            d = dictterm(W2.eng, o.state, o.value)
            for (x, nm) in list(st.heap):
                if x is ob and isinstance(nm, str) and not nm.startswith('$') and nm not in out and dictlookup(d, s(nm)) is False:
                    out.append(nm)
    return out


def proposals(P, R, classes):
    """what the saved state of a proposal leaves out is set again, for the model of the new run, by the calls that resuming makes"""
    again = given_again(P)
    for ci in classes:
        init = ci.find('__init__')
        W = World(P, hooks={'purecalls': True})
        ps = params(W, init[1]) if init and init[0] == 'method' else []
        ps = [(n, t) for n, t in ps if n in LIVE_ARGS] or []
        m1 = {n: t for n, t in ps}
        where = '%s:%d' % (ci.module.relpath, ci.node.lineno)
        try:
            made = W.eng.instantiate(State(), ci, [], dict(m1), None)
        except Exception as e:
            if any(c.find('__getstate__') for c in [ci]):
                R.undet('restore', ci.name, 'cannot be constructed: %s' % e, where)
            continue
        R.covers(W.eng)
        for st, me in made:
            gone = {}
            for ob in {x for (x, nm) in st.heap}:
                c = W.eng.classinfo(ob)
                if c is not None and not isinstance(c, str):
                    for nm in dropped(P, W, st, ob, c):
                        gone[(ob, nm)] = W.eng.val(st, st.heap[(ob, nm)])
            if not gone:
                R.ok('restore', ci.name, 'saved and restored as it is', where)
                continue
            best = None
            for sc, (calls, roles) in again.items():
                m2, st2 = {}, st.fork()
                for k in gone:
                    st2.heap.pop(k, None)
                todo = [st2]
                for name, args, kwargs in calls:
                    if ci.find(name) is None:
                        continue
                    given = []
                    for a in args:
                        n = roles.get(a, 'other')
                        if n not in m2:
                            m2[n] = W.param(n + '2', PTYPES.get(n))
                        given.append(m2[n])
                    todo = [o.state for x in todo for o in W.run(ci, name, me, given, st=x) if o.kind == 'return']
                bad = []
                for x in todo:
                    for (ob, nm), old in gone.items():
                        new = x.heap.get((ob, nm))
                        want = subst(old, {t: m2[n2] for n, t in m1.items() for n2 in m2 if same_role(n, n2)})
                        if new is None:
                            if loads(P, nm):
                                bad.append((ob, nm, None, want))
                        elif W.eng.val(x, new) is not want:
                            bad.append((ob, nm, W.eng.val(x, new), want))
                if best is None or len(bad) < len(best):
                    best = bad
            hit = {(id(b[0]), b[1]): b for b in best}
            for (ob, nm), old in gone.items():
                b = hit.get((id(ob), nm))
                G = '%s of %s' % (W.eng.classinfo(ob).name, ci.name)
                if b is None:
                    R.ok('restore', G, 'self.%s is set again for the model of the new run' % nm, where)
                elif b[2] is None:
                    R.violation('missing', G, 'self.%s, read at %s, is left out of the saved state and not set when the sampler is resumed' % (nm, loads(P, nm)), where)
                else:
                    wrong = any(contains(b[2], t) for t in m1.values()) or b[2].op == b[3].op == 'fld' or b[2] is NONE
                    R.verdict(False if wrong else None, 'live', G, '', 'self.%s is %s after resuming, a new proposal has %s' % (nm, show(b[2])[:80], show(b[3])[:80]), where)


def master(ci):
    return 'NestedSampler' in [c.name for c in ci.mro() if not isinstance(c, str)]


def entries(W, t, old):
    """the sequence t has the entries of the saved one, whatever it held"""
    rs = []
    for k in range(1, 7):
        b = {x: 2 + (k + i) % 3 for i, x in enumerate(sorted((y for y in subterms(t) if y.op == 'fld' and W.eng.typ(y) == 'number'), key=show))}
        m = Model(k, bind=b, lens={old: 6, mk('c0', old): 6})
        try:
            rs.append([m.key(x) for x in m.seq(m.ev(t))] == [m.key(x) for x in m.seq(m.ev(old))])
        except (Undef, TypeError, ValueError):
            return None
    return allof(rs)


def check(P, R, tier):
    roots = [P.cls(NS)] + list(concrete_samplers(P))
    for ci in roots:
        restored(P, R, ci)
    props = [P.cls('proposal.Proposal')] + list(P.subclasses(P.cls('proposal.Proposal')))
    with R.guard('restore', 'proposals'):
        proposals(P, R, props)
    for ci in [c for m in P.modules.values() for c in m.classes.values()]:
        if ci in roots or any(ci in r.mro() for r in roots) or ci.module.is_cython or ci in props:
            continue
        own = [m for m in ('__getstate__', '__setstate__', '__reduce__', '__reduce_ex__', '__getnewargs__') if m in ci.methods]
        if '__reduce__' in own or '__reduce_ex__' in own:
            R.undet('restore', ci.name, 'a reduction of its own', '%s:%d' % (ci.module.relpath, ci.node.lineno))
        elif own:
            restored(P, R, ci)
        else:
            R.ok('restore', ci.name, 'saved and restored as it is')
        listlike(P, R, ci)
    with R.guard('pickle', 'LivePoint'):
        c23.pickling(P, R, P.cls('parameter.LivePoint'))
    with R.guard('restart', LOOP):
        W = World(P, hooks={'purecalls': True})
        me = W.instance(NS)
        done = constants(W, me, W.run(NS, 'reset', me))
        M = Main(P)
        R.covers(M.W.eng)
        restart(R, LOOP, M.outs, M.me, done)
    for ci in concrete_samplers(P):
        G = ci.name + '.produce_sample'
        with R.guard('restart', G):
            D = Reset(P, ci)
            K = Worker(P, ci)
            R.covers(K.W.eng)
            restart(R, G, K.outs, K.me, constants(D.W, D.me, D.outs))


LOOP = 'NestedSampler.nested_sampling_loop'


def constants(W, me, outs):
    """attributes that hold the same constant after every complete reset"""
    got = None
    for o in outs:
        if o.kind != 'return':
            continue
        mine = {nm: v for (ob, nm), v in o.state.heap.items() if ob is me and isinstance(nm, str) and not nm.startswith('$') and v.op in ('bool', 'num')}
        got = mine if got is None else {k: v for k, v in got.items() if mine.get(k) is v}
    return got or {}


def restart(R, G, outs, me, done):
    n = 0
    for o in outs:
        for e, l in marks(o.trace, 'reset'):
            n += 1
            about = [f for f in e.facts if any(contains(f, mk('fld', me, k)) for k in done)]
            v = False
            if about:
                m = Model(0, bind={mk('fld', me, k): (x is TRUE if x.op == 'bool' else float(numval(x))) for k, x in done.items()})
                try:
                    v = True if any(not m.truth(m.ev(f)) for f in about) else False
                except (Undef, ValueError):
                    v = None
            R.verdict(v, 'restart', G, 'an object that was initialised before it was saved is not initialised again', 'an object that was restored is initialised again, which discards its state', e.loc)
    R.verdict(True if n else None, 'restart', G, 'initialisation found', 'no initialisation found', '')


def listlike(P, R, ci):
    """a list or dict subclass is refilled through its own append/extend/__setitem__ before its attributes are restored"""
    ext = [b if isinstance(b, str) else '' for b in ci.mro()]
    if not any(b.split('.')[-1] in ('list', 'dict', 'deque', 'OrderedDict', 'UserList') for b in ext):
        return
    for m in ('append', 'extend', '__setitem__'):
        got = ci.find(m)
        if not got or got[0] != 'method':
            continue
        fi = got[1]
        me = fi.node.args.args[0].arg
        attrs = attributes(P, ci)
        bad = [n for n in ast.walk(fi.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and n.attr in attrs and isinstance(n.ctx, ast.Load)]
        calls = [n for n in ast.walk(fi.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == me and ci.find(n.func.attr)]
        if bad:
            R.violation('refill', '%s.%s' % (ci.name, m), 'unpickling refills the list through this method before self.%s is restored' % bad[0].attr, '%s:%d' % (fi.module.relpath, fi.node.lineno))
        else:
            R.verdict(None if calls else True, 'refill', '%s.%s' % (ci.name, m), 'needs no attribute', 'calls %s' % (calls[0].func.attr if calls else ''), '%s:%d' % (fi.module.relpath, fi.node.lineno))
