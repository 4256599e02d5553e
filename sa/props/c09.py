"""C09: values shared between processes are updated safely."""
import ast
from .common import *

EXPLANATION = ('Every function of the package that writes a shared value, or stores an attribute of the name of one, is analysed with lock sets. Shared maximum: written by workers, and by the master while they run, only with the lock of that same value held, from a value read under '
               'the same hold of the lock, and never to something smaller. Contour: written only in the nested sampler. Connection slots: index read and advanced under one hold of the lock of the counter. '
               'Attributes that hold shared values are assigned only shared values made with a lock by the run manager, or those of the manager.')
S, N, C = 'cpnest/sampler.py', 'cpnest/NestedSampling.py', 'cpnest/cpnest.py'
MUTANTS = [
    (N, 'obj.logLmax = obj.manager.logLmax', 'obj.logLmax = obj.manager.logLmin'),
    (S, 'obj.logLmax = obj.manager.logLmax', 'obj.logLmax = obj.manager.logLmin'),
    (N, 'obj.logLmax = obj.manager.logLmax', 'import multiprocessing; obj.logLmax = multiprocessing.Value("d", obj.llmax)'),
    (S, '''        with self.logLmax.get_lock():
            self.logLmax.value = max(self.logLmax.value, logL)
''', '''        self.logLmax.value = max(self.logLmax.value, logL)
'''),
    (S, '''        with self.logLmax.get_lock():
            self.logLmax.value = max(self.logLmax.value, logL)
''', '''        current = self.logLmax.value
        with self.logLmax.get_lock():
            self.logLmax.value = max(current, logL)
'''),
    (S, '''        with self.logLmax.get_lock():
            self.logLmax.value = max(self.logLmax.value, logL)
''', '''        with self.logLmin.get_lock():
            self.logLmax.value = max(self.logLmax.value, logL)
'''),
    (S, '''        with self.logLmax.get_lock():
            self.logLmax.value = max(self.logLmax.value, logL)
''', '''        if logL > self.logLmax.value:
            with self.logLmax.get_lock():
                self.logLmax.value = logL
'''),
    (S, '''            self.logLmax.value = max(self.logLmax.value, logL)
''', '''            self.logLmax.value = min(self.logLmax.value, logL)
'''),
    (S, '''            self.logLmax.value = max(self.logLmax.value, logL)
''', '''            self.logLmax.value = logL if np.isfinite(logL) else self.logLmax.value
'''),
    (S, '''                if p == "checkpoint":
''', '''                if p == "stop":
                    self.logLmin.value = np.inf
                if p == "checkpoint":
'''),
    (S, '''                        self.update_logLmax(newparam.logL)
                        oldparam = newparam.copy()
''', '''                        self.logLmax.value = max(self.logLmax.value, newparam.logL)
                        oldparam = newparam.copy()
'''),
    (C, '''        with self.nconnected.get_lock():
            n = self.nconnected.value
            pipe = self.producer_pipes[n]
            self.nconnected.value+=1
''', '''        n = self.nconnected.value
        with self.nconnected.get_lock():
            pipe = self.producer_pipes[n]
            self.nconnected.value+=1
'''),
    (C, '''            pipe = self.producer_pipes[n]
            self.nconnected.value+=1
''', '''            self.nconnected.value+=1
        pipe = self.producer_pipes[n]
'''.replace('self.nconnected.value+=1\n        pipe', 'pass\n        self.nconnected.value+=1\n        pipe')),
    (C, '''            self.nconnected.value+=1
''', '''            self.nconnected.value = (n + 1) % 2
'''),
    (C, 'self.logLmax = mp.Value(c_double,-np.inf)', 'self.logLmax = mp.Value(c_double,-np.inf, lock=False)'),
    (C, 'self.logLmax = mp.Value(c_double,-np.inf)', 'self.logLmax = mp.RawValue(c_double,-np.inf)'),
    (S, '        obj.logLmax = obj.manager.logLmax\n', '        obj.logLmax = type("Shared", (), {"value": -np.inf})()\n'),
    (S, '        self.logLmax = self.manager.logLmax\n', '        self.logLmax = self.manager.logLmin\n'),
    (N, '                if proposed.logL > self.logLmin.value:\n', '                self.logLmax = max(self.logLmax.value, proposed.logL)\n                if proposed.logL > self.logLmin.value:\n'),
]
SHARED = ('logLmin', 'logLmax', 'nconnected', 'checkpoint_flag')


def writers(P):
    """functions that may write a shared value or rebind an attribute that holds one"""
    out = []
    for fi in P.all_functions():
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in SHARED + ('value',):
                out.append(fi)
                break
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                out.append(fi)
                break
    return out


def owner(W, obj):
    return W.eng.classinfo(obj)


def ismaster(P, ci):
    names = [c.name for c in ci.mro() if not isinstance(c, str)] if ci else []
    return 'NestedSampler' in names


def inrun(P):
    """methods of the master that may run while workers do: all that the main loop reaches (restoring a checkpoint happens before the workers are started)"""
    ci = P.cls('NestedSampling.NestedSampler')
    todo, seen = ['nested_sampling_loop', 'consume_sample', 'reset'], []
    while todo:
        kind, fi = ci.find(todo.pop()) or (None, None)
        if fi is None or not hasattr(fi, 'node') or fi in seen:
            continue
        seen.append(fi)
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute) and ci.find(n.attr):
                todo.append(n.attr)
    return seen


def run(P, fi, hooks):
    W = World(P, volatile=('logLmin', 'logLmax'), hooks=hooks, stubs={})
    me = None
    args = []
    params = [a.arg for a in fi.node.args.args]
    if fi.cls is not None:
        ci = fi.cls
        subs = [c for c in P.subclasses(ci) if c is not ci]
        samplers = concrete_samplers(P)
        if any(c in samplers for c in subs):
            ci = [c for c in samplers if c in subs][0]
        static = any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in fi.node.decorator_list)
        if static:
            me = None
        else:
            me = W.instance(ci)
        params = params[1:]
        for p in params:
            args.append(W.param(p, PTYPES.get(p)))
        if static:
            return W, None, W.run(ci, fi.name, None, args)
        return W, me, W.run(ci, fi.name, me, args)
    for p in params:
        args.append(W.param(p, PTYPES.get(p)))
    return W, None, W.eng.run(fi, None, args, {}, None)


PTYPES = {'manager': 'cpnest.RunManager', 'model': 'usermodel', 'usermodel': 'usermodel', 'logL': 'number', 'logLmin': 'number', 'nthreads': 'number', 'n': 'number'}


def check(P, R, tier):
    fs = writers(P)
    R.count('functions that write shared values', len(fs))
    maxima = []
    with R.guard('shared maximum', 'samplers'):
        for ci in concrete_samplers(P):
            M = Move(P, ci.name)
            for W in M.parts:
                R.covers(W.eng)
                for o in W.outs:
                    for e, l in events(o.trace, 'shared_write'):
                        worker_write(R, ci.name + '.yield_sample', W, o, e, l, maxima)
            K = Worker(P, ci)
            R.covers(K.W.eng)
            for o in K.outs:
                for e, l in events(o.trace, 'shared_write'):
                    worker_write(R, ci.name + '.produce_sample', K.W, o, e, l, maxima)
    during = inrun(P)
    for fi in fs:
        G = fi.qual
        with R.guard('writers', G):
            stores = []

            def hook(eng, st, base, name, v, node, stores=stores):
                if name in SHARED:
                    stores.append((base, name, v, '%s:%d' % (fi.module.relpath, getattr(node, 'lineno', 0)), st.facts))
                return None
            W, me, outs = run(P, fi, {'setattr': hook})
            R.covers(W.eng)
            for base, name, v, where, facts in stores:
                rebind(P, R, G, W, fi, base, name, v, where)
            for o in outs:
                for e, l in events(o.trace, 'newvalue'):
                    lk = e.a.get('lock')
                    R.verdict(True if lk is TRUE else False if lk is FALSE else None, 'lock', G, 'a shared value is created with a lock', 'a shared value is created without a lock', e.loc)
                for e, l in events(o.trace, 'rawvalue'):
                    R.violation('lock', G, 'a shared value is created without a lock', e.loc)
                if fi.cls is not None and not ismaster(P, fi.cls) and 'Sampler' in [c.name for c in fi.cls.mro() if not isinstance(c, str)]:
                    for e, l in events(o.trace, 'shared_write'):
                        worker_write(R, G, W, o, e, l, maxima)
                else:
                    for e, l in events(o.trace, 'shared_write'):
                        if e.a['name'] == 'logLmax' and fi in during:
                            worker_write(R, G, W, o, e, l, [])
                        if e.a['name'] == 'logLmin':
                            R.verdict(ismaster(P, fi.cls), 'contour', G, 'the contour is written by the nested sampler', 'the likelihood contour is written outside the nested sampler', e.loc)
    R.verdict(True if maxima else None, 'shared maximum', 'samplers', 'the maximum is updated under its lock', 'no update of the shared maximum was found', '')
    with R.guard('slots', 'RunManager.connect_producer'):
        slots(P, R)


def lockheld(e, obj):
    return mk('lock', obj) in (e.locks or ())


def worker_write(R, G, W, o, e, loops, maxima):
    obj, name, v = e.a['obj'], e.a['name'], e.a['value']
    if name == 'logLmin':
        return R.violation('contour', G, 'a worker writes the likelihood contour', e.loc)
    if name != 'logLmax':
        return
    maxima.append(e)
    if not lockheld(e, obj):
        return R.violation('shared maximum', G, 'the shared maximum is written without holding its lock', e.loc)
    # reads under the same hold
    tr = o.trace if not loops else loops[-1][1].trace
    held = []
    ok = []
    for x in tr:
        if x.kind == 'acquire' and x.a['lock'] is mk('lock', obj):
            held = []
        elif x.kind == 'shared_read' and x.a['obj'] is obj and lockheld(x, obj):
            held.append(x.a['value'])
        elif x is e:
            ok = held
            break
    stale = [x for x in subterms(v) if x.op == 'sym' and x.args[0] == 'shared_logLmax' and x not in ok]
    facts = tuple(f for f in e.facts)
    verdict, why = True, ''
    if not ok:
        verdict, why = False, 'the shared maximum is overwritten with %s without reading it under its lock' % show(v)[:100]
    else:
        r = ok[-1]
        unknown = 0
        for k in range(8):
            cur = (-2.0, 0.5, 3.0, float('-inf'))[k % 4]
            m = Model(k, bind={r: cur})
            for j, x in enumerate(stale):
                m.bind[x] = cur - 1.0 - j
            for x in subterms(v):
                if x.op in ('sym', 'phi', 'call', 'fld', 'draw') and x is not r and x not in stale and x not in m.bind and not contains(x, r):
                    m.bind[x] = (-3.0, 1.0, 4.0)[(k + len(m.bind)) % 3]
            try:
                if any(contains(f, r) and not m.truth(m.ev(f)) for f in facts):
                    continue
                x = m.num(m.ev(v))
            except (Undef, ValueError):
                unknown += 1
                continue
            if x < cur:
                verdict, why = False, 'the shared maximum can decrease: %s is written, computed from %s' % (show(v)[:120], 'a value read before the lock was taken' if stale else 'values that may be smaller')
                break
        if verdict and unknown == 8:
            verdict = None
    if verdict is False and [u for u in unresolved_terms(v) if u.op != 'phi' and u not in ok and not (u.op == 'sym' and u.args[0].startswith('shared'))]:
        verdict = None
    R.verdict(verdict, 'shared maximum', G, 'written under its lock, from the value read under it, and not decreasing', why, e.loc)


def rebind(P, R, G, W, fi, base, name, v, where):
    """an attribute that holds a shared value gets a new value"""
    manager = fi.cls is not None and 'RunManager' in [c.name for c in fi.cls.mro() if not isinstance(c, str)]
    if v.op == 'fld' and W.eng.typ(v.args[0]) == 'cpnest.RunManager':
        R.verdict(v.args[1] == name, 'binding', G, 'the attribute is the value of the manager', '%s is bound to the shared %s' % (name, v.args[1]), where)
    elif W.eng.typ(v) == 'mpvalue' and v.op == 'ref':
        R.verdict(True if manager else False, 'binding', G, 'the manager creates the shared value', '%s is replaced by a value of this process only' % name, where)
    elif W.eng.typ(v) == 'mpvalue':
        R.ok('binding', G, 'a shared value received from elsewhere', where)
    elif v is NONE and fi.name in ('__init__', '__setstate__'):
        R.ok('binding', G, 'not yet connected', where)
    elif v.op in ('num', 'poly', 'none', 'str', 'max', 'min') or v.op == 'ref' or v is INF or v is neg(INF):
        R.violation('binding', G, 'the shared value %s is replaced by the private object %s' % (name, show(v)[:60]), where)
    elif v.op == 'call' and v.args[0] in ('max', 'min', 'float'):
        R.violation('binding', G, 'the shared value %s is replaced by the private object %s' % (name, show(v)[:60]), where)
    else:
        t = W.eng.typ(v)
        if t in ('number', 'str', 'list', 'tuple', 'dict'):
            R.violation('binding', G, 'the shared value %s is replaced by a private %s' % (name, t), where)
        else:
            R.undet('binding', G, '%s = %s' % (name, show(v)[:60]), where)


def slots(P, R):
    G = 'RunManager.connect_producer'
    W = World(P, volatile=('nconnected',))
    me = W.instance('cpnest.RunManager')
    outs = W.run('cpnest.RunManager', 'connect_producer', me, ())
    R.covers(W.eng)
    obj = mk('fld', me, 'nconnected')
    for o in returns(outs):
        reads = [e for e, l in events(o.trace, 'shared_read') if e.a['obj'] is obj]
        writes = [e for e, l in events(o.trace, 'shared_write') if e.a['obj'] is obj]
        where = (writes or reads or o.trace)[-1].loc if (writes or reads or o.trace) else ''
        if not writes:
            R.violation('slots', G, 'a connection slot is handed out without advancing the counter', where)
            continue
        w = writes[-1]
        used = [x for x in subterms(o.value) if x.op == 'sym' and x.args[0] == 'shared_nconnected']
        rd = [e for e in reads if e.a['value'] in used]
        if not used:
            R.undet('slots', G, 'the slot handed out does not come from the counter', where)
            continue
        if len(set(used)) > 1:
            R.violation('slots', G, 'the slot is read more than once, another worker can advance it in between', rd[0].loc)
            continue
        n = used[0]
        if not all(lockheld(e, obj) for e in rd) or not lockheld(w, obj):
            R.violation('slots', G, 'the connection counter is %s without holding its lock' % ('read' if not all(lockheld(e, obj) for e in rd) else 'advanced'), (rd + [w])[0].loc)
            continue
        between = False
        on = False
        for e in o.trace:
            if e in rd:
                on = True
            elif e is w:
                on = False
            elif on and e.kind == 'release' and e.a['lock'] is mk('lock', obj):
                between = True
        new = w.a['value']
        R.verdict(False if between else True, 'slots', G, 'the slot is read and the counter advanced under one hold of the lock', 'the lock is released between reading the slot and advancing the counter', w.loc)
        R.verdict(True if new is add(n, ONE) else cmp(new, add(n, ONE)), 'next slot', G, 'the counter advances by one', 'the counter is set to %s after slot %s was handed out' % (show(new)[:60], show(n)), w.loc)
        ok = [x for x in subterms(o.value) if x.op == 'idx' and x.args[1] is n]
        R.verdict(True if ok else None, 'own end', G, 'the pipe end handed out is that of the slot', 'pipe not selected by the slot', where)
