"""C26: the log file is attached while a run works, released afterwards."""
from .common import *
from ..engine import State

EXPLANATION = ('LogFile is executed symbolically through enter, exit (normal and with an exception in flight), enter again: typestate of the handler. CPNest.__init__ and CPNest.run are executed with an exception injected at every component they build or call '
               '(nested sampler, workers, sampling, insertion checks, accessors, plots, folder creation); on every path the work has to happen between attaching and detaching of the same handler, the handler has to be closed, and the exception has to come through.')
TECHNIQUE = 'static analysis: typestate of the log handler over all paths, with exceptional edges injected at every call of a component'
C, U = 'cpnest/cpnest.py', 'cpnest/utils.py'
MUTANTS = [
    (U, "        self._logger.removeHandler(self.handler)\n        self.handler.close()", "        self.handler.close()"),
    (U, "        self._logger.removeHandler(self.handler)\n        self.handler.close()", "        self._logger.removeHandler(self.handler)"),
    (U, "    def __exit__(self, type, value, traceback):\n        self.close()", "    def __exit__(self, type, value, traceback):\n        if type is None:\n            self.close()"),
    (U, "    def __exit__(self, type, value, traceback):\n        self.close()", "    def __exit__(self, type, value, traceback):\n        self.close()\n        return True"),
    (U, "        self.handler = FileHandler(self._filename, verbose=self._verbose)\n        self._logger.addHandler(self.handler)", "        if self.handler is None:\n            self.handler = FileHandler(self._filename, verbose=self._verbose)\n        self._logger.addHandler(self.handler)"),
    (U, "        self.handler = None\n\n    def open(self):\n        self.handler = FileHandler(self._filename, verbose=self._verbose)\n", "        self.handler = FileHandler(self._filename, verbose=self._verbose)\n\n    def open(self):\n"),
    (U, "        self._logger.addHandler(self.handler)", "        self._logger.addHandler(FileHandler(self._filename))"),
    (U, "        self._logger.addHandler(self.handler)", "        logging.getLogger().addHandler(self.handler)"),
    (U, "        self._logger.removeHandler(self.handler)", "        logging.getLogger('cpnest.utils').removeHandler(self.handler)"),
    (U, "loggername='cpnest'", "loggername='cpnest.cpnest'"),
    (C, "        with self.log_file:\n            # Everything in this context is logged to `log_file`\n\n            if self.resume:", "        self.log_file.open()\n        if True:\n            if self.resume:"),
    (C, "        with self.log_file:\n            # Everything in this context is logged to `log_file`\n\n            if self.resume:", "        with self.log_file:\n            pass\n        if True:\n            if self.resume:"),
    (C, "            #TODO: Clean up the resume pickles\n", "            self.log_file.open()\n"),
    (C, "        with self.log_file:\n            # Everything in this context is logged to `log_file`\n            msg", "        self.log_file.open()\n        if 1:\n            msg"),
    (C, "            except CheckPoint:\n                self.checkpoint()\n                sys.exit(130)\n\n            if self.verbose >= 2:", "            except CheckPoint:\n                self.log_file.close()\n                self.checkpoint()\n                sys.exit(130)\n\n            if self.verbose >= 2:"),
    (C, "            nmhs = self.nthreads-nhamiltonian-nslice\n", "            nmhs = self.nthreads-nhamiltonian-nslice\n            self.log_file.open()\n"),
]


class Attach(object):
    """handlers attached to loggers along a trace"""

    def __init__(self):
        self.on = []                # (logger, handler)
        self.closed = set()
        self.twice = []
        self.ever = []
        self.stale = []

    def step(self, e):
        if e.kind == 'addHandler':
            k = (e.a['logger'], e.a['handler'])
            if e.a['handler'] in self.closed:
                self.stale.append(e)
            if k not in self.on:
                self.on.append(k)
            self.ever.append(k)
        elif e.kind == 'removeHandler':
            k = (e.a['logger'], e.a['handler'])
            if k in self.on:
                self.on.remove(k)
        elif e.kind == 'extmethod' and e.a['name'] == 'close':
            self.closed.add(e.a['obj'])


def raising(kind, retval=NONE, exc='RuntimeError'):
    """marker of a component that can fail"""
    m = marker(kind, retval)

    def h(eng, st, fi, args, kwargs, node):
        if eng.sinks:
            s2 = st.fork()
            eng.event(s2, 'mark', node, name=kind + ' fails', args=(), kwargs={})
            eng.sinks[-1].append((mk('exc', exc), s2))
        return m(eng, st, fi, args, kwargs, node)
    return h


def check(P, R, tier):
    with R.guard('logfile', 'LogFile'):
        logfile(P, R)
    with R.guard('setup', 'CPNest.__init__'):
        setup(P, R)
    with R.guard('run', 'CPNest.run'):
        run(P, R)
    with R.guard('logger', 'loggers'):
        loggers(P, R)


def logfile(P, R):
    W = World(P, hooks={'purecalls': True})
    R.covers(W.eng)
    ci = P.cls('utils.LogFile')
    fi = P.method(ci, '__enter__')
    fx = P.method(ci, '__exit__')
    fn, vb = W.param('filename', 'str'), W.param('verbose')
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    wherex = '%s:%d' % (fx.module.relpath, fx.node.lineno)
    exc = mk('exc', 'RuntimeError')
    cases = {'normally': [NONE, NONE, NONE], 'with an exception': [mk('ext', 'builtins.RuntimeError'), exc, mk('sym', 'traceback', 1)]}
    for st0, me in W.eng.instantiate(State(), ci, [fn], {'verbose': vb}, None):
        A0 = Attach()
        for e in st0.trace:
            A0.step(e)
        R.verdict(not A0.on, 'logfile', 'LogFile.__init__', 'not attached yet', 'the log file is attached before it is entered', where)
        for how, args in sorted(cases.items()):
            for o1 in W.run(ci, '__enter__', me, [], st=st0):
                if o1.kind != 'return':
                    continue
                R.count('sequences of enter and exit')
                A = replay(o1.trace)
                G = 'LogFile.__enter__'
                R.verdict(len(A.on) == 1, 'logfile', G, 'one handler is attached', 'entering attaches %d handlers' % len(A.on), where)
                file_(R, W, G, o1.state, A, fn, where)
                R.verdict(True if o1.value is me else None if o1.value.op in ('sym', 'alt', 'ite') else False, 'logfile', G, 'it enters itself', 'entering returns %s' % show(o1.value)[:40], where)
                for o2 in W.run(ci, '__exit__', me, args, st=o1.state):
                    G = 'LogFile.__exit__'
                    B = replay(o2.trace)
                    released(R, 'logfile', G, B, wherex, ' when left ' + how)
                    if how != 'normally':
                        v = o2.value if o2.kind == 'return' else None
                        if v is not None:
                            d = True if v in (NONE, FALSE) else False if v is TRUE or v.op in ('ref', 'inst', 'num') else None
                            R.verdict(d, 'logfile', G, 'exceptions go through', 'leaving the log file swallows exceptions', wherex)
                    if o2.kind != 'return':
                        continue
                    for o3 in W.run(ci, '__enter__', me, [], st=o2.state):
                        G = 'LogFile.__enter__'
                        if o3.kind != 'return':
                            R.violation('again', G, 'a released log file cannot be attached again', where)
                            continue
                        D = replay(o3.trace)
                        R.verdict(len(D.on) == 1, 'again', G, 'attached again', 'entering again leaves %d handlers attached' % len(D.on), where)
                        R.verdict(not D.stale, 'again', G, 'with an open handler', 'entering again attaches a handler that was closed', where)
                        for o4 in W.run(ci, '__exit__', me, args, st=o3.state):
                            released(R, 'again', 'LogFile.__exit__', replay(o4.trace), wherex, ' the second time')


def replay(trace):
    A = Attach()
    for e, lps in walk(trace):
        A.step(e)
    return A


def file_(R, W, G, st, A, fn, where):
    for lg, h in A.on:
        ci = W.eng.classinfo(h)
        named = False
        for e in st.trace:
            if e.kind == 'superinit' and e.a['obj'] is h:
                vals = list(e.a['args']) + list(e.a['kwargs'].values())
                if any(v is fn or contains(v, fn) for v in vals if is_term(v)):
                    named = True
        if named:
            R.ok('logfile', G, 'the handler writes the file', where)
        elif ci is not None and ci.module.name.endswith('utils') or h.op == 'none':
            R.verdict(False if h.op == 'none' else None, 'logfile', G, '', 'no handler of the log file is attached', where)
        else:
            R.undet('logfile', G, 'which file the handler writes', where)


def released(R, rule, G, A, where, how=''):
    R.verdict(not A.on, rule, G, 'the handler is detached', 'the handler stays attached to %s%s' % (', '.join(show(l)[:40] for l, h in A.on), how), where)
    left = [h for l, h in A.ever if h not in A.closed]
    R.verdict(not left, rule, G, 'the handler is closed', 'the file of the handler is not closed%s' % how, where)


WORK = ('construct', 'resume', 'sampling', 'indices', 'plot', 'checkpoint') + Run.GETTERS


def follow(R, rule, G, o, where, work=WORK):
    """the work of a path happens while a handler is attached; afterwards it is released"""
    A = Attach()
    n = 0
    at = where
    last = ''
    for e, lps in walk(o.trace):
        A.step(e)
        if e.kind == 'mark':
            last = e.a['name']
            if e.a['name'].replace(' fails', '') in work:
                n += 1
                what = e.a['name'] if e.a['name'] not in ('construct', 'resume') else e.a['name'] + ' ' + e.a['cls'].name
                R.verdict(len(A.on) > 0, rule, G, '%s is logged' % what, '%s happens while no log file is attached' % what, e.loc)
            at = e.loc
        elif e.kind in ('proc_start', 'supercall'):
            R.verdict(len(A.on) > 0, rule, G, '%s is logged' % e.kind, 'processes are started while no log file is attached', e.loc)
        elif e.kind == 'async':
            last = 'an interruption'
            for p in e.a['paths']:
                B = Attach()
                B.on = list(A.on)
                for x, l2 in walk(p.trace):
                    B.step(x)
    how = ''
    if o.kind == 'raise':
        how = ' when %s ends with an exception' % (last.replace(' fails', '') or 'the set-up') if ' fails' in last else ' when the run is left by an exception'
    released(R, rule, G, A, at if o.kind == 'raise' else where, how)
    return n


def setup(P, R):
    G = 'CPNest.__init__'

    class Fail(Init):
        def constructed(self, eng, st, ci, args, kwargs, node):
            if ci in self.roots and eng.sinks:
                s2 = st.fork()
                eng.event(s2, 'mark', node, name='construct fails', cls=ci, args=(), kwargs={})
                eng.sinks[-1].append((mk('exc', 'RuntimeError'), s2))
            return Init.constructed(self, eng, st, ci, args, kwargs, node)

        def resumed(self, eng, st, fi, args, kwargs, node):
            if eng.sinks:
                s2 = st.fork()
                eng.event(s2, 'mark', node, name='resume fails', cls=fi.cls, args=(), kwargs={})
                eng.sinks[-1].append((mk('exc', 'RuntimeError'), s2))
            return Init.resumed(self, eng, st, fi, args, kwargs, node)
    X = Fail(P)
    R.covers(X.W.eng)
    where = '%s:%d' % (X.fi.module.relpath, X.fi.node.lineno)
    n = fails = 0
    for o in X.outs:
        R.count('paths of the set-up')
        n += follow(R, 'setup', G, o, where)
        fails += o.kind == 'raise'
    through(R, 'setup', G, X.outs, where, ('construct fails', 'resume fails'))
    if not n or not fails:
        R.undet('setup', G, 'the set-up of the components', where)


def through(R, rule, G, outs, where, names):
    """a failure of a component comes out of the function"""
    for o in outs:
        for e, lps in walk(o.trace):
            if e.kind == 'mark' and e.a['name'] in names:
                R.verdict(o.kind == 'raise' or None, rule, G, 'the failure comes through', '', e.loc)


def run(P, R):
    G = 'CPNest.run'
    stt = {}

    def add_(cls, meth, mark_, **kw):
        if P.cls(cls).find(meth):
            stt['%s.%s' % (cls.split('.')[-1], meth)] = raising(mark_, **kw)
    add_(NS, 'nested_sampling_loop', 'sampling')
    add_(NS, 'check_insertion_indices', 'indices')
    for g in Run.GETTERS:
        add_('cpnest.CPNest', g, g, retval=lambda eng, g=g: fresh('got_' + g))
    add_('cpnest.CPNest', 'plot', 'plot')
    if P.cls('cpnest.CPNest').find('checkpoint'):
        stt['CPNest.checkpoint'] = marker('checkpoint')
    X = Run(P, stubs=stt)
    R.covers(X.W.eng)
    fi = P.method('cpnest.CPNest', 'run')
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    n = fails = 0
    for o in X.outs:
        R.count('paths of the run')
        n += follow(R, 'run', G, o, where)
        fails += o.kind == 'raise'
    through(R, 'run', G, X.outs, where, tuple(x + ' fails' for x in ('sampling', 'indices', 'plot') + Run.GETTERS))
    if not n or not fails:
        R.undet('run', G, 'the work of a run', where)


def loggers(P, R):
    """the logger that the file is attached to gets the messages of every component"""
    W = World(P, hooks={'purecalls': True})
    ci = P.cls('utils.LogFile')
    X = Init(P)
    at = None
    for o in X.outs:
        for e, l in walk(o.trace):
            if e.kind == 'addHandler':
                at = e
    if at is None:
        R.undet('logger', 'CPNest.__init__', 'which logger the file is attached to', '')
        return
    root = loggername(at.a['logger'])
    if root is None:
        R.undet('logger', 'CPNest.__init__', 'name of %s' % show(at.a['logger'])[:60], at.loc)
        return
    for cls in [P.cls(NS), P.cls('cpnest.CPNest')] + list(concrete_samplers(P)):
        fi = P.method(cls, '__init__')
        where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
        if cls.name == 'CPNest':
            heaps = [(o.state, X.me, X.W) for o in X.outs if o.kind == 'return']
        else:
            args = {a.arg: W.param(a.arg, {'manager': 'cpnest.RunManager', 'model': 'usermodel', 'output': 'str', 'resume_file': 'str'}.get(a.arg, 'number')) for a in fi.node.args.args[1:]}
            heaps = [(st, me, W) for st, me in W.eng.instantiate(State(), cls, [], args, None)]
        for st, me, w in heaps:
            for (b, f), v in list(st.heap.items()):
                if b is not me:
                    continue
                nm = loggername(w.eng.val(st, v))
                if nm is None:
                    continue
                R.verdict(root == '' or nm == root or nm.startswith(root + '.'), 'logger', cls.name, 'its messages reach the log file', '%s logs to %r, the log file is attached to %r' % (cls.name, nm, root), where)


def loggername(t):
    if t.op != 'logger':
        return None
    if not t.args or t.args[0] is NONE:
        return ''
    x = t.args[0]
    if isinstance(x, str):
        return x
    if is_term(x) and x.op == 'str':
        return x.args[0]
    return None
