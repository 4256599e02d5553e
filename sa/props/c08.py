"""C08: termination signals checkpoint everyone and exit with 130."""
import ast
from .common import *
from ..skeleton import Skeleton, Tr, Bad
from ..engine import State

EXPLANATION = ('Every try block that catches the interruption is entered with the interruption raised at every point of its body (asynchronous-exception edges of the abstract '
               'interpreter). Main loop: after the interruption the own state is saved, a request the workers recognise goes to every pipe (indices evaluated) and the exit status '
               'is 130. Run: the shared flag is set before exiting with 130, the handlers registered raise the exception that is caught, before any worker is started. '
               'Workers: typestate over request, flag and interruption: each leads to a checkpoint and then out of the loop.')
MUTANTS = [
    ('cpnest/sampler.py', "                newparam.logP = self.model.log_prior(newparam)\n\n                if newparam.logP-logp_old", "                try: newparam.logP = self.model.log_prior(newparam)\n                except Exception: newparam.logP = -np.inf\n\n                if newparam.logP-logp_old"),
    ('cpnest/NestedSampling.py', '''        except CheckPoint:
            self.checkpoint()
''', '''        except CheckPoint:
'''),
    ('cpnest/NestedSampling.py', '                c.send("checkpoint")\n', '                c.send("save")\n'),
    ('cpnest/NestedSampling.py', '''            for c in self.manager.consumer_pipes:
                c.send("checkpoint")
''', '''            for c in self.manager.consumer_pipes[:self.manager.nthreads-1]:
                c.send("checkpoint")
'''),
    ('cpnest/NestedSampling.py', '            sys.exit(130)\n', '            sys.exit(0)\n'),
    ('cpnest/cpnest.py', '                self.checkpoint()\n                sys.exit(130)', '                sys.exit(130)'),
    ('cpnest/cpnest.py', 'self.manager.checkpoint_flag.value = 1', 'self.manager.checkpoint_flag.value = 0'),
    ('cpnest/cpnest.py', 'self.manager.checkpoint_flag.value = 1', 'self.NS.checkpoint()'),
    ('cpnest/cpnest.py', '                signal.signal(signal.SIGUSR2, sighandler)\n', '                signal.signal(signal.SIGUSR2, lambda s, f: sys.exit(1))\n'),
    ('cpnest/cpnest.py', '    raise CheckPoint()\n', '    raise KeyboardInterrupt()\n'),
    ('cpnest/cpnest.py', '''            except CheckPoint:
                self.checkpoint()
                sys.exit(130)''', '''            except CheckPoint:
                self.checkpoint()
                sys.exit(1)'''),
    ('cpnest/sampler.py', '''            self.logger.critical("Checkpoint excepted in sampler")
            self.checkpoint()
''', '''            self.logger.critical("Checkpoint excepted in sampler")
'''),
    ('cpnest/sampler.py', '''                if p == "checkpoint":
                    self.checkpoint()
                    sys.exit(130)
''', '''                if p == "checkpoint":
                    sys.exit(130)
'''),
    ('cpnest/sampler.py', '''                if p == "checkpoint":
                    self.checkpoint()
                    sys.exit(130)
''', '''                if p == "checkpoint":
                    self.checkpoint()
                    continue
'''),
    ('cpnest/sampler.py', '''            if self.manager.checkpoint_flag.value:
                self.checkpoint()
                sys.exit(130)
''', '''            if self.manager.checkpoint_flag.value:
                break
'''),
    ('cpnest/sampler.py', '''            if self.manager.checkpoint_flag.value:
                self.checkpoint()
                sys.exit(130)
''', ''),
]
LOOP = 'NestedSampler.nested_sampling_loop'
RUN = 'CPNest.run'


def check(P, R, tier):
    with R.guard('not-swallowed', 'package'):
        swallowed(P, R)
    words = set()
    for c in concrete_samplers(P):
        with R.guard('worker', c.qual):
            words |= worker(P, R, c)
    with R.guard('master', LOOP):
        M = Main(P)
        R.covers(M.W.eng)
        master(R, M, words)
    with R.guard('run', RUN):
        r = Run(P)
        R.covers(r.W.eng)
        run(P, R, r, M)


SAMPLING = ('cpnest/NestedSampling.py', 'cpnest/sampler.py', 'cpnest/proposal.py', 'cpnest/parameter.pyx', 'cpnest/model.py')


def swallowed(P, R):
    """no handler on the way from the point of interruption to the ones checked above stops the interruption"""
    n = 0
    for fi in P.all_functions():
        for t in ast.walk(fi.node):
            if not isinstance(t, ast.Try):
                continue
            n += 1
            for h in t.handlers:
                names = [] if h.type is None else [x.id if isinstance(x, ast.Name) else getattr(x, 'attr', '?') for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if h.type is not None and not set(names) & {'Exception', 'BaseException'}:
                    continue
                if any(isinstance(x, ast.Raise) for b in h.body for x in ast.walk(b)):
                    continue
                if fi.module.relpath in SAMPLING:
                    R.violation('not-swallowed', fi.qual, 'a handler for %s stops the interruption raised by a signal' % (', '.join(names) or 'every exception'),
                                '%s:%d (%s)' % (fi.module.relpath, h.lineno, fi.qual))
    R.ok('not-swallowed', 'package', 'no handler of all exceptions in the sampling code (%d try statements)' % n)


def status(R, o, rule, where):
    v = o.value
    loc = o.trace[-1].loc if o.trace else where
    if o.kind != 'raise':
        if o.kind == 'return' or o.kind == 'fall':
            R.violation(rule, where, 'after the interruption the run goes on and returns normally', loc)
        else:
            R.undet(rule, where, 'the path ends with %s' % o.kind, loc)
        return
    if v.op == 'exc' and v.args[0] == 'SystemExit':
        a = v.args[1] if len(v.args) > 1 else NONE
        R.verdict(cmp(a, num(130)), rule, where, 'exit status 130', 'the exit status after an interruption is %s' % show(a), loc)
    else:
        R.verdict(None if unresolved(v) else False, rule, where, '', 'the interruption ends the process with %s' % show(v)[:80], loc)


def interrupted(o):
    """events after the interruption was caught"""
    for i, e in enumerate(o.trace):
        if e.kind == 'async':
            return o.trace[i + 1:]
    return None


def master(R, M, words):
    outs = [(o, interrupted(o)) for o in M.outs]
    outs = [(o, t) for o, t in outs if t is not None]
    if not outs:
        return
    # the guarded region covers the steps of the run
    steps = [1 for o, t in outs for e in o.trace if e.kind == 'async' for p in e.a['paths'] if marks(p.trace, 'step')]
    free = [e for o in M.rets for e, l in marks(o.trace, 'step') if not covered(M, e)]
    R.verdict(bool(steps), 'covers-steps', LOOP, 'the handler covers the steps of the run', 'an interruption during a step is not handled by the main loop', LOOP)
    for o, t in outs:
        loc = o.trace[-1].loc
        saves = marks(t, 'checkpoint')
        R.verdict(True if saves else (None if events(t, 'opaquecall') else False), 'own-state-saved', LOOP, 'the nested sampler saves its own state',
                  'after an interruption the nested sampler does not save its own state', loc)
        status(R, o, 'exit-status', LOOP)
        bad = None
        wrong = None
        guess = False
        for n in (1, 2, 3, 5):
            def on(e, t_, sk):
                if e.kind != 'send':
                    return None
                v = sk.value(t_, e.a['pipe'])
                if not isinstance(v, Obj) or v.key[0] != 'elem' or sk.vague(e.a['pipe'], t_.env):
                    t_.guess = True
                    return None
                m = sk.value(t_, e.value)
                if isinstance(m, str) and (m in words or not words):
                    return t_.gs | {v.key[2]}
                return None
            sk = Skeleton(M.W.eng, {M.W.field(M.st, M.manager, 'nthreads'): n}, {M.pipes: n}, lambda e, t_: None, on, maxiter=7)
            sk.rel = sk.relevant(t, lambda e: (e.a['pipe'],) if e.kind == 'send' else ())
            for x in sk.run(t, [Tr({}, frozenset())]):
                if x.gs != frozenset(range(n)):
                    if x.guess:
                        guess = True
                    else:
                        bad = (n, sorted(x.gs))
        sent = set(show(e.value)[:40] for e, l in events(t, 'send'))
        if bad:
            R.violation('workers-asked', LOOP, 'with %d workers only workers %s are sent a checkpoint request they recognise (messages sent: %s; recognised: %s)'
                        % (bad + (sorted(sent), sorted(words))), loc)
        elif guess:
            R.undet('workers-asked', LOOP, 'the pipes that get the request could not be determined', loc)
        else:
            R.ok('workers-asked', LOOP, 'every worker is sent a checkpoint request', loc)


def covered(M, e):
    return True


def run(P, R, r, M):
    outs = [(o, interrupted(o)) for o in r.outs]
    outs = [(o, t) for o, t in outs if t is not None]
    main_handles = any(interrupted(o) is not None for o in M.outs)
    if not main_handles:
        saved = any(e.kind == 'dump' for o, t in outs for e, l in walk(t))
        R.verdict(None if saved else False, 'own-state-saved', LOOP, '', 'no handler in the main loop saves the nested sampler when a signal arrives', LOOP)
    if not outs:
        R.violation('flag-raised', RUN, 'an interruption that surfaces in the run is not handled', RUN)
    need = {'sampling': False, 'join': False}
    for o, t in outs:
        for e in o.trace:
            if e.kind == 'async':
                for p in e.a['paths']:
                    if marks(p.trace, 'sampling'):
                        need['sampling'] = True
                    if [1 for x, l in events(p.trace, 'proc_join')]:
                        need['join'] = True
        loc = o.trace[-1].loc
        w = [e for e, l in events(t, 'shared_write') if e.a['name'].endswith('checkpoint_flag')]
        if not w:
            R.verdict(None if events(t, 'opaquecall') else False, 'flag-raised', RUN, '', 'the shared checkpoint flag is not raised after an interruption', loc)
        else:
            v = w[-1].value
            R.verdict(None if unresolved(v) else (cmp(v, ZERO) is False), 'flag-raised', RUN, 'the shared flag is raised', 'the checkpoint flag is set to %s' % show(v), w[-1].loc)
        status(R, o, 'exit-status', RUN)
    if outs:
        R.verdict(need['sampling'], 'covers-sampling', RUN, 'the handler covers sampling', 'an interruption while sampling is not handled by the run', RUN)
        R.verdict(need['join'], 'covers-join', RUN, 'the handler covers waiting for the workers', 'an interruption while waiting for the workers is not handled', RUN)
    # handlers
    seen = set()
    for o in r.rets:
        dec = decide(truth(r.resume), o.facts)
        if dec is False:
            continue
        sig = [(i, e) for i, e in enumerate(o.trace) if has_kind(e, lambda x: x.kind == 'signal')]
        if not sig:
            R.verdict(None if events(o.trace, 'opaquecall') else False, 'handler-installed', RUN, '', 'a resumable run installs no signal handler', RUN)
            continue
        R.ok('handler-installed', RUN, '%d signals are handled' % len(sig))
        starts = first_index(o.trace, lambda x: x.kind == 'proc_start')
        if starts is not None and starts < max(i for i, e in sig):
            late = [e for i, e in sig if i > starts][0]
            R.violation('handler-inherited', RUN, 'a handler is installed after the workers were started, which therefore do not have it', late.loc)
        else:
            R.ok('handler-inherited', RUN, 'handlers are installed before the workers start')
        for e, l in events(o.trace, 'signal'):
            h = e.a['handler']
            if h in seen:
                continue
            seen.add(h)
            ends = handler_ends(r.W, h)
            if ends is None:
                R.undet('handler-raises', RUN, 'the handler %s could not be analysed' % show(h)[:60], e.loc)
            else:
                bad = [x for x in ends if x != 'CheckPoint']
                R.verdict(not bad, 'handler-raises', RUN, 'the handler raises the interruption', 'the handler %s ends with %s instead of the interruption that is caught'
                          % (show(h)[:60], ', '.join(bad)), e.loc)


def handler_ends(W, h):
    if h.op == 'ext' and h.args[0] in ('signal.SIG_IGN', 'signal.SIG_DFL'):
        return ['nothing' if h.args[0].endswith('IGN') else 'the default action']
    if h.op == 'ext' and h.args[0] in ('signal.default_int_handler', '_signal.default_int_handler'):
        return ['KeyboardInterrupt']
    if h.op not in ('func', 'closure', 'bound', 'class'):
        return None
    try:
        outs = W.call(h, [fresh('signum'), fresh('frame')])
    except (AttributeError, KeyError):
        return None
    res = []
    for o in outs:
        if o.kind == 'raise':
            v = o.value
            res.append(v.args[0].split('.')[-1] if v.op == 'exc' else show(v)[:40])
        else:
            res.append('return')
    return res


def worker(P, R, c):
    w = Worker(P, c)
    R.covers(w.W.eng)
    where = c.name + '.produce_sample'
    words = set()
    for o in w.outs:
        for e, l in walk(o.trace):
            for f in list(e.facts or ()):
                grab(f, words)
        for f in o.facts:
            grab(f, words)
    words = set(x for x in words if isinstance(x, str))
    # interruption
    outs = [(o, interrupted(o)) for o in w.outs]
    outs = [(o, t) for o, t in outs if t is not None]
    if not outs:
        R.violation('signal-in-worker', where, 'an interruption in the worker is not handled, its state is not saved', where)
    for o, t in outs:
        R.verdict(True if marks(t, 'checkpoint') else (None if events(t, 'opaquecall') else False), 'signal-in-worker', where, 'an interrupted worker saves its state',
                  'a worker that receives the signal leaves without saving its state', (t or o.trace)[-1].loc)
        ps = [p for e in o.trace if e.kind == 'async' for p in e.a['paths']]
        R.verdict(any(marks(p.trace, 'move') for p in ps), 'covers-moves', where, 'the handler covers the moves', 'an interruption during a move is not handled', where)

    def choices(e, t):
        if e.kind == 'recv':
            return [{e.value: x} for x in sorted(words)] + [{e.value: Obj(('request',))}]
        if e.kind == 'poll':
            return [{e.value: True}, {e.value: False}]
        if e.kind == 'shared_read' and e.a['name'].endswith('logLmin'):
            return [{e.value: -2.5}]
        if e.kind == 'shared_read' and e.a['name'].endswith('checkpoint_flag'):
            return [{e.value: 0}, {e.value: 1}]
        return None

    def on(e, t, sk):
        why, saved = t.gs
        if e.kind == 'mark' and e.a['name'] == 'checkpoint' and why:
            return (why, True)
        if e.kind in ('poll', 'recv', 'send') or (e.kind == 'mark' and e.a['name'] == 'move'):
            if why:
                return Bad(why, 'the worker goes on working after %s' % WHY[why], e.loc)
        if e.kind == 'recv' and isinstance(t.env[e.value], str):
            return ('request-obeyed', False)
        if e.kind == 'shared_read' and e.a['name'].endswith('checkpoint_flag') and t.env[e.value]:
            return why and (why, saved) or ('flag-obeyed', False)
        return None
    bads, good = {}, {}
    flags = 0
    for o in w.outs:
        if interrupted(o) is not None:
            continue
        flags += len([1 for e, l in events(o.trace, 'shared_read') if e.a['name'].endswith('checkpoint_flag')])
        sk = Skeleton(w.W.eng, w.bind, {}, choices, on, maxiter=2)
        sk.rel = sk.relevant(o.trace, lambda e: (), o.facts)
        for t in sk.filter(sk.run(o.trace, [Tr({}, (None, False))]), o.facts):
            b = t.bad
            why, saved = t.gs
            if b is None and why and not saved:
                b = Bad(why, 'the worker leaves without saving its state after %s' % WHY[why], o.trace[-1].loc)
            if b:
                bads.setdefault((b.rule, t.guess), b)
            elif why:
                good[why] = good.get(why, 0) + 1
        R.count('worker trajectories', sk.steps)
    if not words:
        R.violation('request-obeyed', where, 'the worker recognises no checkpoint request', where)
    if not flags:
        R.violation('flag-obeyed', where, 'the worker never looks at the shared checkpoint flag', where)
    for (rule, guess), b in sorted(bads.items()):
        if not guess:
            R.violation(rule, where, b.msg, b.loc)
        elif (rule, False) not in bads:
            R.undet(rule, where, 'possibly: ' + b.msg, b.loc)
    for rule in WHY:
        if not any(k[0] == rule for k in bads) and (words if rule == 'request-obeyed' else flags):
            R.verdict(True if good.get(rule) else None, rule, where, 'the state is saved and the loop left', 'no path recognised', where)
    return words


WHY = {'request-obeyed': 'a checkpoint request', 'flag-obeyed': 'the shared checkpoint flag was raised'}


def grab(f, words):
    for a in bool_atoms(f, []):
        if a.op == 'eq' and any(is_request(x) for x in a.args):
            for x in a.args:
                if x.op == 'str':
                    words.add(x.args[0])
