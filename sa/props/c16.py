"""C16: checkpoints of the nested sampler are taken at step boundaries."""
from .common import *
from ..engine import State

EXPLANATION = ('The events of one step that change what a resumed run depends on (live points, nested samples, insertion indices, evidence history, requests and replies) are '
               'located relative to every event that saves the nested sampler: in one pass of the main loop they must all lie on one side of it. The final adjustments must not be '
               'followed by a save, and the code in which an interruption is answered by a save must not contain a step or part of the final adjustments.')
MUTANTS = [
    ('cpnest/NestedSampling.py', '''        # points not removed earlier because they are used to resend to
        # samplers if rejected
        self.params.remove''', '''        if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
            self.checkpoint()
            self.last_checkpoint_time = time.time()
        # points not removed earlier because they are used to resend to
        # samplers if rejected
        self.params.remove'''),
    ('cpnest/NestedSampling.py', '''        logLtmp=[p.logL for p in self.params[:nreplace]]
''', '''        logLtmp=[p.logL for p in self.params[:nreplace]]
        if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
            self.checkpoint()
'''),
    ('cpnest/NestedSampling.py', '''        # Refine evidence estimate
        self.state.finalise()
''', '''        # Refine evidence estimate
        self.checkpoint()
        self.state.finalise()
'''),
    ('cpnest/NestedSampling.py', '''            if self.verbose:
                self.logger.info("{0:d}: n:''', '''            if self.iteration % 1000 == 0: self.checkpoint()
            if self.verbose:
                self.logger.info("{0:d}: n:'''),
    ('cpnest/NestedSampling.py', '''                    self.check_insertion_indices()

        except''', '''                    self.check_insertion_indices()

            self.logLmin.value = np.inf
            self.params.sort(key=attrgetter('logL'))
            for i,p in enumerate(self.params):
                self.state.increment(p.logL,nlive=self.Nlive-i)
                self.nested_samples.append(p)
        except'''),
]
LOOP = 'NestedSampler.nested_sampling_loop'
STEP = 'NestedSampler.consume_sample'


def saves(e):
    return (e.kind == 'mark' and e.a['name'] == 'checkpoint') or e.kind == 'dump'


def check(P, R, tier):
    with R.guard('step-boundary', STEP):
        stubs = {'NestedSampler.checkpoint': marker('checkpoint')}
        S = Step(P, stubs=stubs)
        R.covers(S.W.eng)
        step(R, S)
    with R.guard('loop', LOOP):
        M = Main(P)
        R.covers(M.W.eng)
        loop(R, M)


def step(R, S):
    st = S.state
    from ..engine import State
    core = [S.params, S.nested, S.indices] + [S.W.field(State(), st, f) for f in ('logLs', 'log_vols')]

    def changes(e):
        return (e.kind == 'mut' and e.obj in core) or e.kind in ('send', 'recv')
    full = [[e for e, l in walk(o.trace) if changes(e)] for o in returns(S.outs)]
    always = [e for e in (full[0] if full else []) if all((e.kind, e.line, e.a.get('obj')) in {(y.kind, y.line, y.a.get('obj')) for y in f} for f in full)]
    for o in S.outs:
        n = len([1 for e, l in walk(o.trace) if changes(e)])
        R.count('state changes in a step', n)
        hit = [e for e, l in walk(o.trace) if saves(e)]
        if not hit:
            R.ok('step-boundary', STEP, 'a step saves nothing')
            continue
        for e in hit:
            # everything on one side, at every nesting level
            before, after = sides(o.trace, e, changes)
            if o.kind == 'raise' and before and not after:
                # the step is cut short: what every complete step changes and this one has not
                after = [x for x in always if (x.kind, x.line, x.a.get('obj')) not in {(y.kind, y.line, y.a.get('obj')) for y in before}]
            R.verdict(not (before and after), 'step-boundary', STEP, 'saved before or after all changes of the step',
                      'the nested sampler is saved in the middle of a step: after %s and before %s' % (what(before), what(after)), e.loc)


def what(es):
    e = es[-1] if es else None
    if e is None:
        return 'nothing'
    return '%s at line %d' % ({'mut': 'a change of ' + show(e.a.get('obj')).split('.')[-1] if e.kind == 'mut' else '', 'send': 'a request', 'recv': 'a reply'}[e.kind], e.line)


def sides(trace, target, f):
    """events before and after the target, loops around it counting for both"""
    before, after = [], []
    seen = False
    for e in trace:
        if e is target:
            seen = True
            continue
        if e.get('paths') and has_kind(e, lambda x: x is target):
            for p in e.a['paths']:
                b, a = sides(p.trace, target, f)
                if any(has_kind(x, lambda y: y is target) for x in p.trace):
                    before += b
                    after += a
                allp = [x for x, l in walk(p.trace) if f(x)]
                before += allp
                after += allp
            seen = True
            continue
        es = [x for x, l in walk((e,)) if f(x)]
        (after if seen else before).extend(es)
    return before, after


def loop(R, M):
    final = lambda e: (e.kind == 'mark' and e.a['name'] in ('increment', 'finalise')) or (e.kind == 'mut' and e.obj in (M.nested, M.params))
    n = 0
    for o in M.outs:
        for path, chain in bodies(o.trace):
            for i, e in enumerate(path):
                if saves(e):
                    n += 1
        asy = [i for i, e in enumerate(o.trace) if e.kind == 'async']
        if asy:
            tail = o.trace[asy[-1] + 1:]
            if not [e for e, l in walk(tail) if saves(e)]:
                continue
            ps = [p for p in o.trace[asy[-1]].a['paths']]
            loc = [e for e, l in walk(tail) if saves(e)][0].loc
            if any(marks(p.trace, 'step') for p in ps):
                R.violation('async-checkpoint', LOOP, 'a signal that arrives while a step is in progress raises CheckPoint inside consume_sample, and the handler saves the half-done step', loc)
            else:
                R.ok('async-checkpoint', LOOP, 'an interruption answered by a save cannot land in a step')
            part = [e for p in ps for e, l in walk(p.trace) if final(e)]
            R.verdict(not part, 'async-final', LOOP, 'the final adjustments are outside the region whose interruption is answered by a save',
                      'an interruption in the middle of the final adjustments is answered by a save', part[0].loc if part else loc)
            continue
        # synchronous saves
        fi = first_index(o.trace, final)
        sv = last_index(o.trace, saves)
        if sv is not None and fi is not None and sv >= fi:
            e = [x for x, l in walk((o.trace[sv],)) if saves(x)][0]
            R.violation('final-not-saved', LOOP, 'the nested sampler is saved after the final adjustments have begun; a resumed run would repeat them', e.loc)
        elif o.kind == 'return':
            R.ok('final-not-saved', LOOP, 'nothing is saved after the final adjustments began')
        for e, l in walk(o.trace):
            if saves(e) and e.kind == 'mark':
                R.ok('periodic-boundary', LOOP, 'the periodic save stands between two calls of the step', e.loc)
    R.count('saves in the main loop', n)
