"""C28: run options reach the components they configure."""
from .common import *
from ..engine import State
from .c18 import number

EXPLANATION = ('CPNest.__init__ is executed symbolically; the objects it constructs (nested sampler, workers, processes, run manager) and the argument each gets are interpreted under option values that are pairwise different, for every split of up to five workers, every way to give '
               'proposals, with and without checkpoint interval, seed and worker count, and for fresh and resumed runs, and compared with the option of that name. The constructors are executed with opaque arguments and must keep each option in their state.')
TECHNIQUE = 'static analysis: option-propagation dataflow by symbolic execution of the constructors, decided over all small worker configurations'
C, S, N = 'cpnest/cpnest.py', 'cpnest/sampler.py', 'cpnest/NestedSampling.py'
MUTANTS = [
    (C, "            nmhs = self.nthreads-nhamiltonian-nslice\n", "            nmhs = self.nthreads-max(nhamiltonian,nslice)\n"),
    (C, "            nmhs = self.nthreads-nhamiltonian-nslice\n", "            nmhs = self.nthreads-nhamiltonian\n"),
    (C, "            for i in range(nslice):", "            for i in range(nhamiltonian):"),
    (C, "                            nlive          = nlive,", "                            nlive          = poolsize,"),
    (C, "                            nlive          = nlive,\n", ""),
    (C, "                            prior_sampling = self.prior_sampling,\n", ""),
    (C, "                            verbose        = verbose,\n                            seed           = self.seed,", "                            verbose        = verbose,"),
    (C, "poolsize    = poolsize,\n                                    seed        = self.seed+i,", "poolsize    = nlive,\n                                    seed        = self.seed+i,"),
    (C, "                        poolsize    = poolsize,\n                        seed ", "                        seed "),
    (C, "proposal    = proposals['sli'](),", "proposal    = proposals['mhs'](),"),
    (C, "proposals = dict(mhs=proposals[0],\n                                 hmc=proposals[1],\n                                 sli=proposals[2])", "proposals = dict(mhs=proposals[0],\n                                 hmc=proposals[2],\n                                 sli=proposals[1])"),
    (C, "                                 sli=EnsembleSliceProposalCycle)", "                                 sli=DefaultProposalCycle)"),
    (C, "            if proposals is None:", "            if True:"),
    (C, "                        sample_prior = prior_sampling,\n", ""),
    (C, "                periodic_checkpoint_interval = np.inf\n", "                periodic_checkpoint_interval = 600\n"),
    (C, "                periodic_checkpoint_interval=periodic_checkpoint_interval\n", ""),
    (C, "            if periodic_checkpoint_interval is None:\n", "            if n_periodic_checkpoint is None:\n"),
    (C, 'self.periodic_checkpoint_interval = kwargs.pop(\n            "periodic_checkpoint_interval", np.inf\n        )', 'self.periodic_checkpoint_interval = kwargs.pop(\n            "checkpoint_interval", np.inf\n        )'),
    (C, "            if seed is None: self.seed = 1234", "            if not seed: self.seed = 1234"),
    (C, "resume_file = os.path.join(output, \"nested_sampler_resume.pkl\")\n            if not os.path.exists(resume_file) or resume == False:", "resume_file = os.path.join(output, \"nested_sampler_resume.pkl\")\n            if not os.path.exists(resume_file):"),
    (C, "sampler_{0:d}.pkl\".format(nmhs+nhamiltonian+i))\n                if not os.path.exists(resume_file) or resume == False:", "sampler_{0:d}.pkl\".format(nmhs+nhamiltonian+i))\n                if True:"),
    (C, "                    sampler = HamiltonianMonteCarloSampler(\n                        self.user,\n                        maxmcmc,", "                    sampler = HamiltonianMonteCarloSampler(\n                        self.user,\n                        nlive,"),
    (C, "        if nthreads is None:\n            self.nthreads = mp.cpu_count()", "        if nthreads is None:\n            self.nthreads = 1"),
    (S, "        self.maxmcmc = maxmcmc\n", "        self.maxmcmc = self.initial_mcmc\n"),
    (S, "        self.sample_prior       = sample_prior\n", "        self.sample_prior       = False\n"),
    (S, "        self.verbose            = verbose\n", "        self.verbose            = bool(verbose)\n"),
    (S, "        self.poolsize           = poolsize\n", "        self.poolsize           = maxmcmc\n"),
    (S, "            self.proposal = proposal\n", "            self.proposal = DefaultProposalCycle()\n"),
    (N, "        self.tolerance      = stopping\n", "        self.tolerance      = 0.1\n"),
    (N, "        self.prior_sampling = prior_sampling\n", "        self.prior_sampling = False\n"),
    (N, "        self.Nlive          = nlive\n", "        self.Nlive          = max(nlive, 100)\n"),
    (N, "        self.setup_random_seed(seed)\n", "        self.setup_random_seed(1)\n"),
    (N, "        self.output_folder  = output\n", "        self.output_folder  = './'\n"),
    (C, "                p = mp.Process(target=sampler.produce_sample)\n                self.process_pool.append(p)\n\n    def run", "            p = mp.Process(target=sampler.produce_sample)\n            self.process_pool.append(p)\n\n    def run"),
]

OUT = '/data/run 1'


def configs(tier):
    top = 5 if tier == 'thorough' else 4
    for n in range(1, top + 1):
        for h in range(n + 1):
            for sl in range(n + 1 - h):
                yield n, h, sl


class Built(object):
    """what one interpretation of the constructor builds"""

    def __init__(self, X, m):
        self.X = X
        self.m = m
        outs = [o for o in X.runs(m)]
        self.raised = [o for o in outs if o.kind != 'return']
        outs = [o for o in outs if o.kind == 'return']
        self.o = outs[0] if outs else None
        self.parts = []             # (kind, class, given terms, object, model, loc, index of the process or None)
        self.procs = []
        self.pipes = 0
        self.started = None
        if self.o is None:
            return
        for k, (e, mm) in enumerate(unroll(self.o.trace, m)):
            if e.kind == 'mark' and e.a['name'] in ('construct', 'resume'):
                self.parts.append((e.a['name'], e.a['cls'], e.a['given'], e.a['obj'], mm, e.loc, k))
            elif e.kind == 'newprocess':
                self.procs.append((e.a['target'], mm, e.loc, k))
            elif e.kind == 'newpipe':
                self.pipes += 1
            elif e.kind == 'supercall' and e.a.get('name') == 'start':
                self.started = k

    def field(self, obj, name):
        st = self.o.state
        v = st.heap.get((obj, name))
        return None if v is None else self.X.W.eng.val(st, v)


def value(m, t):
    try:
        return m.ev(t)
    except Undef:
        return None


def same(m, t, want):
    """three-valued equality of a term's value with an option value"""
    v = value(m, t)
    if v is None and t is not NONE:
        return None
    if t is NONE:
        return want is None
    if isinstance(want, str):
        if not isinstance(v, str):
            return None
        return v == want or v.rstrip('/') == want.rstrip('/')
    if want is None:
        return v is None
    if isinstance(want, bool) or isinstance(v, bool):
        return v is want if isinstance(v, bool) else (None if isinstance(v, str) else False)
    try:
        return abs(m.num(v) - want) < 1e-9 if want != math.inf else m.num(v) == math.inf
    except (Undef, TypeError):
        return None


def check(P, R, tier):
    G = 'CPNest.__init__'
    with R.guard('options', G):
        X = Init(P)
        R.covers(X.W.eng)
        table(P, R, G, X, tier)
        interval(P, R, G, X)
        given_proposals(P, R, G, X)
    for ci in concrete_samplers(P) + [P.cls(NS)]:
        with R.guard('keeps', ci.name + '.__init__'):
            keeps(P, R, ci)


BASE = dict(nlive=101, poolsize=53, maxmcmc=29, verbose=2, output=OUT + '/', prior_sampling=True, proposals=None, n_periodic_checkpoint=None, periodic_checkpoint_interval=None, resume=False, seed=77)
KEYS = {MH: 'mhs', HMC: 'hmc', SLICE: 'sli'}
# option -> parameter of the component it configures
TO_NS = ('nlive', 'output', 'verbose', 'seed', 'prior_sampling')
TO_SAMPLER = {'maxmcmc': 'maxmcmc', 'output': 'output', 'verbose': 'verbose', 'poolsize': 'poolsize', 'prior_sampling': 'sample_prior'}


def kindof(P, ci):
    for q in KEYS:
        if P.cls(q) is ci:
            return q
    return None


def table(P, R, G, X, tier):
    where = '%s:%d' % (X.fi.module.relpath, X.fi.node.lineno)
    nscls = P.cls(NS)
    cpu = mk('atom', 'cpu_count')
    grid = [(n, n, h, sl) for n, h, sl in configs(tier)] + [(None, 3, 1, 1)]
    for given, n, h, sl in grid:
        what = '%s workers, %d hamiltonian, %d slice' % ('default number of' if given is None else n, h, sl)
        for verbose, prior, nlive, pool, steps in ((2, True, 101, 53, 29), (0, False, 7, 2000, 30000), (3, True, 20000, 3, 2)):
            base = dict(BASE, nthreads=given, nhamiltonian=h, nslice=sl, verbose=verbose, prior_sampling=prior, nlive=nlive, poolsize=pool, maxmcmc=steps)
            m = X.model(0, exists=(), **base)
            m.bind[cpu] = n
            try:
                B = Built(X, m)
            except (Undef, ValueError) as e:
                R.undet('options', G, 'what is built for %s: %s' % (what, e), where)
                continue
            if B.o is None:
                R.verdict(False if B.raised else None, 'options', G, '', 'the constructor fails for %s' % what, where)
                continue
            nss = [p for p in B.parts if p[1] is nscls]
            wks = [p for p in B.parts if p[1] is not nscls]
            R.count('components', len(B.parts))
            R.verdict(len(nss) == 1, 'options', G, 'one nested sampler', '%d nested samplers are built' % len(nss), where)
            numbers(P, R, G, B, wks, n, h, sl, what, where)
            mgr = B.field(X.me, 'manager')
            managed(P, R, G, X, B, mgr, n, where)
            for k, c, g, obj, mm, loc, pos in nss:
                for opt in TO_NS:
                    arrives(R, G, mm, g, opt, base[opt], opt, c, loc)
                common_args(R, G, X, g, mgr, c, loc, ('model', 'usermodel'))
            for k, c, g, obj, mm, loc, pos in wks:
                for opt, par in sorted(TO_SAMPLER.items()):
                    arrives(R, G, mm, g, par, base[opt], opt, c, loc)
                common_args(R, G, X, g, mgr, c, loc, ('model', 'usermodel'))
        # a seed that is falsy is still the user's
        for seed in (0, 3):
            m = X.model(0, exists=(), **dict(BASE, nthreads=n, nhamiltonian=h, nslice=sl, seed=seed))
            try:
                B = Built(X, m)
            except (Undef, ValueError):
                continue
            for k, c, g, obj, mm, loc, pos in [p for p in B.parts if p[1] is nscls]:
                arrives(R, G, mm, g, 'seed', seed, 'seed', c, loc)
        resumed(P, R, G, X, n, h, sl, what, where)


def arrives(R, G, mm, g, par, want, opt, c, loc):
    if par not in g:
        R.undet('options', G, '%s has no parameter %s' % (c.name, par), loc)
        return
    R.verdict(same(mm, g[par], want), 'options', G, 'the option reaches the component', '%s does not get the option %s but %s' % (c.name, opt, show(g[par])[:60]), loc)


def common_args(R, G, X, g, mgr, c, loc, modelnames):
    if 'manager' in g and mgr is not None:
        R.verdict(g['manager'] is mgr or (False if g['manager'] is NONE else None), 'options', G, 'it gets the manager of the run', '%s does not get the manager of the run' % c.name, loc)
    for nm in modelnames:
        if nm in g:
            u = X.args.get('usermodel')
            R.verdict(g[nm] is u or (None if contains(g[nm], u) or g[nm].op not in ('none', 'ref') else False), 'options', G, 'it gets the user model', '%s does not get the user model' % c.name, loc)


def numbers(P, R, G, B, wks, n, h, sl, what, where):
    want = {HMC: h, SLICE: sl, MH: n - h - sl}
    for q, w in sorted(want.items()):
        got = [p for p in wks if kindof(P, p[1]) == q]
        R.verdict(len(got) == w, 'workers', G, 'as many workers of each kind as configured', '%d workers of class %s are built where %d are configured (%s)' % (len(got), P.cls(q).name, w, what), got[0][5] if got else where)
    R.verdict(len(B.procs) == n, 'processes', G, 'one process per worker', '%d processes are built for %d workers (%s)' % (len(B.procs), n, what), B.procs[0][2] if B.procs else where)
    # each process runs its own worker: target built from the worker made last before it
    used = {}
    for t, mm, loc, pos in B.procs:
        mine = [p for p in wks if contains(t, p[3])]
        if not mine:
            R.undet('processes', G, 'target of the process: %s' % show(t)[:60], loc)
            continue
        iters = [p for p in mine if p[6] < pos]
        if not iters:
            R.violation('processes', G, 'a process is built for a worker that does not exist yet', loc)
            continue
        w = iters[-1]
        R.verdict(w[6] not in used, 'processes', G, 'each worker runs in its own process', 'two processes run the same worker (%s)' % what, loc)
        used[w[6]] = True
    pool = None
    for nm in ('process_pool',):
        v = B.field(B.X.me, nm)
        if v is not None:
            pool = v
    if pool is not None:
        m = B.m
        try:
            ln = total_len(B, pool)
        except Undef:
            ln = None
        if ln is not None:
            R.verdict(ln == n, 'processes', G, 'all processes are kept for the run', '%d of %d processes are kept for the run (%s)' % (ln, n, what), where)


def total_len(B, pool):
    """number of processes put into the pool"""
    k = 0
    seen = False
    for e, mm in unroll(B.o.trace, B.m):
        if e.kind == 'mut' and e.a['obj'] is pool:
            seen = True
            if e.a['name'] == 'append':
                k += 1
            else:
                raise Undef('pool')
    if not seen:
        raise Undef('pool')
    return k


def managed(P, R, G, X, B, mgr, n, where):
    if mgr is None:
        R.undet('manager', G, 'the manager of the run', where)
        return
    R.verdict(B.pipes >= n if B.pipes else None, 'manager', G, 'the manager has a channel for every worker', 'the manager makes %d channels for %d workers' % (B.pipes, n), where)
    if B.started is None:
        R.violation('manager', G, 'the manager is never started', where)
    else:
        R.verdict(all(p[6] > B.started for p in B.parts), 'manager', G, 'the manager is started before it is used', 'a component is built before the manager is started', where)
    v = B.field(mgr, 'nthreads')
    if v is not None:
        R.verdict(same(B.m, v, n), 'manager', G, 'the manager knows the number of workers', 'the manager is told there are %s workers' % show(v)[:40], where)


def interval(P, R, G, X):
    where = '%s:%d' % (X.fi.module.relpath, X.fi.node.lineno)
    for old in (None, 10):
        for val in (None, 7.5, 0.0):
            m = X.model(0, exists=(), **dict(BASE, nthreads=2, nhamiltonian=0, nslice=0, n_periodic_checkpoint=old, periodic_checkpoint_interval=val))
            try:
                B = Built(X, m)
            except (Undef, ValueError):
                B = None
            mgr = B.field(X.me, 'manager') if B and B.o else None
            v = B.field(mgr, 'periodic_checkpoint_interval') if mgr is not None else None
            if v is None:
                R.undet('interval', G, 'the interval kept by the manager', where)
                continue
            R.verdict(same(m, v, math.inf if val is None else val), 'interval', G, 'the manager keeps the checkpoint interval',
                      'with checkpoint interval %s the manager keeps %s' % (val, show(v)[:80]), where)


def given_proposals(P, R, G, X):
    """proposal classes of each kind of worker"""
    where = '%s:%d' % (X.fi.module.relpath, X.fi.node.lineno)
    prop = X.args['proposals']
    defaults = {MH: 'proposal.DefaultProposalCycle', HMC: 'proposal.HamiltonianProposalCycle', SLICE: 'proposal.EnsembleSliceProposalCycle'}
    aslist = {MH: num(0), HMC: num(1), SLICE: num(2)}
    islist = [mk('istype', prop, mk('ext', 'builtins.list'))]
    for form in ('none', 'dict', 'list'):
        found = 0
        for o in X.outs:
            if o.kind != 'return' or not holds(X, o, form, prop):
                continue
            made = {}
            for e in deep(o.trace):
                if e.kind == 'opaquecall':
                    made[e.a['ret']] = e.a['f']
                if e.kind != 'mark' or e.a['name'] != 'construct' or kindof(P, e.a['cls']) is None:
                    continue
                found += 1
                q = kindof(P, e.a['cls'])
                v = e.a['given'].get('proposal')
                c = e.a['cls'].name
                if v is None:
                    R.undet('proposals', G, 'proposal of %s' % c, e.loc)
                    continue
                if form == 'none':
                    k = X.W.eng.classinfo(v)
                    want = P.cls(defaults[q])
                    R.verdict(None if k is None and v is not NONE else (k is not None and (k is want or want in k.mro())), 'proposals', G, 'the default jumps of its kind', '%s gets %s as its default proposal' % (c, k.name if k else show(v)[:40]), e.loc)
                else:
                    key = s(KEYS[q]) if form == 'dict' else aslist[q]
                    v = made.get(v, v)
                    keys = set(x.args[1] if is_term(x.args[1]) else s(x.args[1]) for x in subterms(v) if x.op in ('idx', 'col') and x.args[0] is prop)
                    if key in keys and len(keys) == 1:
                        R.ok('proposals', G, 'the jumps given for its kind', e.loc)
                    elif not contains(v, prop):
                        R.verdict(None if v.op in ('sym', 'fresh', 'unknown') else False, 'proposals', G, '', '%s does not use the proposals given by the user' % c, e.loc)
                    else:
                        R.verdict(None if not keys else False, 'proposals', G, '', '%s uses the proposals given as %s' % (c, ', '.join(show(x) for x in keys)), e.loc)
        if not found:
            R.undet('proposals', G, 'proposals given as %s' % form, where)


def holds(X, o, form, prop):
    m = X.model(0, exists=(), **dict(BASE, nthreads=3, nhamiltonian=1, nslice=1))
    del m.bind[prop]

    def leaf(mm, t):
        if t is prop:
            return PROP[form]
        if t.op == 'pred' and t.args[0] in ('istype', 'isinstance') and t.args[1] is prop:
            x = str(t.args[2].args[0]) if t.args[2].op == 'ext' else ''
            return x.endswith('.' + form)
        if t.op in ('isnone',) and t.args[0] is prop:
            return form == 'none'
        if t.op in ('eq', 'eqz', 'is') and contains(t, prop) and contains(t, NONE):
            return form == 'none'
        return None
    m.leaf = pathleaf((), leaf)
    try:
        return all(m.truth(m.ev(f)) for f in o.facts)
    except Undef:
        return False


PROP = {'none': None, 'dict': '<dict>', 'list': '<list>'}


def deep(trace):
    for e in trace:
        yield e
        if e.kind == 'loop':
            for p in e.a['paths']:
                for x in deep(p.trace):
                    yield x


def resumed(P, R, G, X, n, h, sl, what, where):
    """with resume, exactly the components that have a file are resumed, into this run"""
    for res in (True, False):
        m = X.model(0, exists=True, **dict(BASE, nthreads=n, nhamiltonian=h, nslice=sl, resume=res))
        try:
            B = Built(X, m)
        except (Undef, ValueError):
            B = None
        if B is None or B.o is None:
            R.undet('resume', G, 'what is built for %s' % what, where)
            continue
        mgr = B.field(X.me, 'manager')
        for k, c, g, obj, mm, loc, pos in B.parts:
            R.verdict(k == ('resume' if res else 'construct'), 'resume', G, 'resumed if and only if asked to', '%s is %s although resume is %s and its file exists' % (c.name, 'resumed' if k == 'resume' else 'built afresh', res), loc)
            if k == 'resume':
                common_args(R, G, X, g, mgr, c, loc, ('model', 'usermodel'))
        numbers(P, R, G, B, [p for p in B.parts if p[1] is not P.cls(NS)], n, h, sl, what, where)
    m = X.model(0, exists=(), **dict(BASE, nthreads=n, nhamiltonian=h, nslice=sl, resume=True))
    try:
        B = Built(X, m)
    except (Undef, ValueError):
        return
    for k, c, g, obj, mm, loc, pos in B.parts:
        R.verdict(k == 'construct', 'resume', G, 'a component without file starts afresh', '%s is resumed from a file that does not exist' % c.name, loc)


ALIAS = {'nlive': 'Nlive', 'stopping': 'tolerance', 'output': 'output_folder', 'manager': 'manager', 'model': 'model'}


def keeps(P, R, ci):
    """the constructor keeps every option in its state"""
    G = ci.name + '.__init__'
    W = World(P, hooks={'purecalls': True})
    R.covers(W.eng)
    fi = P.method(ci, '__init__')
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    types = {'manager': 'cpnest.RunManager', 'model': 'usermodel', 'output': 'str', 'resume_file': 'str', 'seed': 'number', 'nlive': 'number', 'maxmcmc': 'number', 'poolsize': 'number', 'verbose': 'number', 'stopping': 'number'}
    args = {}
    for a in fi.node.args.args[1:] + fi.node.args.kwonlyargs:
        args[a.arg] = W.param(a.arg, types.get(a.arg))
    got = W.eng.instantiate(State(), ci, [], dict(args), None)
    for st, me in got:
        fields = {f: W.eng.val(st, v) for (b, f), v in st.heap.items() if b is me}
        for nm, arg in sorted(args.items()):
            if nm in ('n_periodic_checkpoint',):
                continue
            R.count('constructor options')
            own = fields.get(nm)
            if own is None and nm in ALIAS:
                own = fields.get(ALIAS[nm])
            if nm == 'proposal' and own is not None:
                if any(f.op in ('isnone', 'eq', 'is', 'eqz') and contains(f, arg) for f in st.facts):
                    continue
            if own is not None:
                v = True if own is arg else None if contains(own, arg) and not altered(own, arg, nm, args, st.facts) else False
                R.verdict(v, 'keeps', G, 'it keeps the option %s' % nm, 'the option %s is kept as %s' % (nm, show(own)[:60]), where)
                continue
            exact = [f for f, t in fields.items() if t is arg]
            part = [f for f, t in fields.items() if contains(t, arg)]
            R.verdict(True if exact else None if part else False, 'keeps', G, 'it keeps the option %s' % nm, 'the option %s is ignored' % nm, where)


TRIED = {'verbose': (0, 1, 2, 3), 'seed': (0, 1, 77, 123456789), 'stopping': (0.5, 0.1, 1e-4, 3.0), 'prior_sampling': (), 'sample_prior': ()}


def altered(t, arg, name, args, facts):
    """the term takes another value than the option for some value of the option"""
    for others in (1, 40, 9000):
        for x in TRIED.get(name, (1, 3, 7, 250, 20000)):
            m = Model(0, bind=dict({a: others for a in args.values() if a is not arg and not isinstance(a.args[0], bool)}, **{}))
            m.bind[arg] = x
            try:
                if not feasible(m, facts):
                    continue
                if abs(m.num(m.ev(t)) - x) > 1e-9 * max(1, abs(x)):
                    return True
            except (Undef, TypeError, KeyError, ValueError):
                continue
    return False
