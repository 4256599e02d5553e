"""C18: every worker has its own seed, checkpoint file and random stream."""
from .common import *
from ..engine import State

EXPLANATION = ('CPNest.__init__ is executed symbolically; the workers it creates are enumerated, for every split of up to five workers over the three kinds, fresh and resumed, by interpreting the extracted loops and their argument terms over concrete counts. '
               'Seeds and checkpoint files must be pairwise different, seeds must follow the user seed, files must lie in the output folder, and resuming must give each worker the file the same worker writes. In the worker loop every path from the '
               'entry to the first draw must pass a seeding of numpy\'s generator with the worker\'s own seed or with fresh entropy.')
TECHNIQUE = 'static analysis: symbolic extraction of the worker table from the constructor, checked for injectivity over all small configurations; must-precede analysis of seeding before drawing'
C, S = 'cpnest/cpnest.py', 'cpnest/sampler.py'
MUTANTS = [
    (C, "seed        = self.seed+nmhs+i,", "seed        = self.seed+nhamiltonian+i,"),
    (C, "seed        = self.seed+nmhs+i,", "seed        = self.seed+i,"),
    (C, "seed        = self.seed+i,", "seed        = self.seed,"),
    (C, "seed        = self.seed+nmhs+nhamiltonian+i,", "seed        = self.seed+nmhs+i,"),
    (C, "seed        = self.seed+i,", "seed        = 1234+i,"),
    (C, '"sampler_{0:d}.pkl".format(nmhs+i))', '"sampler_{0:d}.pkl".format(i))'),
    (C, '"sampler_{0:d}.pkl".format(nmhs+nhamiltonian+i))', '"sampler_{0:d}.pkl".format(nmhs+i))'),
    (C, '"sampler_{0:d}.pkl".format(nmhs+nhamiltonian+i))', '"sampler_{0:d}.pkl".format(nhamiltonian+i))'),
    (C, "                    sampler = SliceSampler.resume(resume_file,", "                    sampler = SliceSampler.resume(os.path.join(output, 'sampler_{0:d}.pkl'.format(nmhs+i)),"),
    (C, "                    sampler = HamiltonianMonteCarloSampler.resume(resume_file,", "                    sampler = MetropolisHastingsSampler.resume(resume_file,"),
    (C, '"sampler_{0:d}.pkl".format(i))', '"nested_sampler_resume.pkl".format(i))'),
    (S, "        np.random.seed(seed=self.seed)\n        for n", "        for n"),
    (S, "        np.random.seed(seed=self.seed)\n        for n", "        np.random.seed(seed=1234)\n        for n"),
    (S, "            np.random.seed()\n", "            pass\n"),
    (S, "            np.random.seed()\n", "            np.random.seed(1)\n"),
    (S, "        self.seed = seed\n", "        self.seed = 1234\n"),
    (S, "        self.resume_file = resume_file\n", "        self.resume_file = os.path.join(output or '', 'sampler.pkl')\n"),
    (S, "        np.random.seed(seed=self.seed)\n        for n", "        p0 = self.model.new_point()\n        np.random.seed(seed=self.seed)\n        for n"),
    (C, 'resume_file = os.path.join(output,\n                                           "sampler_{0:d}.pkl".format(i))', 'resume_file = os.path.join("/tmp",\n                                           "sampler_{0:d}.pkl".format(i))'),
]


def configs(tier):
    top = 5 if tier == 'thorough' else 4
    for n in range(1, top + 1):
        for h in range(n + 1):
            for sl in range(n + 1 - h):
                yield n, h, sl
    yield 33, 11, 11
    for n in (120,) if tier == 'thorough' else (40,):
        yield n, 0, 0
        yield n, n, 0
        yield n, 0, n


def workers(X, m):
    """[(kind of creation, class name, arguments as values)] in the order of creation"""
    out = []
    for o in X.runs(m):
        if o.kind != 'return':
            continue
        for e, mm in unroll(o.trace, m):
            if e.kind == 'mark' and e.a['name'] in ('construct', 'resume') and e.a['cls'] in X.samplers:
                g = {}
                for k, v in e.a['given'].items():
                    try:
                        g[k] = mm.ev(v)
                    except Undef:
                        g[k] = None
                out.append((e.a['name'], e.a['cls'].name, g, e.loc))
        return out
    return None


def number(m, v):
    return None if v is None or isinstance(v, str) else m.num(v)


def filekey(P, ci):
    """parameter of resume that names the file"""
    return [a.arg for a in P.method(ci, 'resume').node.args.args][1]


def check(P, R, tier):
    G = 'CPNest.__init__'
    with R.guard('table', G):
        X = Init(P)
        R.covers(X.W.eng)
        table(P, R, G, X, tier)
    for ci in concrete_samplers(P):
        with R.guard('keeps', ci.name + '.__init__'):
            keeps(P, R, ci)
        with R.guard('seeding', ci.name + '.produce_sample'):
            seeding(P, R, ci)


def table(P, R, G, X, tier):
    where = '%s:%d' % (X.fi.module.relpath, X.fi.node.lineno)
    filearg = {ci.name: filekey(P, ci) for ci in X.samplers}
    for n, h, sl in configs(tier):
        base = dict(nthreads=n, nhamiltonian=h, nslice=sl, proposals=None, output='/data/run 1', nlive=100, poolsize=50, maxmcmc=20, verbose=0, n_periodic_checkpoint=None, periodic_checkpoint_interval=None, prior_sampling=False)
        what = '%d workers, %d hamiltonian, %d slice' % (n, h, sl)
        rows = {}
        for seed in (77, 5, None):
            m = X.model(0, exists=(), resume=False, seed=seed, **base)
            try:
                rows[seed] = (m, workers(X, m))
            except (Undef, ValueError) as e:
                rows[seed] = (m, None)
        if any(r[1] is None for r in rows.values()):
            R.undet('table', G, 'workers for %s' % what, where)
            continue
        m, got = rows[77]
        seeds = [number(m, g.get('seed')) for k, c, g, l in got]
        files = [g.get('resume_file') for k, c, g, l in got]
        if not got:
            R.undet('table', G, 'no workers found for %s' % what, where)
            continue
        R.count('workers enumerated', len(got))
        for i, (k, c, g, l) in enumerate(got):
            other = number(rows[5][0], rows[5][1][i][2].get('seed')) if len(rows[5][1]) == len(got) else None
            dflt = number(rows[None][0], rows[None][1][i][2].get('seed')) if len(rows[None][1]) == len(got) else None
            if seeds[i] is None:
                R.violation('seed', G, '%s gets no seed (%s)' % (c, what), l)
            else:
                R.verdict(True if other is not None and other != seeds[i] else False, 'seed', G, 'the seed follows the user seed', 'the seed of %s does not depend on the user seed (%s)' % (c, what), l)
            dup = [j for j in range(i) if seeds[j] == seeds[i]]
            R.verdict(not dup, 'distinct', G, 'the seed is its own', '%s number %d has the same seed as worker %s (%s)' % (c, i, dup, what), l)
            f = files[i]
            if not isinstance(f, str):
                R.verdict(False if f is None else None, 'file', G, '', '%s gets no checkpoint file (%s)' % (c, what), l)
                continue
            dup = [j for j in range(i) if files[j] == f]
            R.verdict(not dup, 'distinct', G, 'the checkpoint file is its own', '%s number %d has the same checkpoint file %s as worker %s (%s)' % (c, i, f, dup, what), l)
            R.verdict(f.startswith('/data/run 1/') and '/' not in f[len('/data/run 1/'):], 'folder', G, 'the checkpoint file is in the output folder', 'the checkpoint file %s is outside the output folder' % f, l)
            ns = nsfile(P, R)
            R.verdict(f.rsplit('/')[-1] != ns, 'distinct', G, 'the nested sampler has another file', 'the worker uses the checkpoint file of the nested sampler', l)
        # resumed runs: all files there, and only some of them
        names = [(c, f) for (k, c, g, l), f in zip(got, files)]
        nsf = '/data/run 1/' + (nsfile(P, R) or 'nested_sampler_resume.pkl')
        for tag, there in (('all', set(files) | {nsf}), ('some', set(files[::2]) | {nsf})):
            m = X.model(0, exists=there, resume=True, seed=77, **base)
            try:
                res = workers(X, m)
            except (Undef, ValueError):
                res = None
            if res is None:
                R.undet('resume', G, 'workers for %s' % what, where)
                continue
            again = []
            for k, c, g, l in res:
                again.append((c, g.get(filearg[c]) if k == 'resume' else g.get('resume_file')))
            bad = [(a, b) for a, b in zip(names, again) if a != b]
            v = len(again) == len(names) and not bad
            if not v and sorted(map(str, again)) == sorted(map(str, names)):
                v = True
            R.verdict(v, 'resume', G, 'each resumed worker reads the file it wrote',
                      'a resumed run gives %s the file %s, the run wrote %s for %s (%s)' % ((bad[0][1][0], bad[0][1][1], bad[0][0][1], bad[0][0][0], what) if bad else ('', len(again), len(names), '', what)), res[0][3] if res else where)


_ns = {}


def nsfile(P, R):
    """name of the checkpoint file the nested sampler gives itself"""
    if P in _ns:
        return _ns[P]
    W = World(P, hooks={'purecalls': True})
    ci = P.cls(NS)
    args = {a.arg: W.param(a.arg, {'manager': 'cpnest.RunManager', 'model': 'usermodel', 'usermodel': 'usermodel', 'output': 'str'}.get(a.arg, 'number')) for a in P.method(ci, '__init__').node.args.args[1:]}
    r = None
    for st, me in W.eng.instantiate(State(), ci, [], args, None):
        v = st.heap.get((me, 'resume_file'))
        if v is not None:
            m = Model(0, bind={args.get('output', v): '/o'}, leaf=pathleaf())
            x = m.ev(W.eng.val(st, v))
            if isinstance(x, str):
                r = x.rsplit('/')[-1]
    _ns[P] = r
    return r


def keeps(P, R, ci):
    """the constructor keeps the seed and the file it is given"""
    G = ci.name + '.__init__'
    W = World(P, hooks={'purecalls': True})
    args = {}
    for a in P.method(ci, '__init__').node.args.args[1:]:
        args[a.arg] = W.param(a.arg, {'manager': 'cpnest.RunManager', 'model': 'usermodel', 'output': 'str', 'resume_file': 'str'}.get(a.arg))
    fi = P.method(ci, '__init__')
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    for st, me in W.eng.instantiate(State(), ci, [], dict(args), None):
        for nm in ('seed', 'resume_file'):
            v = st.heap.get((me, nm))
            if v is None:
                R.undet('keeps', G, 'self.%s' % nm, where)
                continue
            v = W.eng.val(st, v)
            R.verdict(True if v is args.get(nm) else False if nm in args and not contains(v, args[nm]) else None, 'keeps', G, 'self.%s is the one it was given' % nm, 'self.%s is %s whatever the worker was given' % (nm, show(v)[:60]), where)


DRAWS = ('draw', 'new_point', 'proposed', 'proposal_get_direction')


def seeding(P, R, ci):
    G = ci.name + '.produce_sample'
    for init in (False, True):
        K = Worker(P, ci, inline=('reset',), stubs=None)
        R.covers(K.W.eng)
        for o in K.outs:
            walkseed(R, G, K, o.trace, False)
        break


def ownseed(K, v):
    me = K.me
    if v is NONE or contains(v, mk('fld', me, 'seed')) or contains(v, mk('fld', me, 'thread_id')) or any(x.op == 'atom' and x.args[0] == 'pid' for x in subterms(v)):
        return True
    if v.op in ('num', 'str'):
        return False
    # the options of the run are the same for every worker
    rest = subst(v, {mk('fld', me, f): ZERO for f in ('maxmcmc', 'poolsize', 'verbose', 'output', 'sample_prior', 'initial_mcmc')})
    if rest is not v and all(x.op in ('num', 'poly', 'call', 'str') for x in subterms(rest)):
        return False
    return None


def walkseed(R, G, K, trace, seen):
    """True: seeded at the end of the trace"""
    for e in trace:
        if e.kind == 'loop':
            got = [walkseed(R, G, K, p.trace, seen) for p in e.a['paths']]
            # a loop may run zero times
            continue
        if e.kind == 'async':
            continue
        if e.kind == 'seed':
            if str(e.a['which']).startswith('numpy'):
                v = ownseed(K, e.a['value'])
                R.verdict(v, 'seeding', G, 'seeded with its own seed', 'every worker seeds its generator with %s' % show(e.a['value'])[:40], e.loc)
                seen = True
        elif e.kind in DRAWS or (e.kind == 'mark' and e.a['name'] == 'move'):
            if not seen:
                R.violation('order', G, 'the worker draws before its random generator is seeded: all workers follow the stream of their parent', e.loc)
                seen = True
            else:
                R.ok('order', G, 'seeded before', e.loc)
    return seen
