"""C24: posterior weights line up with the samples they belong to."""
from .common import *
from .c25 import outcome
from ..engine import State

EXPLANATION = ('compute_weights is executed symbolically for a grid of chain lengths and live-point counts with symbolic likelihoods; every entry of the weights it returns is decomposed into likelihood, shell and evidence: there must be one entry per sample, entry i minus the likelihood of sample i must be the same for every likelihood sequence, '
               'the shells must shrink like those of the live-point count, and the evidence must lie between the lower and the upper sum over the same shells. The drawing functions are executed symbolically with symbolic weights; the selection of each member is a term over the uniform draws, its measure over each draw is computed and compared with the weight. '
               'The callers must pass each chain with its own likelihood column and the live-point count of its own run.')
TECHNIQUE = 'static analysis: symbolic execution, decomposition of the weight terms, measure of the selection terms over their draws, data flow of chain and live-point count'
F, C = 'cpnest/nest2pos.py', 'cpnest/cpnest.py'
W_ = "    log_wts = log_likes[1:-1] + log_dXs[:-1]\n"
MUTANTS = [
    (F, "    Ns=[fracs[i]/len(datas[i]) for i in range(len(fracs))]\n", "    Ns=[fracs[i]*len(datas[i]) for i in range(len(fracs))]\n"),
    (F, "      mask = uniform(size=len(post))<frac\n", "      mask = uniform(size=len(post))<np.sqrt(frac)\n"),
    (F, "    fracs=[np.exp(log_ev-log_max_evidence) for log_ev in log_evs]\n", "    fracs=[1.0 for log_ev in log_evs]\n"),
    (F, "round(Npost*np.exp(log_ev-log_total_evidence))", "round(Npost*np.exp(log_ev-max(log_evs))/len(log_evs))"),
    (F, W_, "    log_wts = log_likes[1:-1] + log_dXs[1:]\n"),
    (F, W_, "    log_wts = log_likes[:-2] + log_dXs[:-1]\n"),
    (F, W_, "    log_wts = log_likes[2:] + log_dXs[:-1]\n"),
    (F, W_, "    log_wts = log_likes[1:] + log_dXs\n"),
    (F, W_, "    log_wts = log_likes[1:-1] + log_vols[:-2]\n"),
    (F, W_, "    log_wts = log_likes[1:-1] + log_vols[1:-1]\n"),
    (F, W_, "    log_wts = log_likes[1:-1] + log_dXs[:-1][::-1]\n"),
    (F, W_, "    log_wts = log_likes[1:-1] - log_dXs[:-1]\n"),
    (F, W_, "    log_wts = np.sort(log_likes[1:-1] + log_dXs[:-1])\n"),
    (F, "    log_wts -= log_ev\n", "    log_wts += log_ev\n"),
    (F, "    log_wts -= log_ev\n", ""),
    (F, "    log_wts -= log_ev\n", "    log_wts -= logaddexp.reduce(log_likes)\n"),
    (F, "    end_data=data[-Nlive:]\n", "    end_data=data[-Nlive+1:]\n"),
    (F, "    end_data=data[-Nlive:]\n", "    end_data=data[:Nlive]\n"),
    (F, "data[:-Nlive]))\n", "data[:-Nlive-1]))\n"),
    (F, "    log_vols_end[0]=log_vols_start[-1]+np.log1p(-1.0/Nlive)\n", "    log_vols_end[0]=np.log1p(-1.0/Nlive)\n"),
    (F, "np.log1p(-1.0/(Nlive-i))\n", "np.log1p(-1.0/(Nlive+i))\n"),
    (F, "*np.log1p(-1./Nlive))-np.log1p(-1./Nlive)\n", "*np.log1p(-1./Nlive))\n"),
    (F, "*np.log1p(-1./Nlive))-np.log1p(-1./Nlive)\n", "*np.log1p(-1./Nlive**2))-np.log1p(-1./Nlive**2)\n"),
    (F, "*np.log1p(-1./Nlive))-np.log1p(-1./Nlive)\n", "*np.log1p(-1./(2*Nlive)))-np.log1p(-1./(2*Nlive))\n"),
    (F, "logaddexp(log_func[:-1], log_func[1:]) - np.log(2)", "logaddexp(log_func[:-1], log_func[1:])"),
    (F, "logaddexp(log_func[:-1], log_func[1:]) - np.log(2)", "log_func[:-1] + log_func[1:] - np.log(2)"),
    (F, "    normalised_wts=log_wts-maxWt\n", "    normalised_wts=log_wts\n"),
    (F, "    maxWt=max(log_wts)\n", "    maxWt=log_wts[-1]\n"),
    (F, "    maxWt=max(log_wts)\n", "    maxWt=min(log_wts)\n"),
    (F, "[n > np.log(uniform()) for n in normalised_wts]", "[n < np.log(uniform()) for n in normalised_wts]"),
    (F, "[n > np.log(uniform()) for n in normalised_wts]", "[n > uniform() for n in normalised_wts]"),
    (F, "[n > np.log(uniform()) for n in normalised_wts]", "(lambda u: [n > u for n in normalised_wts])(np.log(uniform()))"),
    (F, "    return data[idx]\n", "    return data[sorted(idx)[1:]]\n"),
    (F, "    return data[idx]\n", "    return data[[i-1 for i in idx]]\n"),
    (F, "range(len(selection))))", "range(len(selection)-1)))"),
    (F, "+log_cumsums[-1]\n", "\n"),
    (F, "    return data[idxs-1]", "    return data[idxs]"),
    (F, "    return data[idxs-1]", "    return data[idxs-2]"),
    (F, "        log_cumsums[i+1]=logaddexp(log_cumsums[i], log_wt)\n", "        log_cumsums[i+1]=log_cumsums[i] + log_wt\n"),
    (F, "        log_cumsums[i+1]=logaddexp(log_cumsums[i], log_wt)\n", "        log_cumsums[i+1]=logaddexp(log_cumsums[0], log_wt)\n"),
    (F, "us=np.log(uniform(size=N))+", "us=np.log(uniform())*np.ones(N)+"),
    (F, "us=np.log(uniform(size=N))+", "us=np.log(uniform(size=N+1))+"),
    (F, "compute_weights(data['logL'],Nlive) for data,Nlive in zip(datas, Nlives)])\n    LOGGER", "compute_weights(data['logL'],Nlives[0]) for data,Nlive in zip(datas, Nlives)])\n    LOGGER"),
    (F, "compute_weights(data['logL'],Nlive) for data,Nlive in zip(datas, Nlives)])\n    LOGGER", "compute_weights(data['logPrior'],Nlive) for data,Nlive in zip(datas, Nlives)])\n    LOGGER"),
    (F, "compute_weights(data['logL'],Nlive) for data,Nlive in zip(datas, Nlives)])\n    LOGGER", "compute_weights(data['logL'],Nlive) for data,Nlive in zip(datas, Nlives[::-1])])\n    LOGGER"),
    (F, "posts=[draw_posterior(data,logwt) for (data,logwt,logZ) in zip(datas,log_wts,log_evs)]", "posts=[draw_posterior(data,logwt) for (data,logwt,logZ) in zip(datas,log_wts[::-1],log_evs)]"),
    (F, "posts=[draw_posterior(data,logwt) for (data,logwt,logZ) in zip(datas,log_wts,log_evs)]", "posts=[draw_posterior(data,logwt-logZ) for (data,logwt,logZ) in zip(datas,[w*2 for w in log_wts],log_evs)]"),
    (F, "      mask = uniform(size=len(post))<frac\n", "      mask = uniform(size=len(post))<frac/len(post)\n"),
    (F, "np.concatenate([bigpos[i] for i in range(len(bigpos))], axis=None)", "np.concatenate([posts[i] for i in range(len(bigpos))]+bigpos[1:], axis=None)"),
    (F, "    posts=[draw_N_posterior(data,logwt,N) for (data,logwt,N) in zip(datas,log_wts,Ns)]", "    posts=[draw_N_posterior(datas[0],logwt,N) for (data,logwt,N) in zip(datas,log_wts,Ns)]"),
    (F, "    posts=[draw_N_posterior(data,logwt,N) for (data,logwt,N) in zip(datas,log_wts,Ns)]", "    posts=[draw_N_posterior(data,log_wts[0],N) for (data,logwt,N) in zip(datas,log_wts,Ns)]"),
    (C, "draw_posterior_many([nested_samples],[self.NS.Nlive],", "draw_posterior_many([nested_samples],[len(nested_samples)//10],"),
    (C, "draw_posterior_many([nested_samples],[self.NS.Nlive],", "draw_posterior_many([nested_samples],[self.NS.Nlive+1],"),
    (C, "draw_posterior_many([nested_samples],[self.NS.Nlive],", "draw_posterior_many([nested_samples[1:]],[self.NS.Nlive],"),
    (C, "draw_posterior_many([nested_samples],[self.NS.Nlive],", "draw_posterior_many([nested_samples],[self.NS.nthreads],"),
]
CASES = [(2, 2), (3, 2), (7, 2), (3, 3), (6, 3), (10, 4), (5, 5), (12, 5), (20, 8)]
GRID = 160


def shapes(n):
    """likelihood sequences of a chain of n samples"""
    return [('constant', [-2.0] * n), ('slowly rising', [-3.0 + 0.01 * i for i in range(n)]), ('rising', [-9.0 + 0.7 * i for i in range(n)]),
            ('steep', [-300.0 + 40.0 * i for i in range(n)]), ('with ties', [-4.0 + (i // 2) for i in range(n)]), ('levelling off', [-5.0 * math.exp(-0.6 * i) + 40 for i in range(n)])]


def lse(xs):
    m = max(xs)
    return m if m == -math.inf else m + math.log(sum(math.exp(x - m) for x in xs))


def check(P, R, tier):
    mod = P.modules.get('nest2pos')
    if mod is None:
        raise AnchorMissing('module nest2pos')
    cases = CASES + ([(9, 8), (25, 3), (40, 7), (8, 8), (4, 2)] if tier == 'thorough' else [])
    for M, L in cases:
        with R.guard('weights', 'compute_weights'):
            weights(P, R, mod, M, L)
    for f, g in (('draw_posterior', single), ('draw_N_posterior', numbered)):
        for n in (1, 2, 4):
            with R.guard('draw', f):
                g(P, R, mod, n)
    for f in ('draw_posterior_many', 'draw_N_posterior_many'):
        for sizes in ((3,), (4,), (2, 3)):
            with R.guard('runs', f):
                many(P, R, mod, f, sizes)
    with R.guard('caller', 'CPNest.get_posterior_samples'):
        caller(P, R)


def function(mod, name):
    if name not in mod.functions:
        raise AnchorMissing('nest2pos.' + name)
    return mod.functions[name]


# ---------------------------------------------------------------- weights
def weights(P, R, mod, M, L):
    fi = function(mod, 'compute_weights')
    what = 'compute_weights, %d samples, %d live points' % (M, L)
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    W = World(P, hooks={'purecalls': True})
    st = State()
    xs = [W.param('l%d' % i) for i in range(M)]
    data = W.eng.newseq(st, 'array', mk('list', *xs), 'number')
    outs = W.eng.run(fi, None, [data, num(L)], {}, st)
    R.covers(W.eng)
    R.count('chains')
    ref = None
    for label, ds in shapes(M):
        m = Model(1, bind=dict(zip(xs, ds)))
        try:
            o = outcome(outs, m)
            if o.kind != 'return':
                R.violation('weights', what, 'no weights for a chain that is %s: %s' % (label, show(o.value)[:60]), where)
                return
            v = m.ev(W.eng.val(o.state, o.value))
            if not isinstance(v, list) or len(v) != 2:
                R.undet('weights', what, 'result not understood', where)
                return
            ev, ws = m.num(v[0]), [m.num(x) for x in m.seq(v[1])]
        except (Undef, TypeError, ValueError) as u:
            R.undet('weights', what, '%s' % u, where)
            return
        if len(ws) != M:
            R.violation('one entry per sample', what, '%d weights for %d samples' % (len(ws), M), where)
            return
        sh = [w + ev - d for w, d in zip(ws, ds)]
        if any(x != x or x == math.inf for x in sh):
            R.violation('shell', what, 'weight %d is not a number' % [x != x or x == math.inf for x in sh].index(True), where)
            return
        if ref is not None:
            k = next((i for i in range(M) if abs(sh[i] - ref[i]) > 1e-7 * (1 + abs(ref[i]))), None)
            if k is not None:
                R.violation('own likelihood', what, 'weight %d is not the likelihood of sample %d times a shell over the evidence: for a chain that is %s the rest is exp(%.4g), for another exp(%.4g)' % (k, k, label, sh[k], ref[k]), where)
                return
        ref = ref or sh
        # the evidence lies between the sums over the same shells
        vol = 1.0 - sum(math.exp(x) for x in sh)
        rest = math.log(vol) if vol > 1e-12 else -math.inf
        low = lse([-math.inf] + [ds[i - 1] + sh[i] for i in range(1, M)])
        high = lse([ds[i] + sh[i] for i in range(M)] + [max(ds) + rest])
        if not low - 1e-9 <= ev <= high + 1e-9:
            R.violation('evidence', what, 'the log-evidence %.6g of a chain that is %s is not between the lower sum %.6g and the upper sum %.6g' % (ev, label, low, high), where)
            return
    R.ok('one entry per sample', what, '', where)
    R.ok('own likelihood', what, 'weight i is the likelihood of sample i times a shell, over the evidence', where)
    R.ok('evidence', what, 'between the lower and the upper sum for every shape', where)
    V = 1.0
    for i, x in enumerate(ref):
        t = 1 - math.exp(x) / V if V > 0 else -1
        n = L if i < M - L else M - i
        lo, hi = 1 - 1.0 / n if i >= M - L else 1 - 1.0 / L, math.exp(-1.0 / L) if L < 2 else max(math.exp(-1.0 / L), L / (L + 1.0))
        if not lo - 1e-9 <= t <= hi + 1e-9:
            R.violation('shell', what, 'the volume shrinks by %.6g at sample %d where %s live points were left' % (t, i, L if i < M - L else '%d to %d' % (n, L)), where)
            return
        V *= t
        if V <= 1e-12:
            V = 1e-300
    R.ok('shell', what, 'every shell is that of its own sample', where)


# ---------------------------------------------------------------- selection
class Selection(object):
    """the members a drawing function returns, as a function of its draws"""

    def __init__(self, W, outs, bind):
        self.W, self.outs, self.bind = W, [o for o in outs], bind
        self.looped = set()
        for o in outs:
            for e, l in walk(o.trace):
                if e.kind == 'draw' and l:
                    self.looped.add(e.a['draw'])
        self.u = {}
        self.other = 0.5
        self.seen = []

    def leaf(self, m, t):
        if t.op in ('draw', 'draws') and t in self.looped and m.env:
            env = tuple(sorted((k.key, v if isinstance(v, (int, float)) else 0) for k, v in m.env.items()))
            k = ('draw', t.args[0]) + tuple(m.key(m.ev(x, m.env)) if isinstance(x, Term) else x for x in t.args[1:]) + (env,)
            if t.op == 'draw':
                return Obj(k)
            return [Obj(('draw', t.args[0], 'elem', k, i)) for i in range(m.int(t.args[1], m.env))]
        return None

    def number(self, m, key):
        if isinstance(key, tuple) and key and key[0] == 'draw':
            if key[1] != 'u01':
                raise Undef('draw from %s' % key[1])
            if key not in self.seen:
                self.seen.append(key)
            return self.u.get(key, self.other)
        return None

    def at(self, u=None, other=0.5):
        """members returned, None when it fails there"""
        self.u, self.other = u or {}, other
        m = Model(3, bind=self.bind, leaf=self.leaf, number=self.number)
        o = outcome(self.outs, m)
        if o.kind != 'return':
            raise Failed('it raises %s' % show(o.value)[:50])
        if any(x.op == 'phi' for x in subterms(self.W.eng.val(o.state, o.value))):
            raise Undef('a value changed by a loop was not recognised')
        try:
            return [x.key if isinstance(x, Obj) else x for x in m.seq(m.ev(self.W.eng.val(o.state, o.value)))]
        except IndexError:
            raise Failed('it reads beyond the chain')

    def sweep(self, key, other):
        return [self.at({key: (j + 0.5) / GRID}, other) for j in range(GRID)]

    def keys(self):
        for other in (1e-6, 0.3, 0.7, 1 - 1e-6):
            try:
                self.at(None, other)
            except Failed:
                pass
        return list(self.seen)


class Failed(Exception):
    pass


LOGW = [[-1.2, -0.3, -2.0, -0.9], [0.4, 1.1, 0.0, -0.7], [-3.0, -2.2, -1.5, -4.0], [-0.1, -0.1, -0.1, -0.1]]


def chain(W, st, r, n):
    return [W.eng.settype(mk('sym', 'member%d_%d' % (r, i), -(5000 + 100 * r + i)), 'number') for i in range(n)]


def selection_measure(S, members):
    """per member: product over the draws of the fraction of the draw that selects it"""
    keys = S.keys()
    frac = {x: 1.0 for x in members}
    by = {x: [] for x in members}
    for k in keys:
        res = S.sweep(k, 1e-6)
        for x in members:
            f = sum(x in r for r in res) / float(GRID)
            if f < 1:
                by[x].append(k)
                frac[x] *= f
    return frac, by


def judge_members(R, what, S, members, where, unique=True):
    """only members of the chain, none twice"""
    ok = True
    for other in (1e-6, 0.2, 0.5, 0.8, 1 - 1e-6):
        r = S.at(None, other)
        odd = [x for x in r if x not in members]
        if odd:
            R.violation('members', what, 'a value that is no member of the chain is returned: %s' % (odd[0],), where)
            ok = False
            break
        if unique and len(set(r)) != len(r):
            R.violation('members', what, 'a member is returned more than once', where)
            ok = False
            break
    if ok:
        R.ok('members', what, 'only members of the chain', where)
    return ok


def relative(R, what, S, members, logw, where, scale=False):
    """selection by weight relative to the largest"""
    try:
        if not judge_members(R, what, S, members, where):
            return
        frac, by = selection_measure(S, members)
    except Failed as f:
        R.violation('selection', what, str(f), where)
        return
    except Undef as u:
        R.undet('selection', what, str(u), where)
        return
    top = max(logw)
    ratio = None
    for x, w in zip(members, logw):
        want = math.exp(w - top)
        if scale:
            want *= scale
        if abs(frac[x] - want) > 2.5 / GRID + 0.004:
            R.violation('selection', what, 'a member whose weight relative to the largest is %.3g is selected with probability %.3g' % (want, frac[x]), where)
            return
    for a, b in itertools.combinations(members, 2):
        if set(by[a]) & set(by[b]):
            R.violation('selection', what, 'one draw decides about several members', where)
            return
    R.ok('selection', what, 'each member by its own draw against its weight relative to the largest', where)


def single(P, R, mod, n):
    fi = function(mod, 'draw_posterior')
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    for logw in LOGW:
        what = 'draw_posterior, weights %s' % logw[:n]
        W = World(P, hooks={'purecalls': True})
        st = State()
        ds = chain(W, st, 0, n)
        ws = [W.param('w%d' % i) for i in range(n)]
        outs = W.eng.run(fi, None, [W.eng.newseq(st, 'array', mk('list', *ds), 'number'), W.eng.newseq(st, 'array', mk('list', *ws), 'number')], {}, st)
        R.covers(W.eng)
        members = [('member', 0, i) for i in range(n)]
        bind = dict(zip(ws, logw))
        bind.update({d: Obj(x) for d, x in zip(ds, members)})
        R.count('selections')
        relative(R, what, Selection(W, outs, bind), members, logw[:n], where)


def numbered(P, R, mod, n):
    fi = function(mod, 'draw_N_posterior')
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    for N in (0, 1, 3):
        for logw in LOGW:
            what = 'draw_N_posterior, %d of weights %s' % (N, logw[:n])
            W = World(P, hooks={'purecalls': True})
            st = State()
            ds = chain(W, st, 0, n)
            ws = [W.param('w%d' % i) for i in range(n)]
            outs = W.eng.run(fi, None, [W.eng.newseq(st, 'array', mk('list', *ds), 'number'), W.eng.newseq(st, 'array', mk('list', *ws), 'number'), num(N)], {}, st)
            R.covers(W.eng)
            members = [('member', 0, i) for i in range(n)]
            bind = dict(zip(ws, logw))
            bind.update({d: Obj(x) for d, x in zip(ds, members)})
            R.count('selections')
            proportional(R, what, Selection(W, outs, bind), members, logw[:n], N, where)


def proportional(R, what, S, members, logw, N, where, where_from=None):
    try:
        base = S.at(None, 0.5)
        if len(base) != N:
            R.violation('number', what, '%d samples are returned' % len(base), where)
            return
        R.ok('number', what, 'as many as asked for', where)
        if not judge_members(R, what, S, members, where, unique=False):
            return
        keys = S.keys()
        tot = lse(logw)
        decided = {}
        for k in keys:
            res = S.sweep(k, 0.5)
            moved = [j for j in range(N) if any(r[j] != base[j] for r in res)]
            for j in moved:
                if j in decided:
                    R.undet('selection', what, 'an entry depends on several draws', where)
                    return
                decided[j] = k
                if len(moved) > 1:
                    R.violation('selection', what, 'one draw decides about several of the returned samples', where)
                    return
                for x, w in zip(members, logw):
                    f = sum(r[j] == x for r in res) / float(GRID)
                    if abs(f - math.exp(w - tot)) > 2.5 / GRID + 0.004:
                        R.violation('selection', what, 'a member with %.3g of the total weight is drawn with probability %.3g' % (math.exp(w - tot), f), where)
                        return
        missing = [j for j in range(N) if j not in decided]
        if missing and len(members) > 1:
            R.violation('selection', what, 'a returned sample does not depend on any draw', where)
            return
        R.ok('selection', what, 'in proportion to the weights over their total', where)
    except Failed as f:
        R.violation('selection', what, str(f), where)
    except Undef as u:
        R.undet('selection', what, str(u), where)


# ---------------------------------------------------------------- several runs
EVS = [-10.0, -11.4]


def many(P, R, mod, name, sizes):
    fi = function(mod, name)
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    params = [a.arg for a in fi.node.args.args]
    calls = []

    def compute(eng, st, f2, args, kwargs, node):
        b = dict(zip([a.arg for a in f2.node.args.args], args))
        b.update(kwargs)
        vs = list(b.values())
        k = len(calls)
        d = eng.val(st, eng.seqcontent(st, vs[0]))
        calls.append((d, eng.val(st, vs[1]), st))
        r = next((i for i, c in enumerate(cols) if d is c), None)
        n = sizes[r] if r is not None else sizes[0]
        ws = [eng.settype(mk('sym', 'w%s_%d' % (k, i), -(9000 + 100 * k + i)), 'number') for i in range(n)]
        ev = eng.settype(mk('sym', 'Z%d' % k, -(8000 + k)), 'number')
        weightsof[r if r is not None else 0] = (ev, ws)
        return [(st, mk('tuple', ev, eng.newseq(st, 'array', mk('list', *ws), 'number')))]
    weightsof = {}
    W = World(P, hooks={'purecalls': True}, stubs={'nest2pos.compute_weights': compute})
    st = State()
    chains = [chain(W, st, r, n) for r, n in enumerate(sizes)]
    datas = [W.eng.newseq(st, 'array', mk('list', *c), 'number') for c in chains]
    cols = [mk('col', mk('list', *c), s('logL')) for c in chains]
    lives = [W.param('nlive%d' % r) for r in range(len(sizes))]
    args = [W.eng.newseq(st, 'list', mk('list', *datas)), W.eng.newseq(st, 'list', mk('list', *lives))]
    N = 6
    if name == 'draw_N_posterior_many':
        args.append(num(N))
    outs = W.eng.run(fi, None, args, {}, st)
    R.covers(W.eng)
    R.count('selections')
    what = '%s, %d run%s of %s samples' % (name, len(sizes), 's' if len(sizes) > 1 else '', ' and '.join(map(str, sizes)))
    if not calls:
        R.undet('runs', what, 'compute_weights is not called', where)
        return
    for d, nl, _ in calls:
        r = next((i for i, c in enumerate(cols) if d is c), None)
        if r is None:
            known = d.op == 'col' or any(contains(d, x) for c in chains for x in c)
            R.verdict(False if known else None, 'chain', what, '', 'the weights are computed from %s, not from the likelihoods of a chain' % show(d)[:80], where)
            return
        R.verdict(same(nl, lives[r]), 'live points', '%s, run %d' % (what, r), 'its own live-point count', 'the weights of run %d are computed with %s' % (r, show(nl)[:60]), where)
    if set(weightsof) != set(range(len(sizes))):
        R.violation('chain', what, 'no weights are computed for run %d' % min(set(range(len(sizes))) - set(weightsof)), where)
        return
    R.ok('chain', what, 'the likelihood column of each chain', where)
    for shape in range(3):
        bind, members, logw = {}, {}, {}
        for r, n in enumerate(sizes):
            ev, ws = weightsof[r]
            logw[r] = LOGW[(shape + r) % len(LOGW)][:n]
            bind[ev] = EVS[r]
            bind.update(zip(ws, logw[r]))
            members[r] = [('member', r, i) for i in range(n)]
            bind.update({d: Obj(x) for d, x in zip(chains[r], members[r])})
        S = Selection(W, outs, bind)
        w = '%s, weights %d' % (what, shape)
        try:
            if name == 'draw_posterior_many':
                every = [x for r in members for x in members[r]]
                if not judge_members(R, w, S, every, where):
                    continue
                frac, by = selection_measure(S, every)
                keeps = []
                for r in members:
                    top = max(logw[r])
                    lead = members[r][logw[r].index(top)]
                    keep = frac[lead]
                    keeps.append(keep)
                    if len(sizes) == 1 and abs(keep - 1) > 2.5 / GRID:
                        R.violation('selection', w, 'the member with the largest weight is selected with probability %.3g' % keep, where)
                        break
                    if keep <= 0:
                        R.violation('selection', w, 'no member of run %d is ever selected' % r, where)
                        break
                    bad = next(((x, q) for x, q in zip(members[r], logw[r]) if abs(frac[x] / keep - math.exp(q - top)) > 4.0 / GRID + 0.01), None)
                    if bad:
                        R.violation('selection', w, 'a member of run %d whose weight relative to the largest is %.3g is selected with relative probability %.3g' % (r, math.exp(bad[1] - top), frac[bad[0]] / keep), where)
                        break
                else:
                    R.ok('selection', w, 'by the weight relative to the largest of its own run', where)
                    share = [math.exp(EVS[r]) / sizes[r] for r in members]
                    bad = next((r for r in members if abs(keeps[r] - share[r] / max(share)) > 2.5 / GRID), None)
                    R.verdict(bad is None, 'run weight', w, 'each run by its evidence per sample', '' if bad is None else
                              'the leading member of run %d is kept with probability %.3g, its evidence per sample relative to the largest is %.3g' % (bad, keeps[bad], share[bad] / max(share)), where)
            else:
                tot = lse(EVS[:len(sizes)])
                base = S.at(None, 0.5)
                every = [x for r in members for x in members[r]]
                if not judge_members(R, w, S, every, where, unique=False):
                    continue
                count = {r: sum(x[1] == r for x in base) for r in members}
                bad = next((r for r in members if abs(count[r] - N * math.exp(EVS[r] - tot)) > 1), None)
                if bad is not None:
                    R.violation('number', w, '%d samples of run %d, whose share of the evidence is %.3g of %d' % (count[bad], bad, math.exp(EVS[bad] - tot), N), where)
                    continue
                for k in S.keys():
                    res = S.sweep(k, 0.5)
                    moved = [j for j in range(len(base)) if any(len(x) != len(base) or x[j] != base[j] for x in res)]
                    if len(moved) != 1:
                        continue
                    j = moved[0]
                    r = base[j][1]
                    tw = lse(logw[r])
                    bad = next((x for x, q in zip(members[r], logw[r]) if abs(sum(y[j] == x for y in res) / float(GRID) - math.exp(q - tw)) > 2.5 / GRID + 0.004), None)
                    if bad:
                        R.violation('selection', w, 'member %d of run %d is not drawn in proportion to its weight' % (bad[2], r), where)
                        break
                else:
                    R.ok('selection', w, 'in proportion to the weights of its own run', where)
        except Failed as f:
            R.violation('selection', w, str(f), where)
        except Undef as u:
            R.undet('selection', w, str(u), where)


# ---------------------------------------------------------------- the caller
def caller(P, R):
    ci = P.cls('cpnest.CPNest')
    fi = P.method(ci, 'get_posterior_samples')
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    got, made = [], []

    def draw(eng, st, f2, args, kwargs, node):
        b = dict(zip([a.arg for a in f2.node.args.args], args))
        b.update(kwargs)
        vs = {k: eng.val(st, eng.seqcontent(st, v)) if v.op == 'ref' else v for k, v in b.items()}
        got.append(vs)
        v = fresh('posterior')
        eng.settype(v, 'table')
        made.append(v)
        return [(st, v)]
    W = World(P, hooks={'purecalls': True}, stubs={'draw_posterior_many': draw, 'nest2pos.draw_posterior_many': draw})
    me = W.instance(ci)
    st = State()
    live = W.field(st, W.field(st, me, 'NS'), 'Nlive')
    outs = W.run(ci, 'get_posterior_samples', me, [W.param('filename', 'str')], st=st)
    tables = [W.eng.val(o.state, W.field(o.state, me, 'nested_samples')) for o in W.run(ci, 'get_nested_samples', me, [NONE])]
    R.covers(W.eng)
    for o in returns(outs):
        t = core(W.eng.val(o.state, W.eng.seqcontent(o.state, o.value) if o.value.op == 'ref' else o.value))
        if made:
            R.verdict(handed(t, made), 'draws', 'CPNest.get_posterior_samples', 'the draws are handed on as they were made',
                      'the table returned is %s: repeated draws or some of the draws are left out' % show(t)[:120], where)
    if not got:
        R.undet('caller', 'CPNest.get_posterior_samples', 'draw_posterior_many is not called', where)
    for vs in got:
        R.count('calls')
        d, nl = vs.get('datas'), vs.get('Nlives')
        if d is None or nl is None or d.op not in ('list', 'tuple') or nl.op not in ('list', 'tuple'):
            R.undet('caller', 'CPNest.get_posterior_samples', 'arguments not understood', where)
            continue
        if len(d.args) != 1 or len(nl.args) != 1:
            R.violation('caller', 'CPNest.get_posterior_samples', '%d chains with %d live-point counts' % (len(d.args), len(nl.args)), where)
            continue
        R.verdict(cmp(nl.args[0], live), 'live points', 'CPNest.get_posterior_samples', 'the live-point count of the sampler', 'the posterior is drawn with %s live points' % show(nl.args[0])[:80], where)
        r = [cmp(core(d.args[0]), core(t)) for t in tables]
        R.verdict(True if any(x is True for x in r) else False if r and all(x is False for x in r) else None, 'chain', 'CPNest.get_posterior_samples', 'the nested samples', 'the posterior is drawn from %s' % show(d.args[0])[:100], where)


def handed(t, made):
    """is the table the draws, all of them and as often as they were drawn?"""
    thinned = False
    for _ in range(20):
        if t in made:
            return not thinned
        if t.op == 'call' and t.args[0] in ('unique', 'numpy.unique', 'set', 'frozenset') and len(t.args) == 2:
            thinned, t = True, core(t.args[1])
        elif t.op == 'slice':
            m = Model(1, lens={x: 8 for x in made})
            try:
                thinned = thinned or len(m.ev(t)) < 8
            except (Undef, TypeError, ValueError):
                return None
            t = core(t.args[0])
        elif t.op in ('sorted', 'reversed', 'perm'):
            t = core(t.args[0])
        else:
            return None
    return None


def core(t):
    while t.op == 'call' and t.args[0] in ('ravel', 'copyof', 'asarray', 'array', 'atleast_1d', 'stack') and len(t.args) == 2:
        t = t.args[1]
    return t
