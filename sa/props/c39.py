"""C39: slice sampling moves build, search and shrink their interval so that the constrained prior stays invariant."""
import itertools
import math
from .common import *
from ..randeval import hval
from ..replay import Replay, Endless

EXPLANATION = ('yield_sample of every slice sampler is executed symbolically. Every way in which the current point of its chain can change or stay is a path whose loops (stepping out, shrinking) are recurrences over the ends of the interval; '
               'the model, the direction and the uniform draws are symbols. For many one-dimensional slices through different densities, bounds, directions and step limits the path that applies is followed pass by pass, and the point it ends on '
               'and the counts of expansions and contractions are compared with the published algorithm: an interval of width one placed uniformly around the current point, stepping out by whole units with the steps shared at random between the two '
               'sides, a level below the current log-prior drawn from an exponential distribution, candidates drawn uniformly from the interval and shrinkage towards the current point. How the code maps its draws to these roles is found by trying '
               'every assignment: one of them has to reproduce all cases.')
TECHNIQUE = 'static analysis: abstract interpretation to loop recurrences, compared with the slice sampling algorithm by evaluation'
L = 'cpnest/sampler.py'
MUTANTS = [
    (L, "        self.L  = - np.random.uniform(0.0,1.0)\n", "        self.L  = - np.random.uniform(0.0,0.5)\n"),
    (L, "        self.L  = - np.random.uniform(0.0,1.0)\n", "        self.L  = - 0.5\n"),
    (L, "        self.R  = self.L + 1.0\n", "        self.R  = 1.0\n"),
    (L, "        self.R  = self.L + 1.0\n", "        self.R  = self.L + 2.0\n"),
    (L, "        self.Ne = 0.0\n", ""),
    (L, "        self.Nc = 0.0\n", ""),
    (L, "        self.L  = self.L - 1.0\n", "        self.L  = 2.0*self.L\n"),
    (L, "        self.L  = self.L - 1.0\n        self.Ne = self.Ne + 1\n", "        self.L  = self.L - 1.0\n"),
    (L, "        self.R  = self.R + 1.0\n", "        self.R  = self.R + 0.5\n"),
    (L, "        self.R  = self.R + 1.0\n        self.Ne = self.Ne + 1\n", "        self.R  = self.R + 1.0\n        self.Nc = self.Nc + 1\n"),
    (L, "                Yp = oldparam.logP-np.random.exponential()\n", "                Yp = oldparam.logP+np.random.exponential()\n"),
    (L, "                Yp = oldparam.logP-np.random.exponential()\n", "                Yp = oldparam.logP-np.random.uniform()\n"),
    (L, "                Yp = oldparam.logP-np.random.exponential()\n", "                Yp = oldparam.logP-2.0*np.random.exponential()\n"),
    (L, "                J = np.floor(self.max_steps_out*np.random.uniform(0,1))\n", "                J = self.max_steps_out//2\n"),
    (L, "                K = (self.max_steps_out-1)-J\n", "                K = self.max_steps_out-1\n"),
    (L, "                K = (self.max_steps_out-1)-J\n", "                K = self.max_steps_out-J\n"),
    (L, "                        if Yp > self.model.log_prior(parameter_left):\n", "                        if Yp < self.model.log_prior(parameter_left):\n"),
    (L, "                    parameter_left = direction_vector * self.L + oldparam\n", "                    parameter_left = direction_vector * self.R + oldparam\n"),
    (L, "                    parameter_right = direction_vector * self.R + oldparam\n", "                    parameter_right = direction_vector * self.L + oldparam\n"),
    (L, "                            self.increase_right_boundary()\n                            K -= 1\n", "                            self.increase_right_boundary()\n                            J -= 1\n                            K -= 2\n"),
    (L, "                while K > 0:\n", "                while K > 1:\n"),
    (L, "                while J > 0:\n", "                while J >= 0:\n"),
    (L, "                    if self.model.in_bounds(parameter_right):\n\n                        if Yp > self.model.log_prior(parameter_right):\n", "                    if self.model.in_bounds(parameter_right):\n\n                        if Y > self.model.log_prior(parameter_right):\n"),
    (L, "                    Xprime        = np.random.uniform(self.L,self.R)\n", "                    Xprime        = np.random.uniform(-1.0,1.0)\n"),
    (L, "                    Xprime        = np.random.uniform(self.L,self.R)\n", "                    Xprime        = np.random.uniform(0.0,self.R)\n"),
    (L, "                    if Xprime < 0.0:\n                        self.L = Xprime\n", "                    if Xprime < 0.0:\n                        self.R = Xprime\n"),
    (L, "                    elif Xprime > 0.0:\n                        self.R = Xprime\n", "                    elif Xprime > 0.0:\n                        self.R = 0.5*(self.R+Xprime)\n"),
    (L, "                    elif Xprime > 0.0:\n                        self.R = Xprime\n                        self.Nc = self.Nc + 1\n", "                    elif Xprime > 0.0:\n                        self.R = Xprime\n"),
    (L, "                    newparam      = direction_vector * Xprime + oldparam\n", "                    newparam      = direction_vector * Xprime + parameter_right\n"),
    (L, "                    if newparam.logP > Yp:\n", "                    if newparam.logP > oldparam.logP:\n"),
    (L, "        self.mu *= 2*ratio\n", "        self.mu *= ratio\n"),
    (L, "        ratio = Ne/(Ne+Nc)\n", "        ratio = Nc/(Ne+Nc)\n"),
    (L, "        Nc = max(1,self.Nc)\n", "        Nc = max(1,self.Ne)\n"),
    (L, "        Ne = max(1,self.Ne)\n", "        Ne = self.Ne\n"),
    (L, "            if self.mcmc_counter < self.tuning_steps:\n                self.adapt_length_scale()\n", "            self.adapt_length_scale()\n"),
    (L, "                direction_vector = self.proposal.get_direction(mu = self.mu)\n", "                direction_vector = self.proposal.get_direction()\n"),
    (L, "                # Set Initial Interval Boundaries\n                self.reset_boundaries()\n                sub_counter += 1\n", "                # Set Initial Interval Boundaries\n                if sub_counter == 0: self.reset_boundaries()\n                sub_counter += 1\n"),
    (L, "                while slice < self.max_slices:\n", "                while slice < 1:\n"),
]
LIMITS = ('max_steps_out', 'max_slices', 'maxmcmc')


def logprior(i, x, lo, hi):
    """several shapes; far too low outside the bounds"""
    if not lo < x < hi:
        return -1e6
    return (0.0, -0.5 * (x / 0.8) ** 2, -abs(x - 0.4) * 3, -2.0 * math.cos(3 * x) - 0.1 * x * x)[i % 4]


def loglike(i, x):
    return math.sin(1.7 * x + i) - 0.05 * x * x


def reference(c, level, left, shares, us):
    """(accepted, position, expansions, contractions)"""
    lp = lambda y: logprior(c['shape'], y, c['lo'], c['hi'])
    inside = lambda y: c['lo'] < y < c['hi']
    L, R = left, left + 1.0
    J, K = shares
    x, d = c['x'], c['d']
    ne = nc = 0
    while J > 0 and inside(x + d * L) and not level > lp(x + d * L):
        L, ne, J = L - 1.0, ne + 1, J - 1
    while K > 0 and inside(x + d * R) and not level > lp(x + d * R):
        R, ne, K = R + 1.0, ne + 1, K - 1
    for k in range(c['max']):
        t = L + (R - L) * us(k)
        y = x + d * t
        if lp(y) > level and loglike(c['shape'], y) > c['lim']:
            return True, y, ne, nc
        if t < 0:
            L, nc = t, nc + 1
        elif t > 0:
            R, nc = t, nc + 1
    return False, x, ne, nc


class Item(object):
    """one way the chain can go in a pass"""

    def __init__(self, T):
        self.T, self.W = T, T.W
        self.kind = 'return'
        self.trace = tuple(e for e in T.trace)
        self.facts = list(T.facts)


def draws_of(t):
    return [x for x in subterms(t) if x.op in ('draw', 'draws')]


def number(t):
    """the running number of a draw"""
    n = [x.args[-1] for x in subterms(t) if x.op == 'uid'] or [a for a in t.args if isinstance(a, int)]
    return n[0] if n else None


class Moves(object):
    """the transitions of one slice sampler, ready for evaluation"""

    def __init__(self, M, W, ts):
        self.M, self.W = M, W
        self.items = []
        ends = {id(o.facts): W.eng.val(o.state, W.eng.getfield(o.state, W.me, 'mu')) for o in W.outs if o.kind == 'return'}
        # the moves made so far, told apart from the steps taken so far
        made, taken = [{x for o in W.outs if o.kind == 'return' for x in subterms(W.eng.val(o.state, W.eng.getfield(o.state, W.me, f))) if x.op == 'phi'}
                       for f in ('mcmc_accepted', 'mcmc_counter')]
        self.accepted = made - taken
        self.loops = {}
        self.owner = {}
        for T in ts:
            it = Item(T)
            it.final = ends.get(id(T.facts))
            it.outer = set()
            if T.loop is not None:
                it.outer = set(T.loop.a.get('phis') or {}) | {T.loop.a['uid']}
            # what happened before this pass of the chain is given
            seen = [i for i, e in enumerate(it.trace) if e.kind == 'direction']
            it.directions = [it.trace[i] for i in seen]
            start = seen[-1] if seen else 0
            it.trace = it.trace[start:]
            mine = set(it.outer)
            for e in it.trace:
                if e.kind == 'loop':
                    mine |= set(e.a.get('phis') or {}) | {e.a['uid']}
                    self.loops[e.a['uid']] = e
            it.facts = [f for f in it.facts if not any(x.op in ('phi', 'iota') and x not in mine for x in subterms(f))]
            self.items.append(it)
        alld = set()
        for it in self.items:
            for t in self.terms(it):
                alld.update(draws_of(t))
        self.pre, self.in_ = set(), {}
        for d in alld:
            n = number(d)
            own = [u for u, e in self.loops.items() if u.args[0] < n and any(d in subterms(t) for p in e.a['paths'] for t in list(p.facts) + list(p.sigma.values()))]
            if own:
                u = max(own, key=lambda u: u.args[0])
                self.in_[d] = u
            else:
                self.pre.add(d)
        self.pre = sorted(self.pre, key=number)

    def terms(self, it):
        T = it.T
        for f in it.facts:
            yield f
        for t in (T.post.coords, T.post.logL):
            if is_term(t):
                yield t
        for e in it.trace:
            if e.kind == 'loop':
                for p, i in (e.a.get('phis') or {}).items():
                    if i is not None:
                        yield i
                for p in e.a['paths']:
                    for t in list(p.facts) + list(p.sigma.values()):
                        yield t


def model(mv, it, c, u, vs):
    """bind -> evaluator; u: values of the draws made once, vs(k): of the draw made in pass k"""
    x0 = it.T.pre.coords

    def make(bind):
        b = dict(bind)
        for e in it.directions:
            b[e.a['result']] = c['d']
        b[mv.W.lim] = c['lim']
        b[x0] = c['x']
        if is_term(it.T.pre.logP):
            b[it.T.pre.logP] = logprior(c['shape'], c['x'], c['lo'], c['hi'])
        if is_term(it.T.pre.logL):
            b[it.T.pre.logL] = c['lim'] + 0.3
        for t in it.outer:
            if t not in b:
                if t.op == 'phi' and t.args[0] not in ('$c',) and not mv.W.eng.is_lp(t):
                    b[t] = c['acc'] if t in mv.accepted else c['count']
                elif t.op != 'phi':
                    b[t] = c['count']

        def leaf(m, t):
            env = m.env
            if t.op in ('draw', 'draws'):
                own = mv.in_.get(t)
                v = u.get(t) if own is None else vs(bind.get(own, 0))
                if v is None:
                    raise Undef('draw')
                return value(m, t, v, env)
            if t.op == 'call' and t.args[0] in ('LP', 'LL'):
                y = m.num(m.ev(t.args[1], env))
                return logprior(c['shape'], y, c['lo'], c['hi']) if t.args[0] == 'LP' else loglike(c['shape'], y)
            if t.op == 'pred' and t.args[0] == 'in_bounds':
                y = m.num(m.ev(t.args[1], env))
                return c['lo'] < y < c['hi']
            if t.op == 'fld' and t.args[1] in LIMITS:
                return c['max']
            if t.op == 'fld' and t.args[1] == 'Nmcmc':
                return c['nmcmc']
            if t.op == 'fld' and t.args[1] == 'mcmc_counter':
                return c['total']
            if t.op == 'fld' and t.args[1] == 'mcmc_accepted':
                return c['made']
            if t.op == 'fld' and t.args[1] == 'tuning_steps':
                return c['tuning']
            if t.op == 'fld' and t.args[1] == 'poolsize':
                return 10
            if t.op == 'fld' and t.args[1] == 'mu':
                return c['mu']
            if t.op == 'c0' or t.op == 'fld' and t.args[1] == '$coords':
                if any(t.args[0] is e.a['result'] for e in it.directions):
                    return c['d']
            if t.op in ('call', 'opaque', 'sym', 'c0') and t not in b:
                if t.op == 'call' and t.args[0] in PLAIN:
                    return None
                raise Undef('%s' % show(t)[:60])
            return None
        return Model(1, bind=b, leaf=leaf)
    return make


PLAIN = ('max', 'min', 'maxof', 'minof', 'floor', 'ceil', 'int', 'floordiv', 'abs', 'log', 'exp', 'float', 'round', 'sum', 'mod', 'log1p', 'sqrt', 'trunc')


def value(m, t, v, env):
    k = t.args[0]
    if k == 'u01':
        return v
    if k == 'int':
        ns = [m.num(m.ev(a, env)) for a in t.args[1:] if is_term(a) and a.op != 'uid']
        if len(ns) == 2:
            return ns[0] + math.floor(v * (ns[1] - ns[0]))
    raise Undef('a draw of kind %s' % k)


LEFT = (('-u', lambda u: -u), ('u-1', lambda u: u - 1))
SHARE = (('floor', lambda u, m: math.floor(u * m)), ('rest', lambda u, m: m - 1 - math.floor(u * m)), ('rest of 1-u', lambda u, m: math.floor((1 - u) * m)))
LEVEL = (('log u', lambda u: math.log(u)), ('log 1-u', lambda u: math.log(1 - u)))
POINT = (('u', lambda u: u), ('1-u', lambda u: 1 - u))


def cases(k, tier):
    r = lambda i: hval(k, 'case', i)
    mx = (6, 1, 2, 12, 25)[k % 5]
    lo, hi = -2.0 - 3 * r(1), 2.0 + 3 * r(2)
    x = lo + (hi - lo) * (0.1 + 0.8 * r(3))
    c = {'shape': int(r(4) * 4), 'lo': lo, 'hi': hi, 'x': x, 'd': (0.05, 0.4, -0.7, 3.0)[int(r(5) * 4)] * (0.5 + r(6)), 'max': mx,
         'lim': loglike(int(r(4) * 4), x) - (0.0, 0.01, 0.3, 3.0)[int(r(7) * 4)] - 1e-6, 'count': int(r(8) * 6) if k % 4 != 3 else 10 + int(r(8) * 20), 'nmcmc': int(r(9) * 8), 'total': int(r(10) * 50), 'tuning': int(r(11) * 60), 'mu': 0.2 + 2 * r(12)}
    c['acc'] = int(c['count'] * r(14))
    c['made'] = int(c['total'] * r(13))
    return c


def check(P, R, tier):
    found = False
    for ci in concrete_samplers(P):
        if not any(c.name == SLICE for c in ci.mro() if not isinstance(c, str)):
            continue
        found = True
        C = '%s.yield_sample' % ci.name
        with R.guard('slice', C):
            one(P, R, ci, C, tier)
    if not found:
        R.anchor_missing.append(SLICE)


def where(fi):
    return '%s:%d' % (fi.module.relpath, fi.node.lineno)


def one(P, R, ci, C, tier):
    M = Move(P, ci.module.name + '.' + ci.name if hasattr(ci.module, 'name') else 'sampler.' + ci.name)
    for W in M.parts:
        R.covers(W.eng)
    loc = where(ci.find('yield_sample')[1])
    ts = M.transitions()
    verdicts, scales, adapted = {}, {}, {}
    for W in M.parts:
        mine = [t for t in ts if t is not None and t.W is W]
        groups = {}
        for t in mine:
            if any(e.kind == 'direction' for e in t.trace):
                groups.setdefault(id(t.loop), []).append(t)
        if not groups:
            verdicts[W.mode, 0] = None, 'no move is understood'
        for g in groups.values():
            mv = Moves(M, W, g)
            k = W.mode, len(verdicts)
            verdicts[k], adapted[k] = follow(mv, tier, R)
            scales[k] = passed(mv)
    if any(t is None for t in ts):
        R.undet('slice', C, 'the point a request delivers is not understood')
        return
    for rule, vs in (('slice', verdicts), ('scale', scales), ('adaptation', adapted)):
        v, why = sorted(vs.values(), key=lambda x: {False: 0, None: 1, True: 2}[x[0]])[0]
        R.verdict(v, rule, C, 'follows the algorithm', why, loc)


def passed(mv):
    """every direction is asked for with the current scale"""
    n = 0
    for it in mv.items:
        for e in it.directions:
            n += 1
            s = e.a['scale']
            if s is None:
                return False, 'the direction is drawn without the length scale'
            if s.op != 'fld' and not (s.op == 'phi' and s.args[0] == 'mu'):
                return None, 'the direction is drawn with %s' % show(s)[:60]
            if s.args[-1] != 'mu' and s.op == 'fld':
                return None, 'the direction is drawn with %s' % show(s)[:60]
    return (True, '') if n else (None, 'no direction is drawn')


def follow(mv, tier, R):
    """verdicts on the moves and on the length scale afterwards"""
    later = []
    v, best = moves(mv, tier, R, later)
    if v[0] is not True:
        return v, (None, 'the moves do not follow the algorithm')
    n = kept = 0
    for c, u, vs, mu in later:
        if mu is None:
            return v, (None, 'the length scale is not understood')
        want = replayed(best, c, u, vs)
        e, k = max(1, want[2]), max(1, want[3])
        on = c['total'] + c['count'] + 1 < c['tuning']
        n += on
        kept += not on
        to = c['mu'] * 2.0 * e / (e + k) if on else c['mu']
        if abs(to - mu) > 1e-9 * max(1, to):
            return v, (False, '%s the tuning phase, after %d expansions and %d contractions, the length scale goes from %.4g to %.6g instead of %.6g' % ('in' if on else 'after', want[2], want[3], c['mu'], mu, to))
    if not n or not kept:
        return v, (None, 'only %d requests in and %d after the tuning phase' % (n, kept))
    return v, (True, '')


def replayed(combo, c, u, vs):
    perm, a, b, l, p = combo
    level = logprior(c['shape'], c['x'], c['lo'], c['hi']) + l[1](u[perm[0]])
    J = b[1](u[perm[2]], c['max'])
    return reference(c, level, a[1](u[perm[1]]), (J, c['max'] - 1 - J), lambda j: p[1](vs(j)))


def moves(mv, tier, R, later):
    if not mv.items:
        return (None, 'no move is understood'), None
    for it in mv.items:
        at = [x.args[1] for t in mv.terms(it) for x in subterms(t) if x.op in ('call', 'pred') and x.args[0] in ('LP', 'LL', 'in_bounds')]
        ends = [i for e in it.trace if e.kind == 'loop' for p, i in (e.a.get('phis') or {}).items() if i is not None and any(p in subterms(t) for t in at)]
        left = [x for t in at + ends for x in subterms(t) if x.op == 'phi' and x in it.outer and not mv.W.eng.is_lp(x) and x.args[0] != '$c']
        if left:
            return (False, 'the points that are tried depend on %s as an earlier move left it: the interval has to be placed anew for every move' % left[0].args[0]), None
    if len(mv.pre) > 4:
        return (None, '%d draws are made for a move' % len(mv.pre)), None
    roles = []
    for perm in itertools.permutations(mv.pre, min(3, len(mv.pre))):
        roles.append(perm)
    combos = [(perm, a, b, l, p) for perm in roles for a in LEFT for b in SHARE for l in LEVEL for p in POINT]
    live = {i: 0 for i in range(len(combos))}
    first = {}
    total = moved = 0
    seeds = (12, 30)[tier == 'thorough'] * 5
    for k in range(seeds):
        c = cases(k, tier)
        u = {d: 0.02 + 0.96 * hval(k, 'u', i) for i, d in enumerate(mv.pre)}
        vs = lambda j, k=k: 0.01 + 0.98 * hval(k, 'v', int(j))
        got = []
        vague = None
        cache = {}
        for it in mv.items:
            try:
                o, bind = Replay([it], model(mv, it, c, u, vs), 80, cache=cache).result()
                m = model(mv, it, c, u, vs)(bind)
                y = m.num(m.ev(it.T.post.coords))
                got.append((it, y))
                if it.final is not None:
                    try:
                        mu = m.num(m.ev(it.final))
                    except (Undef, KeyError, TypeError, ValueError):
                        mu = None
                    later.append((c, u, vs, mu))
            except Endless:
                return (False, 'a search loop never ends (limit of %d steps)' % c['max']), None
            except (Undef, KeyError, TypeError, ValueError) as e:
                if str(e) != '0 paths apply':
                    vague = str(e)
        # a pass that goes on and one that ends the request are both given where the loop condition is not fixed
        ys = {round(y, 9) for _, y in got}
        if vague is not None or len(ys) != 1:
            return (None, 'the move is not understood: %s' % (vague or '%d outcomes' % len(ys))), None
        total += 1
        y = got[0][1]
        moved += abs(y - c['x']) > 1e-12
        for i, (perm, a, b, l, p) in enumerate(combos):
            if len(perm) < 3:
                continue
            want = replayed(combos[i], c, u, vs)
            if abs(want[1] - y) <= 1e-8 * max(1, abs(y)):
                live[i] += 1
            elif i not in first:
                first[i] = (c, y, want)
    R.count('moves', total)
    if len(mv.pre) < 3:
        return (False, 'a move uses %d random draws for the level, the place of the interval and the share of the steps' % len(mv.pre)), None
    best = max(live, key=lambda i: live[i])
    if live[best] == total:
        return ((True, ''), combos[best]) if moved > total // 4 else ((None, 'only %d of %d moves change the point' % (moved, total)), None)
    c, y, want = first[best]
    return (False, 'from %.4g along %.4g with at most %d steps out the move %s; the algorithm %s (%d of %d moves agree)' % (
        c['x'], c['d'], c['max'], 'ends at %.6g' % y if y != c['x'] else 'stays', 'ends at %.6g' % want[1] if want[0] else 'stays', live[best], total)), None
