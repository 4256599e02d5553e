"""C36: chain lengths follow the acceptance and the autocorrelation of the chain."""
from .common import *
from ..engine import State

EXPLANATION = ('The estimators of the chain length are executed symbolically for every sampler class and their results, terms over the state of the sampler, are compared with the documented recursion by evaluating both for '
               'many values of the acceptance, the previous length, the pool size and the limits. The autocorrelation length is a function symbol whose arguments must be the recorded coordinates, one parameter at a time. '
               'The acceptance the estimators use is checked on every path of yield_sample: accepted moves are counted when, and only when, the chain moves, and both fractions are those counts over the steps made. '
               'In the initialisation an estimate follows every chain.')
TECHNIQUE = 'static analysis: abstract interpretation, recursion compared as terms; accounting of moves over all loop paths'
S = 'cpnest/sampler.py'
MUTANTS = [
    (S, "        self.Nmcmc_exact = float(min(self.Nmcmc_exact,self.maxmcmc))\n", "        self.Nmcmc_exact = float(max(self.Nmcmc_exact,self.maxmcmc))\n"),
    (S, "        self.Nmcmc_exact = float(min(self.Nmcmc_exact,self.maxmcmc))\n", ""),
    (S, "        self.Nmcmc = max(safety,int(self.Nmcmc_exact))\n", "        self.Nmcmc = int(self.Nmcmc_exact)\n"),
    (S, "(safety/tau)*(2.0/self.sub_acceptance - 1.0)", "(safety/tau)*(2.0/self.acceptance - 1.0)"),
    (S, "(safety/tau)*(2.0/self.sub_acceptance - 1.0)", "(1.0/tau)*(2.0/self.sub_acceptance - 1.0)"),
    (S, "self.Nmcmc_exact = (1.0 - 1.0/tau)*self.Nmcmc_exact + ", "self.Nmcmc_exact = (1.0 + 1.0/tau)*self.Nmcmc_exact + "),
    (S, "self.Nmcmc_exact = (1.0 - 1.0/tau)*self.Nmcmc_exact + ", "self.Nmcmc_exact = (1.0 - 1.0/tau)*self.Nmcmc + "),
    (S, "        if self.sub_acceptance == 0.0:\n", "        if self.acceptance == 0.0:\n"),
    (S, "        self.Nmcmc = int(np.max(ACL))\n", "        self.Nmcmc = int(np.min(ACL))\n"),
    (S, "        self.Nmcmc = int(np.max(ACL))\n", "        self.Nmcmc = int(np.mean(ACL))\n"),
    (S, "self.samples[-5*self.maxmcmc:]", "self.samples[:5*self.maxmcmc]"),
    (S, "ACL = [acl(samples[:,i]) for i in range(samples.shape[1])]", "ACL = [acl(samples[:,i]) for i in range(samples.shape[1]-1)]"),
    (S, "ACL = [acl(samples[:,i]) for i in range(samples.shape[1])]", "ACL = [acl(samples[i,:]) for i in range(samples.shape[1])]"),
    (S, "        if self.Nmcmc < safety:\n            self.Nmcmc = safety\n", "        if self.Nmcmc > safety:\n            self.Nmcmc = safety\n"),
    (S, "            self.sub_acceptance = float(sub_accepted)/float(sub_counter)\n            self.mcmc_accepted += sub_accepted\n            self.mcmc_counter += sub_counter\n", "            self.mcmc_accepted += sub_accepted\n            self.mcmc_counter += sub_counter\n            self.sub_acceptance = float(self.mcmc_accepted)/float(self.mcmc_counter)\n"),
    (S, "                        logp_old = newparam.logP\n                        sub_accepted+=1\n", "                        logp_old = newparam.logP\n                    sub_accepted+=1\n"),
    (S, "            self.mcmc_counter += sub_counter\n            self.acceptance    = float(self.mcmc_accepted)/float(self.mcmc_counter)\n            # Yield", "            self.mcmc_counter += self.Nmcmc\n            self.acceptance    = float(self.mcmc_accepted)/float(self.mcmc_counter)\n            # Yield"),
    (S, "                        oldparam        = newparam.copy()\n                        sub_accepted   += 1\n", "                        oldparam        = newparam.copy()\n                        sub_accepted   = 2\n"),
    (S, "                            oldparam     = newparam.copy()\n                            sub_accepted += 1\n                            break\n", "                            oldparam     = newparam.copy()\n                            sub_accepted = 1\n                            break\n"),
    (S, "            self.mcmc_counter  += sub_counter\n            self.acceptance     = float(self.mcmc_accepted)/float(self.mcmc_counter)\n\n            if self.mcmc", "            self.mcmc_counter  += 1\n            self.acceptance     = float(self.mcmc_accepted)/float(self.mcmc_counter)\n\n            if self.mcmc"),
    (S, "            _, p = next(self.yield_sample(-np.inf))\n            self.estimate_nmcmc_on_the_fly()\n", "            _, p = next(self.yield_sample(-np.inf))\n            if self.sub_acceptance > 0: self.estimate_nmcmc_on_the_fly()\n"),
    (S, "            _, p = next(self.yield_sample(-np.inf))\n            self.estimate_nmcmc_on_the_fly()\n", "            _, p = next(self.yield_sample(-np.inf))\n"),
]
FLY, ACL = 'estimate_nmcmc_on_the_fly', 'estimate_nmcmc'
FIELDS = ('Nmcmc', 'Nmcmc_exact', 'maxmcmc', 'poolsize', 'sub_acceptance', 'acceptance', 'mcmc_accepted', 'mcmc_counter')


def check(P, R, tier):
    done = set()
    for ci in concrete_samplers(P):
        f1, f2 = P.method(ci, FLY), P.method(ci, ACL)
        if f1.qual not in done:
            with R.guard('recursion', '%s.%s' % (ci.name, FLY)):
                fly(P, R, ci, f1)
        if f2.qual not in done:
            with R.guard('longest', '%s.%s' % (ci.name, ACL)):
                longest(P, R, ci, f2)
        done.update((f1.qual, f2.qual))
        with R.guard('accounting', ci.name + '.yield_sample'):
            account(P, R, ci)
        with R.guard('follow', ci.name + '.reset'):
            follow(P, R, ci)


def held(me, vals):
    return {mk('fld', me, n): v for n, v in vals.items()}


def fly(P, R, ci, fi):
    C = '%s.%s' % (ci.name, FLY)
    names = [a.arg for a in fi.node.args.args[1:]]
    n = 0
    for given in ({}, {'safety': 7}, {'tau': 40.0}, {'safety': 3, 'tau': 12.0}):
        if any(k not in names for k in given):
            continue
        W = World(P, hooks={'purecalls': True})
        me = W.instance(ci)
        outs = W.run(ci, FLY, me, [], {k: num(v) for k, v in given.items()})
        R.covers(W.eng)
        where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
        for acc in (0.0, 1.0, 0.5, 0.013, 0.2):
            for exact in (0.4, 5.3, 61.7, 499.2):
                for maxm, pool in ((500, 100), (60, 1000), (5000, 25), (50, 10)):
                    vals = dict(Nmcmc=int(max(exact, 5)), Nmcmc_exact=exact, maxmcmc=maxm, poolsize=pool, sub_acceptance=acc, acceptance=0.31, mcmc_accepted=77, mcmc_counter=250)
                    s = given.get('safety', 5)
                    tau = given.get('tau', pool / float(s))
                    want = exact * (1 + 1 / tau) if acc == 0 else (1 - 1 / tau) * exact + (s / tau) * (2 / acc - 1)
                    want = min(want, maxm)
                    steps = max(s, int(want))
                    v, why = agrees(W, me, outs, vals, want, steps)
                    n += 1
                    if v is not True:
                        R.verdict(v, 'recursion', C, '', 'for an acceptance of %g, a previous estimate of %g, %d pool points and at most %d steps %s' % (acc, exact, pool, maxm, why), where)
                        if v is False:
                            return
                        break
    R.count('values of the recursion', n)
    R.ok('recursion', C, 'the documented recursion for %d states' % n)


def agrees(W, me, outs, vals, want, steps):
    m = Model(3, bind=held(me, vals))
    hit = 0
    for o in outs:
        try:
            if not all(m.truth(m.ev(f)) for f in o.facts):
                continue
            hit += 1
            if o.kind != 'return':
                return False, 'the estimate fails'
            g = lambda nm: m.num(m.ev(W.eng.val(o.state, W.eng.getfield(o.state, me, nm))))
            got, ex, ret = g('Nmcmc'), g('Nmcmc_exact'), (m.num(m.ev(o.value)) if o.value is not NONE else None)
        except (Undef, TypeError, ValueError, ZeroDivisionError, OverflowError) as u:
            if isinstance(u, ZeroDivisionError) or 'division by zero' in str(u):
                return False, 'the estimate divides by zero'
            return None, 'the estimate is not understood: %s' % u
        # an estimate that differs by rounding is the same
        if abs(ex - want) > 1e-6 * max(1, abs(want)):
            return False, 'the estimate becomes %g instead of %g' % (ex, want)
        if abs(got - steps) > 1e-6 and abs(want - round(want)) > 1e-9:
            return False, 'the chain length becomes %g instead of %g' % (got, steps)
        if ret is not None and abs(ret - got) > 1e-6:
            return False, 'the length returned is %g, the one set %g' % (ret, got)
    if hit != 1:
        return None, '%d paths apply' % hit
    return True, ''


def longest(P, R, ci, fi):
    C = '%s.%s' % (ci.name, ACL)
    names = [a.arg for a in fi.node.args.args[1:]]
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)

    def stub(eng, st, f, args, kwargs, node):
        x = list(args) + list(kwargs.values())
        return [(st, eng.settype(mk('call', 'autolength', eng.val(st, x[0])), 'number'))]
    total = 0
    for given in ({}, {'safety': 9}):
        if any(k not in names for k in given):
            continue
        W = World(P, hooks={'purecalls': True}, stubs={'nest2pos.acl': stub, 'acl': stub})
        me = W.instance(ci)
        outs = W.run(ci, ACL, me, [], {k: num(v) for k, v in given.items()})
        R.covers(W.eng)
        for dim in (1, 2, 3):
            for trial in range(5):
                rows = 26
                data = [[round(math.sin(1.7 * (r + 1) * (d + 2) + trial), 6) for d in range(dim)] for r in range(rows)]
                scale = (100.0, 3.0, 700.0, 0.0, 40.0)[trial]
                length_of = lambda xs: 1.0 + scale * abs(sum((k + 1) * x for k, x in enumerate(xs))) / len(xs)
                want = max(length_of([row[d] for row in data[-20:]]) for d in range(dim))
                floor = given.get('safety')
                v, why = run_long(W, me, outs, data, dim, length_of, want, floor)
                total += 1
                if v is not True:
                    R.verdict(v, 'longest', C, '', why, where)
                    if v is False:
                        return
                    break
    R.count('chains measured', total)
    R.ok('longest', C, 'the longest autocorrelation length of all parameters, at least the minimum')


class Table(list):
    """the recorded chain as an array: rows are samples"""


def run_long(W, me, outs, data, dim, length_of, want, floor):
    samples = W.field(State(), me, 'samples')

    def leaf(m, t):
        env = m.env
        if t.op == 'fld' and t.args[1] in ('values', '$coords') or t.op == 'c0':
            base = t.args[0] if t.op == 'fld' else t.args[0]
            b = m.ev(base, env)
            if isinstance(b, Row):
                return list(b.x)
        if t.op == 'fld' and t.args[1] == 'names':
            return [Name(k) for k in range(dim)]
        if t.op == 'fld' and t.args[1] == 'dimension':
            return float(dim)
        if t.op == 'call' and t.args[0] == 'shape' or t.op == 'shape':
            a = m.ev(t.args[1] if t.op == 'call' else t.args[0], env)
            if isinstance(a, list):
                sh = [float(len(a))]
                while isinstance(a[0], list):
                    a = a[0]
                    sh.append(float(len(a)))
                return sh
        if t.op == 'call' and t.args[0] == 'autolength':
            a = m.ev(t.args[1], env)
            if isinstance(a, list) and a and all(not isinstance(x, list) for x in a):
                m.asked.append([m.num(x) for x in a])
                return length_of(m.asked[-1])
            raise Undef('autocorrelation of %r' % (a,))
        if t.op == 'idx' and t.args[1].op == 'tuple':
            a = m.ev(t.args[0], env)
            return pick(m, a, t.args[1].args, env)
        return None
    m = Model(5, bind={}, leaf=leaf)
    m.asked = []
    m.bind.update(held(me, dict(Nmcmc=50, Nmcmc_exact=50.0, maxmcmc=4, poolsize=100, verbose=0, sub_acceptance=0.3, acceptance=0.3)))
    rows = [Row(x) for x in data]
    m.bind[mk('fld', me, 'samples')] = rows
    m.bind[samples] = rows
    hit = 0
    for o in outs:
        try:
            ok = True
            for f in o.facts:
                try:
                    ok = ok and m.truth(m.ev(f))
                except Undef:
                    if any(x.op == 'call' and x.args[0] == 'autolength' for x in subterms(f)):
                        raise
            if not ok:
                continue
            hit += 1
            if o.kind != 'return':
                return False, 'the estimate fails'
            got = m.num(m.ev(W.eng.val(o.state, W.eng.getfield(o.state, me, 'Nmcmc'))))
        except (Undef, TypeError, ValueError, ZeroDivisionError, IndexError, AttributeError) as u:
            return None, 'the estimate is not understood: %s' % u
        lo = max(1, floor or 1)
        if got < lo:
            return False, 'the chain length becomes %g although at least %g steps are asked for' % (got, lo)
        if abs(got - want) > 1 and want > 25 and floor is None:
            return False, 'the longest autocorrelation length of the last samples is %.1f, the chain length becomes %g' % (want, got)
        if floor is not None and abs(got - max(want, floor)) > 1:
            return False, 'the longest autocorrelation length of the last samples is %.1f and at least %g steps are asked for, the chain length becomes %g' % (want, floor, got)
        if floor is None and got > max(want, 25) + 1:
            return False, 'the chain length becomes %g, the longest autocorrelation length is %.1f' % (got, want)
    if not hit:
        return None, 'no path applies'
    return True, ''


class Row(object):
    def __init__(self, x):
        self.x = x


class Name(object):
    def __init__(self, k):
        self.k = k


def pick(m, a, ix, env):
    if not ix:
        return a
    if not isinstance(a, list):
        raise Undef('index')
    i = ix[0]
    if i.op == 'sliceobj':
        lo, hi, st = [None if x is NONE else int(m.num(m.ev(x, env))) for x in i.args]
        return [pick(m, x, ix[1:], env) for x in a[lo:hi:st]]
    return pick(m, a[int(m.num(m.ev(i, env)))], ix[1:], env)


# ------------------------------------------------------------------ accounting
def account(P, R, ci):
    C = ci.name + '.yield_sample'
    M = Move(P, ci.name)
    n = 0
    seen = set()
    for W, o in M.returns():
        R.covers(W.eng)
        where = o.trace[-1].loc if o.trace else ''
        me = W.me
        val = lambda nm: W.eng.val(o.state, W.eng.getfield(o.state, me, nm))
        p = M.point(W, o)
        if p is None:
            R.undet('accounting', C, 'delivered point not recognised', where)
            continue
        rest = [a for a in o.value.args if a is not p] if o.value.op == 'tuple' else []
        steps = sub(val('mcmc_counter'), mk('fld', me, 'mcmc_counter'))
        moves = sub(val('mcmc_accepted'), mk('fld', me, 'mcmc_accepted'))
        facts = tuple(o.facts)
        if len(rest) == 1:
            R.verdict(equal(steps, rest[0], W, me), 'steps', C, 'the steps of the chain are counted', 'the step counter grows by %s in a chain of %s steps' % (show(steps)[:80], show(rest[0])[:60]), where)
        R.verdict(equal(mul(val('sub_acceptance'), steps), moves, W, me), 'fraction', C, 'accepted moves over steps of this chain', 'the acceptance of the chain is %s, with %s moves in %s steps' % (
            show(val('sub_acceptance'))[:80], show(moves)[:60], show(steps)[:60]), where)
        R.verdict(equal(mul(val('acceptance'), val('mcmc_counter')), val('mcmc_accepted'), W, me), 'fraction', C, 'accepted moves over steps so far', 'the overall acceptance is %s, with %s moves in %s steps' % (
            show(val('acceptance'))[:80], show(val('mcmc_accepted'))[:60], show(val('mcmc_counter'))[:60]), where)
        post = M.view(W, o.state, p)
        v, why, loc = counted(M, W, o.trace, moves, post.ident, post.coords, None, seen)
        R.verdict(v, 'moves', C, 'a move is counted when the chain moves', why, loc or where)
        n += 1
    R.count('ways out of %s' % C, n)
    if not n:
        R.undet('accounting', C, 'no chain is delivered')


def equal(a, b, W, me):
    if a is b:
        return True
    leaves = [x for x in subterms(mk('tuple', a, b)) if x.op in ('phi', 'iota') or (x.op == 'fld' and x.args[0] is me)]
    odd = [u for u in unresolved_terms(mk('tuple', a, b)) if u.op not in ('phi', 'iota')]
    if odd:
        return None
    for k in range(6):
        m = Model(k, bind={x: 3.0 + ((k * 7 + 5 * i) % 23) for i, x in enumerate(leaves)})
        try:
            if abs(m.num(m.ev(a)) - m.num(m.ev(b))) > 1e-6:
                return False
        except (Undef, TypeError, ValueError, ZeroDivisionError):
            return None
    return True


def same_point(coords, ident, p):
    return ident is p or coords is mk('fld', p, '$coords')


def counted(M, W, trace, moves, ident, coords, base, seen):
    """the number of moves at the end of a trace against the point held there; base = (counter, point) at its start"""
    loops = [e for e in trace if e.kind == 'loop']
    for le in reversed(loops):
        phis = le.a.get('phis') or {}
        ph = [x for x in phis if x.op == 'phi' and contains(moves, x) and not W.eng.is_lp(x)]
        lps = M.lpphis(W, le)
        if ph:
            k = numval(sub(moves, ph[0]))
            if k is None or len(ph) != 1:
                return None, 'moves counted as %s' % show(moves)[:80], le.loc
            pts = [p for p, i in lps if same_point(coords, ident, p)]
            chain = pts or [p for p, i in lps if any(path.sigma.get(p) is p or path.sigma.get(mk('fld', p, '$coords')) is mk('fld', p, '$coords') for path in le.a['paths'])] or [p for p, i in lps][:1]
            if not chain:
                return None, 'the point of the chain is not followed through a loop', le.loc
            if k != (0 if pts else 1):
                return False, '%g moves are counted on a path where the chain %s' % (k, 'stays' if pts else 'moves once'), le.loc
            v = inside(M, W, le, ph[0], chain[0], seen)
            if v[0] is not True:
                return v
            if base is None:
                return (True, '', '') if phis[ph[0]] is ZERO else (False if numval(phis[ph[0]]) is not None else None, 'the count of moves starts at %s' % show(phis[ph[0]])[:40], le.loc)
            return (True, '', '') if phis[ph[0]] is base[0] else (None, 'the count of moves starts at %s' % show(phis[ph[0]])[:40], le.loc)
    if base is not None:
        k = numval(sub(moves, base[0]))
        moved = not same_point(coords, ident, base[1])
        if k is None:
            odd = [x for x in subterms(moves) if x.op in ('phi',) and x is not base[0]]
            return (None if odd else False), 'the count of moves becomes %s when the chain %s' % (show(moves)[:60], 'moves' if moved else 'stays'), trace[-1].loc if trace else ''
        if moved and any(same_point(coords, ident, p) for le in loops for p, i in M.lpphis(W, le)):
            return None, 'the point comes out of a loop that does not count', ''
        return k == (1 if moved else 0), '%g moves are counted on a path where the chain %s' % (k, 'moves once' if moved else 'stays'), trace[-1].loc if trace else ''
    # counted without a running count: right when the chain can only have moved at the end
    still = all(path.sigma.get(mk('fld', p, '$coords'), mk('fld', p, '$coords')) is mk('fld', p, '$coords') for le in loops for p, i in M.lpphis(W, le) for path in le.a['paths'])
    if not still or any(x.op == 'phi' for x in subterms(moves)):
        return None, 'moves counted as %s' % show(moves)[:80], ''
    moved = not any(same_point(coords, ident, p) for le in loops for p, i in M.lpphis(W, le)) and any(e.kind == 'proposed' for e in trace)
    return equal(moves, ONE if moved else ZERO, W, W.me), '%s moves are counted on a path where the chain %s' % (show(moves)[:60], 'moves once' if moved else 'stays'), trace[-1].loc if trace else ''


def inside(M, W, le, ph, p, seen):
    if (id(le), ph, p) in seen:
        return True, '', ''
    seen.add((id(le), ph, p))
    for path in le.a['paths']:
        if path.end not in ('fall', 'continue'):
            continue
        c = path.sigma.get(mk('fld', p, '$coords'), mk('fld', p, '$coords'))
        q = path.sigma.get(p, p)
        v = counted(M, W, path.trace, path.sigma.get(ph, ph), q, c, (ph, p), seen)
        if v[0] is not True:
            return v
    return True, '', ''


# ------------------------------------------------------------------ initialisation
def follow(P, R, ci):
    """while the pool is evolved in reset, every chain is followed by an estimate"""
    C = ci.name + '.reset'
    from .common import marker

    def est(eng, st, f, args, kwargs, node):
        eng.event(st, 'mark', node, name='estimate', args=tuple(args))
        return [(st, NONE)]

    def chain(eng, st, f, args, kwargs, node):
        eng.event(st, 'mark', node, name='chain', args=tuple(args))
        p = W.sym('evolved', LP)
        return [(st, mk('list', mk('tuple', W.sym('jumps', 'number'), p)))]
    W = World(P, hooks={'purecalls': True}, stubs={FLY: est, 'Sampler.' + FLY: est, ci.name + '.' + FLY: est,
                                                 ci.name + '.yield_sample': chain, 'Sampler.yield_sample': chain})
    me = W.instance(ci)
    outs = W.run(ci, 'reset', me, [], {})
    R.covers(W.eng)
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        for le, l in walk(o.trace):
            if le.kind != 'loop':
                continue
            for path in le.a['paths']:
                ms = [e for e in path.trace if e.kind == 'mark']
                cs = [e for e in ms if e.a['name'] == 'chain']
                es = [e for e in ms if e.a['name'] == 'estimate']
                if not cs or equal(le.n, W.field(State(), me, 'poolsize'), W, me) is not True:
                    continue
                n += 1
                R.verdict(len(es) == len(cs), 'follow', C, 'every chain is followed by an estimate', '%d chains are followed by %d estimates when the pool is evolved' % (len(cs), len(es)), cs[0].loc)
    if not n:
        R.undet('follow', C, 'the loop that evolves the pool was not recognised')
    R.count('passes of the initial evolution', n)
