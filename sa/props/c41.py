"""C41: step size and number of steps of Hamiltonian trajectories follow the prior widths, the acceptance and the chain length."""
import itertools
import math
from .common import *
from .. import world
from ..engine import State
from ..randeval import hval

EXPLANATION = ('The Hamiltonian proposals are built symbolically; the methods that set their step and trajectory length are then executed on the built object. The base values are evaluated for many dimensions and prior widths and compared with the '
               'documented formula; the step after one and two adaptations with base step times exp of the summed corrections; the number of steps for every value its random draw can take, for many chain lengths, with the whole numbers from '
               'base + n to base + 5n - 1, each once. On every path of the Hamiltonian yield_sample each proposal of the cycle gets, once per chain, the overall acceptance after the chain and the chain length of the sampler, and every '
               'constructor of a sampler gives a positive whole chain length for every maximum.')
TECHNIQUE = 'static analysis: symbolic execution of the adaptation methods and of the sampler, evaluated against the documented formulas'
L, S = 'cpnest/proposal.py', 'cpnest/sampler.py'
MUTANTS = [
    (L, "        self.L = self.base_L + np.random.randint(nmcmc,5*nmcmc)\n", "        self.L = self.base_L + np.random.randint(nmcmc,nmcmc)\n"),
    (L, "        self.L = self.base_L + np.random.randint(nmcmc,5*nmcmc)\n", "        self.L = self.L + np.random.randint(nmcmc,5*nmcmc)\n"),
    (L, "        self.L = self.base_L + np.random.randint(nmcmc,5*nmcmc)\n", "        self.L = np.random.randint(nmcmc,5*nmcmc)\n"),
    (L, "        self.L = self.base_L + np.random.randint(nmcmc,5*nmcmc)\n", "        self.L = self.base_L + np.random.randint(0,5*nmcmc)\n"),
    (L, "        self.L = self.base_L + np.random.randint(nmcmc,5*nmcmc)\n", "        self.L = self.base_L + 3*nmcmc\n"),
    (L, "        self.base_L         = 10+int((h/l)*self.d**(1./4.))\n", "        self.base_L         = 10+int((l/h)*self.d**(1./4.))\n"),
    (L, "        self.base_L         = 10+int((h/l)*self.d**(1./4.))\n", "        self.base_L         = int((h/l)*self.d**(1./4.))\n"),
    (L, "        self.base_L         = 10+int((h/l)*self.d**(1./4.))\n", "        self.base_L         = 10+int((h/l)*self.d**(1//4))\n"),
    (L, "        self.base_dt        = (1.0/self.base_L)*l/h\n", "        self.base_dt        = (1.0/self.base_L)*h/l\n"),
    (L, "        self.base_dt        = (1.0/self.base_L)*l/h\n", "        self.base_dt        = (1.0/self.L)*l/h\n"),
    (L, "        ranges = [self.prior_bounds[j][1] - self.prior_bounds[j][0] for j in range(self.d)]\n", "        ranges = [self.prior_bounds[j][1] - self.prior_bounds[0][0] for j in range(self.d)]\n"),
    (L, "        ranges = [self.prior_bounds[j][1] - self.prior_bounds[j][0] for j in range(self.d)]\n", "        ranges = [self.prior_bounds[j][1] - self.prior_bounds[j][0] for j in range(1)]\n"),
    (L, "        if self._initialised == False:\n            self.set_integration_parameters()\n", ""),
    (L, "        new_log_scale = np.log(self.scale) + self.ADAPTATIONSIZE * diff\n        self.scale = np.exp(new_log_scale)\n", "        new_log_scale = np.log(self.scale) + self.ADAPTATIONSIZE * diff\n"),
    (L, "        self.scale = np.exp(new_log_scale)\n        self.dt = self.base_dt * self.scale\n", "        self.scale = np.exp(new_log_scale)\n        self.base_dt = self.base_dt * self.scale\n        self.dt = self.base_dt\n"),
    (L, "        diff = acceptance - self.TARGET\n", "        diff = self.TARGET - acceptance\n"),
    (S, "                p.update_time_step(self.acceptance)\n", "                p.update_time_step(self.sub_acceptance)\n"),
    (S, "                p.update_time_step(self.acceptance)\n", ""),
    (S, "                p.update_trajectory_length(self.Nmcmc)\n", "                p.update_trajectory_length(self.maxmcmc)\n"),
    (S, "                p.update_trajectory_length(self.Nmcmc)\n", ""),
    (S, "            for p in self.proposal.proposals:\n                p.update_time_step", "            for p in self.proposal.proposals[1:]:\n                p.update_time_step"),
    (S, "        self.initial_mcmc = max(1, maxmcmc//10)\n", "        self.initial_mcmc = maxmcmc//10\n"),
    (S, "        self.initial_mcmc = max(1, maxmcmc//10)\n", "        self.initial_mcmc = max(1, maxmcmc/10)\n"),
]
BASE = 'proposal.HamiltonianProposal'
STEP, LENGTH = 'update_time_step', 'update_trajectory_length'


def close(x, y):
    return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))


def built(P, ci):
    W = World(P, hooks={'purecalls': True})
    for st, me in W.eng.instantiate(State(), ci, [], {'model': W.param('model', 'usermodel')}, None):
        yield W, st, me


def value(W, st, me, name):
    return W.eng.val(st, W.eng.getfield(st, me, name))


def number(W, name, k):
    x = mk('sym', name, -700 - k)
    W.eng.settype(x, 'number')
    return x


def check(P, R, tier):
    cls = [c for c in [P.cls(BASE)] + sorted(P.subclasses(P.cls(BASE)), key=lambda c: c.qual) if c.find('set_integration_parameters')]
    cls = list(dict.fromkeys(c for c in cls if c.name in ('LeapFrog', 'ConstrainedLeapFrog') or c not in (P.cls(BASE),)))
    R.count('proposals', len(cls))
    for ci in cls:
        with R.guard('steps', ci.name):
            for W, st, me in built(P, ci):
                timestep(P, R, W, ci, st, me)
                length(P, R, W, ci, st, me)
                base(P, R, W, ci, st, me)
                R.covers(W.eng)
    with R.guard('sampler', HMC):
        sampler(P, R)
    for ci in concrete_samplers(P):
        with R.guard('chain length', ci.name):
            initial(P, R, ci)


def timestep(P, R, W, ci, st, me):
    C = ci.name + '.' + STEP
    a, b = number(W, 'acceptance', 0), number(W, 'acceptance', 1)
    names = ('base_dt', 'TARGET', 'ADAPTATIONSIZE')
    b0, target, size = (value(W, st, me, n) for n in names)
    for k, o in enumerate(W.run(ci, STEP, me, [a], st=st.fork())):
        if o.kind != 'return':
            R.undet('step', C, 'ends with %s' % o.kind)
            continue
        for n, os, args in ((1, [o], (a,)), (2, W.run(ci, STEP, me, [b], st=o.state.fork()), (a, b))):
            for x in os:
                t = value(W, x.state, me, 'dt')
                v, why, where = True, '', '%s:%d' % (ci.find(STEP)[1].module.relpath, ci.find(STEP)[1].node.lineno)
                for s in range(12):
                    m = Model(s, bind={y: hval(s, 'acc', i) * 0.5 + 0.5 if abs(hval(s, 'acc', i)) <= 1 else 0.4 for i, y in enumerate(args)})
                    try:
                        if not all(m.truth(m.ev(f)) for f in x.state.facts if any(contains(f, y) for y in args)):
                            continue
                        want = m.num(m.ev(b0)) * math.exp(sum(m.num(m.ev(size)) * (m.num(m.ev(y)) - m.num(m.ev(target))) for y in args))
                        got = m.num(m.ev(t))
                    except (Undef, ValueError, OverflowError) as u:
                        v, why = None, 'the step is not understood: %s' % u
                        break
                    if not close(got, want):
                        v, why = False, 'after %d chain(s) with an acceptance of %s the step is %.9g, base step times scale is %.9g' % (n, ', '.join('%.3f' % m.bind[y] for y in args), got, want)
                        break
                R.verdict(v, 'step', C, 'the step is the base step times the adapted scale', why, where)


def length(P, R, W, ci, st, me):
    C = ci.name + '.' + LENGTH
    fi = ci.find(LENGTH)[1]
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    nn = number(W, 'chain_length', 2)
    W.eng.types[('int', nn)] = True
    s0 = st.fork()
    s0.assume(le(ONE, nn))
    b0 = value(W, st, me, 'base_L')
    for twice in (False, True):
        starts = [s0] if not twice else [o.state for o in W.run(ci, LENGTH, me, [nn], st=s0.fork()) if o.kind == 'return']
        for s1 in starts:
            before = {x for x in subterms(value(W, s1, me, 'L')) if x.op == 'draw'} if twice else set()
            for o in W.run(ci, LENGTH, me, [nn], st=s1.fork()):
                if o.kind != 'return':
                    R.undet('trajectory', C, 'ends with %s' % o.kind, where)
                    continue
                t = value(W, o.state, me, 'L')
                v, why = True, ''
                for n in (1, 2, 3, 10, 37):
                    try:
                        v, why = lengths(t, nn, n, b0, before)
                    except (Undef, ValueError, ZeroDivisionError) as u:
                        v, why = None, 'the number of steps is not understood: %s' % u
                    if v is not True:
                        break
                R.verdict(v, 'trajectory', C, 'base length plus a whole number uniform in [n, 5n)', why, where)


def lengths(t, nn, n, b0, before):
    """the values a number of steps can take for one chain length"""
    m = Model(3, bind={nn: n})
    ds = sorted({x for x in subterms(t) if x.op == 'draw'}, key=lambda x: x.args[-1].args[0] if x.args[-1].op == 'uid' else 0)
    b = int(m.num(m.ev(b0)))
    if any(x in before for x in ds):
        return False, 'the number of steps still depends on the draw made for the trajectory before'
    if not ds:
        got = m.num(m.ev(t))
        return False, 'the number of steps after a chain of %d is always %g, and not drawn from %d to %d' % (n, got, b + n, b + 5 * n - 1)
    if len(ds) > 1:
        return None, 'more than one draw'
    d = ds[0]
    seen = {}
    if d.args[0] == 'int':
        lo, hi = m.num(m.ev(d.args[1])), m.num(m.ev(d.args[2]))
        if hi <= lo:
            return False, 'for a chain length of %d the range [%d, %d) to draw from is empty' % (n, lo, hi)
        grid = range(int(math.ceil(lo)), int(math.ceil(hi)))
    elif d.args[0] == 'u01':
        g = 4 * n * 100
        grid = [(k + 0.5) / g for k in range(g)]
    else:
        return None, 'drawn from %s' % d.args[0]
    for x in grid:
        e = Model(3, bind={nn: n, d: x})
        y = e.num(e.ev(t))
        seen[y] = seen.get(y, 0) + 1
    want = list(range(b + n, b + 5 * n))
    got = sorted(seen)
    if [round(y, 9) for y in got] != [float(y) for y in want]:
        return False, 'for a chain length of %d the number of steps is drawn from %g to %g, not from the whole numbers %d to %d' % (n, got[0], got[-1], want[0], want[-1])
    if max(seen.values()) > 1.05 * min(seen.values()) + 1:
        return False, 'for a chain length of %d the numbers of steps are not equally likely' % n
    return True, ''


class Widths(object):
    """prior bounds of d parameters"""

    def __init__(self, W, me, d, k):
        self.d = d
        # widths whose quotients are exact, so that rounding cannot change a whole number
        w = (1.0, 4.0, 0.5, 2.0, 16.0, 0.25, 8.0)
        self.b = [(0.25 * ((7 * j + 3 * k) % 9 - 4), 0.25 * ((7 * j + 3 * k) % 9 - 4) + w[(3 * j + k) % 7]) for j in range(d)]

    def leaf(self, m, t):
        if t.op == 'fld' and t.args[1] in ('bounds', 'prior_bounds'):
            return [list(x) for x in self.b]
        if t.op == 'fld' and t.args[1] in ('d', 'dimension'):
            return self.d
        if t.op == 'idx' and t.args[0].op in ('fld', 'call', 'attr') and 'shape' in [x for x in t.args[0].args if isinstance(x, str)]:
            return self.d
        if t.op == 'len' and any(x.op == 'call' and x.args[0] in ('atleast_1d', 'numpy.var', 'numpy.cov', 'diag') for x in subterms(t)):
            return self.d
        if t.op == 'len' and t.args[0].op == 'fld' and t.args[0].args[1] in ('bounds', 'prior_bounds', 'names'):
            return self.d
        return None


def base(P, R, W, ci, st, me):
    ens = W.param('points', 'list')
    W.eng.setelem(ens, LP)
    entries = [('set_integration_parameters', [], (1, 2, 3, 5)), ('set_ensemble', [ens], None)]
    L0 = value(W, st, me, 'base_L')
    for meth, args, dims in entries:
        C = '%s.%s' % (ci.name, meth)
        fi = ci.find(meth)[1]
        where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
        for o in W.run(ci, meth, me, args, st=st.fork()):
            if o.kind != 'return':
                continue
            tl, td = value(W, o.state, me, 'base_L'), value(W, o.state, me, 'base_dt')
            if meth == 'set_ensemble' and tl is L0:
                R.violation('base', C, 'the trajectory parameters are not set from the prior when the first ensemble arrives', where)
                continue
            v, why = True, ''
            ds = dims or ((1,) if any(x.op == 'call' and x.args[0] == 'numpy.var' for x in subterms(tl)) else (2, 4))
            for d, k in itertools.product(ds, range(8)):
                w = Widths(W, me, d, k)
                m = Model(k, leaf=w.leaf)
                ranges = [y - x for x, y in w.b]
                l, h = min(ranges), max(ranges)
                want = 10 + int((h / l) * d ** 0.25)
                try:
                    gl, gd = m.num(m.ev(tl)), m.num(m.ev(td))
                except (Undef, ValueError, TypeError, IndexError, ZeroDivisionError) as u:
                    v, why = None, 'the base values are not understood: %s' % u
                    break
                if not close(gl, want):
                    v, why = False, 'for prior widths %s the base number of steps is %g instead of %d' % (['%.3g' % x for x in ranges], gl, want)
                    break
                if not close(gd, l / h / want):
                    v, why = False, 'for prior widths %s the base step is %.6g instead of %.6g' % (['%.3g' % x for x in ranges], gd, l / h / want)
                    break
            R.verdict(v, 'base', C, 'base number of steps and base step follow the prior widths', why, where)


def sampler(P, R):
    old = dict(world.FIELD_TYPES)
    world.FIELD_TYPES['proposals'] = ('list', 'proposal.ConstrainedLeapFrog')
    try:
        stubs = {}
        for c in P.cls('proposal.ConstrainedLeapFrog').mro():
            if not isinstance(c, str):
                for m in (STEP, LENGTH):
                    if m in c.methods:
                        stubs[c.name + '.' + m] = marker(m, effect=None)
        for ci in concrete_samplers(P):
            names = [c.name for c in ci.mro() if not isinstance(c, str)]
            if HMC in names:
                M = Move(P, ci.name, stubs=stubs)
                for W in M.parts:
                    R.covers(W.eng)
                    one(R, ci, W)
    finally:
        world.FIELD_TYPES.clear()
        world.FIELD_TYPES.update(old)


def one(R, ci, W):
    C = ci.name + '.yield_sample'
    for o in W.outs:
        if not events(o.trace, 'yield'):
            continue
        acc = value(W, o.state, W.me, 'acceptance')
        n = value(W, o.state, W.me, 'Nmcmc')
        for meth, want, what in ((STEP, acc, 'the overall acceptance after the chain'), (LENGTH, n, 'the chain length of the sampler')):
            es = [(e, l) for e, l in marks(o.trace, meth)]
            where = es[0][0].loc if es else ''
            if not es:
                # a loop over something not understood may hide the call
                R.verdict(False if not [e for e, l in events(o.trace, 'unknown')] else None, 'adapted', C, '', '%s is not called for the proposals after a chain' % meth, where)
                continue
            for e, l in es:
                got = (list(e.a['args']) + list(e.a['kwargs'].values()) + [NONE])[0]
                same = got is want or equalnum(got, want)
                R.verdict(same, 'adapted', C, '%s gets %s' % (meth, what), '%s gets %s, and not %s' % (meth, show(got)[:80], what), e.loc)
            outer = [l for e, l in es if len(l) == 1 and l[0][0].n is not None and is_term(l[0][0].n)]
            if len(es) == 1 and outer:
                cnt = outer[0][0][0].n
                full = cnt.op == 'len' and cnt.args[0].op in ('fld', 'c0')
                every = all(any(x is es[0][0] for x, _ in walk(p.trace)) for p in outer[0][0][0].a['paths'])
                R.verdict(True if full and every else False if (cnt.op in ('poly', 'max', 'num') and full is False and contains_len(cnt)) or not every else None, 'adapted all', C, 'every proposal of the cycle is adapted',
                          '%s is called for %s proposals of the cycle' % (meth, show(cnt)[:80]), where)
            elif len(es) > 1 and all(l == es[0][1] for e, l in es):
                R.violation('adapted all', C, '%s is called %d times for one chain' % (meth, len(es)), where)


def contains_len(t):
    return any(x.op == 'len' and x.args[0].op in ('fld', 'c0') for x in subterms(t))


def equalnum(a, b):
    if unresolved_terms(a) and [u for u in unresolved_terms(a) if u not in unresolved_terms(b) and u.op not in ('phi', 'iota')]:
        return None
    try:
        for k in range(6):
            m = Model(k)
            if not close(m.num(m.ev(a)), m.num(m.ev(b))):
                return False
    except (Undef, ValueError, ZeroDivisionError):
        return None
    return True


def initial(P, R, ci):
    C = ci.name + '.__init__'
    fi = ci.find('__init__')[1]
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    W = World(P, hooks={'purecalls': True})
    kw = {}
    for i, x in enumerate(fi.node.args.args[1:]):
        kw[x.arg] = W.param(x.arg, {'manager': 'cpnest.RunManager', 'model': 'usermodel', 'maxmcmc': 'number', 'poolsize': 'number'}.get(x.arg))
    mx = kw.get('maxmcmc')
    if mx is None:
        return R.undet('chain length', C, 'no maximum chain length', where)
    W.eng.types[('int', mx)] = True
    for st, me in W.eng.instantiate(State(), ci, [], kw, None):
        t = value(W, st, me, 'Nmcmc')
        v, why = True, ''
        for n in list(range(1, 40)) + [100, 5000]:
            m = Model(1, bind={mx: n})
            try:
                if not all(m.truth(m.ev(f)) for f in st.facts if contains(f, mx)):
                    continue
                x = m.num(m.ev(t))
            except (Undef, ValueError, ZeroDivisionError) as u:
                v, why = None, 'the first chain length is not understood: %s' % u
                break
            if x < 1 or x != int(x) or x > n:
                v, why = False, 'with a maximum of %d the first chain length is %g, not a whole number from 1 to %d' % (n, x, n)
                break
        R.verdict(v, 'chain length', C, 'the first chain length is a positive whole number', why, where)
    R.covers(W.eng)
