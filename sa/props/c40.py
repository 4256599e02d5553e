"""C40: Hamiltonian trajectories follow the discretised equations of motion."""
import itertools
import math
from .common import *
from ..engine import State
from ..randeval import FUNCS
from ..replay import Replay, Endless

EXPLANATION = ('The proposal is built symbolically around a model whose potential, force and likelihood are function symbols, and its methods are executed on points and momenta with symbolic components. What a position step, a momentum '
               'step, a whole trajectory, the selection of a point and the energies return are terms over these components; loops that reflect at the prior bounds are kept as recurrences and followed pass by pass. '
               'The terms are compared with the discretised equations of motion, mirrored at the bounds and at the likelihood contour, by evaluating both for many positions, momenta, bounds and step sizes.')
TECHNIQUE = 'static analysis: abstract interpretation to terms and loop recurrences, compared with the equations of motion by evaluation'
L = 'cpnest/proposal.py'
REFL = """            while q[k] < l or q[k] > u:
                if q[k] > u:
                    q[k] = u - (q[k] - u)
                    p[j] *= -1
                if q[k] < l:
                    q[k] = l + (l - q[k])
                    p[j] *= -1
        return p, q
"""
MUTANTS = [
    (L, "            q[k]  += self.dt * p[j] * self.inverse_mass[j]\n", "            q[k]  += self.dt * p[j]\n"),
    (L, "            q[k]  += self.dt * p[j] * self.inverse_mass[j]\n", "            q[k]  += self.dt * p[j] * self.inverse_mass[0]\n"),
    (L, REFL, REFL.replace("                    q[k] = l + (l - q[k])\n                    p[j] *= -1\n", "                    q[k] = l + (l - q[k])\n")),
    (L, REFL, REFL.replace("                    q[k] = u - (q[k] - u)\n", "                    q[k] = u\n")),
    (L, REFL, REFL.replace("while q[k] < l or q[k] > u", "if q[k] < l or q[k] > u")),
    (L, REFL, REFL.replace("q[k] < l or q[k] > u", "q[k] <= l or q[k] >= u")),
    (L, REFL, REFL.replace("p[j] *= -1", "p *= -1")),
    (L, "        reflected = 0\n        dV        = self.gradient(q)\n        if half is True:\n            p += - 0.5 * self.dt * dV\n", "        reflected = 0\n        dV        = self.gradient(q)\n        if half is True:\n            p += - self.dt * dV\n"),
    (L, "                p += - self.dt * dV\n", "                p += self.dt * dV\n"),
    (L, "            if c > 0:\n", "            if c < 0:\n"),
    (L, "                p += - 2.0*np.dot(p,normal)*normal\n", "                p += - np.dot(p,normal)*normal\n"),
    (L, "                p += - 2.0*np.dot(p,normal)*normal\n", "                p = -p\n"),
    (L, "        return q.logL - logLmin\n", "        return logLmin - q.logL\n"),
    (L, "        p, q, reflected = self.evolve_trajectory_one_step_momentum(-p0.copy(), q0.copy(), logLmin, half = True)\n", "        p, q, reflected = self.evolve_trajectory_one_step_momentum(p0.copy(), q0.copy(), logLmin, half = True)\n"),
    (L, "        p, q, reflected = self.evolve_trajectory_one_step_momentum(-p0.copy(), q0.copy(), logLmin, half = True)\n", ""),
    (L, "            trajectory.append((q.copy(),p.copy()))\n            i += 1\n\n", "            trajectory.append((q,p))\n            i += 1\n\n"),
    (L, "        p, q, reflected = self.evolve_trajectory_one_step_momentum(p0.copy(), q0.copy(), logLmin, half = True)\n", "        p, q, reflected = self.evolve_trajectory_one_step_momentum(p0, q0, logLmin, half = True)\n"),
    (L, "        logw = np.array([-self.hamiltonian(p,q) for q,p in trajectory[1:-1]])\n", "        logw = np.array([self.hamiltonian(p,q) for q,p in trajectory[1:-1]])\n"),
    (L, "        idx  = np.random.choice(range(1,len(trajectory)-1), p = np.exp(logw  - norm))\n", "        idx  = np.random.choice(range(len(trajectory)-2), p = np.exp(logw  - norm))\n"),
    (L, "        idx  = np.random.choice(range(1,len(trajectory)-1), p = np.exp(logw  - norm))\n", "        idx  = np.random.choice(range(1,len(trajectory)-1))\n"),
    (L, "        return 0.5 * np.dot(p,np.dot(self.inverse_mass_matrix,p))", "        return 0.5 * np.dot(p,np.dot(self.mass_matrix,p))"),
    (L, "        return self.T(p) + self.V(q)\n", "        return self.T(p) - self.V(q)\n"),
    (L, "        self.log_J = min(0.0, initial_energy-final_energy)\n", "        self.log_J = min(0.0, final_energy-initial_energy)\n"),
    (L, "        self.momenta_distribution = multivariate_normal(cov=self.mass_matrix)#", "        self.momenta_distribution = multivariate_normal(cov=self.inverse_mass_matrix)#"),
    (L, "        self.inverse_mass           = np.atleast_1d(np.squeeze(np.diag(self.inverse_mass_matrix)))\n", "        self.inverse_mass           = np.atleast_1d(np.squeeze(np.diag(self.mass_matrix)))\n"),
    (L, "        v               = np.array([self.normal[i](q[n]) for i,n in enumerate(q.names)])\n", "        v               = np.array([self.normal[0](q[n]) for i,n in enumerate(q.names)])\n"),
    (L, "        n               = v/np.linalg.norm(v)\n        return n\n", "        n               = v/np.sum(np.abs(v))\n        return n\n"),
    (L, "        diff = acceptance - self.TARGET\n", "        diff = self.TARGET - acceptance\n"),
    (L, "        self.dt = self.base_dt * self.scale\n", "        self.dt = self.dt * self.scale\n"),
    (L, "                    if q[k] > u:\n                        q[k] = u - (q[k] - u)\n                        p[j] *= -1\n", "                    if q[k] > u:\n                        q[k] = u - (q[k] - u)\n"),
    (L, "        return q, -p\n", "        return q, p\n"),
    (L, "        p += 0.5 * self.dt * dV\n", "        p += - 0.5 * self.dt * dV\n"),
    (L, "        p += 0.5 * self.dt * dV\n", ""),
    (L, "        p = p0 - 0.5 * self.dt * self.gradient(q0)\n", "        p = p0 - self.dt * self.gradient(q0)\n"),
    (L, "            p += - self.dt * dV\n        # the last", "            p += self.dt * dV\n        # the last"),
    (L, "                while q[k] < l or q[k] > u:\n                    if q[k] > u:\n                        q[k] = u - (q[k] - u)\n                        p[j] *= -1\n                    if q[k] < l:\n                        q[k] = l + (l - q[k])\n                        p[j] *= -1\n\n            dV", "                while q[k] <= l or q[k] >= u:\n                    if q[k] > u:\n                        q[k] = u - (q[k] - u)\n                        p[j] *= -1\n                    if q[k] < l:\n                        q[k] = l + (l - q[k])\n                        p[j] *= -1\n\n            dV"),
    (L, "        self.dV             = model.force\n", "        self.dV             = model.potential\n"),
    (L, "        self.prior_bounds   = model.bounds\n", "        self.prior_bounds   = [[0.0, 1.0] for b in model.bounds]\n"),
]
CON, BASE = 'proposal.ConstrainedLeapFrog', 'proposal.LeapFrog'
KNOWN = ('max', 'min', 'maxof', 'minof', 'sum', 'mean', 'logsumexp', 'prod', 'cumsum', 'concat', 'take', 'mask', 'asarray', 'atleast_1d', 'copyof', 'ravel', 'transpose')
NAMES = ('x', 'yy', 'z')
STEPQ, STEPP, EVOLVE, PICK = 'evolve_trajectory_one_step_position', 'evolve_trajectory_one_step_momentum', 'evolve_trajectory', 'sample_trajectory'


def fnval(name, xs, i=0):
    s = sum((k + 1.7) * x for k, x in enumerate(xs))
    return math.sin(s * 1.3 + 0.7 * i + len(name)) + 0.1 * s


class Ham(object):
    """a proposal around an opaque model, with a point and a momentum of dim components"""

    def __init__(self, P, cls, dim, stubs=None, steps=None, unbounded=False, instance=None):
        self.P, self.dim = P, dim
        stt = {'Model.potential': self.fn('potential'), 'Model.force': self.fn('force'), 'Model.log_likelihood': self.fn('likelihood')}
        stt.update(stubs or {})
        self.W = W = World(P, native_lp=False, hooks={'purecalls': True}, stubs=stt)
        st = State()
        m = W.instance(P.cls('model.Model'))
        self.lo = [W.param('lo%d' % i) if not unbounded else far(-1) for i in range(dim)]
        self.hi = [W.param('hi%d' % i) if not unbounded else far(1) for i in range(dim)]
        st.heap[(m, 'bounds')] = W.eng.newseq(st, 'list', mk('list', *[mk('list', a, b) for a, b in zip(self.lo, self.hi)]))
        self.ci = P.cls(cls)
        got = W.eng.instantiate(st, self.ci, [], {'model': m}, None)
        if len(got) != 1:
            raise Undef('the proposal is built in %d ways' % len(got))
        st, self.me = got[0]
        self.lp = P.cls('parameter.LivePoint')
        self.names = [mk('str', n) for n in NAMES[:dim]]
        self.x = [W.param('x%d' % i) for i in range(dim)]
        self.pv = [W.param('p%d' % i) for i in range(dim)]
        self.im = [W.param('m%d' % i) for i in range(dim)]
        self.dt = W.param('dt')
        self.lim = W.param('contour')
        self.q = self.point(st, mk('list', *self.x), 2)
        self.p = self.array(st, mk('list', *self.pv))
        st.heap[(self.me, 'inverse_mass')] = self.array(st, mk('list', *self.im))
        st.heap[(self.me, 'dt')] = self.dt
        if steps:
            st.heap[(self.me, 'L')] = num(steps)
        self.st = st

    def fn(self, name):
        def h(eng, st, fi, args, kwargs, node):
            q = (list(args)[1:] + list(kwargs.values()))[0]
            return [(st, eng.settype(mk('call', name, self.coords(st, q)), 'array' if name == 'force' else 'number'))]
        return h

    def array(self, st, c):
        return self.W.eng.newseq(st, 'array', c, 'number')

    def point(self, st, c, k=None):
        q = self.W.instance(self.lp, k) if k else mk('inst', 'LivePoint', fresh('pt').args[1])
        if not k:
            self.W.eng.settype(q, LP)
        st.heap[(q, 'names')] = self.W.eng.newseq(st, 'list', mk('list', *self.names), 'str')
        st.heap[(q, 'dimension')] = num(self.dim)
        st.heap[(q, 'values')] = self.array(st, c)
        return q

    def coords(self, st, q):
        if (q, 'values') in st.heap:
            v = st.heap[(q, 'values')]
            return self.W.eng.val(st, self.W.eng.seqcontent(st, v)) if v.op == 'ref' else self.W.eng.val(st, v)
        return self.W.eng.val(st, q)

    def run(self, meth, *args, **kw):
        return self.W.run(self.ci, meth, self.me, list(args), kw, st=self.st.fork())

    def content(self, st, v):
        if (v, 'values') in st.heap:
            return self.coords(st, v)
        return self.W.eng.val(st, self.W.eng.seqcontent(st, v)) if v.op == 'ref' else self.W.eng.val(st, v)

    def model(self, base):
        """bind -> Model with the function symbols evaluated"""
        def make(bind):
            b = dict(base)
            b.update(bind)
            return Model(1, bind=b, leaf=self.leaf)
        return make

    def leaf(self, m, t):
        env = m.env
        if t.op == 'opaque' and t in self.springs:
            i, x = self.springs[t]
            return spring(i, m.num(m.ev(x, env)))
        if t.op == 'fld' and t.args[1] in ('pi',):
            return math.pi
        if t.op == 'store' and t.args[1].op in ('pred', 'call') and t.args[1].args[0] == 'isnan':
            return m.ev(t.args[0], env)
        if t.op != 'call':
            return None
        f = t.args[0]
        if f == 'apply' and len(t.args) == 3 and t.args[1] in self.splines:
            return spring(self.splines.index(t.args[1]), m.num(m.ev(t.args[2], env)))
        ev = lambda i: m.ev(t.args[i], env)
        if f in ('potential', 'likelihood', 'force'):
            xs = [m.num(v) for v in ev(1)]
            if f == 'force':
                return [fnval(f, xs, i) for i in range(len(xs))]
            return fnval(f, xs)
        if f in ('drift', 'turn', 'kick'):
            xs = [m.num(v) for i in range(1, len(t.args)) for v in (ev(i) if isinstance(ev(i), list) else [ev(i)])]
            return [fnval(f, xs, i) for i in range(self.dim)]
        if f == 'energy':
            return fnval(f, [m.num(v) for i in (1, 2) for v in ev(i)])
        if f in ('numpy.dot', 'numpy.matmul', '.dot', 'numpy.inner', 'numpy.vdot'):
            return dot(m, ev(1), ev(2))
        if f == 'numpy.linalg.norm':
            return math.sqrt(sum(m.num(v) ** 2 for v in ev(1)))
        if f in ('.view', '.astype', 'numpy.squeeze', '.squeeze', 'numpy.atleast_2d', '.real'):
            return ev(1)
        if f == 'numpy.diag':
            a = ev(1)
            if isinstance(a, list) and a and isinstance(a[0], list):
                return [a[i][i] for i in range(len(a))]
            if isinstance(a, list) and a:
                return [[m.num(v) if i == j else 0.0 for j in range(len(a))] for i, v in enumerate(a)]
        if f in ('numpy.diagonal',):
            a = ev(1)
            return [a[i][i] for i in range(len(a))]
        if f == 'numpy.linalg.inv':
            return inverse(m, ev(1))
        if f == 'numpy.linalg.det':
            return det(m, ev(1))
        if f == 'numpy.linalg.slogdet':
            d = det(m, ev(1))
            return [1.0 if d > 0 else -1.0, math.log(abs(d))]
        if isinstance(f, str) and f not in FUNCS and f not in KNOWN:
            raise Undef('%s' % f)
        return None
    springs = {}
    splines = ()


def far(sign):
    return num(10 ** 9 * sign)


def dot(m, a, b):
    if isinstance(a[0], list) and not isinstance(b[0], list):
        return [sum(m.num(x) * m.num(y) for x, y in zip(r, b)) for r in a]
    if isinstance(b[0], list) and not isinstance(a[0], list):
        return [sum(m.num(x) * m.num(r[j]) for x, r in zip(a, b)) for j in range(len(b[0]))]
    if isinstance(a[0], list):
        return [[sum(m.num(x) * m.num(r[j]) for x, r in zip(w, b)) for j in range(len(b[0]))] for w in a]
    return sum(m.num(x) * m.num(y) for x, y in zip(a, b))


def det(m, a):
    n = len(a)
    if n == 1:
        return m.num(a[0][0])
    return sum((-1) ** j * m.num(a[0][j]) * det(m, [r[:j] + r[j + 1:] for r in a[1:]]) for j in range(n))


def inverse(m, a):
    n = len(a)
    d = det(m, a)
    if n == 1:
        return [[1.0 / d]]
    return [[(-1) ** (i + j) * det(m, [r[:i] + r[i + 1:] for k, r in enumerate(a) if k != j]) / d for j in range(n)] for i in range(n)]


def spring(i, x):
    return math.cos(1.9 * x + i) * (1.5 + i)


def mirror(q, p, lo, hi):
    for k in range(500):
        if q > hi:
            q, p = hi - (q - hi), -p
        elif q < lo:
            q, p = lo + (lo - q), -p
        else:
            return q, p
    raise ValueError


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-8 * max(1, abs(x), abs(y)) for x, y in zip(a, b))


def fmt(xs):
    return '(' + ', '.join('%.4g' % x for x in xs) + ')'


def where(fi):
    return '%s:%d' % (fi.module.relpath, fi.node.lineno)


RULES = []


def rule(name, meth, cls=CON):
    def deco(f):
        RULES.append((name, meth, cls, f))
        return f
    return deco


def check(P, R, tier):
    for name, meth, cls, f in RULES:
        ci = P.cls(cls)
        C = '%s.%s' % (ci.name, meth)
        if ci.find(meth) is None:
            if meth in (EVOLVE, 'get_sample'):
                R.anchor_missing.append(C)
            else:
                R.undet(name, C, 'the method does not exist')
            continue
        with R.guard(name, C):
            v, why = f(P, R, ci, C, tier)
            R.verdict(v, name, C, 'follows the equations', why, where(ci.find(meth)[1]))


def cases(dim, seed):
    """positions, momenta, bounds and masses"""
    r = lambda k: math.sin(12.9898 * (seed + 1) + 78.233 * (k + 1)) * 0.5 + 0.5
    lo = [-1.5 + r(i) for i in range(dim)]
    hi = [l + 0.75 + 2 * r(i + 5) for i, l in enumerate(lo)]
    x = [l + (h - l) * (0.05 + 0.9 * r(i + 9)) for i, (l, h) in enumerate(zip(lo, hi))]
    p = [(r(i + 13) - 0.5) * (4.0, 0.5, 25.0)[seed % 3] for i in range(dim)]
    im = [0.3 + r(i + 17) for i in range(dim)]
    return lo, hi, x, p, im, 0.1 + r(30)


def bindings(H, c):
    lo, hi, x, p, im, dt = c
    b = {H.dt: dt}
    for ts, vs in ((H.lo, lo), (H.hi, hi), (H.x, x), (H.pv, p), (H.im, im)):
        b.update({t: v for t, v in zip(ts, vs) if t.op == 'sym'})
    return b


def settled(H, outs, b, limit=40):
    """the outcome of the path that applies, and a model to evaluate it"""
    o, bind = Replay(outs, H.model(b), limit).result()
    if o.kind != 'return':
        raise ValueError('it fails')
    return o, H.model(b)(bind)


def vector(H, m, o, t):
    return [m.num(v) for v in m.ev(H.content(o.state, t))]


def parts(H, o, m):
    """the position and the momentum among the returned values"""
    v = o.value
    items = list(v.args) if v.op in ('tuple', 'list') else []
    qs = [t for t in items if (t, 'values') in o.state.heap]
    ps = [t for t in items if t not in qs and t.op == 'ref']
    if len(qs) != 1 or not ps:
        ps2 = [t for t in items if t not in qs and t.op not in ('num', 'bool')]
        if len(qs) != 1 or not ps2:
            raise Undef('the step returns %s' % show(v)[:80])
        ps = ps2
    return vector(H, m, o, qs[0]), vector(H, m, o, ps[0])


EDGE = 'a coordinate that is exactly on a bound'


@rule('position step', STEPQ)
def position(P, R, ci, C, tier):
    n = 0
    for dim in (1, 2) + ((3,) if tier == 'thorough' else ()):
        H = Ham(P, CON, dim)
        outs = H.run(STEPQ, H.p, H.q)
        R.covers(H.W.eng)
        for seed in range(18):
            c = lo, hi, x, p, im, dt = cases(dim, seed)
            n += 1
            want = [mirror(x[i] + dt * p[i] * im[i], p[i], lo[i], hi[i]) for i in range(dim)]
            try:
                o, m = settled(H, outs, bindings(H, c))
                gq, gp = parts(H, o, m)
            except Endless:
                return False, 'the step never ends from %s with momentum %s between %s and %s' % (fmt(x), fmt(p), fmt(lo), fmt(hi))
            except (Undef, KeyError, TypeError) as u:
                return None, 'the step is not understood: %s' % u
            if not near(gq, [w[0] for w in want]):
                return False, 'from %s with momentum %s, step %.3g and inverse masses %s between %s and %s it moves to %s instead of %s' % (fmt(x), fmt(p), dt, fmt(im), fmt(lo), fmt(hi), fmt(gq), fmt([w[0] for w in want]))
            if not near(gp, [w[1] for w in want]):
                return False, 'from %s with momentum %s between %s and %s the momentum becomes %s instead of %s' % (fmt(x), fmt(p), fmt(lo), fmt(hi), fmt(gp), fmt([w[1] for w in want]))
        if dim == 1:
            # a step that ends exactly on a bound ends there
            for end in (0, 1):
                c = [0.0], [1.0], [0.5], [1.0 if end else -1.0], [1.0], 0.5
                try:
                    o, m = settled(H, outs, bindings(H, c))
                    gq, gp = parts(H, o, m)
                except Endless:
                    return False, 'a step that ends exactly on a prior bound never returns'
                except (Undef, KeyError, TypeError) as u:
                    return None, 'the step is not understood: %s' % u
                if not near(gq, [float(end)]):
                    return False, 'a step that ends exactly on a prior bound leads to %s' % fmt(gq)
    R.count('position steps', n)
    return True, ''


@rule('momentum step', STEPP)
def momentum(P, R, ci, C, tier):
    n = 0
    for dim in (1, 2, 3):
        H = Ham(P, CON, dim, stubs={'HamiltonianProposal.unit_normal': lambda eng, st, fi, args, kw, node: [(st, NRM)]})
        NRM = H.W.param('normal')
        H.W.eng.settype(NRM, 'array')
        for half in (True, False):
            outs = H.run(STEPP, H.p, H.q, H.lim, half=TRUE if half else FALSE)
            R.covers(H.W.eng)
            for seed in range(12):
                c = lo, hi, x, p, im, dt = cases(dim, seed)
                logl = fnval('likelihood', x)
                for off in (-0.7, 0.9) + ((-math.inf,) if seed < 3 else ()):      # the prior itself has no contour
                    b = bindings(H, c)
                    nv = [math.sin(3.1 * i + seed) + 0.2 for i in range(dim)]
                    s = math.sqrt(sum(v * v for v in nv))
                    nv = [v / s for v in nv]
                    b[NRM] = nv
                    b[H.lim] = logl + off
                    g = [fnval('force', x, i) for i in range(dim)]
                    if half:
                        want = [a - 0.5 * dt * k for a, k in zip(p, g)]
                    elif off < 0:
                        want = [a - dt * k for a, k in zip(p, g)]
                    else:
                        s = sum(a * k for a, k in zip(p, nv))
                        want = [a - 2 * s * k for a, k in zip(p, nv)]
                    n += 1
                    try:
                        o, m = settled(H, outs, b)
                        gq, gp = parts(H, o, m)
                    except (Undef, KeyError, TypeError, Endless) as u:
                        return None, 'the step is not understood: %s' % u
                    if not near(gq, x):
                        return False, 'the step in momentum moves the point'
                    if not near(gp, want):
                        return False, '%s the momentum %s becomes %s instead of %s' % ('in a half step' if half else 'above the contour' if off < 0 else 'below the contour', fmt(p), fmt(gp), fmt(want))
    R.count('momentum steps', n)
    return True, ''


@rule('unit normal', 'unit_normal')
def unitnormal(P, R, ci, C, tier):
    for dim in (1, 2, 3):
        H = Ham(P, CON, dim)
        springs = [mk('sym', 'spline%d' % i, -700 - i) for i in range(dim)]
        H.st.heap[(H.me, 'normal')] = H.W.eng.newseq(H.st, 'list', mk('list', *springs))
        outs = H.run('unit_normal', H.q)
        R.covers(H.W.eng)
        H.springs, H.splines = {}, springs
        for o in outs:
            for e, l in walk(o.trace):
                if e.kind == 'opaquecall' and e.a['f'] in springs and len(e.a['args']) == 1:
                    H.springs[e.a['ret']] = (springs.index(e.a['f']), e.a['args'][0])
        for seed in range(6):
            c = lo, hi, x, p, im, dt = cases(dim, seed)
            v = [spring(i, x[i]) for i in range(dim)]
            s = math.sqrt(sum(a * a for a in v))
            try:
                o, m = settled(H, outs, bindings(H, c))
                got = vector(H, m, o, o.value)
            except (Undef, KeyError, TypeError, Endless) as u:
                return None, 'the normal is not understood: %s' % u
            if not near(got, [a / s for a in v]):
                return False, 'for the slopes %s it returns %s, not a unit vector along them' % (fmt(v), fmt(got))
    return True, ''


def inplace(H, kind):
    """a step of the trajectory as a function symbol of what it is given; it changes its arguments in place, as the real one does"""
    def h(eng, st, fi, args, kw, node):
        ns = [a.arg for a in fi.node.args.args]
        a = dict(zip(ns, args))
        a.update(kw)
        p, q = a[ns[1]], a[ns[2]]
        cp, cq = H[0].content(st, p), H[0].content(st, q)
        if kind == 'drift':
            newp, newq = mk('call', 'turn', cp, cq), mk('call', 'drift', cp, cq)
        else:
            half = a.get('half', FALSE)
            lim = a.get('logLmin', a.get(ns[3]) if len(ns) > 3 else None)
            newp, newq = mk('call', 'kick', cp, cq, ONE if half is TRUE else num(2) if half is FALSE else num(3), lim if lim is not None else ZERO), cq
        eng.settype(newp, 'array')
        eng.settype(newq, 'array')
        if p.op == 'ref':
            st.heap[(p, '$c')] = newp
            rp = p
        else:
            rp = H[0].array(st, newp)
        v = st.heap[(q, 'values')]
        if kind == 'drift':
            if v.op == 'ref':
                st.heap[(v, '$c')] = newq
            else:
                st.heap[(q, 'values')] = H[0].array(st, newq)
        r = [rp, q] + ([eng.settype(mk('sym', 'reflected', -710), 'number')] if kind == 'kick' else [])
        return [(st, mk('tuple', *r))]
    return h


@rule('trajectory', EVOLVE)
def trajectory(P, R, ci, C, tier):
    for steps in (1, 2, 3) + ((5,) if tier == 'thorough' else ()):
        H = [None]
        seen = []

        def pick(eng, st, fi, args, kw, node):
            t = (list(args)[1:] + list(kw.values()))[0]
            seen.append((st.fork(), t))
            return [(st, PICKED)]
        H[0] = h = Ham(P, CON, 2, steps=steps, stubs={'ConstrainedLeapFrog.' + STEPQ: inplace(H, 'drift'), 'ConstrainedLeapFrog.' + STEPP: inplace(H, 'kick'), 'ConstrainedLeapFrog.' + PICK: pick})
        PICKED = mk('sym', 'picked', -711)
        outs = h.run(EVOLVE, h.p, h.q, h.lim)
        R.covers(h.W.eng)
        if len(outs) != 1 or outs[0].kind != 'return' or len(seen) != 1:
            return None, '%d paths, %d selections' % (len(outs), len(seen))
        if outs[0].value is not PICKED:
            return (None if contains(outs[0].value, PICKED) or unresolved(outs[0].value) else False), 'the point returned is not the one selected from the trajectory'
        st, t = seen[0]
        content = h.content(st, t)
        if content.op not in ('list', 'tuple'):
            return None, 'the trajectory is %s' % show(content)[:80]
        c = lo, hi, x, p, im, dt = cases(2, 4)
        b = bindings(h, c)
        b[h.lim] = -3.25
        m = h.model(b)({})
        got = []
        try:
            for e in content.args:
                e = h.W.eng.val(st, e)
                q = [a for a in e.args if (a, 'values') in st.heap]
                ps = [a for a in e.args if a not in q]
                if len(q) != 1 or len(ps) != 1:
                    return None, 'an entry of the trajectory is %s' % show(e)[:80]
                got.append(tuple(round(m.num(v), 9) for v in m.ev(h.content(st, q[0])) + m.ev(h.content(st, ps[0]))))
        except (Undef, KeyError, TypeError) as u:
            return None, 'the trajectory is not understood: %s' % u
        want = []
        for sign in (1, -1):
            cq, cp = list(x), [sign * v for v in p]
            call = lambda f, *a: [fnval(f, [v for y in a for v in (y if isinstance(y, list) else [y])], i) for i in range(2)]
            cp = call('kick', cp, cq, 1, -3.25)
            for k in range(steps):
                cp, cq = call('turn', cp, cq), call('drift', cp, cq)
                cp = call('kick', cp, cq, 2, -3.25)
                want.append(tuple(round(v, 9) for v in cq + cp))
        start = tuple(round(v, 9) for v in list(x) + list(p))
        back = tuple(round(v, 9) for v in list(x) + [-v for v in p])
        missing = [w for w in want if not any(near(w, g) for g in got)]
        extra = [g for g in got if not any(near(w, g) for w in want + [start, back])]
        if missing or extra:
            k = want.index(missing[0]) if missing else 0
            return False, 'in trajectories of %d steps %s' % (steps, 'the state after step %d %s in time is not recorded' % (k % steps + 1, 'forward' if k < steps else 'backward') if missing else
                                                                'states are recorded that are not on the trajectory')
    return True, ''


@rule('selection', PICK)
def selection(P, R, ci, C, tier):
    def energy(eng, st, fi, args, kw, node):
        a = list(args)[1:] + list(kw.values())
        ns = [x.arg for x in fi.node.args.args[1:]]
        d = dict(zip(ns, args[1:]))
        d.update(kw)
        return [(st, eng.settype(mk('call', 'energy', H.content(st, d[ns[0]]), H.content(st, d[ns[1]])), 'number'))]
    for size in (4, 5, 7):
        H = Ham(P, CON, 2, stubs={'HamiltonianProposal.hamiltonian': energy})
        W = H.W
        items, cs = [], []
        vals = {}
        for k in range(size):
            xs = [W.param('tx%d_%d' % (k, i)) for i in range(2)]
            ps = [W.param('tp%d_%d' % (k, i)) for i in range(2)]
            for i, t in enumerate(xs + ps):
                vals[t] = math.sin(2.3 * k + 1.1 * i) * 1.4
            q = mk('sym', 'point%d' % k, -720 - k)
            W.eng.settype(q, LP)
            H.st.heap[(q, 'names')] = W.eng.newseq(H.st, 'list', mk('list', *H.names), 'str')
            H.st.heap[(q, 'dimension')] = num(2)
            H.st.heap[(q, 'values')] = H.array(H.st, mk('list', *xs))
            p = H.array(H.st, mk('list', *ps))
            items.append((q, p))
            cs.append(fnval('energy', [vals[t] for t in ps + xs]))
        t = W.eng.newseq(H.st, 'list', mk('list', *[mk('tuple', q, p) for q, p in items]))
        outs = H.run(PICK, t)
        R.covers(W.eng)
        if len(outs) != 1 or outs[0].kind != 'return':
            return None, '%d paths' % len(outs)
        o = outs[0]
        v = W.eng.val(o.state, o.value)
        ds = [x for x in subterms(v) if x.op == 'draw']
        if len(ds) != 1 or ds[0].args[0] not in ('choice', 'int'):
            return (False if not ds and not unresolved(v) and v.op in ('tuple', 'idx') else None), 'the point is not drawn at random' if not ds else 'the selection is not understood'
        d = ds[0]
        m = H.model(vals)({})
        try:
            if d.args[0] == 'choice':
                pop = m.ev(d.args[1])
                pop = list(range(int(m.num(pop)))) if not isinstance(pop, list) else pop
                pr = [1.0 / len(pop)] * len(pop) if d.args[2] is NONE else [m.num(y) for y in m.ev(d.args[2])]
            else:
                a, z = int(m.num(m.ev(d.args[1]))), int(m.num(m.ev(d.args[2])))
                pop = list(range(a, z))
                pr = [1.0 / len(pop)] * len(pop)
            if len(pr) != len(pop):
                return False, '%d probabilities for %d points' % (len(pr), len(pop))
            chosen = []
            for y in (range(len(pop)) if d.args[0] == 'choice' else pop):
                mm = H.model(dict(vals, **{}))({d: y})
                for q, p in items:
                    mm.bind[q] = Tag(items.index((q, p)))
                    mm.bind[p] = Tag(items.index((q, p)))
                    mm.bind[H.content(o.state, p)] = Tag(items.index((q, p)))
                g = mm.ev(v)
                ks = {z.k for z in g if isinstance(z, Tag)} if isinstance(g, list) else set()
                if len(ks) != 1 or len(g) != 2:
                    return None, 'the selected entry is not understood'
                chosen.append(ks.pop())
        except IndexError:
            return False, 'an index beyond the trajectory can be drawn'
        except (Undef, KeyError, TypeError, ValueError) as u:
            return None, 'the selection is not understood: %s' % u
        if len(set(chosen)) != len(chosen):
            return None, 'a point can be drawn in several ways'
        if not set(range(1, size - 1)) <= set(chosen):
            return False, 'of a trajectory of %d points the entries %s can be drawn only' % (size, sorted(chosen))
        w = [math.exp(-cs[k]) for k in chosen]
        tot = sum(w)
        for k, x, y in zip(chosen, w, pr):
            if abs(x / tot - y) > 1e-6:
                return False, 'entry %d of a trajectory of %d points is drawn with probability %.4g, its Hamiltonian gives %.4g' % (k, size, y, x / tot)
    return True, ''


class Tag(object):
    def __init__(self, k):
        self.k = k


def matrix(dim, seed):
    r = [[math.sin(1.7 * (i + 1) * (j + 2) + seed) for j in range(dim)] for i in range(dim)]
    return [[sum(r[i][k] * r[j][k] for k in range(dim)) + (0.5 if i == j else 0) for j in range(dim)] for i in range(dim)]


@rule('mass', 'update_mass')
def mass(P, R, ci, C, tier):
    """momenta, kinetic energy and position step use one covariance matrix"""
    for dim in (1, 2, 3):
        H = Ham(P, CON, dim)
        W = H.W
        names = [[W.param('c%d%d' % (i, j)) for j in range(dim)] for i in range(dim)]
        H.st.heap[(H.me, 'covariance')] = H.array(H.st, mk('list', *[mk('list', *r) for r in names]))
        cov = matrix(dim, dim)
        b = {names[i][j]: cov[i][j] for i in range(dim) for j in range(dim)}
        for i in range(dim):
            b[H.lo[i]], b[H.hi[i]] = -1.0, 1.0
        pv = [0.3, -1.2, 0.8][:dim]
        b.update(dict(zip(H.pv, pv)))
        m = H.model(b)({})
        inv = inverse(m, cov)
        try:
            for o in H.run('update_mass'):
                if o.kind != 'return':
                    return False, 'it fails'
                if not all(m.truth(m.ev(f)) for f in o.facts):
                    continue
                get = lambda st, n: m.ev(W.eng.val(st, W.eng.getfield(st, H.me, n)))
                if not near([m.num(v) for v in get(o.state, 'inverse_mass')], [cov[i][i] for i in range(dim)]):
                    return False, 'the position step uses %s, the variances of the ensemble are %s' % (fmt([m.num(v) for v in get(o.state, 'inverse_mass')]), fmt([cov[i][i] for i in range(dim)]))
                ks = []
                for scale in (1.0, 0.0):
                    z = H.array(o.state, mk('list', *[mul(num(scale), t) if scale != 1.0 else t for t in H.pv]))
                    rs = W.run(H.ci, 'kinetic_energy', H.me, [z], st=o.state.fork())
                    if len(rs) != 1:
                        return None, '%d paths of the kinetic energy' % len(rs)
                    ks.append(m.num(m.ev(W.eng.val(rs[0].state, rs[0].value))))
                want = 0.5 * dot(m, pv, dot(m, cov, pv))
                if abs(ks[0] - ks[1] - want) > 1e-8:
                    return False, 'the kinetic energy of %s is %.6g for the ensemble covariance, not %.6g' % (fmt(pv), ks[0] - ks[1], want)
                rs = W.run(H.ci, 'update_momenta_distribution', H.me, [], st=o.state.fork())
                if len(rs) != 1:
                    return None, '%d paths of the momenta' % len(rs)
                d = W.eng.val(rs[0].state, W.eng.getfield(rs[0].state, H.me, 'momenta_distribution'))
                kws = {x.args[0]: x.args[1] for x in d.args if is_term(x) and x.op == 'kw'}
                if d.op != 'call' or not str(d.args[0]).endswith('multivariate_normal'):
                    return None, 'the momenta are drawn from %s' % show(d)[:60]
                c = kws.get('cov', kws.get(mk('str', 'cov')))
                if c is None:
                    return None, 'covariance of the momenta'
                got = m.ev(c)
                if not all(near([m.num(v) for v in x], y) for x, y in zip(got, inv)):
                    return False, 'the momenta are not drawn with the inverse of the ensemble covariance'
        except (Undef, KeyError, TypeError) as u:
            return None, 'not understood: %s' % u
    return True, ''


@rule('energy', 'get_sample')
def jacobian(P, R, ci, C, tier):
    """the log-Jacobian is the energy lost, at most zero; the Hamiltonian is kinetic plus potential"""
    H = [None]
    new = {}

    def evolve(eng, st, fi, args, kw, node):
        q = mk('sym', 'end', -740)
        h = H[0]
        h.W.eng.settype(q, LP)
        xs = [mk('sym', 'end_x%d' % i, -741 - i) for i in range(2)]
        ps = [mk('sym', 'end_p%d' % i, -745 - i) for i in range(2)]
        for t in xs + ps:
            eng.settype(t, 'number')
        st.heap[(q, 'names')] = eng.newseq(st, 'list', mk('list', *h.names), 'str')
        st.heap[(q, 'dimension')] = num(2)
        st.heap[(q, 'values')] = h.array(st, mk('list', *xs))
        p = h.array(st, mk('list', *ps))
        new.update(q=q, xs=xs, ps=ps, args=list(args)[1:] + list(kw.values()), st=st.fork())
        return [(st, mk('tuple', q, p))]

    def kinetic(eng, st, fi, args, kw, node):
        p = (list(args)[1:] + list(kw.values()))[0]
        return [(st, eng.settype(mk('call', 'kin', H[0].content(st, p)), 'number'))]
    H[0] = h = Ham(P, CON, 2, stubs={'ConstrainedLeapFrog.' + EVOLVE: evolve, 'LeapFrog.' + EVOLVE: evolve, 'HamiltonianProposal.kinetic_energy': kinetic})
    W = h.W
    outs = h.run('get_sample', h.q, logLmin=h.lim)
    R.covers(W.eng)
    if not new:
        return None, 'no trajectory is made'
    p0 = [a for a in new['args'] if (a, 'values') not in new['st'].heap and a is not h.lim]
    q0 = [a for a in new['args'] if (a, 'values') in new['st'].heap]
    if len(q0) != 1 or len(p0) != 1:
        return None, 'the trajectory starts from %s' % ', '.join(show(a)[:40] for a in new['args'])
    start = h.content(new['st'], p0[0])
    if h.lim not in new['args']:
        return False, 'the trajectory does not get the likelihood contour'
    for seed in range(8):
        c = lo, hi, x, p, im, dt = cases(2, seed)
        xe, pe = [v + 0.3 * math.sin(seed + v) for v in x], [v - 0.4 * math.cos(seed) for v in p]
        b = bindings(h, c)
        b.update(dict(zip(new['xs'] + new['ps'], xe + pe)))

        def leaf(m, t):
            if t is start:
                return list(p)
            if t.op == 'call' and t.args[0] == 'kin':
                xs = m.ev(t.args[1], m.env)
                return sum(m.num(v) ** 2 for v in xs)
            return h.leaf(m, t)
        m = Model(1, bind=b, leaf=leaf)
        e0 = sum(v * v for v in p) + fnval('potential', x)
        e1 = sum(v * v for v in pe) + fnval('potential', xe)
        try:
            hit = [o for o in outs if all(m.truth(m.ev(f)) for f in o.facts)]
            if len(hit) != 1 or hit[0].kind != 'return':
                return None, '%d paths' % len(hit)
            o = hit[0]
            if o.value is not new['q']:
                cv = h.coords(o.state, o.value) if (o.value, 'values') in o.state.heap else None
                if cv is None or not near([m.num(v) for v in m.ev(cv)], xe):
                    return (None if cv is None else False), 'the point at the end of the trajectory is not returned'
            got = m.num(m.ev(W.eng.val(o.state, W.eng.getfield(o.state, h.me, 'log_J'))))
        except (Undef, KeyError, TypeError) as u:
            return None, 'the log-Jacobian is not understood: %s' % u
        if abs(got - min(0.0, e0 - e1)) > 1e-8:
            return False, 'the energy goes from %.4g to %.4g, the log-Jacobian is %.4g' % (e0, e1, got)
    return True, ''


@rule('time step', 'update_time_step')
def timestep(P, R, ci, C, tier):
    H = Ham(P, CON, 1)
    W = H.W
    acc = W.param('acc')
    f = {n: W.param(n) for n in ('scale', 'base_dt', 'TARGET', 'ADAPTATIONSIZE')}
    for n, t in f.items():
        H.st.heap[(H.me, n)] = t
    H.st.heap[(H.me, 'dt')] = W.param('olddt')
    outs = H.run('update_time_step', acc)
    R.covers(W.eng)
    for a, sc, base, target, size in itertools.product((0.0, 0.3, 0.5, 0.9, 1.0), (0.5, 1.7), (0.01, 0.3), (0.5, 0.65), (0.001, 0.1)):
        m = H.model({acc: a, f['scale']: sc, f['base_dt']: base, f['TARGET']: target, f['ADAPTATIONSIZE']: size})({})
        try:
            hit = [o for o in outs if all(m.truth(m.ev(x)) for x in o.facts)]
            if len(hit) != 1 or hit[0].kind != 'return':
                return None, '%d paths' % len(hit)
            got = [m.num(m.ev(W.eng.val(hit[0].state, W.eng.getfield(hit[0].state, H.me, n)))) for n in ('scale', 'dt')]
        except (Undef, KeyError, TypeError) as u:
            if any(x.op == 'sym' and x.args[0] == 'olddt' for o in outs for x in subterms(W.eng.val(o.state, W.eng.getfield(o.state, H.me, 'dt')))):
                return False, 'the new step depends on the old one'
            return None, 'not understood: %s' % u
        want = sc * math.exp(size * (a - target))
        if abs(got[0] - want) > 1e-9 or abs(got[1] - base * want) > 1e-9:
            return False, 'for an acceptance of %g with a target of %g the scale goes from %g to %.6g and the step to %.6g, expected %.6g and %.6g' % (a, target, sc, got[0], got[1], want, base * want)
    return True, ''


def leap(x, p, dt, im, lo, hi, steps):
    dim = len(x)
    g = lambda q: [fnval('force', q, i) for i in range(dim)]
    x = list(x)
    p = [a - 0.5 * dt * b for a, b in zip(p, g(x))]
    for k in range(steps):
        for i in range(dim):
            x[i], p[i] = mirror(x[i] + dt * p[i] * im[i], p[i], lo[i], hi[i])
        w = 1.0 if k < steps - 1 else 0.5
        p = [a - w * dt * b for a, b in zip(p, g(x))]
    return x, [-a for a in p]


@rule('leapfrog', EVOLVE, BASE)
def leapfrog(P, R, ci, C, tier):
    """the unconstrained trajectory: half a kick, whole steps, half a kick, momentum reversed"""
    n = 0
    for dim, steps in ((1, 1), (2, 1), (1, 2)) + (((1, 3),) if tier == 'thorough' else ()):
        for free in ((True, False) if steps == 1 else (True,)):
            H = Ham(P, BASE, dim, steps=steps, unbounded=free)
            outs = H.run(EVOLVE, H.p, H.q)
            R.covers(H.W.eng)
            for seed in range(12):
                c = lo, hi, x, p, im, dt = cases(dim, seed)
                if free:
                    lo, hi = [-1e9] * dim, [1e9] * dim
                wq, wp = leap(x, p, dt, im, lo, hi, steps)
                n += 1
                try:
                    o, m = settled(H, outs, bindings(H, c))
                    gq, gp = parts(H, o, m)
                except Endless:
                    return False, 'the trajectory never ends from %s with momentum %s between %s and %s' % (fmt(x), fmt(p), fmt(lo), fmt(hi))
                except (Undef, KeyError, TypeError) as u:
                    return None, 'the trajectory is not understood: %s' % u
                if not near(gq, wq):
                    return False, 'after %d steps from %s with momentum %s it is at %s instead of %s' % (steps, fmt(x), fmt(p), fmt(gq), fmt(wq))
                if not near(gp, wp):
                    return False, 'after %d steps from %s with momentum %s the momentum is %s instead of %s: run backwards it does not return to its start' % (steps, fmt(x), fmt(p), fmt(gp), fmt(wp))
            if not free and dim == 1:
                for end in (0, 1):
                    # the drift ends exactly on a bound
                    p0 = (1.0 if end else -1.0)
                    g0 = fnval('force', [0.5], 0)
                    c = [0.0], [1.0], [0.5], [p0 + 0.25 * g0], [1.0], 0.5
                    try:
                        o, m = settled(H, outs, bindings(H, c))
                    except Endless:
                        return False, 'a drift that ends exactly on a prior bound never returns'
                    except (Undef, KeyError, TypeError) as u:
                        return None, 'the trajectory is not understood: %s' % u
    R.count('trajectories', n)
    return True, ''
