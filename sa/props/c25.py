"""C25: bounds, prior support and unit-cube maps agree with each other."""
import re
from .common import *
from ..engine import State

EXPLANATION = ('The methods of the model class are executed symbolically for models of one to four parameters whose bounds and points are symbolic. The path conditions and results are decided over the whole finite abstraction of a point against its bounds '
               '(below, on the lower bound, inside, on the upper bound, above, per coordinate; finite and infinite bounds). New points are decided by the draws each coordinate is made of and by what the path to the return implies for an arbitrary user prior. '
               'The two unit-cube maps are composed both ways as terms, and the potential is compared with the prior the same path computed.')
TECHNIQUE = 'static analysis: symbolic execution, exhaustive decision of the path conditions over a finite abstraction of points against bounds, composition of the maps as terms'
F = 'cpnest/model.py'
INB = "        return all(self.bounds[i][0] < param.values[i] < self.bounds[i][1] for i in range(param.dimension))"
MUTANTS = [
    (F, INB, INB.replace('all(', 'any(')),
    (F, INB, INB.replace('[0] < param', '[0] <= param')),
    (F, INB, INB.replace('] < self.bounds[i][1]', '] <= self.bounds[i][1]')),
    (F, INB, INB.replace('range(param.dimension)', 'range(1, param.dimension)')),
    (F, INB, INB.replace('range(param.dimension)', 'range(param.dimension - 1)')),
    (F, INB, INB.replace('< self.bounds[i][1]', '< self.bounds[0][1]')),
    (F, INB, INB.replace('param.values[i]', 'abs(param.values[i])')),
    (F, INB, INB.replace('self.bounds[i][0] < param.values[i] < self.bounds[i][1]', 'self.bounds[i][0] < param.values[i]')),
    (F, INB, "        for i in range(param.dimension):\n            if self.bounds[i][0] < param.values[i] < self.bounds[i][1]:\n                return True\n        return False"),
    (F, INB, "        for i in range(param.dimension):\n            if not self.bounds[i][0] < param.values[i] < self.bounds[i][1]:\n                return False\n            return True"),
    (F, INB, "        inside = False\n        for i in range(param.dimension):\n            inside = self.bounds[i][0] < param.values[i] < self.bounds[i][1]\n        return inside"),
    (F, "            return 0.0\n        else: return -inf", "            return 0.0\n        else: return -1e300"),
    (F, "            return 0.0\n        else: return -inf", "            return 0.0\n        else: return inf"),
    (F, "            return 0.0\n        else: return -inf", "            return 1.0\n        else: return -inf"),
    (F, "        if self.in_bounds(param):\n", "        if not self.in_bounds(param):\n"),
    (F, "        if self.in_bounds(param):\n            return 0.0\n        else: return -inf", "        if self.in_bounds(param):\n            return 0.0"),
    (F, "            logP=self.log_prior(p)\n        return p", "            logP=self.log_prior(p)\n            break\n        return p"),
    (F, "        while(logP==-inf):", "        for _ in range(100):"),
    (F, "        while(logP==-inf):", "        while(logP==inf):"),
    (F, "[uniform(self.bounds[i][0],\n                                               self.bounds[i][1])", "[uniform(self.bounds[0][0],\n                                               self.bounds[i][1])"),
    (F, "[uniform(self.bounds[i][0],\n                                               self.bounds[i][1])", "[uniform(self.bounds[i][0],\n                                               self.bounds[i][1]+1)"),
    (F, "[uniform(self.bounds[i][0],\n                                               self.bounds[i][1])", "[uniform(0,\n                                               self.bounds[i][1])"),
    (F, "[uniform(self.bounds[i][0],\n                                               self.bounds[i][1])", "[self.bounds[i][0]+uniform(self.bounds[i][0],\n                                               self.bounds[i][1])"),
    (F, "        logP=-inf\n        while(logP==-inf):\n", "        logP=-inf\n        u=uniform()\n        while(logP==-inf):\n"),
    (F, "            logP=self.log_prior(p)\n        return p", "            logP=self.log_prior(p)\n            p=LivePoint(self.names, d=array('d',[uniform(*b) for b in self.bounds]))\n        return p"),
    (F, "        return -self.log_prior(param)", "        return self.log_prior(param)"),
    (F, "        return -self.log_prior(param)", "        return -self.log_likelihood(param)"),
    (F, "        return -self.log_prior(param)", "        return abs(self.log_prior(param))"),
    (F, "        return -self.log_prior(param)", "        return -self.log_prior(param) if self.in_bounds(param) else -inf"),
    (F, "                 + normalised_value[i] * (self.bounds[i][1] - self.bounds[i][0])", "                 + normalised_value[i] * (self.bounds[i][1] + self.bounds[i][0])"),
    (F, "                 + normalised_value[i] * (self.bounds[i][1] - self.bounds[i][0])", "                 + (2*normalised_value[i]-1) * (self.bounds[i][1] - self.bounds[i][0])"),
    (F, "                 + normalised_value[i] * (self.bounds[i][1] - self.bounds[i][0])", "                 + normalised_value[0] * (self.bounds[i][1] - self.bounds[i][0])"),
    (F, "[(v-b[0])/(b[1]-b[0]) for v, b", "[(v-b[0])/(b[1]+b[0]) for v, b"),
    (F, "[(v-b[0])/(b[1]-b[0]) for v, b", "[2*(v-b[0])/(b[1]-b[0])-1 for v, b"),
    (F, "[(v-b[0])/(b[1]-b[0]) for v, b", "[(b[1]-v)/(b[1]-b[0]) for v, b"),
    (F, "[(v-b[0])/(b[1]-b[0]) for v, b", "[(v-b[0])//(b[1]-b[0]) for v, b"),
    (F, "in zip(point.values, self.bounds)])", "in zip(point.values, self.bounds[::-1])])"),
    (F, "in zip(point.values, self.bounds)])", "in zip(point.values, self.bounds[1:])])"),
    (F, "in zip(point.values, self.bounds)])", "in zip(sorted(point.values), self.bounds)])"),
]
MUTANTS[23] = (F, "[uniform(self.bounds[i][0],\n                                               self.bounds[i][1])\n                                       for i, _ in enumerate(self.names) ]",
               "(lambda u: [b[0]+u*(b[1]-b[0]) for b in self.bounds])(uniform())")
NAMES = ['x', 'theta', 'a', 'b']
DIMS = (1, 2, 3, 4)
INFY = math.inf


class Box(object):
    """a model with symbolic bounds and a symbolic point"""

    def __init__(self, P, dim, form='tuple', prior=False):
        stubs = {}
        self.priors = []
        if prior:
            def log_prior(eng, st, fi, args, kwargs, node):
                p = args[1] if len(args) > 1 else kwargs.get('param', NONE)
                v = eng.settype(mk('sym', 'prior', len(self.priors)), 'number')
                c = eng.val(st, st.heap[(p, 'values')]) if (p, 'values') in st.heap else None
                self.priors.append((v, p, c))
                return [(st, v)]
            stubs = {'Model.log_prior': log_prior}
        self.W = W = World(P, native_lp=False, hooks={'purecalls': True}, stubs=stubs)
        self.P, self.dim = P, dim
        self.ci = P.cls('model.Model')
        self.lp = P.cls('parameter.LivePoint')
        self.st = st = State()
        self.me = W.instance(self.ci)
        self.lo = [W.param('lo%d' % i) for i in range(dim)]
        self.hi = [W.param('hi%d' % i) for i in range(dim)]
        names = [s(n) for n in NAMES[:dim]]
        st.heap[(self.me, 'names')] = W.eng.newseq(st, 'list', mk('list', *names), 'str')
        pairs = [mk(form, a, b) for a, b in zip(self.lo, self.hi)]
        st.heap[(self.me, 'bounds')] = W.eng.newseq(st, 'list', mk('list', *pairs))
        self.x = [W.param('x%d' % i) for i in range(dim)]
        self.pt = W.instance(self.lp, 2)
        st.heap[(self.pt, 'names')] = W.eng.newseq(st, 'list', mk('list', *names), 'str')
        st.heap[(self.pt, 'dimension')] = num(dim)
        st.heap[(self.pt, 'values')] = W.eng.newseq(st, 'array', mk('list', *self.x), 'number')

    def run(self, meth, *args):
        return self.W.run(self.ci, meth, self.me, list(args), st=self.st.fork())

    def values(self, o, t=None):
        """terms of the coordinates of the point (or sequence) t"""
        t = o.value if t is None else t
        if (t, 'values') in o.state.heap:
            t = o.state.heap[(t, 'values')]
        c = self.W.eng.val(o.state, self.W.eng.seqcontent(o.state, t)) if t.op in ('ref', 'inst') else t
        return c

    def bounds(self, k):
        """bindings of the bounds, case k"""
        b = {}
        for i in range(self.dim):
            lo, hi = [(-3.5, 2.25), (0.5, 7.0), (-8.0, -1.25), (0.0, 1.0), (-INFY, 4.0), (-6.0, INFY), (-INFY, INFY), (1.5, 1.5)][(k + i) % (4 if k < 4 else 7) if k < 7 else 7 if i == k - 7 else i]
            b[self.lo[i]], b[self.hi[i]] = lo, hi
        return b


def states(lo, hi):
    """(coordinate, inside) of every position against the bounds"""
    mid = (lo + hi) / 2 if math.isfinite(lo) and math.isfinite(hi) else lo + 1.0 if math.isfinite(lo) else hi - 1.0 if math.isfinite(hi) else 0.3
    if lo == hi:
        return [(lo, False), (lo - 1.5, False), (lo + 1.5, False)]
    out = [(mid, True)]
    if math.isfinite(lo):
        out += [(lo, False), (lo - 1.5, False), (lo + 1e-6, True)]
    if math.isfinite(hi):
        out += [(hi, False), (hi + 2.5, False), (hi - 1e-6, True)]
    return out


def outcome(outs, m):
    """(kind, value) of the path the valuation takes"""
    hit = [o for o in outs if all(m.truth(m.ev(f)) for f in o.facts)]
    if len(hit) != 1:
        raise Undef('%d paths for one input' % len(hit))
    return hit[0]


def check(P, R, tier):
    for rule in (support, fresh_points, cube, potential):
        with R.guard(rule.__name__, 'Model'):
            rule(P, R)


def support(P, R):
    for form in ('tuple', 'list'):
        for dim in DIMS[:3] if form == 'tuple' else (2,):
            B = Box(P, dim, form)
            ins, pri = B.run('in_bounds', B.pt), B.run('log_prior', B.pt)
            R.count('paths', len(ins) + len(pri))
            for name, outs in (('in_bounds', ins), ('log_prior', pri)):
                what = '%s, %d parameters, bounds as %ss' % (name, dim, form)
                bad = und = None
                n = 0
                for k in range(7 + dim):
                    b = B.bounds(k)
                    for combo in itertools.product(*[states(b[B.lo[i]], b[B.hi[i]]) for i in range(dim)]):
                        bind = dict(b)
                        bind.update(zip(B.x, [c[0] for c in combo]))
                        inside = all(c[1] for c in combo)
                        m = Model(1, bind=bind)
                        try:
                            o = outcome(outs, m)
                            if o.kind != 'return':
                                bad = 'it raises %s' % show(o.value)[:60]
                            elif name == 'in_bounds':
                                got = o.value
                                if got is NONE:
                                    bad = 'nothing is returned'
                                elif m.truth(m.ev(got)) != inside:
                                    bad = 'the point is reported %s' % ('inside' if not inside else 'outside')
                            else:
                                got = INFY if o.value is NONE else m.num(m.ev(o.value))
                                if o.value is NONE:
                                    bad = 'nothing is returned'
                                elif got != (0.0 if inside else -INFY):
                                    bad = 'the log-prior is %g' % got
                        except Undef as u:
                            und = str(u)
                            break
                        n += 1
                        if bad:
                            bad += ' at %s with bounds %s' % ([c[0] for c in combo], [(b[l], b[h]) for l, h in zip(B.lo, B.hi)])
                            break
                    if bad or und:
                        break
                R.count('positions', n)
                R.verdict(None if und else not bad, 'support', what, 'exact on %d positions' % n, und or bad)
            R.covers(B.W.eng)


def draws(t):
    return {x for x in subterms(t) if x.op == 'draw'}


def fresh_points(P, R):
    for dim in DIMS[:3]:
        what = 'new_point, %d parameters' % dim
        B = Box(P, dim, prior=True)
        outs = B.run('new_point')
        for o in outs:
            if o.kind == 'raise':
                R.undet('new point', what, 'may raise %s' % show(o.value)[:60])
                continue
            if o.kind != 'return':
                continue
            R.count('paths')
            c = B.values(o) if o.value.op in ('ref', 'inst') else None
            if c is None or c.op not in ('list', 'tuple') or B.W.eng.classinfo(o.value) is not B.lp:
                R.verdict(False if o.value is NONE else None, 'new point', what, '', 'the result is %s' % show(o.value if c is None else c)[:80])
                continue
            if len(c.args) != dim:
                R.violation('new point', what, 'the point has %d coordinates' % len(c.args))
                continue
            # the prior of this very point was found not to be minus infinity
            mine = [v for v, p, cc in B.priors if cc is c]
            facts = list(o.facts)
            if not mine:
                stale = [v for v, p, cc in B.priors]
                R.verdict(False, 'zero prior', what, '', 'the returned point is not one whose prior was computed (%d computed)' % len(stale))
            else:
                try:
                    bad = 0
                    fs = [f for f in facts if any(contains(f, v) for v in mine)]
                    # the number of the pass is as large as the conditions need
                    steps = sorted({x for f in fs for x in subterms(f) if x.op == 'iota'}, key=lambda x: x.args[0])
                    fs += [f for f in facts if f not in fs and any(contains(f, x) for x in steps)]
                    marks_ = sorted({int(x) + d for f in fs for x in re.findall(r'(?<![\w#.])\d+', show(f)) if int(x) < 1e9 for d in (-2, -1, 0, 1, 2)} | {0, 1, 2, 7})
                    for k in range(8):
                        for i in marks_ if steps else (0,):
                            if i < 0:
                                continue
                            bind = B.bounds(k % 4)
                            bind.update({v: -INFY for v in mine})
                            bind.update({x: i for x in steps})
                            m = Model(k, bind=bind)
                            if all(m.truth(m.ev(f)) for f in fs):
                                bad += 1
                    R.verdict(not bad, 'zero prior', what, 'excluded on the way to the return', 'the point is returned although its prior is zero')
                except Undef as u:
                    R.undet('zero prior', what, str(u))
            used = []
            for i, t in enumerate(c.args):
                w = '%s, coordinate %d' % (what, i)
                ds = draws(t)
                if not ds:
                    R.verdict(False if not contains_unknown(t, B) else None, 'drawn', w, '', 'the coordinate is not drawn: %s' % show(t)[:80])
                    continue
                if any(ds & u for u in used):
                    R.violation('drawn', w, 'the coordinate is made of the draw of another one')
                used.append(ds)
                between(R, B, t, ds, i, w)
        R.covers(B.W.eng)
        if not any(o.kind == 'return' for o in outs):
            R.undet('new point', what, 'no path returns')


def contains_unknown(t, B):
    known = set(B.lo + B.hi)
    return any(x.op in ('sym', 'call', 'atom', 'phi', 'extcall') and x not in known for x in subterms(t))


def between(R, B, t, ds, i, w):
    ds = sorted(ds, key=lambda d: d.key)
    if any(d.args[0] != 'u01' for d in ds):
        R.undet('drawn', w, 'made of %s' % [show(d)[:40] for d in ds])
        return
    try:
        for k in range(4):
            b = B.bounds(k)
            lo, hi = b[B.lo[i]], b[B.hi[i]]
            got = []
            for us in itertools.product((0.0, 0.25, 0.6, 1.0 - 1e-12), repeat=len(ds)):
                bind = dict(b)
                bind.update(zip(ds, us))
                got.append(Model(1, bind=bind).num(Model(1, bind=bind).ev(t)))
            if min(got) < lo - 1e-9 or max(got) > hi + 1e-9:
                R.violation('drawn', w, 'a draw gives %g, outside of (%g, %g)' % (min(got) if min(got) < lo - 1e-9 else max(got), lo, hi))
                return
            if min(got) > lo + 0.01 * (hi - lo) or max(got) < hi - 0.01 * (hi - lo):
                R.violation('drawn', w, 'the draws only cover (%g, %g) of (%g, %g)' % (min(got), max(got), lo, hi))
                return
        R.ok('drawn', w, 'between its own bounds, from a draw of its own')
    except Undef as u:
        R.undet('drawn', w, str(u))


def cube(P, R):
    for dim in DIMS[:3]:
        B = Box(P, dim)
        us = [B.W.param('u%d' % i) for i in range(dim)]
        for form in ('list', 'array'):
            what = '%d parameters, cube point as %s' % (dim, form)
            st = B.st.fork()
            arg = B.W.eng.newseq(st, form, mk('list', *us), 'number')
            for o in B.W.run(B.ci, 'from_normalised', B.me, [arg], st=st):
                if o.kind != 'return':
                    R.undet('cube', what, 'from_normalised may raise %s' % show(o.value)[:60])
                    continue
                c = B.values(o)
                compare(R, B, 'cube end points', 'from_normalised, ' + what, o, c, lambda b, u, i: b[B.lo[i]] + u * (b[B.hi[i]] - b[B.lo[i]]), us, ends=True)
                for q in B.W.run(B.ci, 'to_normalised', B.me, [o.value], st=o.state):
                    if q.kind != 'return':
                        R.undet('cube', what, 'to_normalised may raise %s' % show(q.value)[:60])
                        continue
                    compare(R, B, 'to after from', what, q, B.values(q), lambda b, u, i: u, us)
        what = '%d parameters' % dim
        for o in B.run('to_normalised', B.pt):
            if o.kind != 'return':
                R.undet('cube', what, 'to_normalised may raise %s' % show(o.value)[:60])
                continue
            for q in B.W.run(B.ci, 'from_normalised', B.me, [o.value], st=o.state):
                if q.kind != 'return':
                    R.undet('cube', what, 'from_normalised may raise %s' % show(q.value)[:60])
                    continue
                compare(R, B, 'from after to', what, q, B.values(q), lambda b, x, i: x, B.x)
        R.covers(B.W.eng)


def compare(R, B, rule, what, o, c, want, xs, ends=False):
    R.count('compositions')
    try:
        for k in range(8):
            b = B.bounds(k % 4)
            m0 = Model(k)
            for e in ((0.0, 1.0, 0.3) if ends else (None,)):
                vals = []
                for i in range(B.dim):
                    v = e if e is not None else abs(m0.num(m0.ev(xs[i]))) % 1.0
                    if e is not None and i:
                        v = (e + 0.25 * i) % 1.0
                    if e is None and xs is B.x:
                        v = b[B.lo[i]] + v * (b[B.hi[i]] - b[B.lo[i]])
                    vals.append(v)
                bind = dict(b)
                bind.update(zip(xs, vals))
                m = Model(k, bind=bind)
                if not all(m.truth(m.ev(f)) for f in o.facts):
                    continue
                got = [m.num(x) for x in m.seq(m.ev(c))]
                exp = [want(b, v, i) for i, v in enumerate(vals)]
                if len(got) != B.dim or any(abs(x - y) > 1e-9 * (1 + abs(y)) for x, y in zip(got, exp)):
                    R.violation(rule, what, 'for %s with bounds %s it gives %s, not %s' % (vals, [(b[l], b[h]) for l, h in zip(B.lo, B.hi)], got, exp))
                    return
        R.ok(rule, what, 'coordinate by coordinate')
    except (Undef, TypeError, ZeroDivisionError) as u:
        R.undet(rule, what, '%s: %s' % (u, show(c)[:80]))


def potential(P, R):
    for dim in (1, 2):
        what = 'potential, %d parameters' % dim
        B = Box(P, dim, prior=True)
        for o in B.run('potential', B.pt):
            if o.kind != 'return':
                R.undet('potential', what, 'may raise %s' % show(o.value)[:60])
                continue
            mine = [v for v, p, c in B.priors if p is B.pt]
            if not mine:
                R.verdict(False if not B.priors else None, 'potential', what, '', 'the potential is %s, not computed from the prior of the point' % show(o.value)[:80])
                continue
            bad = None
            try:
                for k, pv in itertools.product(range(4), (0.0, -3.25, 2.5, -INFY)):
                    b = B.bounds(k)
                    for combo in itertools.product(*[states(b[B.lo[i]], b[B.hi[i]]) for i in range(dim)]):
                        bind = dict(b)
                        bind.update({v: pv for v in mine})
                        bind.update(zip(B.x, [c[0] for c in combo]))
                        m = Model(k, bind=bind)
                        if not all(m.truth(m.ev(f)) for f in o.facts):
                            continue
                        got = INFY if o.value is NONE else m.num(m.ev(o.value))
                        if o.value is NONE or got != -pv:
                            bad = 'for a log-prior of %g the potential is %s' % (pv, 'nothing' if o.value is NONE else got)
                            break
                    if bad:
                        break
                R.verdict(not bad, 'potential', what, 'minus the log-prior', bad)
            except Undef as u:
                R.undet('potential', what, str(u))
        R.covers(B.W.eng)
