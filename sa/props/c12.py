"""C12: ensemble jumps are reversible or report their Jacobian."""
import ast
import itertools
import math
import random
from .common import *
from ..engine import State

EXPLANATION = ('For every jump of the default Metropolis cycle the new coordinates are extracted as a term over the old coordinates, the ensemble and the random draws. A jump new = f(old, draws) must be undone by an equally likely '
               'choice of draws: some measure-preserving exchange t of its draws (normal draws negated, uniform draws reflected, members of one sample permuted, equally distributed indices swapped) gives f(f(old, w), t(w)) = old, '
               'and the log-Jacobian it reports must be the logarithm of the factor by which f scales volumes. Both are decided on the extracted terms. Every cycle must report the log-Jacobian of the jump whose result it returns, read after that jump.')
F = 'cpnest/proposal.py'
MUTANTS = [
    (F, 'subset = sample(list(self.ensemble),self.Npoints)\n        center_of_mass = reduce(type(old).__add__,subset)/float(self.Npoints)', 'subset = sample(list(self.ensemble),self.Npoints)\n        center_of_mass = reduce(type(old).__add__,subset+[old])/float(self.Npoints+1)'),
    (F, 'jumpsize = sqrt(fabs(self.eigen_values[i]))*gauss(0,1)', 'jumpsize = sqrt(fabs(self.eigen_values[i]))*gauss(0.1,1)'),
    (F, 'out += (x - center_of_mass)*gauss(0,1)', 'out += (x - center_of_mass)*abs(gauss(0,1))'),
    (F, 'out += (x - center_of_mass)*gauss(0,1)', 'out += (x - old)*gauss(0,1)'),
    (F, 'out += (x - center_of_mass)*gauss(0,1)', 'out = x + (out - x)*gauss(0,1)'),
    (F, 'x = uniform(-1,1)*log(scale)', 'x = uniform(0,1)*log(scale)'),
    (F, 'x = uniform(-1,1)*log(scale)', 'x = log(uniform(1.0/scale,scale))'),
    (F, 'self.log_J = out.dimension * x', 'self.log_J = x'),
    (F, 'self.log_J = out.dimension * x', 'self.log_J = -out.dimension * x'),
    (F, 'self.log_J = out.dimension * x', 'self.log_J = (out.dimension-1) * x'),
    (F, 'self.log_J = out.dimension * x', 'if x > 0: self.log_J = out.dimension * x'),
    (F, 'self.log_J = out.dimension * x\n', 'pass\n'),
    (F, 'out = a + (old - a)*Z', 'out = old + (old - a)*Z'),
    (F, 'out = a + (old - a)*Z', 'out = a + (old - a)*sqrt(Z)'),
    (F, 'a,b = sample(list(self.ensemble),2)', 'a,b = sorted(sample(list(self.ensemble),2), key=lambda p: p.logL)'),
    (F, 'a,b = sample(list(self.ensemble),2)', 'a,b = self.ensemble[0],random.choice(self.ensemble)'),
    (F, 'out = old + (b-a)*gauss(1.0,sigma)', 'out = a + (b-old)*gauss(1.0,sigma)'),
    (F, 'jumpsize = sqrt(fabs(self.eigen_values[i]))*gauss(0,1)', 'jumpsize = sqrt(fabs(self.eigen_values[i]))*uniform(0,1)'),
    (F, 'jumpsize = sqrt(fabs(self.eigen_values[i]))*gauss(0,1)', 'jumpsize = gauss(0,1)*old[old.names[i]]'),
    (F, 'out[n]+=jumpsize*self.eigen_vectors[k,i]', 'out[n]=(1.0+jumpsize)*out[n]'),
    (F, '        new = p.get_sample(old,**kwargs)\n        self.log_J = p.log_J\n', '        self.log_J = p.log_J\n        new = p.get_sample(old,**kwargs)\n'),
    (F, '        new = p.get_sample(old,**kwargs)\n        self.log_J = p.log_J\n', '        new = p.get_sample(old,**kwargs)\n        self.log_J += p.log_J\n'),
    (F, '        new = p.get_sample(old,**kwargs)\n        self.log_J = p.log_J\n', '        new = p.get_sample(old,**kwargs)\n        self.log_J = self.cycle[self.idx-1].log_J\n'),
    (F, '        new = p.get_sample(old,**kwargs)\n        self.log_J = p.log_J\n', '        new = p.get_sample(old,**kwargs)\n'),
    (F, '        new = p.get_sample(old,**kwargs)\n        self.log_J = p.log_J\n', '        new = p.get_sample(old,**kwargs)\n        if p.log_J: self.log_J = p.log_J\n'),
]
D = 2


def default_jumps(P):
    """classes of the jumps in the default cycle"""
    W = World(P)
    out = []
    for st, o in W.eng.instantiate(State(), P.cls('proposal.DefaultProposalCycle'), [], {}, None):
        for loc, v in st.heap.items():
            for x in subterms(v):
                if x.op == 'ref':
                    ci = W.eng.classinfo(x)
                    if ci is not None and 'Proposal' in [c.name for c in ci.mro() if not isinstance(c, str)] and 'ProposalCycle' not in [c.name for c in ci.mro() if not isinstance(c, str)] and ci not in out:
                        out.append(ci)
    return out


def stores(ci, name):
    """methods of the class that assign the attribute, the constructor apart"""
    out = []
    for c in ci.mro():
        if isinstance(c, str):
            continue
        for m, fi in c.methods.items():
            if m == '__init__':
                continue
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                    out.append(fi)
    return out


def constants(P, W, ci):
    """number-like attributes the constructor leaves and nothing else changes"""
    st0 = State()
    try:
        sts = W.eng.instantiate(State(), ci, [], {}, None)
    except Exception:
        return {}
    vals = {}
    for st, o in sts:
        for (obj, name), v in st.heap.items():
            if obj is o and isinstance(name, str) and not name.startswith('$') and v.op in ('num', 'str', 'bool', 'poly') and not stores(ci, name):
                vals.setdefault(name, set()).add(v)
    return {k: list(v)[0] for k, v in vals.items() if len(v) == 1}


class Jump(object):
    def __init__(self, P, ci):
        self.P, self.ci = P, ci
        self.W = W = World(P)
        self.me = W.instance(ci)
        self.old = W.param('old', LP)
        W.eng.setelem(mk('fld', self.me, 'ensemble'), LP)
        st = State()
        for k, v in constants(P, W, ci).items():
            st.heap[(self.me, k)] = v
        self.fi = P.method(ci, 'get_sample')
        self.outs = [o for o in W.run(ci, 'get_sample', self.me, [self.old], st=st) if o.kind == 'return']
        self.paths = []
        for o in self.outs:
            c = W.eng.val(o.state, W.eng.getfield(o.state, o.value, '$coords')) if W.eng.is_lp(o.value) else None
            self.paths.append((o.facts, c, self.logJ(o.state)))

    def logJ(self, st):
        k = (self.me, 'log_J')
        if k in st.heap:
            return self.W.eng.val(st, st.heap[k])
        if stores(self.ci, 'log_J'):
            return mk('sym', 'previous_log_J', 0)
        got = self.ci.find('log_J')
        if got and got[0] == 'attr':
            try:
                return num(ast.literal_eval(got[1][1]))
            except Exception:
                return None
        return None

    def terms(self):
        out = []
        for f, c, j in self.paths:
            out += list(f) + [c, j]
        return [t for t in out if t is not None]

    def groups(self):
        """independent groups of draws and the exchanges allowed for each: list of (terms, values(model rng), [permuters])"""
        draws = []
        for t in self.terms():
            for x in subterms(t):
                if x.op in ('draw', 'draws', 'choices', 'perm') and x not in draws:
                    draws.append(x)
        return draws


def member(i):
    from ..randeval import Obj
    return Obj(('member', i))


class Setting(object):
    """one random model of a jump: the values of all leaves but the draws and the old coordinates"""

    def __init__(self, J, seed):
        self.J, self.seed = J, seed

    def leaf(self, m, t):
        from ..randeval import Obj
        env = m.env
        if t.op == 'fld':
            if t.args[1] == 'ensemble':
                return [member(i) for i in range(6)]
            if t.args[1] == '$coords':
                k = m.key(m.ev(t.args[0], env))
                return [hv(self.seed, 'coord', k, i) for i in range(D)]
            if t.args[1] == 'dimension':
                return D
            if t.args[1] == 'names':
                return [Obj(('name', i)) for i in range(D)]
            if t.args[1] == 'eigen_vectors':
                return [[hv(self.seed, 'vec', i, j) for j in range(D)] for i in range(D)]
            if t.args[1] == 'eigen_values':
                return [0.3 + abs(hv(self.seed, 'val', i)) for i in range(D)]
            if t.args[1] in ('covariance', 'mass_matrix', 'inverse_mass_matrix'):
                return [[hv(self.seed, t.args[1], min(i, j), max(i, j)) for j in range(D)] for i in range(D)]
        if t.op == 'idx' and t.args[1].op == 'tuple':
            c = m.ev(t.args[0], env)
            if isinstance(c, list):
                for i in t.args[1].args:
                    if i.op == 'sliceobj':
                        return None
                    c = c[int(m.num(m.ev(i, env)))]
                return c
        if t.op == 'col':
            c = m.ev(t.args[0], env)
            if isinstance(c, list):
                i = int(m.num(m.ev(t.args[1], env)))
                return [r[i] for r in c]
        return None

    def apply(self, old, w):
        """-> (new coordinates, log_J) or Undef"""
        from ..randeval import Undef
        J = self.J
        m = Model(self.seed, leaf=self.leaf, bind=dict(w), default_len=D)
        m.bind[mk('fld', J.old, '$coords')] = list(old)
        for facts, c, j in J.paths:
            if all(m.truth(m.ev(f)) for f in facts):
                if c is None or j is None:
                    raise Undef('no coordinates')
                v = m.ev(c)
                if not isinstance(v, list) or len(v) != D:
                    raise Undef('coordinates')
                return [m.num(x) for x in v], m.num(m.ev(j))
        raise Undef('no path')

    def draws(self, rnd):
        """random values of the draws; groups of exchangeable ones with their alternatives"""
        from ..randeval import Undef
        w, alts = {}, []
        samples, ints = {}, {}
        m = Model(self.seed, leaf=self.leaf, bind=w, default_len=D)
        for t in self.J.groups():
            if t.op == 'draw' and t.args[0] == 'n01':
                x = rnd.uniform(-1.5, 1.5)
                w[t] = x
                alts.append([{t: x}, {t: -x}])
            elif t.op == 'draw' and t.args[0] == 'u01':
                x = rnd.uniform(0.02, 0.98)
                w[t] = x
                alts.append([{t: x}, {t: 1.0 - x}])
            elif t.op == 'draws' and t.args[0] in ('n01', 'u01'):
                n = int(m.num(m.ev(t.args[1])))
                if n > 8:
                    raise Undef('draws')
                x = [rnd.uniform(0.02, 0.98) if t.args[0] == 'u01' else rnd.uniform(-1.5, 1.5) for _ in range(n)]
                w[t] = x
                alts.append([{t: x}, {t: [(1.0 - y if t.args[0] == 'u01' else -y) for y in x]}])
            elif t.op == 'draw' and t.args[0] == 'sample':
                samples.setdefault((t.args[1], t.args[4]), {})[int(numval(t.args[3]))] = t
            elif t.op == 'draw' and t.args[0] == 'int':
                ints.setdefault((t.args[1], t.args[2]), []).append(t)
            else:
                raise Undef('draw %s' % t.args[0])
        for (c, u), ts in samples.items():
            pop = m.S(c, None)
            k = int(numval(list(ts.values())[0].args[2]))
            pick = rnd.sample(pop, k)
            for j, t in ts.items():
                w[t] = pick[j]
            alts.append([{t: p[j] for j, t in ts.items()} for p in itertools.permutations(pick)])
        for (lo, hi), ts in ints.items():
            a, b = int(m.num(m.ev(lo))), int(m.num(m.ev(hi)))
            pick = [rnd.randrange(a, b) for _ in ts]
            for t, x in zip(ts, pick):
                w[t] = x
            opts = [dict(zip(ts, p)) for p in itertools.permutations(pick)]
            alts.append(opts)
        return w, alts


def hv(*k):
    from ..randeval import hval
    return 4 * hval(*k) - 2


def close(a, b, tol=1e-7):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def logdet(S, old, w):
    h = 1e-4
    A = []
    for j in range(D):
        up, dn = list(old), list(old)
        up[j] += h
        dn[j] -= h
        A.append([(x - y) / (2 * h) for x, y in zip(S.apply(up, w)[0], S.apply(dn, w)[0])])
    d = A[0][0] * A[1][1] - A[0][1] * A[1][0]
    return math.log(abs(d)) if d else -math.inf


def decide(J):
    """-> (reversible, why, jacobian ok, why): three-valued"""
    from ..randeval import Undef
    survivors = None
    jac, jwhy = True, ''
    try:
        for seed in range(6):
            rnd = random.Random(seed)
            S = Setting(J, seed)
            old = [hv(seed, 'old', i) for i in range(D)]
            w, alts = S.draws(rnd)
            total = 1
            for a in alts:
                total *= len(a)
            if total > 4000:
                return None, 'too many exchanges of draws', None, ''
            combos = list(itertools.product(*[range(len(a)) for a in alts]))
            if survivors is None:
                survivors = combos
            new, lj = S.apply(old, w)
            d = logdet(S, old, w)
            if not close(lj, d, 1e-5):
                jac, jwhy = False, 'it reports the log-Jacobian %s where the jump scales volumes by exp(%.4g), not exp(%.4g)' % (show(J.paths[0][2])[:100], d, lj)
            keep = []
            for c in survivors:
                w2 = dict(w)
                for a, i in zip(alts, c):
                    w2.update(a[i])
                back, _ = S.apply(new, w2)
                if all(close(x, y) for x, y in zip(back, old)):
                    keep.append(c)
            survivors = keep
            if not survivors:
                break
    except (Undef, ValueError, IndexError, KeyError, TypeError, ZeroDivisionError, OverflowError) as e:
        return None, 'not evaluated: %s' % e, None, 'not evaluated: %s' % e
    if not survivors:
        return False, 'no equally likely choice of its draws leads back from the new point to the old one', jac, jwhy
    return True, '', jac, jwhy


def check(P, R, tier):
    with R.guard('jumps', 'DefaultProposalCycle'):
        cls = default_jumps(P)
        R.count('jumps of the default cycle', len(cls))
        R.verdict(True if cls else None, 'jumps', 'DefaultProposalCycle', '%d jumps' % len(cls), 'the jumps of the default cycle were not found', '')
        for ci in cls:
            jump(P, R, ci)
    for ci in P.subclasses(P.cls('proposal.ProposalCycle')):
        for m in ('get_sample', 'get_direction'):
            if ci.find(m):
                cycle(P, R, ci, m)


def jump(P, R, ci):
    G = ci.name + '.get_sample'
    with R.guard('reversible', G):
        J = Jump(P, ci)
        R.covers(J.W.eng)
        where = '%s:%d' % (J.fi.module.relpath, J.fi.node.lineno)
        R.count('paths of ' + G, len(J.outs))
        if not J.outs:
            return R.undet('reversible', G, 'no path returns', where)
        unk = [u for t in J.terms() for u in unresolved_terms(t) if not (u.op == 'sym' and u.args[0] in ('previous_log_J', 'old'))]
        rev, why, jac, jwhy = decide(J)
        if unk:
            rev, jac = rev if rev is True else None, jac if jac is True else None
            why = jwhy = 'not resolved: %s' % show(unk[0])[:120]
        R.verdict(rev, 'reversible', G, 'an equally likely choice of draws leads back', why, where)
        if any(j is not None and any(x.op == 'sym' and x.args[0] == 'previous_log_J' for x in subterms(j)) for f, c, j in J.paths) and not unk:
            return R.violation('jacobian', G, 'on one path the log-Jacobian of an earlier jump is left in place', where)
        R.verdict(jac, 'jacobian', G, 'the reported log-Jacobian is that of the jump', jwhy, where)


def cycle(P, R, ci, m):
    G = '%s.%s' % (ci.name, m)
    with R.guard('cycle', G):
        W = World(P)
        me = W.instance(ci)
        arg = W.param('old', LP if m == 'get_sample' else 'number')
        outs = [o for o in W.run(ci, m, me, [arg]) if o.kind == 'return']
        R.covers(W.eng)
        fi = P.method(ci, m)
        where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
        if not outs:
            return R.undet('cycle', G, 'no path returns', where)
        for o in outs:
            evs = [e for e, l in events(o.trace, 'proposed', 'proposal_get_direction')]
            jw = W.eng.val(o.state, W.eng.getfield(o.state, me, 'log_J'))
            res = o.value
            jumps = {e.a['result']: e for e in evs if e.kind == 'proposed'}
            chain = []
            x = res
            while x in jumps and jumps[x] not in chain:
                chain.append(jumps[x])
                x = jumps[x].a['arg']
            if m == 'get_direction':
                want = mk('logJ', res) if evs else None
            else:
                want = add(*[mk('logJ', e.a['result']) for e in chain]) if len(chain) > 1 else mk('logJ', res) if chain else None
            if want is None:
                v, why = None, 'the result %s is not that of a jump' % show(res)[:80]
            elif jw is want:
                v, why = True, ''
            elif jw.op == 'num' or any(y.op == 'logJ' and y not in subterms(want) for y in subterms(jw)) or any(y.op == 'fld' and y.args[1] == 'log_J' for y in subterms(jw)):
                v, why = False, 'it reports %s, not the log-Jacobian of the jump it made' % (show(jw)[:100] if contains(jw, want) or jw.op in ('num', 'poly') else 'a log-Jacobian that does not belong to this jump (%s)' % show(jw)[:60])
            else:
                c = cmp(jw, want)
                v, why = c, 'it reports %s' % show(jw)[:100]
            R.verdict(v, 'cycle', G, 'the log-Jacobian of the jump it used is reported', why, where)
