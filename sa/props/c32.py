"""C32: ensemble statistics follow the current ensemble in every jump."""
import ast
from .common import *
from ..engine import State
from .c13 import hmcfield

EXPLANATION = ('set_ensemble of every jump class is analysed on all paths with a symbolic new ensemble; the attributes derived from the ensemble are found by dataflow over all methods of the class. After set_ensemble each of them '
               'must hold a value computed from the new ensemble only, never from the previous one or from a statistic of the previous one. set_ensemble of every built-in cycle must leave the new ensemble in each of its ensemble jumps. '
               'In the reset of each sampler the ensemble is set, to the pool, after the pool was drawn and before the first move, and while it works a sampler sets no other ensemble.')
F, S = 'cpnest/proposal.py', 'cpnest/sampler.py'
MUTANTS = [
    (F, '            if isinstance(p,EnsembleProposal):\n                p.set_ensemble(self.ensemble)\n', '            if isinstance(p,EnsembleProposal):\n                p.ensemble = self.ensemble\n'),
    (F, '            if isinstance(p,EnsembleProposal):\n                p.set_ensemble(self.ensemble)\n', '            if type(p) is EnsembleProposal:\n                p.set_ensemble(self.ensemble)\n'),
    (F, '        for p in self.proposals:\n            if isinstance(p,EnsembleProposal):', '        for p in self.proposals[1:]:\n            if isinstance(p,EnsembleProposal):'),
    (F, '        for p in self.proposals:\n            if isinstance(p,EnsembleProposal):', '        for p in self.proposals:\n            if isinstance(p,EnsembleProposal) and p.ensemble is None:'),
    (F, '        self.ensemble=ensemble\n        for p in self.proposals:\n            if isinstance(p,EnsembleProposal):\n                p.set_ensemble(self.ensemble)\n', '        for p in self.proposals:\n            if isinstance(p,EnsembleProposal):\n                p.set_ensemble(self.ensemble)\n        self.ensemble=ensemble\n'),
    (F, '        super(EnsembleSliceCorrelatedGaussian,self).set_ensemble(ensemble)\n        self.update_mean_covariance()\n', '        self.update_mean_covariance()\n        super(EnsembleSliceCorrelatedGaussian,self).set_ensemble(ensemble)\n'),
    (F, '        super(EnsembleSliceCorrelatedGaussian,self).set_ensemble(ensemble)\n        self.update_mean_covariance()\n', '        super(EnsembleSliceCorrelatedGaussian,self).set_ensemble(ensemble)\n        if self.mean is None: self.update_mean_covariance()\n'),
    (F, '        super(EnsembleEigenVector,self).set_ensemble(ensemble)\n        self.update_eigenvectors()\n', '        super(EnsembleEigenVector,self).set_ensemble(ensemble)\n'),
    (F, '        super(EnsembleEigenVector,self).set_ensemble(ensemble)\n        self.update_eigenvectors()\n', '        changed = self.ensemble is not ensemble\n        super(EnsembleEigenVector,self).set_ensemble(ensemble)\n        if changed: self.update_eigenvectors()\n'),
    (F, '            self.eigen_values,self.eigen_vectors = np.linalg.eigh(self.covariance)\n', '            if self.eigen_values is None: self.eigen_values,self.eigen_vectors = np.linalg.eigh(self.covariance)\n'),
    (F, '            self.covariance = np.cov(cov_array)\n            self.eigen_values,self.eigen_vectors = np.linalg.eigh(self.covariance)\n', '            self.eigen_values,self.eigen_vectors = np.linalg.eigh(self.covariance if self.covariance is not None else np.cov(cov_array))\n            self.covariance = np.cov(cov_array)\n'),
    (F, '            self.covariance = self.eigen_values\n', ''),
    (F, '            self.covariance = np.cov(cov_array)\n            self.mean       = np.mean(cov_array,axis=1)', '            self.covariance = np.cov(cov_array)'),
    (F, '        self.update_mass()\n        self.update_normal_vector()\n        self.update_momenta_distribution()\n', '        self.update_momenta_distribution()\n        self.update_mass()\n        self.update_normal_vector()\n'),
    (F, '        self.update_mass()\n        self.update_normal_vector()\n        self.update_momenta_distribution()\n', '        self.update_mass()\n        self.update_momenta_distribution()\n'),
    (F, '        self.update_mass()\n        self.update_normal_vector()\n        self.update_momenta_distribution()\n', '        self.update_mass()\n        self.update_normal_vector()\n'),
    (F, '        super(HamiltonianProposal,self).set_ensemble(ensemble)\n        self.update_mass()', '        self.update_mass()\n        super(HamiltonianProposal,self).set_ensemble(ensemble)'),
    (F, '        self.inverse_mass_matrix    = np.atleast_2d(self.covariance)\n        self.mass_matrix            = np.linalg.inv(self.inverse_mass_matrix)\n', '        self.mass_matrix            = np.linalg.inv(self.inverse_mass_matrix)\n        self.inverse_mass_matrix    = np.atleast_2d(self.covariance)\n'),
    (F, '        self.normal = []\n        for i,x', '        if self.normal is None: self.normal = []\n        for i,x'),
    (F, "        self.momenta_distribution = multivariate_normal(cov=self.mass_matrix)", "        if self.momenta_distribution is None: self.momenta_distribution = multivariate_normal(cov=self.mass_matrix)"),
    (S, '        self.proposal.set_ensemble(self.evolution_points)\n        # initialise', '        # initialise'),
    (S, '            self.evolution_points.append(p)\n\n        self.proposal.set_ensemble(self.evolution_points)\n', '            self.evolution_points.append(p)\n            if n == 3: self.proposal.set_ensemble(self.evolution_points)\n'),
    (S, '                self.proposal.set_ensemble(self.evolution_points)\n                self.estimate_nmcmc()', '                self.proposal.set_ensemble(self.samples)\n                self.estimate_nmcmc()'),
    (S, '        self.proposal.set_ensemble(self.evolution_points)\n        # initialise', '        self.proposal.ensemble = self.evolution_points\n        # initialise'),
]
CUT = ('dimension', 'names', 'shape', 'size', 'ndim')


class Deps(object):
    """what a value of an outcome depends on: 'new' and the names of attributes of me that it reads"""

    def __init__(self, W, o, me, new):
        self.W, self.o, self.me, self.new = W, o, me, new
        self.info = {}
        for e, l in events(o.trace, 'loop'):
            for p, init in (e.a.get('phis') or {}).items():
                self.info.setdefault(p, []).extend([init] + [q.sigma.get(p) for q in e.a['paths']])

    def of(self, t):
        out, seen = set(), set()
        stack = [t]
        while stack:
            x = stack.pop()
            if not is_term(x) or x in seen:
                continue
            seen.add(x)
            if x is self.new:
                out.add('new')
            if x.op == 'len' or (x.op == 'fld' and x.args[1] in CUT):
                continue
            if x.op == 'fld' and x.args[0] is self.me:
                out.add(x.args[1])
                continue
            if x.op == 'phi':
                stack += [y for y in self.info.get(x, ()) if y is not None]
                lp = self.W.eng.loopinfo.get(x)
                if is_term(lp):
                    stack.append(lp)
            if x.op == 'ref':
                for (ob, nm), v in self.o.state.heap.items():
                    if ob is x and is_term(v):
                        stack.append(v)
            stack += [y for y in x.args if is_term(y)]
            for y in x.args:
                if isinstance(y, tuple):
                    stack += [z for z in y if is_term(z)]
        return out


def world(P, ci):
    W = World(P, hooks={'hmcfield': hmcfield, 'purecalls': True})
    me = W.instance(ci)
    W.eng.setelem(mk('fld', me, 'ensemble'), LP)
    return W, me


def written(o, me):
    """attributes of me that may hold a new value at the end of a path"""
    out = {}
    for (ob, nm), v in o.state.heap.items():
        if ob is me and isinstance(nm, str) and not nm.startswith('$') and v is not mk('fld', me, nm):
            out[nm] = v
    return out


def noargs(fi):
    a = fi.node.args
    return len(a.args) - len(a.defaults) <= 1 and not fi.is_class


def derived(P, R, ci):
    """attributes whose value is computed from the ensemble"""
    names = set()
    meths = {}
    for c in ci.mro():
        if not isinstance(c, str):
            for m, fi in c.methods.items():
                meths.setdefault(m, fi)
    runs = []
    for m, fi in meths.items():
        if m in ('set_ensemble', '__init__', 'get_sample', 'get_direction', '__getstate__', '__setstate__') or not noargs(fi):
            continue
        if not any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) for n in ast.walk(fi.node)):
            continue
        W, me = world(P, ci)
        try:
            for o in W.run(ci, m, me, []):
                if o.kind == 'return':
                    D = Deps(W, o, me, None)
                    runs.append({nm: D.of(v) - {nm} for nm, v in written(o, me).items()})
        except Exception as e:
            R.notes.append('derived attributes: %s.%s not analysed: %r' % (ci.name, m, e))
    W, me = world(P, ci)
    new = W.param('new_ensemble', 'list')
    W.eng.setelem(new, LP)
    outs = [o for o in W.run(ci, 'set_ensemble', me, [new]) if o.kind == 'return']
    R.covers(W.eng)
    for o in outs:
        D = Deps(W, o, me, new)
        runs.append({nm: D.of(v) for nm, v in written(o, me).items()})
    changed = True
    while changed:
        changed = False
        for r in runs:
            for nm, ds in r.items():
                if nm not in names and nm != 'ensemble' and ds & (names | {'new', 'ensemble'}):
                    names.add(nm)
                    changed = True
    return names, W, me, new, outs


def lazily(P, ci, name):
    """is the attribute recomputed where it is used (in code a jump reaches)?"""
    meths = {}
    for c in ci.mro():
        if not isinstance(c, str):
            for m, fi in list(c.methods.items()) + list(c.getters.items()):
                meths.setdefault(m, fi)
    work, seen = ['get_sample', 'get_direction'], set()
    while work:
        m = work.pop()
        if m in seen or m not in meths:
            continue
        seen.add(m)
        for n in ast.walk(meths[m].node):
            if isinstance(n, ast.Attribute):
                if n.attr == name and isinstance(n.ctx, ast.Store):
                    return True
                work.append(n.attr)
    return False


def jump(P, R, ci):
    G = ci.name + '.set_ensemble'
    with R.guard('statistics', G):
        names, W, me, new, outs = derived(P, R, ci)
        fi = P.method(ci, 'set_ensemble')
        where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
        R.count('derived attributes of ' + ci.name, len(names))
        if not outs:
            return R.undet('statistics', G, 'no path returns', where)
        for o in outs:
            wr = written(o, me)
            D = Deps(W, o, me, new)
            v = wr.get('ensemble')
            R.verdict(v is new or None if v is not None and v is not new else v is new, 'ensemble', G, 'the new ensemble is kept', 'the ensemble is not replaced by the new one', where)
            for nm in sorted(names):
                if nm not in wr:
                    R.verdict(None if lazily(P, ci, nm) else False, 'statistics', G, '', 'self.%s, computed from the ensemble, is not recomputed when a new ensemble is set' % nm, where)
                    continue
                ds = D.of(wr[nm])
                stale = sorted((ds & (names | {'ensemble'})))
                if stale and nm in stale and 'new' not in ds and len(stale) == 1:
                    v, why = False, 'self.%s keeps its value of the previous ensemble' % nm
                elif stale:
                    v, why = False, 'self.%s is computed from self.%s of the previous ensemble' % (nm, stale[0])
                    if nm == stale[0]:
                        why = 'self.%s is not computed from the new ensemble alone, it keeps or uses its previous value' % nm
                else:
                    v, why = True, ''
                if v is False and lazily(P, ci, nm):
                    v = None
                R.verdict(v, 'statistics', G, 'self.%s is computed from the new ensemble' % nm, why, where)


def subclasses_of(P, name):
    return [c for c in P.subclasses(P.cls(name))]


def iscycle(ci):
    return 'ProposalCycle' in [c.name for c in ci.mro() if not isinstance(c, str)]


def cycle(P, R, ci):
    G = ci.name + '.set_ensemble'
    with R.guard('cycle', G):
        fi = P.method(ci, 'set_ensemble')
        where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
        init = P.method(ci, '__init__')
        need = [a.arg for a in init.node.args.args[1:]]
        if ci.name == 'ProposalCycle':
            return generic(P, R, ci, where)
        W = World(P, hooks={'hmcfield': hmcfield, 'purecalls': True})
        args = [W.param(a, 'usermodel' if a == 'model' else None) for a in need]
        new, first = W.param('new_ensemble', 'list'), W.param('first_ensemble', 'list')
        W.eng.setelem(new, LP)
        W.eng.setelem(first, LP)
        base = P.cls('proposal.EnsembleProposal')
        n = 0
        for st, me in W.eng.instantiate(State(), ci, args, {}, None):
            members = []
            for (ob, nm), v in list(st.heap.items()):
                if ob is me or ob.op == 'ref' and W.eng.typ(ob) == 'list':
                    for x in subterms(W.eng.val(st, v)):
                        c2 = W.eng.classinfo(x) if x.op == 'ref' else None
                        if c2 is not None and x is not me and base in c2.mro() and x not in members:
                            members.append(x)
            for o0 in W.run(ci, 'set_ensemble', me, [first], st=st):
                if o0.kind != 'return':
                    continue
                for o in W.run(ci, 'set_ensemble', me, [new], st=o0.state):
                    if o.kind == 'return':
                        n += inside(P, R, G, W, o, me, members, new, first, where)
        R.covers(W.eng)
        R.count('jumps of ' + ci.name, n)
        if not n:
            R.undet('cycle', G, 'the jumps of the cycle were not found', where)


def inside(P, R, G, W, o, me, members, new, first, where):
    loops = [e for e, l in events(o.trace, 'proposal_set_ensemble', 'extmethod') if e.kind != 'extmethod' or e.a.get('name') == 'set_ensemble']
    D = Deps(W, o, me, first)
    for x in members:
        v = o.state.heap.get((x, 'ensemble'))
        c2 = W.eng.classinfo(x)
        ok = True if v is new else None if loops else False
        R.verdict(ok, 'cycle', G, '%s gets the new ensemble' % c2.name, 'the ensemble jump %s of the cycle %s' % (c2.name, 'does not get the ensemble' if v is None else 'keeps the previous ensemble' if v is first else 'gets %s' % show(v)[:60]), where)
        if v is new:
            for nm in sorted(STATS.get(c2.qual, ())):
                if (x, nm) not in o.state.heap or o.state.heap[(x, nm)] is NONE or 'new' in D.of(o.state.heap[(x, nm)]):
                    R.violation('cycle', G, 'the ensemble jump %s gets the new ensemble, but its %s is not recomputed' % (c2.name, nm), where)
    return len(members)


def generic(P, R, ci, where):
    G = ci.name + '.set_ensemble'
    W = World(P, hooks={'purecalls': True})
    me = W.instance(ci)
    new = W.param('new_ensemble', 'list')
    W.eng.setelem(new, LP)
    outs = [o for o in W.run(ci, 'set_ensemble', me, [new]) if o.kind == 'return']
    R.covers(W.eng)
    for o in outs:
        calls = 0
        for e, loops in events(o.trace, 'proposal_set_ensemble'):
            calls += 1
            a = e.a['args'][0] if e.a['args'] else None
            R.verdict(True if a is new else False if a is mk('fld', me, 'ensemble') else None, 'cycle', G, 'the jumps are given the new ensemble', 'the jumps are given %s' % ('the previous ensemble' if a is not None else 'nothing'), e.loc)
        R.verdict(True if calls else None, 'cycle', G, 'the jumps are given the ensemble', 'no jump is given the ensemble', where)


STATS = {}


def check(P, R, tier):
    STATS.clear()
    for ci in subclasses_of(P, 'proposal.EnsembleProposal'):
        if iscycle(ci) or not ci.find('set_ensemble'):
            continue
        jump(P, R, ci)
        with R.guard('statistics', ci.name):
            try:
                STATS[ci.qual] = derived(P, R, ci)[0]
            except Exception:
                pass
    for ci in subclasses_of(P, 'proposal.ProposalCycle'):
        cycle(P, R, ci)
    for ci in concrete_samplers(P):
        sampler(P, R, ci)


def issetting(e, proposal):
    return e.kind == 'proposal_set_ensemble' and e.a['obj'] is proposal


def sampler(P, R, ci):
    G = ci.name + '.reset'
    with R.guard('order', G):
        D = Reset(P, ci)
        R.covers(D.W.eng)
        fi = P.method(ci, 'reset')
        where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
        rets = returns(D.outs)
        if not rets:
            R.undet('order', G, 'no path returns', where)
        for o in rets:
            mv = first_index(o.trace, lambda e: e.kind == 'mark' and e.a['name'] == 'move')
            sets = [i for i, e in enumerate(o.trace) if has_kind(e, lambda x: issetting(x, D.proposal))]
            adds = lambda e: e.kind == 'mut' and e.obj is D.pool and (mut_op(e) or ('?',))[0] in ('app', 'ext', 'ins')
            fill = last_index(o.trace[:mv] if mv is not None else o.trace, adds)
            other = [e for e, l in walk(o.trace) if e.kind == 'proposal_set_ensemble' and e.a['obj'] is not D.proposal]
            if fill is None:
                R.undet('order', G, 'the drawing of the pool was not found', where)
                continue
            good = [i for i in sets if i > fill and (mv is None or i < mv)]
            inloop = [i for i in sets if i <= fill]
            if good:
                v, why = True, ''
            elif other:
                v, why = None, 'the ensemble of another proposal object is set'
            elif mv is None:
                v, why = None, 'no move was found'
            elif not sets:
                v, why = False, 'the ensemble of the proposal is never set'
            else:
                v, why = False, 'the first move is made before the ensemble is set to the complete pool'
            R.verdict(v, 'order', G, 'the ensemble is set after the pool was drawn and before the first move', why, o.trace[mv].loc if mv is not None else where)
            settings(R, G, D.W, o, D.proposal, D.pool, D.me)
    G = ci.name + '.produce_sample'
    with R.guard('ensemble', G):
        K = Worker(P, ci)
        R.covers(K.W.eng)
        n = 0
        for o in K.outs:
            pr = mk('fld', K.me, 'proposal')
            n += settings(R, G, K.W, o, pr, mk('fld', K.me, 'evolution_points'), K.me)
        R.verdict(True if n else None, 'ensemble', G, 'the ensemble is renewed while the sampler works', 'the ensemble is never renewed while the sampler works', '')


def settings(R, G, W, o, proposal, pool, me):
    n = 0
    for e, l in events(o.trace, 'proposal_set_ensemble'):
        if e.a['obj'] is not proposal:
            continue
        n += 1
        a = e.a['args'][0] if e.a['args'] else e.a['kwargs'].get('ensemble')
        if a is None:
            R.undet('ensemble', G, 'argument of set_ensemble', e.loc)
            continue
        ok = a is pool
        known = a.op == 'fld' and a.args[0] is me
        x = a
        while x.op in ('c0', 'list', 'cat') and x.args and is_term(x.args[0]):
            x = x.args[0]
        R.verdict(True if ok or x is pool else False if known else None, 'ensemble', G, 'the ensemble is the pool', 'the ensemble is set to %s, not to the pool' % show(a)[:80], e.loc)
    return n
