"""C10: the likelihood and prior a point carries are those of its coordinates."""
from .common import *
from .c11 import canonical
from . import c23
from ..engine import State

EXPLANATION = ('Every point a sampler puts into its pool or chain, delivers or sends is taken with the coordinates, log-likelihood and log-prior it holds at that moment, as value numbers: the '
               'log-likelihood has to be the model function applied to exactly those coordinates, likewise the log-prior, or the three are still those of one point received earlier. Covered are the initial draw, '
               'every transition of the chain of every sampler class, every insertion into a list on the way, and for Hamiltonian jumps the trajectory integrator they call. A copy of a point, and a point rebuilt on the other side of a pipe, carry the same names, coordinates, log-likelihood and log-prior.')
S, Q = 'cpnest/sampler.py', 'cpnest/proposal.py'
MUTANTS = [
    (S, '            p.logL=self.model.log_likelihood(p)\n', '            p.logL=self.model.log_likelihood(self.model.new_point())\n'),
    (S, '                if np.isfinite(p.logP): break\n', '                if np.isfinite(p.logP): break\n            p = self.model.new_point()\n'),
    (S, '                newparam.logP = self.model.log_prior(newparam)\n\n                if newparam.logP-logp_old', '                newparam.logP = self.model.log_prior(oldparam)\n\n                if newparam.logP-logp_old'),
    (S, '                    newparam.logL = self.model.log_likelihood(newparam)\n                    if newparam.logL > logLmin:', '                    newparam.logL = self.model.log_likelihood(oldparam)\n                    if newparam.logL > logLmin:'),
    (S, '''                    newparam.logL = self.model.log_likelihood(newparam)
                    if newparam.logL > logLmin:
                        self.update_logLmax(newparam.logL)
                        oldparam = newparam.copy()
''', '''                    logL = self.model.log_likelihood(newparam)
                    if logL > logLmin:
                        self.update_logLmax(logL)
                        oldparam = newparam.copy()
'''),
    (S, '''                        logp_old = newparam.logP
                        sub_accepted+=1
''', '''                        logp_old = newparam.logP
                        oldparam.logP = logp_old + self.proposal.log_J
                        sub_accepted+=1
'''),
    (S, '''                    newparam.logP = self.model.log_prior(newparam)

                    if newparam.logP > Yp:''', '''                    logP = self.model.log_prior(newparam)

                    if logP > Yp:'''),
    (S, '''                            oldparam     = newparam.copy()
                            sub_accepted += 1
''', '''                            oldparam     = direction_vector * Xprime + oldparam
                            oldparam.logL = newparam.logL
                            sub_accepted += 1
'''),
    (S, '''                        oldparam        = newparam.copy()
                        sub_accepted   += 1
''', '''                        oldparam        = newparam.copy()
                        oldparam.logL   = max(newparam.logL, logLmin)
                        sub_accepted   += 1
'''),
    (Q, '''        q.logP  = -self.V(q)
        q.logL  = self.log_likelihood(q)
''', '''        q.logP  = self.V(q)
        q.logL  = self.log_likelihood(q)
'''),
    (Q, '''        q.logP  = -self.V(q)
        q.logL  = self.log_likelihood(q)
        return q.logL - logLmin
''', '''        q.logL  = self.log_likelihood(q)
        return q.logL - logLmin
'''),
    (Q, '''            p, q, reflected = self.evolve_trajectory_one_step_momentum(p, q, logLmin, half = False)
            trajectory.append((q.copy(),p.copy()))
            i += 1

        # evolve backward''', '''            p, q, reflected = self.evolve_trajectory_one_step_momentum(p, q, logLmin, half = False)
            p, q            = self.evolve_trajectory_one_step_position(p, q)
            trajectory.append((q.copy(),p.copy()))
            i += 1

        # evolve backward'''),
    (Q, '        self.log_likelihood = model.log_likelihood\n', '        self.log_likelihood = model.log_posterior\n'),
    (S, '''            # Put sample back in the stack, unless that sample led to zero accepted points
            self.evolution_points.append(oldparam)
''', '''            # Put sample back in the stack, unless that sample led to zero accepted points
            oldparam.logL = max(oldparam.logL, logLmin)
            self.evolution_points.append(oldparam)
'''),
    (S, '                (Nmcmc, outParam) = next(self.yield_sample(logLmin))\n', '                (Nmcmc, outParam) = next(self.yield_sample(logLmin))\n                outParam.logL = max(outParam.logL, logLmin)\n'),
]


def match(W, coords, logL, logP, also=(), inits=None):
    """(verdict, what is wrong) for the three things a point holds"""
    if is_one(coords, logL, logP):
        return True, ''
    for v in also:
        if v is not None and (coords, logL, logP) == v.fields():
            return True, ''
    out = []
    for nm, x, fn in (('log-likelihood', logL, 'LL'), ('log-prior', logP, 'LP')):
        want = [mk('call', fn, coords)]
        for v in also:
            if v is not None and coords is v.coords:
                want.append(v.logL if fn == 'LL' else v.logP)
        if coords.op == 'fld' and coords.args[1] == '$coords':
            want.append(mk('fld', coords.args[0], 'logL' if fn == 'LL' else 'logP'))
        if x in want:
            out.append((True, ''))
            continue
        if x.op == 'call' and x.args[0] == fn and inits and moved_from(coords, x.args[1], inits):
            out.append((False, 'the %s was computed before the coordinates changed' % nm))
            continue
        root = coords
        while root.op in ('store', 'storemap'):
            root = root.args[0]
        if root is not coords and x.op == 'fld' and root is mk('fld', x.args[0], '$coords'):
            out.append((False, 'the %s is that of a point whose coordinates were overwritten since' % nm))
            continue
        known = {coords: mk('sym', 'known', 0)}
        for v in also:
            for y in (v.fields() if v is not None else ()):
                known.setdefault(y, mk('sym', 'known', len(known)))
        unknown = unresolved_terms(subst(x, known))
        out.append((None if unknown and not any(y.op == 'phi' for y in (x,)) else False, 'the %s is %s, not that of the coordinates %s' % (nm, show(x)[:120], show(coords)[:120])))
    bad = [t for v, t in out if v is False]
    if bad:
        return False, '; '.join(bad)
    un = [t for v, t in out if v is None]
    return (None, '; '.join(un)) if un else (True, '')


def moved_from(c, y, inits):
    """the coordinates c are those of y after a loop that changes them"""
    seen = set()
    while c.op == 'phi' and c not in seen and inits.get(c) is not None:
        seen.add(c)
        c = inits[c]
        if c is y:
            return True
    return False


def phi_inits(trace):
    out = {}
    for e, l in events(trace, 'loop'):
        for r, init in (e.a.get('phis') or {}).items():
            out[r] = init
    return out


def is_one(coords, logL, logP):
    """still the three attributes of one point received from elsewhere"""
    return coords.op == logL.op == logP.op == 'fld' and coords.args[0] is logL.args[0] is logP.args[0] and (coords.args[1], logL.args[1], logP.args[1]) == ('$coords', 'logL', 'logP')


def check(P, R, tier):
    for ci in concrete_samplers(P):
        with R.guard('initial pool', ci.name):
            D = Reset(P, ci)
            R.covers(D.W.eng)
            n = 0
            for o in returns(D.outs):
                for e, l in events(o.trace, 'mut'):
                    for p, c, a, b in e.a['lps']:
                        n += 1
                        v, why = match(D.W, c, a, b)
                        R.verdict(v, 'initial pool', ci.name + '.reset', 'a point put into the pool carries its own likelihood and prior', 'a point put into a list carries foreign values: ' + why, e.loc)
            R.count('insertions while drawing the pool of %s' % ci.name, n)
            if not n:
                R.undet('initial pool', ci.name + '.reset', 'no insertion of a point was found', '')
        with R.guard('moves', ci.name):
            M = Move(P, ci.name)
            for W in M.parts:
                R.covers(W.eng)
            n = 0
            for t in M.transitions():
                if t is None or t.pre is None:
                    R.undet('moves', ci.name + '.yield_sample', 'the delivered point was not recognised', '')
                    continue
                n += 1
                m = canonical(t)
                back = lambda x: t.post.logP if x in m and m[x] is t.pre.logP else x
                pre = t.pre
                post = t.post
                if post.coords is pre.coords:
                    # the current point is kept: its values may be kept or recomputed
                    ok = post.logL in (pre.logL, mk('call', 'LL', pre.coords)) and (post.logP in (pre.logP, mk('call', 'LP', pre.coords)) or m.get(post.logP) is pre.logP)
                    bad = not ok
                    v = True if ok else (None if unresolved_kept(post, pre) else False)
                    why = 'a point that stays where it is changes its log-likelihood from %s to %s or its log-prior from %s to %s' % tuple(show(x)[:80] for x in (pre.logL, post.logL, pre.logP, post.logP))
                else:
                    v, why = match(t.W, post.coords, post.logL, post.logP, (pre,))
                R.verdict(v, 'moves', ci.name + '.yield_sample', 'the current point carries its own likelihood and prior', 'the current point carries foreign values: ' + why, t.where)
            for W, o in M.returns():
                inits = phi_inits(o.trace)
                for e, l in events(o.trace, 'mut'):
                    for p, c, a, b in e.a['lps']:
                        n += 1
                        v, why = match(W, c, a, b, (), inits)
                        R.verdict(v, 'insertions', ci.name + '.yield_sample', 'a point put into the pool or the chain carries its own likelihood and prior', 'a point put into the pool or the chain carries foreign values: ' + why, e.loc)
            R.count('transitions and insertions of %s' % ci.name, n)
        with R.guard('replies', ci.name):
            K = Worker(P, ci)
            R.covers(K.W.eng)
            n = 0
            for o in K.outs:
                for e, l in events(o.trace, 'lpset'):
                    R.verdict(False if e.a['obj'] in K.points and e.a['field'] in ('logL', 'logP', '$coords') else True, 'replies', ci.name + '.produce_sample',
                              'a delivered point is not changed before it is sent', 'the %s of a delivered point is changed before it is sent' % e.a['field'], e.loc)
                for e, l in events(o.trace, 'send'):
                    n += 1
            R.ok('replies', ci.name + '.produce_sample', 'delivered points are sent as they are (%d sends)' % n, '')
    with R.guard('Hamiltonian jumps', 'HamiltonianProposalCycle'):
        hamiltonian(P, R)
    with R.guard('copies', 'LivePoint'):
        # what a copy and a point that travels between processes carry
        c23.copying(P, R, P.cls('parameter.LivePoint'))
        c23.pickling(P, R, P.cls('parameter.LivePoint'))


def unresolved_kept(post, pre):
    known = {x: mk('sym', 'known', i) for i, x in enumerate(pre.fields())}
    return any(unresolved(subst(x, known)) for x in (post.logL, post.logP))


def hamiltonian(P, R):
    W = World(P)
    eng = W.eng
    m = W.param('model')
    eng.settype(m, 'usermodel')
    made = eng.instantiate(State(), P.cls('proposal.HamiltonianProposalCycle'), [m], {}, None)
    jumps = []
    for st, cyc in made:
        c = eng.seqcontent(st, eng.getfield(st, cyc, 'proposals'))
        for x in (c.args if c.op == 'list' else ()):
            jumps.append((st, x))
    if not jumps:
        R.undet('Hamiltonian jumps', 'HamiltonianProposalCycle', 'the jumps of the cycle were not resolved', '')
        return
    for st, x in jumps:
        ci = eng.classinfo(x)
        W2 = World(P)
        e2 = W2.eng
        e2.settype(m, 'usermodel')
        me = W2.instance(ci)
        st2 = State()
        for (o, f), v in list(st.heap.items()):
            if o is x and isinstance(v, Term) and any(y is m for y in subterms(v)):
                st2.heap[(me, f)] = v
        q, lim = W2.param('start', LP), W2.param('logLmin')
        outs = W2.run(ci, 'get_sample', me, (q, lim), st=st2)
        R.covers(e2)
        G = ci.name + '.get_sample'
        lists = set()
        n = 0
        for o in returns(outs):
            inits = phi_inits(o.trace)
            for e, l in events(o.trace, 'mut'):
                for p, c, a, b in e.a['lps']:
                    n += 1
                    v, why = match(W2, c, a, b, (), inits)
                    R.verdict(v, 'Hamiltonian jumps', G, 'a trajectory point carries its own likelihood and prior', 'a trajectory point carries foreign values: ' + why, e.loc)
            if e2.is_lp(o.value):
                n += 1
                g = e2.getfield
                v, why = match(W2, e2.val(o.state, g(o.state, o.value, '$coords')), g(o.state, o.value, 'logL'), g(o.state, o.value, 'logP'))
                R.verdict(v, 'Hamiltonian jumps', G, 'the proposed point carries its own likelihood and prior', 'the proposed point carries foreign values: ' + why, '')
        R.count('trajectory points of %s' % ci.name, n)
        if not n:
            R.undet('Hamiltonian jumps', G, 'no trajectory point was found', '')
