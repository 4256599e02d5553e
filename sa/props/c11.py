"""C11: a chain moves only to points that pass both acceptance tests."""
from .common import *

EXPLANATION = ('The body of yield_sample of every sampler class is analysed up to the point it delivers; the current point of the chain is followed through its loops. Every path on which the '
               'coordinates of the current point change is a move: the branch conditions of that path are evaluated for log-likelihoods below and equal to the contour and for log-priors '
               'below what the acceptance rule asks for, with the draw, the Jacobian and the current log-prior of the same step as free values. A path that admits one is reported.')
S = 'cpnest/sampler.py'
MUTANTS = [
    (S, '''                    if newparam.logL > logLmin:
                        self.update_logLmax(newparam.logL)
                        oldparam = newparam.copy()
                        logp_old = newparam.logP
''', '''                    if newparam.logL >= logLmin:
                        self.update_logLmax(newparam.logL)
                        oldparam = newparam.copy()
                        logp_old = newparam.logP
'''),
    (S, 'newparam.logP-logp_old + self.proposal.log_J > log(random())', 'newparam.logP-logp_old > log(random())'),
    (S, 'newparam.logP-logp_old + self.proposal.log_J > log(random())', 'newparam.logP-logp_old - self.proposal.log_J > log(random())'),
    (S, 'newparam.logP-logp_old + self.proposal.log_J > log(random())', 'newparam.logP-logp_old + self.proposal.log_J > log(0.5)'),
    (S, '''                        logp_old = newparam.logP
''', ''),
    (S, '''            logp_old = self.model.log_prior(oldparam)

            while True:
''', '''            logp_old = self.model.log_prior(oldparam)
            logu = log(random())

            while True:
'''.replace('logu = log(random())', 'pass')),
    (S, '''            while True:

                sub_counter += 1
                newparam = self.proposal.get_sample(oldparam.copy())
                newparam.logP = self.model.log_prior(newparam)

                if newparam.logP-logp_old + self.proposal.log_J > log(random()):''', '''            logu = log(random())
            while True:

                sub_counter += 1
                newparam = self.proposal.get_sample(oldparam.copy())
                newparam.logP = self.model.log_prior(newparam)

                if newparam.logP-logp_old + self.proposal.log_J > logu:'''),
    (S, '''                newparam = self.proposal.get_sample(oldparam.copy())
                newparam.logP = self.model.log_prior(newparam)

                if newparam.logP-logp_old + self.proposal.log_J > log(random()):''', '''                log_J = self.proposal.log_J
                newparam = self.proposal.get_sample(oldparam.copy())
                newparam.logP = self.model.log_prior(newparam)

                if newparam.logP-logp_old + log_J > log(random()):'''),
    (S, 'if self.proposal.log_J > np.log(random()):', 'if self.proposal.log_J > -np.log(random()) or sub_counter > 10:'),
    (S, '''                    if newparam.logL > logLmin:
                        self.update_logLmax(newparam.logL)
                        oldparam        = newparam.copy()
''', '''                    if newparam.logL > oldparam.logL or newparam.logL > logLmin:
                        self.update_logLmax(newparam.logL)
                        oldparam        = newparam.copy()
'''),
    (S, 'if newparam.logP > Yp:', 'if newparam.logP > -np.inf:'),
    (S, 'if newparam.logL > Y:', 'if newparam.logL >= Y:'),
    (S, 'Yp = oldparam.logP-np.random.exponential()', 'Yp = oldparam.logP+np.random.exponential()'),
    (S, 'Yp = oldparam.logP-np.random.exponential()', 'Yp = -np.random.exponential()'),
    (S, '''                if sub_counter > self.Nmcmc and sub_accepted > 0:
                    break
''', '''                if sub_counter > self.Nmcmc and sub_accepted > 0:
                    break
                if sub_accepted == 0 and sub_counter > self.maxmcmc // 2:
                    oldparam = newparam
'''),
]
MUTANTS = [m for m in MUTANTS if '            pass\n' not in m[2]]


def canonical(t):
    """the likelihood and prior of the current point under one name each, through loop-carried copies of them"""
    pre = t.pre
    m = {mk('call', 'LP', pre.coords): pre.logP, mk('call', 'LL', pre.coords): pre.logL}
    le = t.loop
    if le is not None:
        for r, init in (le.a.get('phis') or {}).items():
            if r.op != 'phi' or t.W.eng.is_lp(r) or init is None:
                continue
            for f, fn, name in ((pre.logP, 'LP', 'logP'), (pre.logL, 'LL', 'logL')):
                start = [e for e in (le.a.get('phis') or {}).items() if e[0] is pre.ident]
                i = start[0][1] if start else None
                if i is None:
                    continue
                first = (mk('call', fn, mk('fld', i, '$coords')), mk('fld', i, name))
                if init not in first:
                    continue
                ok = True
                for p in le.a['paths']:
                    nxt = p.sigma.get(r, r)
                    v = p.sigma.get(f, f)
                    c = p.sigma.get(pre.coords, pre.coords)
                    if nxt is r and c is pre.coords:
                        continue
                    if nxt is v or nxt is mk('call', fn, c):
                        continue
                    ok = False
                if ok:
                    m[r] = f
    return m


def draws_in(trace):
    return [e.a['draw'] for e, l in events(trace, 'draw') if not l]


def check(P, R, tier):
    for ci in concrete_samplers(P):
        with R.guard('moves', ci.name):
            M = Move(P, ci.name)
            for W in M.parts:
                R.covers(W.eng)
            ts = M.transitions()
            n = 0
            refusals = []
            for t in ts:
                G = '%s.yield_sample' % ci.name + ({'vec': ' (vector direction)', 'lp': ' (point direction)'}.get(t.W.mode, '') if t else '')
                if t is None or t.pre is None:
                    R.undet('chain', '%s.yield_sample' % ci.name, 'the delivered point was not recognised', '')
                    continue
                if t.post.coords is t.pre.coords:
                    R.ok('kept', G, 'the current point is kept', t.where)
                    continue
                n += 1
                move(R, ci, G, t)
                K = kind(ci)
                if K == SLICE or jump(t) is not None:
                    facts = tuple(subst(f, canonical(t)) for f in t.facts)
                    hazy = None
                    for logL, now in ((1.0, 0.3), (-4.9, 5e3)):      # a point may lose likelihood as long as it stays above the contour
                        v, pivot = prior_test(t, K, facts, (0.02, 0.1, 0.6), logL, True, now)
                        hazy = vague(facts, pivot, t) or vague(facts, mk('call', 'LL', t.post.coords), t) if hazy is None else hazy
                        refusals.append(((t.W.mode, now), {x: None if r is False and hazy else r for x, r in v.items()}))
            for mode in {m for m, v in refusals}:
                vs = [v for m, v in refusals if m == mode]
                vs = [{x: v.get(x, v.get(x[:2] + (0.0,), None)) for w in vs for x in w} for v in vs]
                # True: taken on some path; a point with enough margin that no path takes is refused
                got = [True if any(v[x] for v in vs) else None if any(v[x] is None for v in vs) else False for x in vs[0]]
                R.verdict((True if True in got else None if None in got else False) if kind(ci) == SLICE else False if False in got else None if None in got else True,
                          'admits', ci.name + '.yield_sample', 'a point that passes both tests is taken',
                          'a point that passes the acceptance test with the draw of the same step, and is above the contour, is refused on every path', '')
            R.count('moves of %s' % ci.name, n)
            if not n:
                R.undet('moves', ci.name + '.yield_sample', 'no path moves the chain', '')


def kind(ci):
    names = [c if isinstance(c, str) else c.name for c in ci.mro()]
    return HMC if HMC in names else SLICE if SLICE in names else MH


def move(R, ci, G, t):
    W = t.W
    sub_ = canonical(t)
    facts = tuple(subst(f, sub_) for f in t.facts)
    new_logL = mk('call', 'LL', t.post.coords)
    new_logP = mk('call', 'LP', t.post.coords)
    lim = W.lim
    shared = [x for f in facts for x in subterms(f) if x.op == 'sym' and x.args[0] == 'shared_logLmin']
    # -- contour
    bad, unknown = None, False
    for k in range(1, 6):
        for name, d in (('below', -0.9), ('equal to', 0.0)):
            m = Model(k, bind={lim: 0.7 * k, new_logL: 0.7 * k + d, t.pre.logL: 0.7 * k + (0.3 * (k % 3) if k < 4 else -2.0)})
            for x in shared:
                m.bind[x] = 0.7 * k
            r = satisfiable(facts, new_logL, m)
            if r is None:
                unknown = True
            elif r:
                bad = bad or name
    why = '; '.join(show(f)[:120] for f in t.facts if contains(f, new_logL)) or 'none on its log-likelihood'
    if bad and vague(facts, new_logL, t):
        bad, unknown = None, True
    R.verdict(False if bad else None if unknown else True, 'above-contour', G, 'the chain moves only strictly above the contour',
              'the chain can move to a point whose log-likelihood is %s the contour; conditions of the path: %s' % (bad or 'not above', why), t.where)
    # -- prior or Jacobian
    K = kind(ci)
    if K in (MH, HMC) and jump(t) is None:
        R.undet('acceptance', G, 'the new point is not the result of a jump made in the same step', t.where)
        return
    v, pivot = prior_test(t, K, facts, (-0.9, -0.05), 1.0)
    if v is False and vague(facts, pivot, t):
        v = None
    rule = {MH: 'log-prior difference + log-Jacobian > log of a fresh uniform draw', HMC: 'log-Jacobian > log of a fresh uniform draw',
            SLICE: 'log-prior above a level drawn below the current log-prior'}[K]
    conds = '; '.join(show(f)[:200] for f in t.facts if contains(f, pivot)) or 'none'
    R.verdict(v, 'acceptance', G, 'the chain moves only if ' + rule, 'the chain can move without %s; conditions of the path: %s' % (rule, conds), t.where)


def jump(t):
    props = [e for e, l in events(t.trace, 'proposed') if not l and e.a['coords'] is t.post.coords]
    return mk('logJ', props[-1].a['result']) if props else None


def prior_test(t, K, facts, ds, logL, admit=False, now=0.3):
    """is the move impossible for a prior (or Jacobian) that misses the acceptance rule by d, for some draw of this step?"""
    new_logL, new_logP = mk('call', 'LL', t.post.coords), mk('call', 'LP', t.post.coords)
    J = jump(t)
    pivot = J if K == HMC else new_logP
    shared = [x for f in facts for x in subterms(f) if x.op == 'sym' and x.args[0] == 'shared_logLmin']
    held = carried(t)
    loose = sorted((x for x in {y for f in facts if contains(f, pivot) for y in subterms(f) if y.op == 'phi'}
                    if x not in held and x not in (t.pre.ident, t.pre.logP, t.pre.logL, t.pre.coords)), key=lambda x: x.args[1])
    drifts = drift(t)
    us = []
    for v in draws_in(t.trace):
        us += [x for x in subterms(v) if x.op == 'draw' and x.args[0] == 'u01' and x not in us]
    verdicts, taken = [], {}
    for u in us or [None]:
        bad, unknown = None, False
        for k in range(1, 6):
            for d in ds:
                uu = (0.13 * k + 0.07) % 1.0
                for off in ((-3.0, 0.0, 3.0) if loose else (0.0,)):
                    if off and any(off not in drifts[x] for x in loose if x in drifts):
                        continue
                    m = Model(k, bind={t.pre.logP: 0.4 * k - 1.0, t.W.lim: -5.0, new_logL: logL, t.pre.logL: now})
                    for x in shared:
                        m.bind[x] = -5.0
                    for x in loose:
                        m.bind[x] = m.bind[t.pre.logP] + off
                    if u is not None:
                        m.bind[u] = uu
                    lu = math.log(uu)
                    if K == MH:
                        m.bind[J] = 0.31 * k - 0.8
                        m.bind[new_logP] = m.bind[t.pre.logP] - m.bind[J] + lu + d
                    elif K == HMC:
                        m.bind[J] = lu + d
                        m.bind[new_logP] = m.bind[t.pre.logP]
                    else:
                        m.bind[new_logP] = m.bind[t.pre.logP] + lu + d
                    r = satisfiable(facts, pivot, m)
                    if r is None:
                        unknown = True
                    elif r:
                        bad = True
                    if r and admit:
                        r = satisfiable(facts, new_logL, m)
                    key = (k, d, off if any(x in drifts for x in loose) else 0.0)
                    old = taken.get(key, False)
                    taken[key] = True if r or old else None if r is None or old is None else False
        verdicts.append(False if bad else None if unknown else True)
    if admit:
        return taken, pivot
    return (True if True in verdicts else None if None in verdicts else False), pivot


def vague(facts, pivot, t):
    """conditions on the pivot that involve something the analysis does not know"""
    known = {}
    for x in (mk('call', 'LL', t.post.coords), mk('call', 'LP', t.post.coords), t.pre.logP, t.pre.logL, t.pre.coords, pivot):
        known[x] = mk('sym', 'known', len(known))
    for x, v in carried(t).items():
        known[x] = v
    for x in foreign(t):
        known[x] = mk('sym', 'foreign', x.args[1])
    piv = known[pivot]
    for f in facts:
        f = subst(f, known)
        if contains(f, piv) and unresolved_terms(f):
            return True
    return False


def foreign(t):
    """values kept from an earlier step that can hold the prior or likelihood of a point the chain did not move to"""
    out = []
    le = t.loop
    if le is not None:
        for r in (le.a.get('phis') or {}):
            if r.op != 'phi' or t.W.eng.is_lp(r):
                continue
            for p in le.a['paths']:
                q = p.sigma.get(r, r)
                if p.sigma.get(t.pre.ident, t.pre.ident) is t.pre.ident and p.sigma.get(t.pre.coords, t.pre.coords) is t.pre.coords \
                        and q.op == 'call' and q.args[0] in ('LP', 'LL') and q.args[1] is not t.pre.coords and p.onward:
                    out.append(r)
                    break
    return out + [x for x in drift(t) if x not in out]


def drift(t):
    """values kept from an earlier step, first the prior of the starting point, that one step can move away from the prior of the current point: {value: directions}"""
    out = {}
    le, pre = t.loop, t.pre
    if le is None:
        return out
    i = (le.a.get('phis') or {}).get(pre.ident)
    for r, init in (le.a.get('phis') or {}).items():
        if i is None or r.op != 'phi' or t.W.eng.is_lp(r) or r in (pre.logP, pre.logL, pre.coords) or init not in (mk('call', 'LP', mk('fld', i, '$coords')), mk('fld', i, 'logP')):
            continue
        signs = set()
        for p in le.a['paths']:
            q = p.sigma.get(r, r)
            c = p.sigma.get(pre.coords, pre.coords)
            if not p.onward or c is pre.coords or q.op not in ('max', 'min', 'poly', 'call', 'num') or any(x.op in ('ite', 'fld', 'idx', 'phi') and x not in (r, pre.logP) for x in subterms(q) if not contains(c, x)):
                continue
            nxt = mk('call', 'LP', c)
            for k in range(6):
                m = Model(k, bind={r: 0.3 * k, pre.logP: 0.3 * k, nxt: 0.3 * k + (-1.0) ** k * 0.7})
                try:
                    d = m.num(m.ev(q)) - m.num(m.ev(nxt))
                except (Undef, ValueError):
                    continue
                if abs(d) > 1e-9:
                    signs.add(3.0 if d > 0 else -3.0)
        if signs:
            out[r] = signs
    return out


def carried(t):
    """values kept from an earlier step that only ever hold a draw or the Jacobian of an earlier jump"""
    out = {}
    le = t.loop
    if le is not None:
        for r, init in (le.a.get('phis') or {}).items():
            if r.op == 'phi' and all(q is r or q.op == 'logJ' or (q.op != 'num' and all(x.op in ('draw', 'uid', 'num', 'poly', 'call') for x in subterms(q)))
                                     for q in (p.sigma.get(r, r) for p in le.a['paths'])):
                out[r] = mk('sym', 'carried', r.args[1])
    return out
