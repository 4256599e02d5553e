"""C37: MCMC chains are resampled from their own rows by the acceptance rule."""
from .common import *
from ..engine import State

EXPLANATION = ('resample_mcmc_chain is executed symbolically; what it returns is one term over the rows of the chain, the measured autocorrelation lengths, the shuffle and the uniform draws. The term is evaluated for chains of '
               'many lengths and autocorrelation lengths: with draws close to zero every row of the thinned chain must come back exactly once, with larger draws exactly those whose log-posterior ratio passes the Metropolis rule. '
               'The thinning step must be the longest autocorrelation length of the sampled parameters only, and the length estimate never falls below one: every pass of its loop adds a positive amount.')
TECHNIQUE = 'static analysis: abstract interpretation to one term over rows and draws, evaluated against the acceptance rule; sign analysis of the length estimate'
N2 = 'cpnest/nest2pos.py'
MUTANTS = [
    (N2, "        if logpost[i] - logpost[i-1] > np.log(uniform()):\n            output.append(chain[i])", "        if logpost[i] - logpost[i-1] > np.log(uniform()):\n            output.append(chain[i-1])"),
    (N2, "        if logpost[i] - logpost[i-1] > np.log(uniform()):\n", "        if logpost[i-1] - logpost[i] > np.log(uniform()):\n"),
    (N2, "        if logpost[i] - logpost[i-1] > np.log(uniform()):\n", "        if logpost[i] - logpost[i-1] > uniform():\n"),
    (N2, "    logpost = chain['logL']+chain['logPrior']\n", "    logpost = chain['logL']\n"),
    (N2, "    logpost = chain['logL']+chain['logPrior']\n", "    logpost = chain['logL']-chain['logPrior']\n"),
    (N2, "    # thin and shuffle the chain\n    chain = chain[::ACL]\n    np.random.shuffle(chain)\n    # compute the normalised log posterior density\n    logpost = chain['logL']+chain['logPrior']\n", "    logpost = chain['logL']+chain['logPrior']\n    chain = chain[::ACL]\n    np.random.shuffle(chain)\n"),
    (N2, "    # thin and shuffle the chain\n    chain = chain[::ACL]\n    np.random.shuffle(chain)\n    # compute the normalised log posterior density\n    logpost = chain['logL']+chain['logPrior']\n", "    chain = chain[::ACL]\n    logpost = (chain['logL']+chain['logPrior']).copy()\n    np.random.shuffle(chain)\n"),
    (N2, "    ACL = int(np.round(np.max(ACL)))\n", "    ACL = int(np.round(np.min(ACL)))\n"),
    (N2, "        if n != 'logL' and n != 'logPrior':\n            ACL", "        if n != 'logPrior':\n            ACL"),
    (N2, "    for i in range(1,chain.shape[0]):\n        if logpost[i]", "    for i in range(1,chain.shape[0]-1):\n        if logpost[i]"),
    (N2, "    chain = chain[::ACL]\n", "    chain = chain[:len(chain)//ACL]\n"),
    (N2, "    output =  [chain[0]]\n", "    output =  []\n"),
    (N2, "    if burnin: chain = chain[chain.shape[0]//2:]\n", "    if burnin: chain = chain[:chain.shape[0]//2]\n"),
    (N2, "    if burnin: chain = chain[chain.shape[0]//2:]\n", "    if not burnin: chain = chain[chain.shape[0]//2:]\n"),
    (N2, "    T=1\n    i=0\n", "    T=0\n    i=0\n"),
    (N2, "        T+=2*acf[i]\n", "        T+=2*np.log(acf[i])\n"),
    (N2, "    while i < len(acf) and acf[i] > tolerance:\n        T+=2*acf[i]\n", "    while i < len(acf) and abs(acf[i]) > tolerance:\n        T+=2*acf[i]\n"),
]
RES, ACLF = 'resample_mcmc_chain', 'acl'
PARAMS = ['x', 'y', 'z']
COLS = ['x', 'logL', 'y', 'z', 'logPrior']


class Rec(object):
    """one row of a chain"""

    def __init__(self, k, cols):
        self.k, self.cols = k, cols

    def __repr__(self):
        return 'row %d' % self.k


def chain(n, seed):
    rows = []
    for k in range(n):
        rows.append(Rec(k, {c: round(3 * math.sin((k + 2) * (j + 1.3) * 1.7 + seed), 5) for j, c in enumerate(COLS)}))
    return rows


def leafs(c, rows, lengths):
    def column(v, name):
        if isinstance(v, Rec):
            if name not in v.cols:
                raise Undef('column %s' % name)
            return v.cols[name]
        if isinstance(v, list):
            return [column(x, name) for x in v]
        raise Undef('column of %r' % (v,))

    def leaf(m, t):
        env = m.env
        if t.op == 'fld' and t.args[1] == 'names':
            return list(COLS)
        if t.op == 'fld' and t.args[1] == 'dimension':
            return float(len(COLS))
        if t.op == 'fld' and t.args[1] in ('size', 'shape') or t.op == 'shape':
            v = m.ev(t.args[0], env)
            if isinstance(v, list):
                return float(len(v)) if t.op == 'fld' and t.args[1] == 'size' else [float(len(v))]
        if t.op in ('col', 'idx') or (t.op == 'call' and t.args[0] == 'col'):
            a = t.args[1:] if t.op == 'call' else t.args
            i = m.ev(a[1], env) if is_term(a[1]) else a[1]
            if isinstance(i, str) and i in COLS:
                return column(m.ev(a[0], env), i)
            if isinstance(i, list) and i and all(isinstance(x, bool) for x in i):
                return [x for x, k in zip(m.ev(a[0], env), i) if k]
            if isinstance(i, list):
                v = m.ev(a[0], env)
                if isinstance(v, list):
                    return [v[int(m.num(x))] for x in i]
        if t.op == 'call' and t.args[0] == 'take':
            i, v = m.ev(t.args[2], env), m.ev(t.args[1], env)
            if isinstance(i, list) and i and all(isinstance(x, bool) for x in i) and isinstance(v, list):
                return [x for x, k in zip(v, i) if k]
        if t.op == 'draws' and t.args[0] == 'u01':
            return [m.u] * int(m.num(m.ev(t.args[1], env)))
        if t.op == 'call' and t.args[0] == 'autolength':
            a = m.ev(t.args[1], env)
            for n in COLS:
                if isinstance(a, list) and a and set(a) <= {r.cols[n] for r in rows}:
                    m.asked.append((n, len(a)))
                    return lengths[n]
            raise Undef('autocorrelation length of %r' % (a if not isinstance(a, list) else a[:2],))
        return None
    return leaf


def check(P, R, tier):
    mod = P.modules.get('nest2pos')
    if mod is None or RES not in mod.functions or ACLF not in mod.functions:
        R.anchor_missing.append('nest2pos.' + RES)
        return
    with R.guard('rows', RES):
        resampled(P, R, mod, tier)
    with R.guard('length', ACLF):
        lengthpos(P, R, mod)


def resampled(P, R, mod, tier):
    def stub(eng, st, f, args, kwargs, node):
        x = list(args) + list(kwargs.values())
        return [(st, eng.settype(mk('call', 'autolength', eng.val(st, x[0])), 'number'))]
    fi = mod.functions[RES]
    where = '%s:%d' % (mod.relpath, fi.node.lineno)
    names = [a.arg for a in fi.node.args.args]
    n = 0
    for burn in (False, True):
        if burn and 'burnin' not in names:
            continue
        W = World(P, hooks={'purecalls': True}, stubs={'nest2pos.' + ACLF: stub})
        c = mk('sym', 'chain', -1)
        W.eng.settype(c, 'array')
        outs = W.eng.run(fi, None, [c], {'burnin': TRUE} if burn else {}, None)
        R.covers(W.eng)
        done = False
        for length in (40, 7, 12, 25, 1, 2) + ((64, 99) if tier == 'thorough' else ()):
            for trial, ls in enumerate(((2.6, 1.0, 3.8), (1.0, 1.2, 1.0), (5.4, 5.1, 2.0), (1.6, 7.3, 6.9))):
                lengths = dict(zip(PARAMS, ls), logL=11.0, logPrior=9.0)
                rows = chain(length, trial)
                part = rows[length // 2:] if burn else rows
                v, why = decide(W, outs, c, rows, part, lengths, max(ls), trial)
                n += 1
                if v is not True:
                    R.verdict(v, 'rows', RES, '', 'for a chain of %d rows%s with autocorrelation lengths %s %s' % (length, ' (half of it burn-in)' if burn else '', list(ls), why), where)
                    done = True
                    break
            if done:
                break
        if not done:
            R.ok('rows', RES, 'thinned rows, kept by the acceptance rule%s' % (' after burn-in' if burn else ''), where)
    R.count('chains evaluated', n)


def decide(W, outs, c, rows, part, lengths, longest, seed):
    us = (1e-300, 0.03, 0.6, 0.999999)
    order = None
    post = lambda r: r.cols['logL'] + r.cols['logPrior']
    for u in us:
        got = None
        for o in outs:
            m = Model(seed, leaf=leafs(c, rows, lengths))
            m.asked = []
            m.u = u
            m.bind[c] = rows
            val = W.eng.val(o.state, o.value)
            if any(x.op == 'phi' or x.op == 'opaque' for y in [val] + list(o.facts) for x in subterms(y)):
                return None, 'the result is not understood: %s' % show(val)[:120]
            for x in list(subterms(val)) + [y for f in o.facts for y in subterms(f)]:
                if x.op == 'draw' and x.args[0] == 'u01':
                    m.bind[x] = u
            try:
                if not all(m.truth(m.ev(f)) for f in o.facts):
                    continue
                if o.kind != 'return':
                    return False, 'the chain cannot be resampled'
                got = m.ev(val)
                break
            except (Undef, TypeError, ValueError, KeyError) as e:
                return None, 'the result is not understood: %s' % e
            except IndexError as e:
                return False, 'an index is out of range'
        if not isinstance(got, list) or not all(isinstance(x, Rec) for x in got):
            return None, 'the result is not understood: %r' % (got,)
        ks = [r.k for r in got]
        if len(set(ks)) != len(ks):
            return False, 'rows come back more than once'
        if order is None:
            strides = [s for s in {max(1, math.floor(longest)), max(1, math.ceil(longest))}]
            sets = [sorted(r.k for r in part[off::s]) for s in strides for off in range(s)]
            if sorted(ks) not in sets:
                full = [sorted(r.k for r in part[::s]) for s in strides]
                return False, '%d rows pass the weakest test, the chain thinned by %s has %s' % (len(ks), ' or '.join(map(str, strides)), ' or '.join(str(len(x)) for x in full))
            order = got
            continue
        keep1 = order[:1] + [b for a, b in zip(order, order[1:]) if post(b) - post(a) > math.log(u)]
        keep2 = order[:1]
        for b in order[1:]:
            if post(b) - post(keep2[-1]) > math.log(u):
                keep2.append(b)
        if set(ks) not in (set(r.k for r in keep1), set(r.k for r in keep2)):
            return False, 'with the draw %g the rows kept are not those that pass the acceptance rule' % u
    return True, ''


def lengthpos(P, R, mod):
    """the autocorrelation length starts at one or more and every pass adds a positive amount"""
    fi = mod.functions[ACLF]
    where = '%s:%d' % (mod.relpath, fi.node.lineno)
    acf = mk('sym', 'acf', -5)

    def stub(eng, st, f, args, kwargs, node):
        return [(st, eng.settype(acf, 'array'))]
    W = World(P, hooks={'purecalls': True}, stubs={'nest2pos.autocorrelation': stub})
    x = mk('sym', 'x', -2)
    W.eng.settype(x, 'array')
    outs = W.eng.run(fi, None, [x], {}, None)
    R.covers(W.eng)
    n = 0
    for o in outs:
        if o.kind != 'return':
            R.violation('length', ACLF, 'the length is not determined', where)
            continue
        v, why = positive(W, o, acf)
        n += 1
        R.verdict(v, 'length', ACLF, 'never below one', why, where)
    R.count('ways through the length estimate', n)


ACFS = ([1.0, 0.8, 0.3, 0.05, -0.2, 0.4], [1.0, 0.005, 0.6], [1.0, -0.7, 0.5, -0.9], [1.0], [1.0, 0.9, 0.9, 0.9], [float('nan')] * 3)


def positive(W, o, acf):
    val = W.eng.val(o.state, o.value)
    loops = {e.a['uid']: e for e in o.trace if e.kind == 'loop'}
    # simulate the loops on concrete sequences
    undec = 'no path applies'
    for vals in ACFS:
        m0 = {acf: list(vals)}
        if not loops:
            m = Model(1, bind=dict(m0))
            try:
                if not all(m.truth(m.ev(f)) for f in o.facts):
                    continue
                v = m.num(m.ev(val))
            except (Undef, TypeError, ValueError, IndexError) as e:
                undec = str(e)
                continue
            undec = ''
            if not v >= 1:
                return False, 'the length may be %g' % v
            continue
        if len(loops) != 1:
            return None, 'more than one loop'
        le = list(loops.values())[0]
        phis = le.a.get('phis') or {}
        cur = {}
        try:
            m = Model(1, bind=dict(m0))
            for p, i in phis.items():
                cur[p] = m.ev(i) if i is not None else None
            for k in range(len(vals) + 2):
                b = dict(m0)
                b.update(cur)
                b[le.a['uid']] = float(k)
                m = Model(1, bind=b)
                # is this the last pass of this way out?
                try:
                    if all(m.truth(m.ev(f)) for f in o.facts):
                        v = m.num(m.ev(val))
                        undec = ''
                        if not v >= 1:
                            return False, 'the length may be %g' % v
                        break
                except IndexError:
                    pass
                nxt = None
                for path in le.a['paths']:
                    try:
                        if all(m.truth(m.ev(f)) for f in path.facts):
                            nxt = {p: m.ev(path.sigma.get(p, p)) for p in phis}
                            break
                    except IndexError:
                        continue
                if nxt is None:
                    break
                cur = nxt
        except (Undef, TypeError, ValueError) as e:
            undec = str(e)
    return (True, '') if not undec else (None, 'the length is not understood: %s' % undec)
