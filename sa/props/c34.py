"""C34: insertion indices."""
from .common import *

EXPLANATION = ('Abstract interpretation of one nested-sampling step: on every path that inserts a replacement, the value appended to the insertion indices is '
               'interpreted over random sorted live sets (with the replacements already made in the step) and compared with rank among the surviving points divided by '
               'their number; appends and insertions are counted as terms. The slices given to the rolling and to the final uniformity test are compared with the required ones.')
MUTANTS = [
    ('cpnest/NestedSampling.py', '            indices = self.insertion_indices\n', '            indices = self.insertion_indices[-10*self.Nlive:]\n'),
    ('cpnest/NestedSampling.py', '(index - nreplace) / (self.Nlive - k - 1)', '(index - nreplace) / (self.Nlive - k)'),
    ('cpnest/NestedSampling.py', '(index - nreplace) / (self.Nlive - k - 1)', 'index / (self.Nlive - k - 1)'),
    ('cpnest/NestedSampling.py', '(index - nreplace) / (self.Nlive - k - 1)', '(index - nreplace) / (self.Nlive - nreplace)'),
    ('cpnest/NestedSampling.py', 'indices = self.insertion_indices[-self.Nlive:]', 'indices = self.insertion_indices[-self.Nlive:-1]'),
    ('cpnest/NestedSampling.py', 'indices = self.insertion_indices[-self.Nlive:]', 'indices = self.insertion_indices[:self.Nlive]'),
    ('cpnest/NestedSampling.py', '            indices = self.insertion_indices\n', '            indices = self.insertion_indices[self.Nlive:]\n'),
    ('cpnest/NestedSampling.py', '        return bisect.bisect(self._keys, self._key(item))', '        return bisect.bisect(self._keys, self._key(item)) + 1'),
    ('cpnest/NestedSampling.py', '''                    self.insertion_indices.append((index - nreplace) / (self.Nlive - k - 1))
''', '''                    if loops < 100: self.insertion_indices.append((index - nreplace) / (self.Nlive - k - 1))
'''),
]
F = 'NestedSampler.consume_sample'


def check(P, R, tier):
    with R.guard('index-value', F):
        S = Step(P)
        R.covers(S.W.eng)
        for o in S.rets:
            values(R, S, o)
    with R.guard('test', 'NestedSampler.check_insertion_indices'):
        tests(P, R)


def ins_of(S, e):
    return e.kind == 'mut' and e.obj is S.params and (mut_op(e) or ('?',))[0] in ('ins', 'app')


def rec_of(S, e):
    return e.kind == 'mut' and e.obj is S.indices and (mut_op(e) or ('?',))[0] == 'app'


def values(R, S, o):
    ni, na = total(o.trace, lambda e: ins_of(S, e)), total(o.trace, lambda e: rec_of(S, e))
    where = o.trace[-1].loc
    other = [e for e, l in walk(o.trace) if e.kind == 'mut' and e.obj is S.indices and not rec_of(S, e)]
    ext = [e for e in other if (mut_op(e) or ('?',))[0] == 'ext']
    if ext and len(ext) == len(other):
        na = add(na, sumlen(S, ext)) if na is not None else None
        other = []
    if ni is None or na is None or other:
        R.undet('one-per-replacement', F, 'the number of recorded indices depends on the path', where)
    else:
        R.verdict(cmp(ni, na, models=lambda k: S.model(k + 1)), 'one-per-replacement', F, 'one index per inserted replacement',
                  'a step inserts %s points but records %s insertion indices' % (show(ni)[:80], show(na)[:80]), where)
    pairs = 0
    recs = [e for e, l in walk(o.trace) if e.kind == 'mut' and e.obj is S.indices]
    allb = [path for path, chain in bodies(o.trace)]
    with_ins = [p for p in allb if any(ins_of(S, e) for e in p)]
    surplus = [p for p in allb if any(rec_of(S, e) for e in p) and not any(ins_of(S, e) for e in p)]
    if with_ins and surplus and all(sum(ins_of(S, e) for e in p) == sum(rec_of(S, e) for e in p) for p in with_ins):
        bad = [e for e in surplus[0] if rec_of(S, e)][0]
        R.violation('one-per-replacement', F, 'every replacement records its index, and %s is recorded where no replacement is inserted' % show(mut_op(bad)[1])[:100], bad.loc)
        return
    for path, chain in bodies(o.trace):
        ins = [e for e in path if ins_of(S, e)]
        if ins and not any(e in path for e in recs) and all(any(e is x for q, c2 in bodies(o.trace) if any(ins_of(S, y) for y in q) for x in q) for e in recs):
            cond = [f for f in chain[-1][1].facts if any(x.op == 'iota' for x in subterms(f))] if chain else []
            R.violation('one-per-replacement', F, 'a replacement is inserted without recording its insertion index when %s'
                        % ('; '.join(show(f)[:100] for f in cond) or 'this path is taken'), ins[0].loc)
        # events executed in one pass, in order
        cur = None
        for e in path:
            if ins_of(S, e):
                cur = e
            elif rec_of(S, e):
                if cur is None:
                    R.undet('index-value', F, 'an index is recorded away from the insertion it belongs to', e.loc)
                else:
                    pairs += 1
                    value(R, S, o, chain, cur, e)
                    cur = None
    R.count('index records', pairs)
    if not pairs:
        R.undet('index-value', F, 'no pair of insertion and index was recognised', where)


def sumlen(S, ext):
    n = ZERO
    for e in ext:
        n = add(n, length(mut_op(e)[1]))
    return n


def value(R, S, o, chain, ins, rec):
    v = mut_op(rec)[1]
    op = mut_op(ins)
    point = op[1]
    if len(chain) > 1:
        R.undet('index-value', F, 'insertion in nested loops', ins.loc)
        return
    before = [i for i, e in enumerate(o.trace) if has_kind(e, lambda x: x.kind == 'mut' and x.obj is S.params and (mut_op(x) or ('?',))[0] == 'delfront')]
    mine = [i for i, e in enumerate(o.trace) if has_kind(e, lambda x: x is ins)][0]
    removed_first = bool(before) and before[0] < mine
    keys = mk('fld', S.params, '_keys')
    pl = mk('fld', point, 'logL')
    res, shown = [], None
    for k in range(1, 25):
        base = S.model(k)
        n, L = base.n, base.L
        i = k % n if chain else 0
        size = (L - n if removed_first else L) + i
        vals = sorted(-5 + 9 * abs(math.sin(1.7 * k + 2.3 * j)) for j in range(size))
        start = 0 if removed_first else n
        x = (vals[start - 1] if start else -6) + 0.01 + (vals[-1] + 1 - (vals[start - 1] if start else -6)) * ((k * 0.37) % 1.0)
        pts = [Obj(('elem', ('now',), j)) for j in range(size)]

        def number(m, key, vals=vals):
            if isinstance(key, tuple) and key[0] == 'fld' and key[2] == 'logL' and key[1][:2] == ('elem', ('now',)):
                return vals[key[1][2]]
            return None
        bind = {S.nlive: L, S.snlive: L, S.nthreads: n, pl: x}
        if chain:
            bind[chain[0][0].uid] = i
            for p, init in chain[0][0].a['phis'].items():
                if init is None:
                    continue
                b = S.W.eng
                c = base_of(init)
                if c is mk('c0', S.params):
                    bind[p] = pts
                elif c is mk('c0', keys):
                    bind[p] = vals
        else:
            bind[mk('c0', S.params)] = pts
            bind[mk('c0', keys)] = vals
        m = Model(k, bind=bind, lens={S.pipes: n}, number=number, ints=lambda t: ('int', t) in S.W.eng.types)
        try:
            got = m.num(m.ev(v))
        except Undef:
            res.append(None)
            continue
        rank = sum(1 for y in vals[start:] if y <= x)
        want = rank / float(L - n + i) if L - n + i else None
        if want is None:
            continue
        res.append(abs(got - want) < 1e-9)
        if not res[-1] and shown is None:
            shown = 'with %d live points, %d workers, replacement %d of the step ranked %d of %d, the recorded index is %.6g' % (L, n, i + 1, rank, L - n + i, got)
    r = allof(res)
    if r is False and unresolved(subst(v, {p: ZERO for p in (chain[0][0].a['phis'] if chain else ())})):
        r = None
    R.verdict(r, 'index-value', F, 'rank among the surviving points over their number', shown or 'the index could not be interpreted: %s' % show(v)[:100], rec.loc)


def base_of(t):
    while t.op in ('slice', 'sorted', 'cat', 'ins', 'perm'):
        t = t.args[0]
    return t


def tests(P, R):
    from ..engine import State
    for rolling in (TRUE, FALSE):
        W = World(P, volatile=('logLmax',), hooks={'purecalls': True})
        me = W.instance(NS)
        st = State()
        ind = W.field(st, me, 'insertion_indices')
        nlive = W.field(st, me, 'Nlive')
        outs = W.run(NS, 'check_insertion_indices', me, [], {'rolling': rolling})
        R.covers(W.eng)
        what = 'rolling' if rolling is TRUE else 'final'
        G = 'NestedSampler.check_insertion_indices(rolling=%s)' % (rolling is TRUE)
        seen = 0
        for o in returns(outs):
            for e, l in events(o.trace, 'kstest'):
                seen += 1
                got = e.a['data']
                c = mk('c0', ind)
                want = slc(c, neg(nlive), NONE) if rolling is TRUE else c

                def models(k):
                    n = 3 + k % 5
                    L = 2 + (k * 5) % 11
                    if k % 10 == 9:
                        n, L = (2, 90) if k < 20 else (3, 1300)
                    return Model(k + 1, bind={nlive: n}, lens={c: L, ind: L}, ints=lambda t: ('int', t) in W.eng.types)
                r = cmp(got, want, models=models, trials=30)
                R.verdict(r, 'tested-indices', G, 'the %s test uses %s' % (what, 'the most recent Nlive indices' if rolling is TRUE else 'all indices'),
                          'the %s test is applied to %s' % (what, show(got)[:120]), e.loc)
        if not seen:
            R.violation('tested-indices', G, 'no uniformity test is made', G) if all(not events(o.trace, 'opaquecall', 'extcall') for o in outs) else R.undet('tested-indices', G, 'no uniformity test recognised')
    M = Main(P)
    R.covers(M.W.eng)
    for o in M.outs:
        for e, l in marks(o.trace, 'indices'):
            a = e.a['args'][0] if e.a['args'] else e.a['kwargs'].get('rolling', TRUE)
            R.verdict(True if a is TRUE else (False if a is FALSE else None), 'loop-uses-rolling', 'NestedSampler.nested_sampling_loop',
                      'the check in the loop is the rolling one', 'the check made during the run is not the rolling one', e.loc)
