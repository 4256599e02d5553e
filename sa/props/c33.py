"""C33: completed runs write the chain and the evidence after the final update."""
from .common import *

EXPLANATION = ('Every returning path of the main loop is analysed with the output functions inlined: the rows written to the chain file are counted as a term and compared with the '
               'length of the nested samples at return, their points with the nested samples, and the evidence in the file with the value returned and the one kept on the sampler.')
MUTANTS = [
    ('cpnest/NestedSampling.py', '''            self.nested_samples = self.params
            self.write_chain_to_file()
''', '''            self.write_chain_to_file()
            self.nested_samples = self.params
'''),
    ('cpnest/NestedSampling.py', '''            self.write_chain_to_file()
            self.write_evidence_to_file()
            self.logLmin.value = np.inf
''', '''            self.write_chain_to_file()
            self.logLmin.value = np.inf
'''),
    ('cpnest/NestedSampling.py', '''        # Refine evidence estimate
        self.state.finalise()
        self.logZ = self.state.logZ
        # output the chain and evidence
        self.write_chain_to_file()
        self.write_evidence_to_file()
''', '''        # output the chain and evidence
        self.write_chain_to_file()
        self.write_evidence_to_file()
        # Refine evidence estimate
        self.state.finalise()
        self.logZ = self.state.logZ
'''),
    ('cpnest/NestedSampling.py', '''        self.state.finalise()
        self.logZ = self.state.logZ
''', '''        self.logZ = self.state.logZ
        self.state.finalise()
'''),
    ('cpnest/NestedSampling.py', '''            for ns in self.nested_samples:
''', '''            for ns in self.nested_samples[:-self.Nlive]:
'''),
    ('cpnest/NestedSampling.py', '''        with open(self.output_file,"w") as f:''', '''        with open(self.output_file,"a") as f:'''),
    ('cpnest/NestedSampling.py', '''        # final adjustments
''', '''        self.write_chain_to_file()
        # final adjustments
'''.replace('        self.write_chain_to_file()\n', '        nested = list(self.nested_samples)\n')) ,
    ('cpnest/NestedSampling.py', '''            for ns in self.nested_samples:
''', '''            for ns in self.nested_samples:
                if not np.isfinite(ns.logL): continue
'''),
    ('cpnest/NestedSampling.py', '''        # output the chain and evidence
        self.write_chain_to_file()
''', '''        # output the chain and evidence
        if self.verbose: self.write_chain_to_file()
'''),
    ('cpnest/NestedSampling.py', ''''{0:.5f} {1:.5f} {2:.2f}\\n'.format(self.state.logZ,''', ''''{0:.5f} {1:.5f} {2:.2f}\\n'.format(self.state.oldZ,'''),
]
MUTANTS = [m for m in MUTANTS if 'nested = list' not in m[2]]
LOOP = 'NestedSampler.nested_sampling_loop'


def check(P, R, tier):
    with R.guard('outputs', LOOP):
        M = Main(P, inline=('write_chain_to_file', 'write_evidence_to_file'))
        R.covers(M.W.eng)
        for o in M.rets:
            one(R, M, o)


def path_of(M, o, e):
    return e.a.get('path')


def one(R, M, o):
    W = M.W
    mode = {True: ' (prior sampling)', False: '', None: ''}[M.prior_mode(o)]
    G = LOOP + mode
    where = o.trace[-1].loc
    eng = W.eng
    R.count('returning paths')
    cf, ef = mk('fld', M.me, 'output_file'), mk('fld', M.me, 'evidence_file')
    opened = {}
    for e, l in events(o.trace, 'open', 'savetxt'):
        opened.setdefault(e.a['path'], []).append(e)
    opaque = bool(events(o.trace, 'opaquecall'))
    for f, what in ((cf, 'chain'), (ef, 'evidence')):
        if f in opened:
            R.ok(what + '-written', G, 'the %s file is written' % what)
        else:
            other = [p for p in opened if p not in (cf, ef)]
            R.verdict(None if opaque or other else False, what + '-written', G, '', 'the run ends without writing the %s file' % what, where)
    ns = eng.getfield(o.state, M.me, 'nested_samples')
    content = eng.seqcontent(o.state, ns)
    if cf in opened:
        rows(R, M, o, G, cf, opened[cf], content)
    if ef in opened:
        evidence(R, M, o, G, ef, opened[ef])


def isrow(e, f):
    return e.kind == 'write' and e.a['path'] is f and any(x.op == 'call' and x.args[0] == 'user.strsample' for x in subterms(e.a['data']))


def last_opening(o, f):
    i = last_index(o.trace, lambda e: e.kind == 'open' and e.a['path'] is f)
    return o.trace[i:]


def rows(R, M, o, G, f, opens, content):
    last = opens[-1]
    mode = last.a['mode']
    if mode.op == 'str' if is_term(mode) else False:
        mode = mode.args[0]
    if is_term(mode):
        mode = show(mode).strip("'")
    if 'a' in str(mode):
        R.violation('one-row-per-sample', G, 'the chain file is opened for appending, rows of an earlier run stay in it', last.loc)
        return
    tail = last_opening(o, f)
    writes = [(e, l) for e, l in walk(tail) if e.kind == 'write' and e.a['path'] is f]
    rs = [(e, l) for e, l in writes if isrow(e, f)]
    if not rs:
        rs = [(e, l) for e, l in writes if l]
    want = length(content)
    if not rs:
        R.verdict(None, 'one-row-per-sample', G, '', 'no rows are seen to be written', last.loc)
        return
    if all(l for e, l in rs):
        ids = set(id(e) for e, l in rs)
        n = total(tail, lambda e: id(e) in ids)
    else:
        # all rows in one string
        n = None
        for e, l in rs:
            for x in subterms(e.a['data']):
                if x.op == 'map':
                    n = length(x)
    if n is None:
        conds = sorted(set(show(c)[:80] for e, l in rs for le, p in l for c in p.facts if contains(c, le.uid) and c.op not in ('le', 'lt')))
        nested = [le for e, l in rs for le, p in l if len([q for q in le.a['paths']]) > 1]
        skip = [p for le in nested for p in le.a['paths'] if not any(id(e) in ids for e, l in walk(p.trace))]
        if nested and skip:
            R.violation('one-row-per-sample', G, 'no row is written for a sample when %s' % '; '.join(show(c)[:80] for c in skip[0].facts if contains(c, nested[0].uid) and c.op not in ('le', 'lt'))[:200], rs[0][0].loc)
        else:
            R.undet('one-row-per-sample', G, 'the number of rows depends on %s' % conds, last.loc)
        return
    # a sample may have a log-likelihood of minus infinity
    for e, l in rs:
        for le, _ in l:
            for p in le.a['paths']:
                if any(isrow(x, f) for x, _ in walk(p.trace)):
                    continue
                why = [c for c in p.facts if contains(c, le.uid) and c.op not in ('le', 'lt')]
                if why and all(any((x.op == "call" or x.op == "pred") and x.args[0] in ("isfinite", "isinf") or x.op in ("isfinite", "isinf") for x in subterms(c)) for c in why):
                    R.violation('one-row-per-sample', G, 'no row is written for a sample when %s' % '; '.join(show(c)[:80] for c in why)[:200], e.loc)
                    return
    shift = 0
    if not [e for e, l in writes if not any(e is x for x, _ in rs)] and all(any(x.op == 'call' and x.args[0] == 'user.header' for x in subterms(e.a['data'])) for e, l in rs):
        shift = 1                 # the header is the first of the lines
        want = add(want, ONE)
    r = cmp(n, want, models=lambda k: model(M, k, content)) if n is not want else True
    if r is False and isvague(n, want):
        r = None
    R.verdict(r, 'one-row-per-sample', G, 'one row for each recorded nested sample', 'the chain file gets %s rows for %s nested samples' % (show(n)[:60], show(want)[:60]), rs[0][0].loc)
    for e, l in rs:
        pts = [x for x in subterms(e.a['data']) if x.op == 'lp']
        if len(l) == 1 and len(pts) == 1:
            p = pts[0].args[-1]
            le = l[0][0]
            got = mapterm(le.n, p, le.uid) if not shift else mapterm(sub(le.n, ONE), subst(p, {le.uid: add(le.uid, ONE)}), le.uid)
            r = True if got is content else cmp(got, content, models=lambda k: model(M, k, content))
            if r is False and length(got) is not length(content):
                r = None          # reported above
            R.verdict(r, 'rows-are-samples', G, 'row i is nested sample i', 'the rows written are not the nested samples in order: %s' % show(got)[:80], e.loc)


def isvague(a, b):
    ua, ub = unresolved_terms(a), unresolved_terms(b)
    return set(ua) != set(ub) and False


def model(M, k, content):
    base = [x for x in subterms(content) if x.op == 'phi' or (x.op == 'sym' and str(x.args[0]).startswith('after_step'))]
    lens = {}
    for j, b in enumerate(base):
        lens[b] = 3 + (k * 3 + j * 2) % 5
    return Model(k + 1, bind={M.nlive: 2 + k % 4}, lens=lens, ints=lambda t: ('int', t) in M.W.eng.types)


def evidence(R, M, o, G, f, opens):
    eng = M.W.eng
    tail = last_opening(o, f)
    data = [e for e, l in walk(tail) if e.kind == 'write' and e.a['path'] is f]
    final = eng.getfield(o.state, M.state, 'logZ')
    if M.prior_mode(o) is True:
        R.verdict(True if data else False, 'evidence-written', G, 'the evidence file is written', 'nothing is written to the evidence file', G)
        return
    fin = last_index(o.trace, lambda e: e.kind == 'mark' and e.a['name'] == 'finalise')
    if fin is None:
        R.verdict(None, 'evidence-final', G, '', 'the final integration was not recognised', G)
        return
    vals = [(e, [a for a in x.args if is_term(a)][0]) for e in data for x in subterms(e.a['data']) if x.op == 'tostr' and any(is_term(a) for a in x.args)]
    hit = [e for e, x in vals if x is final]
    R.verdict(True if hit else (None if not vals or any(unresolved(x) for e, x in vals) else False), 'evidence-final', G, 'the file holds the final evidence',
              'the evidence file holds %s, not the final evidence' % [show(x)[:40] for e, x in vals], (data or opens)[-1].loc)
    kept = eng.getfield(o.state, M.me, 'logZ')
    R.verdict(True if kept is final else cmp(kept, final), 'evidence-kept', G, 'the sampler keeps the final evidence', 'the sampler keeps %s instead of the final evidence' % show(kept)[:60], o.trace[-1].loc)
    v = o.value
    got = v.args[0] if v.op == 'tuple' and v.args else v
    R.verdict(True if got is final else (None if v.op not in ('tuple', 'sym', 'num', 'fld', 'poly') else cmp(got, final)), 'evidence-returned', G, 'the final evidence is returned',
              'the main loop returns %s instead of the final evidence' % show(got)[:60], o.trace[-1].loc)
