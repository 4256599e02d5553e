"""C20: column headers match the columns of every table written."""
from .common import *
from .c19 import Folder, entries
from ..engine import State
from ..world import NUMBERS

EXPLANATION = ('The texts of the header and of a row are derived symbolically from Model.header and Model.strsample and compared field by field for models of several names and dimensions; the writes of write_chain_to_file and of the header file are executed in order over these texts; '
               'the record built by LivePoint.asnparray is compared with its dtype column by column; for every table saved at any entry point, the columns of the data (inferred through stacking, masking, selection and reading back) are compared with the header text.')
TECHNIQUE = 'static analysis: symbolic text evaluation of header and row writers, schema inference of every saved table'
M_, N_, C, S, L = 'cpnest/model.py', 'cpnest/NestedSampling.py', 'cpnest/cpnest.py', 'cpnest/sampler.py', 'cpnest/parameter.pyx'
MUTANTS = [
    (N_, "self.state.logZ, self.logLmax.value, self.state.info)", "self.state.logZ, self.state.info, self.logLmax.value)"),
    (N_, "f.write('#logZ\\tlogLmax\\tH\\n')", "f.write('#logLmax\\tlogZ\\tH\\n')"),
    (M_, "return '\\t'.join(self.names) + '\\tlogL'", "return 'logL\\t' + '\\t'.join(self.names)"),
    (M_, "return '\\t'.join(self.names) + '\\tlogL'", "return '\\t'.join(sorted(self.names)) + '\\tlogL'"),
    (M_, "return '\\t'.join(self.names) + '\\tlogL'", "return '\\t'.join(self.names)"),
    (M_, "return '\\t'.join(self.names) + '\\tlogL'", "return '\\t'.join(self.names) + '\\tlogL\\tlogPrior'"),
    (M_, "return '\\t'.join(self.names) + '\\tlogL'", "return ''.join(self.names) + '\\tlogL'"),
    (M_, "        line='\\t'.join('{0:.20e}'.format(sample[n]) for n in sample.names)\n        line+='{0:20e}'.format(sample.logL)", "        line='{0:20e}\\t'.format(sample.logL)\n        line+='\\t'.join('{0:.20e}'.format(sample[n]) for n in sample.names)"),
    (M_, "for n in sample.names)\n", "for n in sorted(sample.names))\n"),
    (M_, "for n in sample.names)\n", "for n in sample.names[1:])\n"),
    (M_, "line+='{0:20e}'.format(sample.logL)", "line+='{0:20e}'.format(sample.logP)"),
    (M_, "line+='{0:20e}'.format(sample.logL)", "line+='{0:.20e}'.format(sample.logL)"),
    (M_, "line+='{0:20e}'.format(sample.logL)", "line+='{0:20e}{1:20e}'.format(sample.logL, sample.logP)"),
    (N_, "            f.write('{0:s}\\n'.format(self.model.header().rstrip()))\n", ""),
    (N_, "self.model.header().rstrip()", "'\\t'.join(['logL']+self.model.names)"),
    (N_, "f.write('{0:s}\\n'.format(self.model.strsample(ns).rstrip()))", "f.write('{0:d}\\t{1:s}\\n'.format(self.iteration, self.model.strsample(ns).rstrip()))"),
    (N_, "f.write('{0:s}\\n'.format(self.model.strsample(ns).rstrip()))", "f.write('{0:s}'.format(self.model.strsample(ns).rstrip()))"),
    (N_, "        header.write('\\tlogL\\n')", "        header.write('\\tlogL\\tlogPrior\\n')"),
    (N_, "        header.write('\\t'.join(self.model.names))\n        header.write('\\tlogL\\n')", "        header.write('logL\\t')\n        header.write('\\t'.join(self.model.names))"),
    (L, "self.names+['logL','logPrior']", "self.names+['logPrior','logL']"),
    (L, "self.names+['logL','logPrior']", "['logL','logPrior']+self.names"),
    (L, "        x['logL']     = self.logL\n        x['logPrior'] = self.logP", "        x['logL']     = self.logP\n        x['logPrior'] = self.logL"),
    (L, "        x['logPrior'] = self.logP\n", ""),
    (L, "for n in self.names: x[n] = self[n]", "for i, n in enumerate(sorted(self.names)): x[n] = self.values[i]"),
    (C, "                header=' '.join(self.nested_samples.dtype.names),", "                header=' '.join(self.user.names),"),
    (C, "                header=' '.join(self.nested_samples.dtype.names),", "                header=' '.join(sorted(self.nested_samples.dtype.names)),"),
    (C, "                header=' '.join(self.nested_samples.dtype.names),\n", ""),
    (C, "header=' '.join(posterior_samples.dtype.names),", "header=' '.join(self.user.names+['logPrior','logL']),"),
    (C, "header=' '.join(posterior_samples.dtype.names),\n                newline='\\n',delimiter=' ')", "header=' '.join(posterior_samples.dtype.names),\n                newline='\\n',delimiter=',')"),
    (C, "header=' '.join(mcmc_samples.dtype.names),", "header=self.user.header(),"),
    (C, "header=' '.join(prior_samples.dtype.names),", "header=' '.join(prior_samples.dtype.names[:-1]),"),
    (S, "prior_samples.ravel(),header=' '.join(prior_samples.dtype.names),", "prior_samples.ravel(),header=' '.join(self.model.names+['logPrior','logL']),"),
    (S, "header=' '.join(self.mcmc_samples.dtype.names),", "header='\\t'.join(self.model.names),"),
]
NAMES = [['a', 'B2', 'mass_1'], ['z', 'a'], ['x'], ['e', 'd', 'c', 'b', 'a']]
VALUES = [-12.5, 0.0625, 3e7, -4e-9, 77.0]
LOGL = [-31250.5, 5.5, -2.5e-120, 0.75]


def textleaf(names, values=(), logL=None, logP=None, more=None):
    """interpretation of the texts about points of a model with these names"""
    def f(m, t):
        env = m.env
        if more:
            r = more(m, t)
            if r is not None:
                return r
            m.env = env
        if t.op == 'fld' and t.args[1] == 'names':
            return list(names)
        if t.op == 'fld' and t.args[1] == 'dimension':
            return len(names)
        if t.op == 'fld' and t.args[1] in ('$coords', 'values') and values:
            return list(values[:len(names)])
        if t.op == 'fld' and t.args[1] == 'logL' and logL is not None:
            return logL
        if t.op == 'fld' and t.args[1] == 'logP' and logP is not None:
            return logP
        if t.op == 'lp':
            return None
        if t.op == 'pos' and len(t.args) == 2:
            k = m.ev(t.args[1], env)
            return list(names).index(k) if k in names else None
        if t.op == 'join':
            parts = m.ev(t.args[1], env)
            sep = m.ev(t.args[0], env)
            if isinstance(parts, list) and isinstance(sep, str) and all(isinstance(x, str) for x in parts):
                return sep.join(parts)
            raise Undef('join')
        if t.op == 'call' and isinstance(t.args[0], str) and t.args[0].startswith('str.'):
            b = m.ev(t.args[1], env)
            if not isinstance(b, str):
                raise Undef('string')
            try:
                return getattr(b, t.args[0][4:])(*[x if isinstance(x, str) else int(m.num(x)) for x in [m.ev(y, env) for y in t.args[2:]]])
            except (TypeError, ValueError, AttributeError):
                raise Undef('string method')
        return None
    return pathleaf(more=f)


def text(m, t):
    v = m.ev(t)
    if not isinstance(v, str):
        raise Undef('not a text')
    if '<' in v:
        raise Undef('partly known text')
    return v


def numbers(fields):
    out = []
    for f in fields:
        try:
            out.append(float(f))
        except ValueError:
            return None
    return out


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-2 * max(abs(x), abs(y)) for x, y in zip(a, b))


def check(P, R, tier):
    with R.guard('row', 'Model.strsample'):
        rows(P, R)
    with R.guard('header', 'Model.header'):
        header(P, R)
    with R.guard('chain', 'NestedSampler.write_chain_to_file'):
        chain(P, R)
    with R.guard('evidence', 'NestedSampler.write_evidence_to_file'):
        evidence(P, R)
    with R.guard('record', 'LivePoint.asnparray'):
        record(P, R)
    with R.guard('tables', 'tables'):
        tables(P, R)


def rows(P, R):
    W = World(P, hooks={'purecalls': True, 'getattr': names_hook})
    R.covers(W.eng)
    ci = P.cls('model.Model')
    fi = P.method(ci, 'strsample')
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    x = W.param(fi.node.args.args[1].arg, LP)
    outs = returns(W.run(ci, 'strsample', W.instance(ci), [x]))
    for nm in NAMES:
        for lg in LOGL:
            m = Model(0, leaf=textleaf(nm, VALUES, lg, -0.375))
            done = None
            for o in outs:
                try:
                    if not all(m.truth(m.ev(f)) for f in o.facts):
                        continue
                    done = numbers(text(m, o.value).split())
                    ok = done is not None and near(done, VALUES[:len(nm)] + [lg])
                except Undef:
                    R.undet('row', 'Model.strsample', 'text of a row: %s' % show(o.value)[:80], where)
                    ok = None
                    break
                R.verdict(ok, 'row', 'Model.strsample', 'parameters in order, then the log-likelihood', 'the row of a sample of %d parameters is %s, for coordinates %s and log-likelihood %r' % (len(nm), done if done is not None else 'not numbers', VALUES[:len(nm)], lg), where)
            R.count('rows evaluated')


def names_hook(eng, st, obj, name, node):
    """the names of a model are those of the user's, whatever the class default"""
    if name == 'names' and obj.op in ('inst', 'sym') and (obj, name) not in st.heap:
        return [(st, mk('fld', obj, 'names'))]
    return None


def header(P, R):
    W = World(P, hooks={'purecalls': True, 'getattr': names_hook})
    R.covers(W.eng)
    ci = P.cls('model.Model')
    fi = P.method(ci, 'header')
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    for o in returns(W.run(ci, 'header', W.instance(ci), [])):
        for nm in NAMES:
            m = Model(0, leaf=textleaf(nm))
            try:
                if not all(m.truth(m.ev(f)) for f in o.facts):
                    continue
                v = text(m, o.value).lstrip('#').split()
            except Undef:
                R.undet('header', 'Model.header', 'text of the header: %s' % show(o.value)[:80], where)
                continue
            R.verdict(v == nm + ['logL'], 'header', 'Model.header', 'the fields of a row', 'the header for parameters %s is %s' % (nm, v), where)
            R.count('headers evaluated')


def chain(P, R):
    ci = P.cls(NS)
    fi = P.method(ci, 'write_chain_to_file')
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    W = World(P, hooks={'purecalls': True})
    R.covers(W.eng)
    G = 'NestedSampler.write_chain_to_file'
    outs = W.run(ci, 'write_chain_to_file', W.instance(ci), [])
    for nm in NAMES[:2]:
        for o in returns(outs):
            def more(m, t):
                env = m.env
                if t.op == 'call' and t.args[0] in ('header', 'user.header') or t.op == 'call' and 'header' in str(t.args[0]):
                    return '\t'.join(nm) + '\tlogL'
                if t.op == 'call' and 'strsample' in str(t.args[0]):
                    p = m.ev(t.args[-1], env)
                    return '\t'.join('%d' % (7000 + k) for k in range(len(nm))) + '%20d' % 7999
                if t.op == 'fld' and t.args[1] in NUMBERS:
                    return 4242
                return None
            m = Model(0, leaf=textleaf(nm, VALUES, 5.5, -0.375, more))
            try:
                if not all(m.truth(m.ev(f)) for f in o.facts):
                    continue
                buf = ''
                for e, m2 in unroll(o.trace, m):
                    if e.kind == 'write':
                        buf += text(m2, e.a['data'])
                    elif e.kind == 'writelines':
                        v = m2.ev(e.a['data'])
                        if not isinstance(v, list) or not all(isinstance(x, str) for x in v):
                            raise Undef('lines')
                        buf += ''.join(v)
            except Undef as err:
                R.undet('chain', G, 'text of the chain file: %s' % err, where)
                continue
            lines = [l.split() for l in buf.split('\n') if l.strip()]
            R.count('chain files evaluated')
            if not lines:
                R.undet('chain', G, 'what is written to the chain file', where)
                continue
            R.verdict([x.lstrip('#') for x in lines[0]] == nm + ['logL'], 'chain', G, 'the first line is the header', 'the first line of the chain file is %s' % lines[0][:8], where)
            want = [['%d' % (7000 + k) for k in range(len(nm))] + ['7999'], VALUES[:len(nm)] + [5.5]]
            bad = [l for l in lines[1:] if l != want[0] and not (numbers(l) and near(numbers(l), want[1]))]
            R.verdict(not bad, 'chain', G, 'every other line is a row of the model', 'a line of the chain file has the fields %s under the header %s' % ((bad or [0])[0], lines[0]), where)


def evidence(P, R):
    """the evidence file: every field stands under its name"""
    ci = P.cls(NS)
    fi = P.method(ci, 'write_evidence_to_file')
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    W = World(P, hooks={'purecalls': True})
    R.covers(W.eng)
    G = 'NestedSampler.write_evidence_to_file'
    me = W.instance(ci)
    st = State()
    state, top = mk('fld', me, 'state'), W.field(st, me, 'logLmax')
    known = {'logz': ('logZ', -12.25), 'loglmax': ('the maximum log-likelihood', 3.5), 'logl_max': ('the maximum log-likelihood', 3.5), 'h': ('the information', 0.75), 'info': ('the information', 0.75),
             'information': ('the information', 0.75)}
    for o in returns(W.run(ci, 'write_evidence_to_file', me, [], st=st)):
        def more(m, t):
            if t.op == 'fld' and t.args[0] is state and t.args[1] in ('logZ', 'info'):
                return {'logZ': -12.25, 'info': 0.75}[t.args[1]]
            if t.op == 'fld' and t.args[0] is top and t.args[1] == 'value':
                return 3.5
            return None
        m = Model(0, leaf=textleaf(['x'], VALUES, 5.5, -0.375, more))
        try:
            if not all(m.truth(m.ev(f)) for f in o.facts):
                continue
            buf = ''
            for e, m2 in unroll(o.trace, m):
                if e.kind == 'write':
                    buf += text(m2, e.a['data'])
                elif e.kind == 'writelines':
                    buf += ''.join(m2.ev(e.a['data']))
                elif e.kind == 'savetxt':
                    raise Undef('array output')
        except (Undef, TypeError) as err:
            R.undet('evidence', G, 'text of the evidence file: %s' % err, where)
            continue
        lines = [l.lstrip('#').split() for l in buf.split('\n') if l.strip()]
        R.count('evidence files evaluated')
        if len(lines) != 2 or numbers(lines[0]) is not None:
            R.undet('evidence', G, 'what is written to the evidence file', where)
            continue
        head, row = lines
        vals = numbers(row)
        R.verdict(len(row) == len(head), 'evidence', G, 'one value for each name', 'the evidence file has the values %s under the header %s' % (row, head), where)
        if vals is None or len(row) != len(head):
            continue
        for c, v in zip(head, vals):
            k = known.get(c.lower())
            if k:
                R.verdict(near([v], [k[1]]), 'evidence', G, 'column %s holds its value' % c, 'column %s of the evidence file does not hold %s' % (c, k[0]), where)


def dtypes(m, d):
    """names of a record type"""
    if d.op == 'dict':
        for kv in d.args[1:]:
            if kv.op == 'tuple' and kv.args[0] is s('names'):
                return m.ev(kv.args[1])
        return None
    v = m.ev(d)
    return [x[0] for x in v] if isinstance(v, list) and all(isinstance(x, list) and x and isinstance(x[0], str) for x in v) else None


def record(P, R):
    ci = P.cls('parameter.LivePoint')
    fi = P.method(ci, 'asnparray')
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    G = 'LivePoint.asnparray'
    for nm in NAMES:
        W = World(P, native_lp=False, hooks={'purecalls': True})
        R.covers(W.eng)
        me = W.instance(ci)
        st = State()
        st.heap[(me, 'names')] = W.eng.newseq(st, 'list', mk('list', *[s(x) for x in nm]), 'str')
        st.heap[(me, 'dimension')] = num(len(nm))
        outs = W.run(ci, 'asnparray', me, [], st=st)
        m = Model(0, leaf=textleaf(nm, VALUES, 5.5, -0.375))
        want = nm + ['logL', 'logPrior']
        vals = VALUES[:len(nm)] + [5.5, -0.375]
        for o in outs:
            try:
                if not all(m.truth(m.ev(f)) for f in o.facts):
                    continue
                if o.kind != 'return':
                    R.violation('record', G, 'a point of parameters %s cannot be converted' % nm, where)
                    continue
                d = o.state.heap.get((o.value, 'dtype'))
                cols = dtypes(m, d) if d is not None else None
                if cols is None:
                    R.undet('record', G, 'record type of the array', where)
                    continue
                R.verdict(cols == want, 'record', G, 'parameters, logL, logPrior', 'the columns of a point of parameters %s are %s' % (nm, cols), where)
                got = columnvalues(m, W.eng.val(o.state, o.value), cols)
            except Undef as err:
                R.undet('record', G, 'values of the columns: %s' % err, where)
                continue
            if got is None:
                R.undet('record', G, 'values of the columns', where)
                continue
            for c in cols:
                if c in want:
                    R.verdict(got.get(c) == vals[want.index(c)], 'record', G, 'column %s holds its value' % c, 'column %s of a point holds %s' % (c, 'the value of column %s' % want[vals.index(got[c])] if got.get(c) in vals else got.get(c)), where)
            R.count('columns compared', len(cols))


def columnvalues(m, t, cols):
    out = {}
    chain_ = []
    while t.op == 'store':
        chain_.append(t)
        t = t.args[0]
    if t.op == 'fill' and t.args[1].op == 'record':
        out = {c: 0.0 for c in cols}
    elif t.op == 'list' and len(t.args) == 1:
        v = m.ev(t.args[0])
        if not isinstance(v, list) or len(v) != len(cols):
            return None
        out = dict(zip(cols, [m.num(x) for x in v]))
    else:
        return None
    for c in reversed(chain_):
        k = m.ev(c.args[1])
        if isinstance(k, str):
            out[k] = m.num(m.ev(c.args[2]))
        elif k in (0, [0]):
            v = m.ev(c.args[2])
            if not isinstance(v, list) or len(v) != len(cols):
                return None
            out = dict(zip(cols, [m.num(x) for x in v]))
        else:
            return None
    return out


ALL, UNNAMED = 'all', 'unnamed'


class Schema(object):
    """columns of a table term"""

    def __init__(self, eng, o):
        self.eng = eng
        self.o = o
        self.appends = {}
        self.read = {}
        for e, l in walk(o.trace):
            if e.kind == 'mut' and e.a['name'] in ('append', 'extend', 'insert', 'iadd', 'appendleft'):
                self.appends.setdefault(e.a['obj'], []).append(e)
            if e.kind == 'readtable':
                k = e.a['kwargs'].get('names', NONE)
                self.read[e.a['value']] = ALL if k is TRUE else UNNAMED if k in (NONE, FALSE) else None

    def of(self, t, depth=0):
        if depth > 40:
            return None
        f = lambda x: self.of(x, depth + 1)
        if t.op == 'call':
            if t.args[0] == 'asnparray':
                return ALL
            if t.args[0] in ('stack', 'concatenate', 'hstack', 'sort', 'ravel', 'copy', 'atleast_1d', 'unique', 'array', 'squeeze', 'mask', 'take'):
                return f(t.args[1])
            if t.args[0] == 'resample_mcmc_chain':
                return f(t.args[1])
            return None
        if t.op == 'readtable':
            if t not in self.read and self.read and len(set(self.read.values())) == 1:
                return list(self.read.values())[0]          # the same reads, renamed by a comprehension
            return self.read.get(t)
        if t.op in ('mask', 'take', 'slice', 'reversed', 'perm') or (t.op == 'c0' and t.args[0].op in ('slice', 'mask', 'take')):
            return f(t.args[0])
        if t.op == 'map':
            return f(t.args[1])
        if t.op == 'filtermap':
            return f(t.args[2])
        if t.op in ('list', 'cat', 'tuple'):
            r = [f(x) for x in t.args]
            r = [x for x in r if x != 'empty']
            return 'empty' if not r else r[0] if all(x == r[0] for x in r) else None
        if t.op == 'phi' and t.args[0] == '$c':
            r = []
            for es in self.appends.values():
                mine = any(subfind(e.a['before'], t) for e in es)
                if mine:
                    for e in es:
                        a = e.a.get('vals') or e.a['args']
                        x = a[0] if e.a['name'] != 'insert' else a[-1]
                        r.append(f(x))
            if r and any(x == UNNAMED for x in r):
                return UNNAMED
            return ALL if r and all(x == ALL for x in r) else None
        if t.op == 'fld':
            if t.args[1] in ('nested_samples', 'posterior_samples', 'prior_samples', 'mcmc_samples'):
                return ALL
            return None
        if t.op == 'idx':
            if t.args[1].op in ('num', 'uid', 'bv', 'poly', 'iota', 'phi'):
                return f(t.args[0])
            return None
        if t.op == 'ite':
            r = [f(x) for x in t.args[1:] if x is not NONE]
            return r[0] if r and all(x == r[0] for x in r) else None
        return None


def subfind(t, x):
    return t is x or contains(t, x)


def points_in(t):
    return any(x.op == 'call' and x.args[0] == 'asnparray' or x.op == 'readtable' for x in subterms(t))


def tables(P, R):
    F = Folder(P)
    nm = NAMES[0]
    seen = {}
    for G, eng, outs, binds in entries(P, R, F):
        R.covers(eng)
        for o in outs:
            K = None
            files = {}
            for e, l in walk(o.trace):
                if e.kind == 'savetxt':
                    K = K or Schema(eng, o)
                    table(R, P, G, e, K, nm, seen)
    R.count('tables saved', len(seen))
    for ci, W, st, m0 in F.ctors:
        if ci.qual == P.cls(NS).qual:
            headerfile(P, R, F, W, st, m0, nm)


def table(R, P, G, e, K, nm, seen):
    sch = K.of(e.a['data'])
    kw = e.a['kwargs']
    if sch is None and 'header' not in kw and not points_in(e.a['data']) and not any(points_in(x) for x in kw.values() if is_term(x)):
        return
    key = (e.loc, sch, kw.get('header'))
    where = e.loc
    site = G
    if sch is None:
        seen[key] = None
        R.undet('tables', site, 'columns of the table %s' % show(e.a['data'])[:80], where)
        return
    seen[key] = True
    want = nm + ['logL', 'logPrior']
    h = kw.get('header')
    if sch == 'empty':
        return
    if h is None or h is s(''):
        R.violation('tables', site, 'the table is saved without a header', where)
        return

    def more(m, t):
        if t.op == 'fld' and t.args[1] == 'names' and t.args[0].op == 'fld' and t.args[0].args[1] == 'dtype':
            c = K.of(t.args[0].args[0])
            if c == ALL:
                return want
            raise Undef('columns')
        if t.op == 'fld' and t.args[1] == 'names' and t.args[0].op == 'call':
            return None
        if t.op == 'call' and 'header' in str(t.args[0]):
            return '\t'.join(nm) + '\tlogL'
        return None
    m = Model(0, leaf=textleaf(nm, VALUES, 5.5, -0.375, more))
    if sch == UNNAMED:
        R.violation('tables', site, 'the columns of a table read without names are saved', where)
        return
    try:
        v = text(m, h)
        d = kw.get('delimiter')
        d = ' ' if d is None or d is NONE else text(m, d)
    except Undef:
        R.undet('tables', site, 'header %s' % show(h)[:80], where)
        return
    f = v.split() if not d.strip() else [x.strip() for x in v.split(d)]
    R.verdict(f == want, 'tables', site, 'the header names the columns', 'the header names the columns %s, the rows hold %s' % (f, want), where)


def headerfile(P, R, F, W, st, m0, nm):
    leaf0 = m0.leaf

    def more(m, t):
        return None
    m = Model(0, bind=dict(m0.bind), leaf=textleaf(nm, VALUES, 5.5, -0.375, lambda mm, t: '\t'.join(nm) + '\tlogL' if t.op == 'call' and 'header' in str(t.args[0]) else None))
    try:
        files = {}
        wh = {}
        for e, m2 in unroll([x for x in st.trace if x.kind != 'loop'], m):
            if e.kind == 'write':
                files.setdefault(e.a['file'], []).append((e, m2))
        for f, ws in files.items():
            path = m.ev(ws[0][0].a['path'])
            if not isinstance(path, str) or 'header' not in path:
                continue
            buf = ''.join(text(m2, e.a['data']) for e, m2 in ws)
            R.verdict(buf.lstrip('#').split() == nm + ['logL'], 'headerfile', 'NestedSampler.__init__', 'the header file names the columns of the chain', 'the header file names the columns %s' % buf.split(), ws[0][0].loc)
    except Undef as err:
        R.undet('headerfile', 'NestedSampler.__init__', 'text of the header file: %s' % err, '')
