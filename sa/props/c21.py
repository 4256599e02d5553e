"""C21: samples that were collected are returned and saved, never lost."""
import fnmatch
import posixpath
from .common import *
from .c19 import Folder, OUT, RAW
from ..engine import State

EXPLANATION = ('Every accessor is executed symbolically; its paths are then run over small folders (with and without sample files of workers) and over every combination of kept samples, prior sampling and file name: what is saved must be the table that is returned, '
               'every sample file of a worker must be read before it is removed and its rows must be in the table, and kept samples must be returned when there are no files. CPNest.run is executed for every verbosity and mode, its fields must hold what the accessors return. '
               'The tables of the samplers must hold every point of the chain they save.')
TECHNIQUE = 'static analysis: symbolic execution of the accessors, interpretation of each path over folder contents (read-before-remove typestate, data flow of rows into the returned table)'
C, S = 'cpnest/cpnest.py', 'cpnest/sampler.py'
FILES = list(RAW) + ['posterior.dat', 'header.txt', 'cpnest.log', 'nested_sampler_resume.pkl']
PR = "                prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))\n                os.remove(os.path.join(self.NS.output_folder,file))\n"
MC = "                mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))\n                os.remove(os.path.join(self.NS.output_folder,file))\n"
MUTANTS = [
    (C, "                for s in self.NS.nested_samples]", "                for s in self.NS.nested_samples[:-1]]"),
    (C, "                for s in self.NS.nested_samples]", "                for s in self.NS.nested_samples[1:]]"),
    (C, "                self.nested_samples.ravel(),\n", "                self.nested_samples.ravel()[::-1],\n"),
    (C, "                posterior_samples.ravel(),\n", "                np.array(draw_posterior_many([nested_samples],[self.NS.Nlive],verbose=self.verbose)).ravel(),\n"),
    (C, "                posterior_samples.ravel(),\n", "                nested_samples.ravel(),\n"),
    (C, "                posterior_samples.ravel(),\n", "                posterior_samples.ravel()[:self.NS.Nlive],\n"),
    (C, PR, PR.replace('prior_samples.append(', '(').replace('                os.remove', '                os.remove')),
    (C, PR, ''.join(reversed(PR.splitlines(True)))),
    (C, PR, PR + "                break\n"),
    (C, PR, "                prior_samples = [np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)]\n                os.remove(os.path.join(self.NS.output_folder,file))\n"),
    (C, "            if re.fullmatch(r'prior_samples_[0-9]+\\.dat', file):", "            if re.fullmatch(r'prior_samples_[0-9]\\.dat', file):"),
    (C, "            if re.fullmatch(r'prior_samples_[0-9]+\\.dat', file):\n                prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))\n", "            if re.fullmatch(r'(prior_samples|mcmc_chain)_[0-9]+\\.dat', file):\n                if file.startswith('prior'): prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))\n"),
    (C, "        if not prior_samples and self.prior_samples is not None:\n            # the samplers' files were already read in\n            prior_samples.append(self.prior_samples)\n        elif", "        if"),
    (C, "        prior_samples = stack_arrays([p for p in prior_samples])\n", "        prior_samples = stack_arrays([p for p in prior_samples[:1]])\n"),
    (C, "        prior_samples = stack_arrays([p for p in prior_samples])\n        if filename:\n", "        prior_samples = stack_arrays([p for p in prior_samples])\n        if filename and self.verbose>=3:\n"),
    (C, MC, ''.join(reversed(MC.splitlines(True)))),
    (C, "        if not mcmc_samples and self.mcmc_samples is not None:\n            # the samplers' files were already read in\n            mcmc_samples.append(self.mcmc_samples)\n", ""),
    (C, "        mcmc_samples = stack_arrays([p for p in mcmc_samples])\n", "        mcmc_samples = stack_arrays([p for p in mcmc_samples[1:]])\n"),
    (C, "                       mcmc_samples.ravel(),\n", "                       mcmc_samples.ravel()[1:],\n"),
    (C, "            if self.verbose>=3 and not self.NS.prior_sampling:\n                self.mcmc_samples = self.get_mcmc_samples(filename='mcmc.dat')\n", "            if self.verbose>=3 and not self.NS.prior_sampling:\n                self.mcmc_samples = self.get_mcmc_samples(filename='mcmc.dat')\n                self.prior_samples = None\n"),
    (C, "            if self.verbose>=3 or self.NS.prior_sampling:", "            if self.verbose>3 or self.NS.prior_sampling:"),
    (C, "            if self.verbose>=3 or self.NS.prior_sampling:", "            if self.verbose>=3 and not self.NS.prior_sampling:"),
    (C, "            if self.verbose>=3 and not self.NS.prior_sampling:\n                self.mcmc_samples = self.get_mcmc_samples(filename='mcmc.dat')\n", "            if self.verbose>=3 and not self.NS.prior_sampling:\n                self.get_mcmc_samples(filename='mcmc.dat')\n"),
    (C, "                self.posterior_samples = self.get_posterior_samples()", "                self.get_posterior_samples()"),
    (C, "            if self.verbose>=2:\n                self.plot(corner = False)", "            if self.verbose>=2:\n                self.posterior_samples = self.get_nested_samples()\n                self.plot(corner = False)"),
    (S, "for j in range(0,len(prior_samples))]", "for j in range(1,len(prior_samples))]"),
    (S, "for j in range(0,len(self.samples))]", "for j in range(0,len(self.samples)-1)]"),
    (S, "for j in range(0,len(self.samples))]", "for j in range(0,len(self.samples),2)]"),
    (S, "'prior_samples_%s.dat'%os.getpid()),\n", "'prior_%s.dat'%os.getpid()),\n"),
    (S, "'mcmc_chain_%s.dat'%os.getpid()),\n", "'mcmc_samples_%s.dat'%os.getpid()),\n"),
]
GETTERS = {'get_nested_samples': 'nested_samples', 'get_posterior_samples': 'posterior_samples', 'get_prior_samples': 'prior_samples', 'get_mcmc_samples': 'mcmc_samples'}


def rowsof(f):
    """one of the two processes has saved a single sample"""
    return 1 if '87' in posixpath.basename(f) else 2


class Rows(object):
    """interpretation of tables as lists of rows that remember where they come from"""

    def __init__(self, F, eng, files, kept, level=None):
        self.level = level
        self.F, self.eng, self.files, self.kept = F, eng, files, kept
        self.base = F.leaf(eng)

    def leaf(self, m, t):
        env = m.env
        if t.op == 'listdir':
            p = m.ev(t.args[0], env)
            if isinstance(p, str) and p and posixpath.normpath(p) != posixpath.normpath(OUT) and '\u00ab' not in p:
                return []
            return list(self.files)
        if t.op == 'glob':
            p = m.ev(t.args[0], env)
            if not isinstance(p, str):
                raise Undef('glob')
            return [OUT + f for f in self.files if fnmatch.fnmatchcase(posixpath.normpath(OUT + f), posixpath.normpath(p))]
        if t.op == 'idx' and t.args[0].op not in ('fld', 'sym', 'inst'):
            c = m.ev(t.args[0], env)
            i = m.ev(t.args[1], env)
            if isinstance(c, list) and c and isinstance(c[0], str) and isinstance(i, (int, float)) and -len(c) <= i < len(c):
                return c[int(i)]
            m.env = env
        if t.op == 'readtable':
            p = m.ev(t.args[0], env)
            if not isinstance(p, str):
                raise Undef('file')
            f = posixpath.normpath(p)
            return [Obj(('row', f, i)) for i in range(rowsof(f))]
        if t.op == 'call':
            f = t.args[0]
            if f in ('stack', 'concatenate', 'hstack'):
                out = []
                for x in m.seq(m.ev(t.args[1], env)):
                    out.extend(x if isinstance(x, list) else [x])
                return out
            if f == 'asnparray':
                return self.rec(m, t.args[1], env)
            if f == 'resample_mcmc_chain':
                return [Obj(('resampled', x.key)) if isinstance(x, Obj) else x for x in m.seq(m.ev(t.args[1], env))]
            if f in ('ravel', 'copy', 'array', 'atleast_1d'):
                return m.ev(t.args[1], env)
        if t.op == 'fld' and t.args[1] in self.kept and self.eng.classinfo(t.args[0]) is not None and self.eng.classinfo(t.args[0]).name == 'CPNest':
            v = self.kept[t.args[1]]
            return v if v is not None else NOTHING
        if t.op == 'fld' and t.args[1] in ('logL', 'logP') and self.level is not None:
            return self.level
        m.env = env
        r = self.base(m, t)
        return r

    def rec(self, m, p, env):
        if p.op == 'lp':
            p = p.args[-1]
        if p.op == 'idx':
            k = m.ev(p, env)
            return Obj(('rec', k.key if isinstance(k, Obj) else m.key(k)))
        v = m.ev(p, env)
        return Obj(('rec', m.key(v)))


class Nothing(object):
    """None as a field value"""

    def __repr__(self):
        return 'None'


NOTHING = None


def interpret(P, F, W, o, files, kept, bind, level=None):
    """events with their model, the final model; None if the path is not the one taken"""
    X = Rows(F, W.eng, files, kept, level)
    nones = {}
    m = Model(3, bind=dict(bind), leaf=X.leaf, default_len=3)
    evs = []
    for e, m2 in unroll(o.trace, m):
        evs.append((e, m2))
    for f in o.facts:
        if not m.truth(m.ev(f)):
            return None
    return evs, m


def check(P, R, tier):
    with R.guard('accessor', 'CPNest'):
        F = Folder(P)
        writers = sampler_files(P, R, F)
        for g in GETTERS:
            with R.guard('accessor', 'CPNest.' + g):
                accessor(P, R, F, g, writers)
    with R.guard('run', 'CPNest.run'):
        run(P, R)
    for ci in concrete_samplers(P):
        with R.guard('grows', ci.name):
            grows(P, R, ci)


def grows(P, R, ci):
    """at full verbosity a sampler never drops a point of the chain it is going to save"""
    for c in reversed(ci.mro()):
        if isinstance(c, str):
            continue
        for meth, fi in sorted(c.methods.items()):
            a = fi.node.args
            if meth.startswith('__') or meth in ('reset', 'produce_sample', '_produce_sample', 'yield_sample', 'resume', 'checkpoint') or len(a.args) - len(a.defaults) != 1 \
                    or ci.find(meth)[1] is not fi or a.vararg or a.kwarg:
                continue
            G = '%s.%s' % (ci.name, meth)
            with R.guard('grows', G):
                W = World(P, hooks={'purecalls': True}, stubs={'nest2pos.acl': marker('acl')})
                R.covers(W.eng)
                me = W.instance(ci)
                kept(R, W, G, me, W.run(ci, meth, me), '%s:%d' % (fi.module.relpath, fi.node.lineno))
    G = ci.name + '.produce_sample'
    with R.guard('grows', G):
        K = Worker(P, ci)
        kept(R, K.W, G, K.me, [o for o in K.outs if not any(e.a.get('name') == 'reset' for e, l in events(o.trace, 'mark'))], '')
    G = ci.name + '.yield_sample'
    with R.guard('grows', G):
        M = Move(P, ci.name)
        for W, o in M.returns():
            kept(R, W, G, None, [o], '')


def kept(R, W, G, me, outs, where):
    f = lambda t: t.op == 'fld' and t.args[1] in ('samples', 'verbose', 'sample_prior', 'maxmcmc', 'poolsize')
    c0 = lambda t: t.op == 'c0' and f(t.args[0])
    chain = [Obj(('chain', i)) for i in range(40)]

    def model():
        def leaf(m, t):
            if c0(t):
                t = t.args[0]
            if f(t):
                return {'samples': list(chain), 'verbose': 3, 'sample_prior': False, 'maxmcmc': 2, 'poolsize': 8}[t.args[1]]
            return None
        return Model(1, bind={}, leaf=leaf)

    def possible(facts):
        for x in facts:
            if any(y.op == 'fld' and y.args[1] in ('verbose', 'sample_prior') for y in subterms(x)):
                try:
                    m = model()
                    if not m.truth(m.ev(x)):
                        return False
                except Undef:
                    pass
        return True

    verdict, why = True, ''
    for o in outs:
        if not possible(o.facts):
            continue
        for e, l in events(o.trace, 'mut'):
            if not (e.obj is not None and e.obj.op == 'fld' and e.obj.args[1] == 'samples'):
                continue
            op = mut_op(e)
            k = op[0] if op else None
            if k in ('app', 'ext', 'ins') or not possible(e.facts):
                continue
            if k in ('delfront', 'delback'):
                verdict, why, where = False, 'points are removed from the chain', e.loc
            elif verdict:
                verdict, why, where = None, 'a change of the chain is not understood', e.loc
        if me is None or not is_term(me):
            continue
        v = W.eng.val(o.state, W.eng.getfield(o.state, me, 'samples'))
        v = W.eng.val(o.state, W.eng.seqcontent(o.state, v)) if v.op == 'ref' else v
        if v.op == 'c0':        # the content it had
            continue
        if any(x.op in ('havoc', 'phi') for x in subterms(v)):
            continue        # grown in a loop: its changes were judged above
        try:
            m = model()
            got = m.seq(m.ev(v))
            if [x for x in got if x in chain][:40] != chain:
                verdict, why = False, 'of 40 points of the chain %d are left when it returns' % len([x for x in got if x in chain])
        except Undef as e:
            if verdict:
                verdict, why = None, 'the chain afterwards is %s (%s)' % (show(v)[:100], e)
    R.verdict(verdict, 'grows', G, 'the chain only grows', 'at full verbosity, ' + why + ': they are missing from the samples that are saved', where)


def resample(eng, st, fi, args, kwargs, node):
    v = mk('call', 'resample_mcmc_chain', eng.val(st, eng.seqcontent(st, args[0])))
    eng.settype(v, 'table')
    return [(st, v)]


def accessor(P, R, F, g, writers):
    ci = P.cls('cpnest.CPNest')
    fi = P.method(ci, g)
    G = 'CPNest.' + g
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    stubs = {'resample_mcmc_chain': resample, 'nest2pos.resample_mcmc_chain': resample} if g != 'get_posterior_samples' else {}
    W = World(P, hooks={'purecalls': True}, stubs=stubs)
    R.covers(W.eng)
    me = W.instance(ci)
    fn = W.param('filename', 'str')
    outs = W.run(ci, g, me, [fn])
    st0 = State()
    ns = W.field(st0, me, 'NS')
    prior = W.field(st0, ns, 'prior_sampling')
    table = g in ('get_nested_samples', 'get_posterior_samples')
    if table:
        saved(R, W, G, outs, fn, where)
    if g == 'get_posterior_samples':
        return
    mine = [w for w in writers if w.startswith({'get_prior_samples': 'prior', 'get_mcmc_samples': 'mcmc'}.get(g, '?'))] if not table else []
    if not table and not mine:
        R.undet('files', G, 'which files the samplers write', where)
    files = sorted(set(FILES) | set(writers))
    for fname in ('given.dat', None):
        for there in ((True, False) if not table else (True,)):
            for keep in ((True, False) if not table else (False,)):
                for pr in (True, False):
                    kept = {f: [Obj(('kept', f, i)) for i in range(2)] if keep else None for f in GETTERS.values()}
                    bind = {prior: pr, fn: fname}
                    for f in GETTERS.values():
                        if kept[f] is None:
                            bind[mk('fld', me, f)] = None
                    for level in (None, 0.0, -math.inf, -7.5) if g == 'get_nested_samples' else (None,):
                        scenario(P, R, F, W, G, g, outs, fname, files if there else FILES[len(RAW):], kept, bind, mine if there else [], keep, pr, where, ns, level)


def saved(R, W, G, outs, fn, where):
    """the term that is saved is the term that is returned"""
    for o in returns(outs):
        v = W.eng.val(o.state, W.eng.seqcontent(o.state, o.value))
        sv = [e for e, l in events(o.trace, 'savetxt') if contains(e.a['path'], fn)]
        if not sv:
            given = all(Model(0, bind={fn: 'given.dat'}).truth(Model(0, bind={fn: 'given.dat'}).ev(f)) for f in o.facts if f.op in ('truthy', 'not', 'eq') and contains(f, fn))
            if given:
                R.violation('saved', G, 'a file name is given, but the table is not saved', where)
            continue
        for e in sv[-1:]:
            r = True if e.a['data'] is v else cmp(e.a['data'], v)
            if r is True and cut(e.a['data'], v):
                r = False
            if r is not True:
                q = strip(e.a['data'])
                r2 = True if q is strip(v) else r
                if r2 is not True and different(q, strip(v)) is False:
                    r2 = False
                r = r2
            R.verdict(r, 'saved', G, 'the file holds the table that is returned', 'the table saved is not the one returned: %s' % show(e.a['data'])[:80], e.loc)


def cut(a, b):
    """a holds at most a fixed number of the rows of b"""
    a, b = strip(a), strip(b)
    if a.op != 'slice' or a is b or b not in tables_of(a):
        return False
    lo, hi = a.args[1], a.args[2]
    # the last so many, or the first so many
    return (lo.op == 'num' and lo.args[0] != 0) or hi.op == 'num'


def strip(t):
    while t.op == 'call' and t.args[0] in ('ravel', 'copy', 'array', 'atleast_1d', 'squeeze'):
        t = t.args[1]
    return t


def tables_of(t):
    """the table and the ones it is selected from"""
    out = [t]
    while (t.op in ('mask', 'take', 'slice', 'reversed', 'perm') or t.op == 'call' and t.args[0] in ('ravel', 'copy', 'array', 'atleast_1d', 'squeeze', 'mask', 'take', 'sort')):
        t = t.args[1] if t.op == 'call' else t.args[0]
        out.append(t)
    return out


def different(a, b):
    """two tables that differ: another selection, order, or draw"""
    if a in tables_of(b) or b in tables_of(a):
        return False
    if draws(a) and draws(b) and not draws(a) & draws(b):
        return False            # two random selections
    return None


def draws(t):
    return {x for x in subterms(t) if x.op in ('draw', 'draws')}


def scenario(P, R, F, W, G, g, outs, fname, files, kept, bind, mine, keep, pr, where, ns, level=None):
    what = 'with%s file name, %s sample files, %skept samples%s' % ('' if fname else 'out', 'the' if mine else 'no', '' if keep else 'no ', ', prior sampling' if pr else '') + ('' if level is None else ', log-likelihood and log-prior %s' % level)
    hit = None
    try:
        for o in outs:
            try:
                r = interpret(P, F, W, o, files, kept, bind, level)
            except Undef:
                if o.kind == 'raise':
                    continue
                raise
            if r is not None:
                hit = (o,) + r
                break
        if hit is None:
            raise Undef('no path')
        o, evs, m = hit
        if o.kind != 'return':
            raise Undef('it raises %s' % show(o.value)[:30])
        R.count('scenarios interpreted')
        rt = W.eng.val(o.state, W.eng.seqcontent(o.state, o.value))
        val = m.ev(rt)
        rows = None if val is None else m.seq(val)
        read, lost = [], []
        for e, m2 in evs:
            if e.kind == 'readtable':
                read.append(posixpath.normpath(m2.ev(e.a['path'])))
            if e.kind == 'remove':
                p = m2.ev(e.a['path'])
                if not isinstance(p, str):
                    raise Undef('file removed')
                p = posixpath.normpath(p)
                R.verdict(p in read, 'order', G, 'read before it is removed', 'the file %s is removed before it is read' % posixpath.basename(p), e.loc)
                if p in read:
                    R.verdict(all(any(q(x, p, i) for x in rows or ()) for i in range(rowsof(p))), 'lost', G, 'its samples are in the table', 'the file %s is removed, but its samples are not in the table that is returned' % posixpath.basename(p), e.loc)
        for f in mine:
            p = posixpath.normpath(OUT + f)
            R.verdict(rows is not None and all(any(q(x, p, i) for x in rows) for i in range(rowsof(p))), 'complete', G, 'the samples of every sampler are returned', 'the samples of a sampler in %s are not returned (%s)' % (f, what), where)
        if g == 'get_nested_samples':
            want = [Obj(('rec', x.key)) for x in m.seq(m.ev(W.content(State(), W.field(State(), ns, 'nested_samples'))))]
            R.verdict(rows == want, 'complete', G, 'every nested sample in order', 'the table holds %d of %d nested samples' % (len(rows or ()), len(want)), where)
        elif not mine and keep:
            k = kept[GETTERS[g]]
            R.verdict(rows is not None and all(x in rows for x in k), 'kept', G, 'the samples that were read in before are returned', 'the samples read in before are not returned any more when their files are gone (%s)' % what, where)
        data = []
        for e, m2 in evs:
            if e.kind == 'savetxt':
                p = m2.ev(e.a['path'])
                if isinstance(p, str) and p.endswith('given.dat'):
                    data.append((e, m2.seq(m2.ev(e.a['data']))))
        if fname and rows is not None:
            R.verdict(bool(data), 'saved', G, 'the table is saved', 'a file name is given, but the table is not saved (%s)' % what, where)
        for e, d in data[-1:]:
            R.verdict(rows is not None and d == rows and not cut(e.a['data'], rt), 'saved', G, 'the file holds the table that is returned', 'the file does not hold the table that is returned: %d rows of %d (%s)' % (len(d), len(rows or ()), what), e.loc)
    except Undef as u:
        R.undet('accessor', G, '%s: %s' % (what, u), where)


def q(x, p, i):
    """the row is row i of file p (resampling keeps some of them)"""
    if not isinstance(x, Obj):
        return False
    k = x.key
    if k[0] == 'resampled':
        k = k[1]
    return k[0] == 'row' and k[1] == p and k[2] == i


def sampler_files(P, R, F):
    """names of the files samplers write, and their content"""
    out = set()
    for ci in concrete_samplers(P):
        for G, K in ((ci.name + '.produce_sample', Worker(P, ci)), (ci.name + '.reset', Reset(P, ci))):
            R.covers(K.W.eng)
            done = set()
            for o in K.outs:
                for e, l in events(o.trace, 'savetxt'):
                    if e.loc in done:
                        continue
                    done.add(e.loc)
                    vals = {}
                    for pid in (4321, 87):
                        m = Model(0, bind={}, leaf=withpid(F.leaf(K.W.eng), pid))
                        try:
                            p = m.ev(e.a['path'])
                        except Undef:
                            p = None
                        if isinstance(p, str):
                            out.add(posixpath.basename(p))
                    whole(R, K.W, G, e)
    return sorted(x for x in out if x.endswith('.dat') or '\u00ab' not in x)


def withpid(leaf, pid):
    def f(m, t):
        if t.op == 'atom' and t.args[0] == 'pid':
            return pid
        return leaf(m, t)
    return f


def whole(R, W, G, e):
    """a saved chain holds every point of the list it is made from"""
    d = strip(e.a['data'])
    pts = [x for x in subterms(d) if x.op == 'call' and x.args[0] == 'asnparray']
    bases = set()
    for x in pts:
        y = x.args[1]
        y = y.args[-1] if y.op == 'lp' else y
        if y.op == 'idx':
            b = y.args[0]
            while b.op in ('slice', 'reversed', 'perm'):
                b = b.args[0]
            bases.add(b)
    if len(bases) != 1:
        R.undet('chain', G, 'points of the chain that is saved', e.loc)
        return
    b = bases.pop()

    def leaf(m, t):
        if t.op == 'call' and t.args[0] in ('stack', 'concatenate', 'hstack'):
            return m.ev(t.args[1], m.env)
        if t.op == 'call' and t.args[0] == 'asnparray':
            env = m.env
            y = t.args[1]
            y = y.args[-1] if y.op == 'lp' else y
            return Obj(('rec', m.key(m.ev(y, env))))
        return None
    for n in (1, 2, 5):
        m = Model(0, leaf=leaf, bind={b: [Obj(('p', i)) for i in range(n)]})
        try:
            got = m.seq(m.ev(d))
        except Undef as u:
            R.undet('chain', G, 'points of the chain that is saved: %s' % u, e.loc)
            return
        want = {('rec', ('p', i)) for i in range(n)}
        miss = want - {x.key for x in got if isinstance(x, Obj)}
        R.verdict(not miss, 'chain', G, 'every point of the chain', '%d of %d points of the chain are not saved' % (len(miss), n), e.loc)


def run(P, R):
    ci = P.cls('cpnest.CPNest')
    fi = P.method(ci, 'run')
    where = '%s:%d' % (fi.module.relpath, fi.node.lineno)
    G = 'CPNest.run'
    keeps = {g: keeps_itself(P, ci, g) for g in GETTERS}
    Y = Run(P, stubs={'CPNest.' + g: again(g, keeps[g]) for g in ('get_prior_samples', 'get_mcmc_samples') if P.method(ci, g) is not None})
    R.covers(Y.W.eng)
    for verbose in (0, 1, 2, 3, 4):
        for prior in (True, False):
            m = Model(1, bind={Y.verbose: verbose, Y.prior: prior})
            hits = []
            for o in Y.rets:
                try:
                    if all(m.truth(m.ev(f)) for f in o.facts):
                        hits.append(o)
                except Undef:
                    R.undet('run', G, 'condition of a path', where)
            for o in hits:
                R.count('runs interpreted')
                for g, f in sorted(GETTERS.items()):
                    if g == 'get_prior_samples' and not (verbose >= 3 or prior) or g == 'get_mcmc_samples' and not (verbose >= 3 and not prior):
                        continue
                    called = marks(o.trace, g)
                    v = Y.W.eng.getfield(o.state, Y.me, f)
                    case = 'verbosity %d%s' % (verbose, ', prior sampling' if prior else '')
                    got = v.op == 'sym' and str(v.args[0]) == 'got_' + g
                    if got:
                        R.ok('run', G, '%s holds what %s returns' % (f, g), where)
                    elif v is NONE:
                        R.violation('run', G, '%s is None after a run that collected them (%s)' % (f, case), where)
                    elif v.op == 'sym' and str(v.args[0]).startswith('got_'):
                        R.violation('run', G, '%s holds what %s returns (%s)' % (f, str(v.args[0])[4:], case), where)
                    elif v.op == 'fld' and v.args[1] == f:
                        if called and keeps[g]:
                            R.ok('run', G, '%s stores its table' % g, where)
                        else:
                            R.violation('run', G, '%s is not set by a run that collected them (%s)' % (f, case), where)
                    else:
                        R.undet('run', G, '%s is %s (%s)' % (f, show(v)[:40], case), where)


def again(g, keeps):
    """the sample files are gone after the first call: what it returned is only found again where it was kept"""
    def h(eng, st, fi, args, kwargs, node):
        before = [e for e, l in marks(st.trace, g)]
        eng.event(st, 'mark', node, name=g, args=tuple(eng.val(st, a) for a in args[1:]), kwargs=dict(kwargs))
        if not before:
            return [(st, fresh('got_' + g))]
        v = eng.getfield(st, args[0], GETTERS[g])
        if keeps or v.op == 'sym' and str(v.args[0]).startswith('got_'):
            return [(st, v if not keeps else fresh('got_' + g))]
        if v.op == 'fld' or v is NONE:
            return [(st, NONE)]
        return [(st, fresh('unknown_' + g))]
    return h


def keeps_itself(P, ci, g):
    """the accessor stores the table it returns"""
    try:
        W = World(P, hooks={'purecalls': True}, stubs={'resample_mcmc_chain': resample, 'nest2pos.resample_mcmc_chain': resample})
        me = W.instance(ci)
        outs = returns(W.run(ci, g, me, [W.param('filename', 'str')]))
        return bool(outs) and all(W.eng.getfield(o.state, me, GETTERS[g]) is o.value or o.value is NONE for o in outs)
    except Exception:
        return False
