"""C19: files of a run stay in its output folder."""
import ast
import fnmatch
import posixpath
import re
from .common import *
from ..engine import State

EXPLANATION = ('Every call in the package that creates, overwrites, renames or deletes a file is enumerated from the syntax trees; the entry points of a run (construction, run, accessors, plots, nested-sampling loop, workers, checkpoints) are executed symbolically and the path of every file '
               'operation is evaluated for an output folder with blanks and shell characters: it must lie directly in that folder. Deletions are evaluated for a set of file names, of the user and of the workers. Calls that hand a string to a shell are reported from the syntax tree.')
TECHNIQUE = 'static analysis: effect analysis of file operations (call-site enumeration, symbolic path terms, evaluation of deletion guards over file-name classes), shell-call lint'
C, S, N, PL, PR, UT = 'cpnest/cpnest.py', 'cpnest/sampler.py', 'cpnest/NestedSampling.py', 'cpnest/plot.py', 'cpnest/proposal.py', 'cpnest/utils.py'
MUTANTS = [
    (C, "os.remove(os.path.join(self.NS.output_folder,file))", "os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))"),
    (C, "re.fullmatch(r'prior_samples_[0-9]+\\.dat', file)", "'prior_samples' in file"),
    (C, "re.fullmatch(r'mcmc_chain_[0-9]+\\.dat', file)", "file.startswith('mcmc_chain')"),
    (C, "re.fullmatch(r'mcmc_chain_[0-9]+\\.dat', file)", "file.endswith('.dat')"),
    (C, "            if re.fullmatch(r'mcmc_chain_[0-9]+\\.dat', file):\n                mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))\n                os.remove",
        "            if re.fullmatch(r'mcmc_chain_[0-9]+\\.dat', file):\n                mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))\n            os.remove"),
    (C, "                os.remove(os.path.join(self.NS.output_folder,file))", "                os.remove(file)"),
    (C, "            np.savetxt(os.path.join(\n                self.NS.output_folder, filename),\n                posterior_samples.ravel(),", "            np.savetxt(filename,\n                posterior_samples.ravel(),"),
    (C, "LogFile(os.path.join(self.output, 'cpnest.log'),", "LogFile('cpnest.log',"),
    (C, "filename = os.path.join(self.output,'posterior_{0}.pdf'.format(n))", "filename = 'posterior_{0}.pdf'.format(n)"),
    (C, "filename=os.path.join(self.output,'nschain_{0}.pdf'.format(n))", "filename=None"),
    (C, "filename=os.path.join(self.output, 'insertion_indices.pdf')", "filename=os.path.join(self.output, os.pardir, 'insertion_indices.pdf')"),
    (S, "np.savetxt(os.path.join(self.output,'prior_samples_%s.dat'%os.getpid()),", "np.savetxt('prior_samples_%s.dat'%os.getpid(),"),
    (S, "np.savetxt(os.path.join(self.output,'mcmc_chain_%s.dat'%os.getpid()),", "np.savetxt(self.output.rstrip('/')+'_mcmc_chain_%s.dat'%os.getpid(),"),
    (S, "        tmp_file = self.resume_file + '.tmp'", "        tmp_file = 'sampler.tmp'"),
    (S, "        os.replace(tmp_file, self.resume_file)", "        os.replace(tmp_file, self.resume_file)\n        import shutil\n        shutil.rmtree(self.output)"),
    (N, "header              = open(os.path.join(output,'header.txt'),'w')", "header              = open('header.txt','w')"),
    (N, "evidence_file = os.path.join(output,chain_filename+\"_evidence.txt\")", "evidence_file = chain_filename+\"_evidence.txt\""),
    (N, "output_file   = os.path.join(output,chain_filename)", "output_file   = output.strip('/')+chain_filename"),
    (N, "resume_file  = os.path.join(output,\"nested_sampler_resume.pkl\")", "resume_file  = \"nested_sampler_resume.pkl\""),
    (N, "            np.savetxt(os.path.join(\n                self.output_folder, filename),", "            np.savetxt(os.path.join(\n                './', filename),"),
    (N, "os.path.join(self.output_folder,'logXlogL.png')", "'logXlogL.png'"),
    (PR, "        self.DEBUG          = 0", "        self.DEBUG          = 1"),
    (PR, "            if self.DEBUG: np.savetxt(", "            np.savetxt("),
    (C, "os.makedirs(output, exist_ok=True)", "os.system('mkdir -p {}'.format(output))"),
    (C, "        output = os.path.join(output, '')", "        output = os.path.join(os.path.basename(output), '')"),
    (C, "            nmhs = self.nthreads-nhamiltonian-nslice\n", "            nmhs = self.nthreads-nhamiltonian-nslice\n            if not resume and os.path.exists(os.path.join(output, 'data')): os.remove(os.path.join(output, 'data'))\n"),
]

OUT = "/data/run 1;$(x)/"
EFFECTS = {'open', 'numpy.savetxt', 'numpy.save', 'numpy.savez', 'numpy.savez_compressed', 'matplotlib.pyplot.savefig', 'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.rmdir', 'os.removedirs', 'os.makedirs', 'os.mkdir',
           'os.truncate', 'os.symlink', 'os.link', 'shutil.rmtree', 'shutil.move', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.copytree', 'io.open', 'codecs.open', 'gzip.open', 'h5py.File'}
SHELLS = {'os.system', 'os.popen', 'subprocess.getoutput', 'subprocess.getstatusoutput', 'commands.getoutput'}
MAYBE = {'subprocess.run', 'subprocess.call', 'subprocess.check_call', 'subprocess.check_output', 'subprocess.Popen'}
WRITES = ('savetxt', 'savefig', 'mkdir', 'copyfile', 'replace', 'open', 'remove', 'superinit', 'mark')
RAW = ('prior_samples_1.dat', 'prior_samples_4321.dat', 'mcmc_chain_1.dat', 'mcmc_chain_4321.dat')
OTHERS = ('my_prior_samples.txt', 'prior_samples.txt', 'prior_samples_old.dat', 'old_prior_samples_12.dat', 'prior_samples_12.dat.bak', 'mcmc_chain.txt', 'my_mcmc_chain_1.dat', 'mcmc_chain_best.dat', 'notes.txt', 'prior.dat', 'mcmc.dat', 'posterior.dat',
          'nested_samples.dat', 'header.txt', 'cpnest.log', 'chain_100_1234.txt', 'nested_sampler_resume.pkl', 'sampler_0.pkl', 'data.csv', 'thesis.tex', 'data')


# ---------------------------------------------------------------- syntax: call sites
class Site(object):
    def __init__(self, mod, node, name, fn, cls, dead):
        self.mod, self.node, self.name, self.fn, self.cls, self.dead = mod, node, name, fn, cls, dead
        self.loc = '%s:%d' % (mod.relpath, node.lineno)


class Sites(object):
    """calls with an effect on files or the shell, with the function they are in"""

    def __init__(self, P):
        self.P = P
        self.stored = {}
        self.sites = []
        self.used = set()
        for m in P.modules.values():
            if m.is_cython:
                pass
            for x in ast.walk(m.tree):
                if isinstance(x, (ast.Assign, ast.AnnAssign)):
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        if isinstance(t, ast.Attribute):
                            self.stored.setdefault(t.attr, []).append(x.value)
                        elif isinstance(t, ast.Name):
                            self.stored.setdefault(t.id, []).append(x.value)
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Attribute):
                    self.stored.setdefault(x.target.attr, []).append(None)
        for m in P.modules.values():
            self.visit(m, m.tree.body, None, None, {}, False)

    def false(self, t):
        """the condition is always false"""
        if isinstance(t, ast.Constant):
            return not t.value
        if isinstance(t, ast.Attribute):
            v = self.stored.get(t.attr)
            return bool(v) and all(isinstance(x, ast.Constant) and not x.value for x in v)
        return False

    def name(self, m, f, local):
        d = ast.unparse(f)
        if not re.match(r'^[A-Za-z_][\w.]*$', d):
            return None
        head = d.split('.')[0]
        if head in local:
            r = self.P.resolve_binding(m, local[head])
            rest = d.split('.')[1:]
            if r is None:
                return None
            if r[0] == 'ext':
                return '.'.join([r[1]] + rest)
            return None
        r = self.P.resolve_dotted(m, d)
        if r is None:
            return d if '.' not in d else None
        if r[0] == 'ext':
            return r[1]
        return None

    def visit(self, m, body, cls, fn, local, dead):
        for st in body:
            self.stmt(m, st, cls, fn, local, dead)

    def stmt(self, m, st, cls, fn, local, dead):
        if isinstance(st, ast.ClassDef):
            self.visit(m, st.body, st.name, fn, dict(local), dead)
            return
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            l = dict(local)
            for x in ast.walk(st):
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    from ..frontend import import_bindings
                    l.update(import_bindings(x))
            for d in st.decorator_list:
                self.expr(m, d, cls, fn, l, dead)
            self.visit(m, st.body, cls, fn or st.name, l, dead)
            return
        if isinstance(st, ast.If):
            self.expr(m, st.test, cls, fn, local, dead)
            self.visit(m, st.body, cls, fn, local, dead or self.false(st.test))
            self.visit(m, st.orelse, cls, fn, local, dead)
            return
        for f in ast.iter_fields(st):
            v = f[1]
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, ast.stmt):
                    self.stmt(m, x, cls, fn, local, dead)
                elif isinstance(x, (ast.ExceptHandler, ast.match_case)):
                    self.visit(m, x.body, cls, fn, local, dead)
                elif isinstance(x, ast.AST):
                    self.expr(m, x, cls, fn, local, dead)

    def expr(self, m, e, cls, fn, local, dead):
        for x in ast.walk(e):
            if not dead:
                if isinstance(x, ast.Attribute):
                    self.used.add(x.attr)
                elif isinstance(x, ast.Name):
                    self.used.add(x.id)
            if isinstance(x, ast.Call):
                n = self.name(m, x.func, local)
                if n in EFFECTS or n in SHELLS or n in MAYBE:
                    if n in ('open', 'io.open', 'codecs.open', 'gzip.open') and readonly(x):
                        continue
                    self.sites.append(Site(m, x, n, fn, cls, dead))
                elif isinstance(x.func, ast.Attribute) and x.func.attr in ('savefig', 'tofile', 'write_text', 'write_bytes', 'unlink', 'rmdir') and n is None:
                    self.sites.append(Site(m, x, '.' + x.func.attr, fn, cls, dead))


def readonly(call):
    mode = call.args[1] if len(call.args) > 1 else next((k.value for k in call.keywords if k.arg == 'mode'), None)
    if mode is None:
        return True
    return isinstance(mode, ast.Constant) and isinstance(mode.value, str) and not set(mode.value) & set('wax+')


# ---------------------------------------------------------------- values
class Folder(object):
    """interpretation of fields and parameters that name files"""

    def __init__(self, P):
        self.P = P
        self.known = {}             # class -> {field: string}
        self.derive()

    def derive(self):
        P = self.P
        X = self.X = Init(P)
        m = X.model(0, exists=(), nthreads=2, nhamiltonian=0, nslice=0, output=OUT.rstrip('/'), proposals=None, resume=False, nlive=100, seed=7, verbose=0)
        for o in X.runs(m):
            if o.kind != 'return':
                continue
            self.collect(o.state, X.me, 'CPNest', m, X.W)
            for (b, f), v in list(o.state.heap.items()):
                if b is X.me:
                    ci = X.W.eng.classinfo(X.W.eng.val(o.state, v))
                    if ci is not None and ci.module.name == 'utils':
                        self.collect(o.state, X.W.eng.val(o.state, v), ci.name, m, X.W)
        for ci in [P.cls(NS)] + list(concrete_samplers(P)):
            W = World(P, hooks={'purecalls': True})
            fi = P.method(ci, '__init__')
            args = {a.arg: W.param(a.arg, {'manager': 'cpnest.RunManager', 'model': 'usermodel', 'output': 'str', 'resume_file': 'str'}.get(a.arg, 'number')) for a in fi.node.args.args[1:]}
            bind = {args[k]: v for k, v in (('output', OUT), ('resume_file', OUT + 'sampler_0.pkl'), ('nlive', 100), ('seed', 7)) if k in args}
            m = Model(0, bind=bind, leaf=self.leaf(W.eng))
            for st, me in W.eng.instantiate(State(), ci, [], args, None):
                self.collect(st, me, ci.name, m, W)
                if not hasattr(self, 'ctors'):
                    self.ctors = []
                self.ctors.append((ci, W, st, m))

    def collect(self, st, me, cname, m, W):
        for (b, f), v in list(st.heap.items()):
            if b is me and isinstance(f, str) and not f.startswith('$'):
                try:
                    x = m.ev(W.eng.val(st, v))
                except Undef:
                    continue
                if isinstance(x, str):
                    self.known.setdefault(cname, {})[f] = x

    def leaf(self, eng, names=None):
        def more(m, t):
            env = m.env
            if t.op == 'fld' and isinstance(t.args[1], str):
                ci = eng.classinfo(t.args[0])
                if ci is not None:
                    for c in ci.mro():
                        if not isinstance(c, str):
                            k = self.known.get(c.name, {})
                            if t.args[1] in k:
                                return k[t.args[1]]
                    # attribute of a base class of several samplers
                    for c, k in sorted(self.known.items()):
                        d = self.P.find_class(c) if hasattr(self.P, 'find_class') else None
                        if d is not None and ci in d.mro() and t.args[1] in k:
                            return k[t.args[1]]
            if names is not None and t.op == 'idx' and t.args[0].op in ('listdir', 'glob'):
                return names(m, t)
            if t.op == 'pred' and len(t.args) >= 3:
                r = strpred(m, t)
                if r is not None:
                    return r
            if t.op in ('in', 'notin') and len(t.args) == 2:
                a, b = m.ev(t.args[0], env), m.ev(t.args[1], env)
                if isinstance(a, str) and isinstance(b, str):
                    return (a in b) == (t.op == 'in')
            if t.op == 'call' and isinstance(t.args[0], str) and t.args[0].startswith('str.'):
                vals = [m.ev(x, env) for x in t.args[1:]]
                if isinstance(vals[0], str) and all(isinstance(v, (str, int)) for v in vals):
                    try:
                        return getattr(vals[0], t.args[0][4:])(*vals[1:])
                    except Exception:
                        return None
            if t.op == 'call' and t.args[0] in ('basename', 'dirname', 'splitext0', 'splitext1'):
                v = m.ev(t.args[1], env)
                if isinstance(v, str):
                    return {'basename': posixpath.basename, 'dirname': posixpath.dirname, 'splitext0': lambda p: posixpath.splitext(p)[0], 'splitext1': lambda p: posixpath.splitext(p)[1]}[t.args[0]](v)
            if t.op == 'atom' and t.args[0] == 'pid':
                return 4321
            if t.op in ('idx', 'elem') and is_names(t.args[0]):
                return 'column%d' % t.key
            if t.op in ('sym', 'fld', 'idx', 'elem') and t not in m.bind and eng.typ(t) == 'str':
                return '\u00ab%d\u00bb' % t.key
            return None
        return pathleaf((), more)


def is_names(t):
    return t.op in ('dtnames', 'names') or t.op == 'fld' and t.args[1] == 'names' or show(t).endswith('.names')


def strpred(m, t):
    k, env = t.args[0], m.env
    if k in ('startswith', 'endswith', 'in', 'rematch'):
        vals = [m.ev(x, env) if is_term(x) else x for x in t.args[1:]]
        if k == 'rematch':
            f, pat, x = vals[0], vals[1], vals[2]
            if not (isinstance(pat, str) and isinstance(x, str)):
                return None
            if f.startswith('fn'):
                return fnmatch.fnmatchcase(x, pat)
            try:
                return getattr(re, f)(pat, x) is not None
            except re.error:
                return None
        if not (isinstance(vals[0], str) and isinstance(vals[1], (str, list))):
            return None
        if k == 'in':
            return vals[0] in vals[1]
        return getattr(vals[0], k)(vals[1] if isinstance(vals[1], str) else tuple(vals[1]))
    return None


def paths_of(e):
    """(what, path term) of the writes of an event"""
    if e.kind == 'open':
        mode = e.a.get('mode')
        mv = mode.args[0] if is_term(mode) and mode.op == 'str' else None
        if mv is not None and not set(mv) & set('wax+'):
            return []
        return [('writes', e.a['path'])]
    if e.kind in ('savetxt', 'savefig', 'copyfile'):
        return [('writes', e.a['path'])]
    if e.kind == 'mkdir':
        return [('creates', e.a['path'])]
    if e.kind == 'replace':
        return [('replaces', e.a['dst']), ('moves', e.a['src'])]
    if e.kind == 'remove':
        return [('deletes', e.a['path'])]
    if e.kind == 'superinit':
        f = e.a['kwargs'].get('filename') if isinstance(e.a.get('kwargs'), dict) else None
        return [('writes', f)] if f is not None else []
    if e.kind == 'mark' and e.a['name'] == 'plot' and e.a.get('args') and is_term(e.a['args'][0]):
        return [('writes', e.a['args'][0])]
    return []


def inside(p, what):
    """three-valued: does the path lie directly in the output folder"""
    if '\u00ab' in p.replace(OUT, '', 1) and not p.startswith(OUT):
        return None if p.startswith('\u00ab') else False
    if re.search(r'<\d+>', p) and not p.startswith(OUT):
        return None
    if what == 'creates':
        return posixpath.normpath(p) == posixpath.normpath(OUT) or posixpath.normpath(p).startswith(posixpath.normpath(OUT) + '/')
    q = posixpath.normpath(p)
    base = posixpath.normpath(OUT)
    return q.startswith(base + '/') and q != base


def check(P, R, tier):
    sites = Sites(P)
    R.count('file operations in the package', len(sites.sites))
    with R.guard('shell', 'package'):
        shells(P, R, sites)
    with R.guard('folder', 'package'):
        F = Folder(P)
        visited = {}
        for G, eng, outs, binds in entries(P, R, F):
            R.covers(eng)
            for o in outs:
                scan(P, R, F, G, eng, o.trace, o.facts, binds, visited)
        rest(P, R, F, sites, visited)


def shells(P, R, sites):
    n = 0
    for s_ in sites.sites:
        G = '%s.%s' % (s_.cls, s_.fn) if s_.cls else (s_.fn or s_.mod.name)
        if s_.name in SHELLS:
            R.verdict(isinstance(s_.node.args[0], ast.Constant) if s_.node.args else None, 'shell', G, '', '%s hands a command to a shell' % s_.name, s_.loc)
            n += 1
        elif s_.name in MAYBE:
            sh = next((k.value for k in s_.node.keywords if k.arg == 'shell'), None)
            if isinstance(sh, ast.Constant) and sh.value:
                R.violation('shell', G, '%s hands a command to a shell' % s_.name, s_.loc)
    R.ok('shell', 'package', '%d file operations, %d calls of a shell' % (len(sites.sites), n), '')


def entries(P, R, F):
    """(label, engine, outcomes, bindings) of the entry points of a run"""
    X = F.X
    yield 'CPNest.__init__', X.W.eng, X.outs, {X.args['output']: OUT.rstrip('/')}
    for ci, W, st, m in F.ctors:
        yield ci.name + '.__init__', W.eng, [Out(st)], dict(m.bind)
    Y = Run(P)
    yield 'CPNest.run', Y.W.eng, Y.outs, {}
    for meth in Run.GETTERS + ('plot',):
        W = World(P, hooks={'purecalls': True})
        ci = P.cls('cpnest.CPNest')
        me = W.instance(ci)
        fi = P.method(ci, meth)
        args = {a.arg: W.param(a.arg, 'str' if a.arg == 'filename' else None) for a in fi.node.args.args[1:]}
        yield 'CPNest.' + meth, W.eng, W.run(ci, meth, me, [], kwargs=args), {v: 'given.dat' for k, v in args.items() if k == 'filename'}
    M = Main(P)
    yield 'NestedSampler.nested_sampling_loop', M.W.eng, M.outs, {}
    nsc = P.cls(NS)
    for meth in ('checkpoint', 'check_insertion_indices', 'write_chain_to_file', 'write_evidence_to_file'):
        if nsc.find(meth) is None:
            continue
        W = World(P, hooks={'purecalls': True})
        fi = P.method(nsc, meth)
        args = {a.arg: W.param(a.arg, 'str' if a.arg == 'filename' else None) for a in fi.node.args.args[1:]}
        yield 'NestedSampler.' + meth, W.eng, W.run(nsc, meth, W.instance(nsc), [], kwargs=args), {v: 'given.dat' for k, v in args.items() if k == 'filename'}
    for ci in concrete_samplers(P):
        K = Worker(P, ci)
        yield ci.name + '.produce_sample', K.W.eng, K.outs, {}
        Z = Reset(P, ci)
        yield ci.name + '.reset', Z.W.eng, Z.outs, {}
        W = World(P, hooks={'purecalls': True})
        yield ci.name + '.checkpoint', W.eng, W.run(ci, 'checkpoint', W.instance(ci), []), {}


class Out(object):
    kind = 'return'

    def __init__(self, st):
        self.state, self.trace, self.facts = st, st.trace, st.facts


def scan(P, R, F, G, eng, trace, facts, binds, visited, outer=()):
    for e in trace:
        if e.kind == 'loop':
            for p in e.a['paths']:
                scan(P, R, F, G, eng, p.trace, tuple(facts) + tuple(p.facts), binds, visited, outer + tuple(p.facts))
            continue
        if e.kind == 'async':
            for p in e.a['paths']:
                scan(P, R, F, G, eng, p.trace, facts, binds, visited, outer)
            continue
        for what, t in paths_of(e):
            if t is None or t is NONE:
                continue
            visited.setdefault(e.loc.split(' ')[0], []).append(e)
            if what == 'deletes':
                deletion(P, R, F, G, eng, e, t, facts, binds, trace)
                continue
            m = Model(0, bind=dict(binds), leaf=F.leaf(eng))
            try:
                v = m.ev(t)
            except Undef:
                v = None
            if v is None and not isinstance(v, str):
                # a path that is not given: nothing is written under this condition
                if v is None and t.op == 'none':
                    continue
                R.undet('folder', G, 'path %s' % show(t)[:80], e.loc)
                continue
            if not isinstance(v, str):
                R.undet('folder', G, 'path %s' % show(t)[:80], e.loc)
                continue
            R.count('paths evaluated')
            R.verdict(inside(v, what), 'folder', G, 'in the output folder', '%s %s, which is not in the output folder %s' % (what, v.replace('\u00ab', '<').replace('\u00bb', '>'), OUT), e.loc)


def deletion(P, R, F, G, eng, e, t, facts, binds, trace):
    listed = [x for x in subterms(t) if x.op == 'idx' and x.args[1].op != 'bv' and any(y.op in ('listdir', 'glob') for y in subterms(x.args[0]))]
    if e.a.get('tree') is TRUE:
        R.violation('delete', G, 'a whole folder is deleted', e.loc)
        return
    if not listed:
        m = Model(0, bind=dict(binds), leaf=F.leaf(eng))
        try:
            v = m.ev(t)
        except Undef:
            v = None
        if not isinstance(v, str):
            R.undet('delete', G, 'path %s' % show(t)[:80], e.loc)
            return
        own = False
        for x in trace:
            if x.kind == 'open':
                try:
                    own = own or m.ev(x.a['path']) == v
                except Undef:
                    pass
        good = own or posixpath.basename(v) in RAW and inside(v, 'deletes')
        R.verdict(True if good else None if '\u00ab' in v or '<' in v else False, 'delete', G, 'its own file', 'deletes %s, which is not a sample file of a worker' % v, e.loc)
        return
    seen = 0
    for name in RAW + OTHERS:
        # a folder that holds this one file
        base = F.leaf(eng)

        def leaf(m, x, name=name):
            env = m.env
            if x.op == 'listdir':
                return [name]
            if x.op == 'glob':
                p = m.ev(x.args[0], env)
                if not isinstance(p, str):
                    raise Undef('pattern')
                full = OUT + name
                return [full] if fnmatch.fnmatchcase(full, p) else []
            if x.op in ('iota', 'uid') or x.op == 'bv' and x not in (env or {}):
                return 0
            if x.op == 'idx' and any(y.op in ('listdir', 'glob') for y in subterms(x.args[0])):
                c, i = m.ev(x.args[0], env), m.ev(x.args[1], env)
                m.env = env
                if isinstance(c, list) and isinstance(i, (int, float)):
                    if not -len(c) <= i < len(c):
                        raise Undef('not listed')
                    return c[int(i)]
            m.env = env
            return base(m, x)
        m = Model(0, bind=dict(binds), leaf=leaf)
        status = True
        for f in facts:
            if not any(x in listed for x in subterms(f)):
                continue
            try:
                if not m.truth(m.ev(f)):
                    # bounds of the index are not about the name
                    if f.op in ('le', 'lt', 'lez', 'ltz'):
                        continue
                    status = False
                    break
            except Undef:
                status = None
        try:
            v = m.ev(t)
        except Undef as u:
            if 'not listed' in str(u):
                continue
            v = None
        if status is False:
            continue
        if status is None or not isinstance(v, str):
            R.undet('delete', G, 'which files are deleted', e.loc)
            return
        R.count('file names tried')
        seen += 1
        if name in RAW:
            R.verdict(inside(v, 'deletes') and posixpath.basename(v) == name, 'delete', G, 'a sample file of a worker', 'deletes %s instead of %s in the output folder' % (v, name), e.loc)
        else:
            R.violation('delete', G, 'deletes %s, which is not a sample file of a worker' % v, e.loc)
    if not seen:
        R.undet('delete', G, 'which files are deleted', e.loc)


def rest(P, R, F, sites, visited):
    """call sites that are on no path of an entry point"""
    for s_ in sites.sites:
        if s_.name in SHELLS or s_.name in MAYBE:
            continue
        lines = range(s_.node.lineno, getattr(s_.node, 'end_lineno', s_.node.lineno) + 1)
        if any('%s:%d' % (s_.mod.relpath, l) in visited for l in lines):
            R.ok('site', '%s:%s' % (s_.mod.name, s_.fn), 'on a path of a run', s_.loc)
            continue
        G = '%s.%s' % (s_.cls, s_.fn) if s_.cls else (s_.fn or s_.mod.name)
        if s_.dead or (s_.fn is not None and s_.fn not in sites.used and s_.fn not in ('__init__',)):
            R.ok('site', G, 'cannot be reached: guarded by a flag that is never set, or its function is never called', s_.loc)
            continue
        alone(P, R, F, s_, G)


def alone(P, R, F, s_, G):
    """a file operation in a function that the entry points do not reach: all paths of the function on its own"""
    try:
        W = World(P, hooks={'purecalls': True})
        if s_.cls and s_.cls in s_.mod.classes:
            ci = s_.mod.classes[s_.cls]
            fi = P.method(ci, s_.fn)
            args = {a.arg: W.param(a.arg, 'str' if 'file' in a.arg else None) for a in fi.node.args.args[1:]}
            outs = W.run(ci, s_.fn, W.instance(ci), [], kwargs=args)
        elif s_.fn:
            fi = s_.mod.functions.get(s_.fn)
            args = {a.arg: W.param(a.arg, 'str' if 'file' in a.arg else None) for a in fi.node.args.args}
            outs = W.eng.run(fi, None, [], args, None)
        else:
            R.undet('site', G, '%s at module level' % s_.name, s_.loc)
            return
    except Exception as e:
        R.undet('site', G, '%s in a function that is not understood (%s)' % (s_.name, e), s_.loc)
        return
    visited = {}
    binds = {v: OUT + 'given.dat' for k, v in args.items() if 'file' in k}
    for o in outs:
        scan(P, R, F, G, W.eng, o.trace, o.facts, binds, visited)
    lines = range(s_.node.lineno, getattr(s_.node, 'end_lineno', s_.node.lineno) + 1)
    if not any('%s:%d' % (s_.mod.relpath, l) in visited for l in lines):
        R.undet('site', G, '%s is on no analysed path' % s_.name, s_.loc)
