"""C22: every name, attribute and call on every code path resolves."""
import ast
import builtins
import importlib
import inspect
import json
import os
import subprocess
import symtable
from .common import *
from ..frontend import ClassInfo, import_bindings
from ..engine import State

EXPLANATION = ('Every function of the package, whether or not anything reaches it, is resolved against the symbol tables of the package: each name to a binding of its scope, its module or the builtins, each local to an assignment that may come before it, each attribute of an object whose class is known '
               '(self, fields and variables assigned from package classes, typed points) to a member of that class, each imported module and module attribute to the package or to the installed library, each call of a package function, method or class (direct, through super, as a process target or a signal handler) to its signature. '
               'The life cycle of the samplers, the jumps and the run is executed symbolically on objects built by their own constructors; a field that is read before anything stored it on that path is reported.')
TECHNIQUE = 'static analysis: name, attribute and signature resolution over the whole syntax tree with scopes and class hierarchy; typestate of fields along symbolic paths'
C, N, S, PR, N2, MO, PL, UT = ['cpnest/%s.py' % x for x in ('cpnest', 'NestedSampling', 'sampler', 'proposal', 'nest2pos', 'model', 'plot', 'utils')]
PX = 'cpnest/parameter.pyx'
MUTANTS = [
    (N2, "    ACL = int(np.round(np.max(ACL)))", "    ACL = int(np.round(np.max(acls)))"),
    (N2, "from functools import reduce\n", ""),
    (N2, "from numpy.random import uniform\n", ""),
    (N2, "    while i < len(acf) and acf[i] > tolerance:", "    while i < len(acf) and acf[i] > tol:"),
    (N2, "    mask = uniform(size=len(post))<frac", "    mask = np.uniform(size=len(post))<frac"),
    (N2, "      mask = uniform(size=len(post))<frac", "      mask = np.uniform(size=len(post))<frac"),
    (N2, "    cf=np.fft.fft(xp)", "    cf=np.fft(xp)\n    cf=np.fft.ftt(xp)"),
    (N2, "ACL.append(acl(chain[n]))", "ACL.append(acl(chain[n], tol=0.1))"),
    (N2, "draw_N_posterior(data,logwt,N) for", "draw_N_posterior(data,N) for"),
    (C, "        from .nest2pos import draw_posterior_many\n", "        from .nest2pos import draw_posteriors\n"),
    (C, "        import numpy.lib.recfunctions as rfn\n", "        import numpy.lib.recfunction as rfn\n"),
    (C, "self.NS.check_insertion_indices(rolling=False,", "self.NS.check_insertion_index(rolling=False,"),
    (C, "self.NS.check_insertion_indices(rolling=False,", "self.NS.check_insertion_indices(roll=False,"),
    (C, "self.plot(corner = False)", "self.plot(corners = False)"),
    (C, "draw_posterior_many([nested_samples],[self.NS.Nlive],verbose=self.verbose)", "draw_posterior_many([nested_samples],[self.NS.Nlives],verbose=self.verbose)"),
    (C, "draw_posterior_many([nested_samples],[self.NS.Nlive],verbose=self.verbose)", "draw_posterior_many([nested_samples],verbose=self.verbose)"),
    (N, "        self.write_evidence_to_file()\n", "        self.write_evidence_file()\n"),
    (N, "        self.last_checkpoint_time = time.time()\n", "        self.last_checkpoint_time = tm.time()\n"),
    (N, "        self.insertion_indices = []\n", ""),
    (N, "        self.nested_samples = []\n", ""),
    (N, "        self.state.finalise()\n", "        self.state.finalize()\n"),
    (S, "        self.mcmc_accepted      = 0\n", ""),
    (S, "        self.mcmc_counter       = 0\n", ""),
    (S, "self.estimate_nmcmc()", "self.estimate_nmcmc(self.maxmcmc, 0.1, 3, 4)"),
    (S, "from math import log\n", ""),
    (PR, "from math import log,sqrt,fabs,exp\n", "from math import log,sqrt,fabs\n"),
    (PR, "        super(EnsembleEigenVector,self).set_ensemble(ensemble)\n", "        super(EnsembleEigenVector,self).set_ensembles(ensemble)\n"),
    (PR, "        super(EnsembleEigenVector,self).set_ensemble(ensemble)\n", "        super(EnsembleEigenVector,self).set_ensemble()\n"),
    (MO, "from array import array\n", ""),
    (MO, "from numpy import inf\n", "from numpy import infty_\n"),
    (PL, "from matplotlib import pyplot as plt\n", "from matplotlib import plot as plt\n"),
    (UT, "LEVELS = ", "LEVEL = "),
    (PX, "        result.__setstate__(self.__getstate__())\n", "        result.__setstate__(self.getstate())\n"),
    (PX, "        cdef LivePoint result = LivePoint(self.names)\n        result.__setstate__", "        cdef LivePoint result = LivePoint()\n        result.__setstate__"),
    (PX, "result.values[i]=self.values[i]-other.values[i]", "result.values[i]=self.values[i]-other.value[i]"),
]
CATCHES = {'name': ('NameError', 'UnboundLocalError', 'Exception', 'BaseException'), 'attribute': ('AttributeError', 'Exception', 'BaseException'),
           'import': ('ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException'), 'call': ('TypeError', 'Exception', 'BaseException')}
QUIET_DECORATORS = ('staticmethod', 'classmethod', 'abstractmethod', 'abc.abstractmethod', 'contextmanager', 'contextlib.contextmanager', 'property')
VENV = '/opt/venv/bin/python'


def check(P, R, tier):
    A = Package(P, R)
    for m in sorted(P.modules.values(), key=lambda m: m.name):
        with R.guard('name', m.name):
            A.names(m)
        for fi in A.functions(m):
            with R.guard('local', fi.qual):
                A.locals(fi)
        for scope in A.scopes(m):
            with R.guard('attribute', scope.label):
                A.attributes(scope)
            with R.guard('call', scope.label):
                A.calls(scope)
    with R.guard('import', 'package'):
        A.imports()
    with R.guard('library', 'package'):
        A.library()
    with R.guard('field', 'package'):
        lifecycle(A)
    R.functions |= {fi.qual for fi in P.all_functions()}


class Scope(object):
    def __init__(self, label, module, node, fi=None, cls=None):
        self.label, self.module, self.node, self.fi, self.cls = label, module, node, fi, cls


def own(node):
    """nodes of a function or module that are not inside a nested class or named function"""
    out = []
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        out.append(n)
        todo.extend(ast.iter_child_nodes(n))
    return out


def guarded(root, kind):
    """ids of nodes inside a try whose handlers expect this kind of failure"""
    out = set()
    for n in ast.walk(root):
        if isinstance(n, ast.Try):
            for h in n.handlers:
                names = [None] if h.type is None else [ast.unparse(x).split('.')[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if any(x is None or x in CATCHES[kind] for x in names):
                    for b in n.body:
                        out |= {id(x) for x in ast.walk(b)}
    return out


class Package(object):
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.W = World(P)
        self.external = {}          # dotted library name -> [where]
        self.modules_wanted = {}    # library module -> [where]
        self.foreign = set()        # attributes stored on some other object anywhere
        self.open_ = {}
        for m in P.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                    self.foreign.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    self.foreign.add(n.args[1].value)
        self.members_ = {}
        self.ftypes = {}

    # ---------------------------------------------------------------- structure
    def functions(self, m):
        for fi in list(m.functions.values()):
            yield fi
        for c in m.classes.values():
            for d in (c.methods, c.getters, c.setters):
                for fi in d.values():
                    yield fi

    def scopes(self, m):
        yield Scope(m.name, m, m.tree)
        for fi in self.functions(m):
            yield Scope(fi.qual, m, fi.node, fi, fi.cls)
            for n in ast.walk(fi.node):
                if n is not fi.node and isinstance(n, ast.FunctionDef):
                    yield Scope(fi.qual + '.' + n.name, m, n, None, None)
        for c in m.classes.values():
            yield Scope(c.qual, m, c.node, None, None)

    def where(self, m, n):
        return '%s:%d' % (m.relpath, getattr(n, 'lineno', 0))

    # ---------------------------------------------------------------- names
    def names(self, m):
        R = self.R
        star = any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(m.tree))
        table = symtable.symtable(ast.unparse(m.tree), m.relpath, 'exec')
        top = {s_.get_name() for s_ in table.get_symbols() if s_.is_assigned() or s_.is_imported() or s_.is_namespace()}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                top |= set(n.names)
        top |= {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__path__', '__loader__', '__builtins__', '__dict__', '__class__', '__module__', '__qualname__'}
        known = top | set(dir(builtins))
        safe = guarded(m.tree, 'name')
        missing = set()

        def visit(t):
            for s_ in t.get_symbols():
                if not s_.is_referenced():
                    continue
                glob = s_.is_global() if t.get_type() != 'module' else True
                if glob:
                    R.count('names')
                    if s_.get_name() not in known:
                        missing.add((t.get_name(), s_.get_name()))
            for c in t.get_children():
                visit(c)
        visit(table)
        for scope, name in sorted(missing):
            at = [n for n in ast.walk(m.tree) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]
            bad = [n for n in at if id(n) not in safe]
            if star:
                R.undet('name', '%s.%s: %s' % (m.name, scope, name), 'may come from a star import')
            elif bad:
                R.violation('name', '%s.%s: %s' % (m.name, scope, name), 'no variable, function or module of this name exists', self.where(m, bad[0]))
        if not missing:
            R.ok('name', m.name, 'every name is bound in its scope, its module or the builtins')

    def locals(self, fi):
        """a local that is read where no assignment can have come before"""
        R = self.R
        f = fi.node
        bound = set()
        for n in own(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                bound.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                bound |= set(import_bindings(n))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                bound.add(n.name)
        for n in f.body if hasattr(f, 'body') and isinstance(f.body, list) else []:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                bound.add(n.name)
        comp = set()
        for n in own(f):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    comp |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                comp |= set(n.names)
        a = f.args
        params = {x.arg for x in a.args + a.kwonlyargs + getattr(a, 'posonlyargs', [])} | {x.arg for x in (a.vararg, a.kwarg) if x}
        track = bound - comp - params - set(fi.cy_locals or ())
        late = {}
        flow(f.body, set(), track, late)
        R.count('locals', len(track))
        safe = guarded(f, 'name')
        bad = {n: x for n, x in late.items() if id(x) not in safe}
        for name, n in sorted(bad.items()):
            R.violation('local', '%s: %s' % (fi.qual, name), 'read before anything can have assigned it', self.where(fi.module, n))
        if not bad and track:
            R.ok('local', fi.qual, '%d locals' % len(track))

    # ---------------------------------------------------------------- types
    def members(self, ci):
        """(attribute names an instance may have, closed)"""
        if ci in self.members_:
            return self.members_[ci]
        names, closed = set(dir(object)) | {'__dict__', '__module__', '__weakref__', '__name__', '__qualname__'}, True
        for c in ci.mro():
            if not isinstance(c, ClassInfo):
                ext = libclass(c)
                if ext is None:
                    closed = False
                else:
                    names |= ext
                continue
            names |= set(c.methods) | set(c.getters) | set(c.setters) | set(c.attrs) | set(c.cy_fields)
            for n in ast.walk(c.node):
                if isinstance(n, ast.FunctionDef) and n.args.args:
                    sn = n.args.args[0].arg
                    for x in ast.walk(n):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store,)) and isinstance(x.value, ast.Name) and x.value.id == sn:
                            names.add(x.attr)
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == sn:
                            if len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                                names.add(x.args[1].value)
                            else:
                                closed = False
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'update' and ast.unparse(x.func.value) == sn + '.__dict__' and n.name not in ('__setstate__', '__init__'):
                            closed = False
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'update' and ast.unparse(x.func.value) == sn + '.__dict__' and n.name == '__init__':
                            closed = False
                elif isinstance(n, (ast.Name,)) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
            if '__getattr__' in c.methods or '__getattribute__' in c.methods or '__slots__' in c.attrs:
                closed = closed and '__slots__' in c.attrs and '__getattr__' not in c.methods
        for m in self.P.modules.values():       # Class.attribute = ... anywhere
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == ci.name:
                    names.add(n.attr)
        self.members_[ci] = (names, closed)
        return names, closed

    def has(self, cis, name):
        """True / False / None (not decided) of 'an object of one of these classes has this attribute'"""
        res = []
        for ci in cis:
            names, closed = self.members(ci)
            if name in names or name in self.foreign and not ci.cy_fields:
                return True
            res.append(closed)
        return False if all(res) else None

    def field(self, ci, name):
        """package classes of a field, [] when not known"""
        key = (ci.qual, name)
        if key in self.ftypes:
            return self.ftypes[key]
        self.ftypes[key] = []
        got, ok = [], True
        for c in ci.mro():
            if not isinstance(c, ClassInfo):
                continue
            for d in (c.methods, c.setters, c.getters):
                for fi in d.values():
                    if not fi.node.args.args:
                        continue
                    sn = fi.node.args.args[0].arg
                    for n in ast.walk(fi.node):
                        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.With)):
                            tg = n.targets if isinstance(n, ast.Assign) else [getattr(n, 'target', None)] if not isinstance(n, ast.With) else [i.optional_vars for i in n.items]
                            for t in tg:
                                if t is None:
                                    continue
                                for x in ast.walk(t):
                                    if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == sn:
                                        if x is not t or not isinstance(n, (ast.Assign, ast.AnnAssign)):
                                            ok = False
                                        else:
                                            r = self.classes_of(n.value, c.module, None)
                                            if r is None:
                                                ok = ok and isinstance(n.value, ast.Constant) and n.value.value is None
                                            else:
                                                got += r
        r = got if ok else []
        if not r:
            q = self.W.fieldtypes.get(name)
            if name in ('model', 'user'):
                q = 'model.Model'
            if isinstance(q, tuple):
                q = None
            if isinstance(q, str) and '.' in q:
                try:
                    r = [self.P.cls(q)]
                except AnchorMissing:
                    r = []
        self.ftypes[key] = r
        return r

    def classes_of(self, e, m, scope):
        """package classes an expression is an instance of, None when not known"""
        if isinstance(e, ast.Call):
            r = self.resolve(e.func, m, scope)
            if r and r[0] == 'class':
                return [r[1]]
            return None
        if isinstance(e, ast.IfExp):
            a, b = self.classes_of(e.body, m, scope), self.classes_of(e.orelse, m, scope)
            return a + b if a and b else None
        if scope is not None:
            return self.typeof(e, scope)
        return None

    def localbindings(self, scope):
        if not hasattr(scope, 'bound_'):
            b, multi = {}, set()
            imps = {}
            a = getattr(scope.node, 'args', None)
            if a is not None:
                for x in a.args + a.kwonlyargs + getattr(a, 'posonlyargs', []) + [y for y in (a.vararg, a.kwarg) if y]:
                    multi.add(x.arg)
            nested = set()
            for n in ast.walk(scope.node):
                if n is not scope.node and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    nested |= {x.arg for x in n.args.args + n.args.kwonlyargs}
                if isinstance(n, ast.comprehension):
                    nested |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                if n is not scope.node and isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    nested.add(n.name)
            for n in own(scope.node):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    imps.update(import_bindings(n))
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    t = n.targets[0].id
                    if t in b:
                        multi.add(t)
                    b[t] = n.value
                elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    b.setdefault(n.id, None)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    multi.add(n.name)
            simple = {id(n.targets[0]) for n in own(scope.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)}
            for n in own(scope.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in simple:
                    multi.add(n.id)
            scope.bound_ = b, multi | nested, imps
        return scope.bound_

    def resolve(self, e, m, scope):
        """resolution of an expression to a module, class, function of the package or a library name"""
        if isinstance(e, ast.Name):
            if scope is not None and scope.node is not m.tree:
                b, multi, imps = self.localbindings(scope)
                if e.id in multi or e.id in b:
                    return None
                if e.id in imps:
                    return self.P.resolve_binding(m, imps[e.id])
            if scope is not None and scope.fi is None and scope.cls is None and scope.node is not m.tree:
                # a nested function or class body: names of the enclosing function are not followed
                for fi in self.functions(m):
                    if any(x is scope.node for x in ast.walk(fi.node)):
                        b, multi, imps = self.localbindings(Scope('', m, fi.node, fi, fi.cls))
                        if e.id in b or e.id in multi or e.id in imps:
                            return None
            tops = [n for n in own(m.tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == e.id]
            if tops and (e.id in m.functions or e.id in m.classes or e.id in m.imports):
                return None
            return self.P.resolve_global(m, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve(e.value, m, scope)
            if r is None:
                return None
            if r[0] == 'module':
                return self.P.module_attr(r[1], e.attr)
            if r[0] == 'ext':
                return ('ext', r[1] + '.' + e.attr)
            if r[0] == 'class':
                g = r[1].find(e.attr)
                if g and g[0] == 'method':
                    return ('unbound', g[1], r[1])
        return None

    def typeof(self, e, scope):
        """package classes of an expression, None when not known"""
        if isinstance(e, ast.Name):
            fi = scope.fi
            if fi is not None and fi.cls is not None and fi.node.args.args and e.id == fi.node.args.args[0].arg and not fi.is_static and not fi.is_class:
                b, multi, imps = self.localbindings(scope)
                return None if e.id in b else 'self'
            ty = (fi.cy_argtypes or {}).get(e.id) if fi is not None else None
            if ty:
                r = self.P.resolve_global(scope.module, ty)
                return [r[1]] if r and r[0] == 'class' else None
            if scope.node is not scope.module.tree:
                b, multi, imps = self.localbindings(scope)
                if e.id in b and e.id not in multi and b[e.id] is not None:
                    return self.classes_of(b[e.id], scope.module, scope)
            return None
        if isinstance(e, ast.Attribute):
            t = self.typeof(e.value, scope)
            if t is None:
                return None
            cis = [scope.cls] if t == 'self' else t
            out = []
            for ci in cis:
                r = self.field(ci, e.attr)
                if not r:
                    return None
                out += r
            return out
        if isinstance(e, ast.Call):
            return self.classes_of(e, scope.module, scope)
        return None

    # ---------------------------------------------------------------- attributes
    def attributes(self, scope):
        R, P, m = self.R, self.P, scope.module
        safe = guarded(m.tree, 'attribute')
        asked = set()
        for n in own(scope.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                if n.func.id == 'hasattr' or len(n.args) > 2:
                    asked.add(n.args[1].value)
        bad, done = {}, 0
        extra = [(n, 0) for n in strings(scope.node)]
        for n in own(scope.node) + [x for e, _ in extra for x in ast.walk(e)]:
            if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load) or id(n) in safe or n.attr in asked:
                continue
            r = self.resolve(n, m, scope)
            b = self.resolve(n.value, m, scope)
            w = self.where(m, n)
            if b is not None and b[0] == 'ext':
                self.external.setdefault(b[1] + '.' + n.attr, []).append((scope.label, w))
                continue
            if b is not None and b[0] == 'module':
                done += 1
                if r is None and P.module_attr(b[1], n.attr) is None and not n.attr.startswith('__'):
                    bad.setdefault('%s.%s' % (b[1].name, n.attr), ('the module has no %s' % n.attr, w))
                continue
            if b is not None and b[0] == 'class':
                v = self.has([b[1]], n.attr)
                done += 1
                if v is False:
                    bad.setdefault('%s.%s' % (b[1].name, n.attr), ('the class has no %s' % n.attr, w))
                continue
            if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super' and scope.cls is not None:
                done += 1
                v = self.insuper(scope.cls, n.attr)
                if v is False:
                    bad.setdefault('super().%s' % n.attr, ('no base class has %s' % n.attr, w))
                continue
            t = self.typeof(n.value, scope)
            if t is None:
                continue
            done += 1
            if t == 'self':
                groups = [[scope.cls] + P.subclasses(scope.cls)]
                groups += [[c] for c in [scope.cls] + P.subclasses(scope.cls) if not P.subclasses(c) and c.find(scope.fi.name) and c.find(scope.fi.name)[1] is scope.fi]
            else:
                groups = [[d] + P.subclasses(d) for d in t]
            for g in groups:
                v = self.has(g, n.attr)
                if v is False:
                    bad.setdefault('%s.%s' % (g[0].name, n.attr), ('%s has no attribute %s (in %s)' % (g[0].name, n.attr, scope.label), w))
        R.count('attributes', done)
        for k, (why, w) in sorted(bad.items()):
            R.violation('attribute', k.replace(' ', ''), why, w)
        if done and not bad:
            R.ok('attribute', scope.label, '%d attributes' % done)

    def insuper(self, ci, name):
        """some class behind ci, in its own order or that of a subclass, has the attribute"""
        for c in [ci] + self.P.subclasses(ci):
            order = c.mro()
            for b in order[order.index(ci) + 1:]:
                if isinstance(b, ClassInfo):
                    if name in b.methods or name in b.getters or name in b.attrs:
                        return True
                else:
                    ext = libclass(b)
                    if ext is None or name in ext:
                        return True
        return name in dir(object)

    # ---------------------------------------------------------------- calls
    def callee(self, e, scope):
        """[(function, bound, label)] an expression may call, [] when not known"""
        m = scope.module
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == 'super' and scope.cls is not None:
            out = []
            for c in [scope.cls] + self.P.subclasses(scope.cls):
                g = c.find(e.attr, after=scope.cls)
                if g and g[0] == 'method':
                    out.append((g[1], True, 'super().' + e.attr))
                    continue
            return out
        r = self.resolve(e, m, scope)
        if r is not None:
            if r[0] == 'func':
                return [(r[1], False, r[1].qual)]
            if r[0] == 'unbound':
                return [(r[1], r[1].is_class, r[1].qual)]
            if r[0] == 'class':
                g = r[1].find('__init__') or r[1].find('__cinit__')
                if g and g[0] == 'method':
                    return [(g[1], True, r[1].name)]
                if not r[1].external_bases() and not g and not any(isinstance(x, str) for x in r[1].mro()):
                    return [(None, True, r[1].name)]
            return []
        if isinstance(e, ast.Attribute):
            t = self.typeof(e.value, scope)
            if t is None:
                return []
            cis = [scope.cls] + self.P.subclasses(scope.cls) if t == 'self' else t
            out = []
            for ci in cis:
                if t == 'self' and ci is not scope.cls:
                    f = ci.find(scope.fi.name)
                    if not f or f[1] is not scope.fi:
                        continue
                g = ci.find(e.attr)
                if g and g[0] == 'method' and not self.stored(ci, e.attr):
                    out.append((g[1], True, ci.name + '.' + e.attr))
            return out
        return []

    def stored(self, ci, name):
        """an instance attribute hides the method"""
        if name in self.foreign:
            return True
        for c in ci.mro():
            if isinstance(c, ClassInfo):
                for n in ast.walk(c.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                        return True
        return False

    def calls(self, scope):
        R, m = self.R, scope.module
        safe = guarded(m.tree, 'call')
        done, bad = 0, {}
        for n in own(scope.node) + [x for e in strings(scope.node) for x in ast.walk(e)]:
            if not isinstance(n, ast.Call) or id(n) in safe:
                continue
            todo = [(self.callee(n.func, scope), n.args, n.keywords, n)]
            kw = {k.arg: k.value for k in n.keywords}
            r = self.resolve(n.func, m, scope)
            name = r[1] if r and r[0] == 'ext' else ''
            if 'target' in kw and isinstance(kw.get('args', ast.Tuple(elts=[])), ast.Tuple) and 'kwargs' not in kw and name.endswith('Process'):
                todo.append((self.callee(kw['target'], scope), kw['args'].elts if 'args' in kw else [], [], n))
            if name == 'signal.signal' and len(n.args) == 2:
                todo.append((self.callee(n.args[1], scope), [ast.Constant(0), ast.Constant(0)], [], n))
            for cs, args, kws, at in todo:
                for f, bound_, label in cs:
                    if f is not None and [d for d in f.decorators if d not in QUIET_DECORATORS]:
                        continue
                    done += 1
                    why = mismatch(f, bound_, args, kws)
                    if why:
                        bad.setdefault('%s(%s)' % (label, ', '.join([ast.unparse(a) for a in args] + [ast.unparse(k) for k in kws])), (why, self.where(m, at)))
        R.count('calls', done)
        for k, (why, w) in sorted(bad.items()):
            R.violation('call', k[:120].replace(' ', ''), '%s (in %s)' % (why, scope.label), w)
        if done and not bad:
            R.ok('call', scope.label, '%d calls' % done)

    # ---------------------------------------------------------------- modules
    def imports(self):
        R, P = self.R, self.P
        n_ok = 0
        for m in sorted(P.modules.values(), key=lambda m: m.name):
            safe = guarded(m.tree, 'import')
            for n in ast.walk(m.tree):
                if not isinstance(n, (ast.Import, ast.ImportFrom)) or id(n) in safe:
                    continue
                if m.is_cython and not hasattr(n, 'lineno'):
                    continue
                w = self.where(m, n)
                for alias, b in import_bindings(n).items():
                    R.count('imports')
                    if b[-1] == '*' or b[1] == '__future__':
                        continue
                    r = P.resolve_binding(m, b)
                    if r is None:
                        R.violation('import', '%s: %s' % (m.name, alias), 'the package has no %s' % '.'.join(x for x in b[1:]), w)
                    elif r[0] == 'ext':
                        if m.is_cython and not plainpython(r[1]):
                            continue
                        if b[0] == 'mod':
                            full = [a.name for a in n.names if (a.asname or a.name.split('.')[0]) == alias][0]
                            self.modules_wanted.setdefault(full, []).append((m.name, w))
                        else:
                            self.external.setdefault(r[1], []).append((m.name, w))
                    else:
                        n_ok += 1
        R.ok('import', 'package', '%d names imported within the package exist' % n_ok)

    def library(self):
        R = self.R
        for m in self.P.modules.values():
            if m.is_cython:
                for k in [k for k, v in self.external.items() if all(x[1].startswith(m.relpath) for x in v) and not plainpython(k)]:
                    del self.external[k]
        ask = sorted(set(self.external) | set(self.modules_wanted))
        ans = installed(ask)
        if ans is None:
            R.notes.append('the interpreter of the project is not installed: names of libraries are not resolved')
            return
        n = 0
        for d in ask:
            v = ans.get(d)
            R.count('library names')
            if v is True:
                n += 1
            elif v is False:
                for label, w in (self.external.get(d) or self.modules_wanted.get(d))[:1]:
                    R.violation('library', '%s: %s' % (label, d), 'the library has no such name', w)
            elif v == 'absent':
                R.notes.append('library of %s is not installed' % d)
        R.ok('library', 'package', '%d library names exist' % n)


def plainpython(d):
    return d.split('.')[0] not in ('cpython', 'libc') and not d.startswith('numpy.math') and d != 'numpy.ndarray_t'


def strings(node):
    """code in strings handed to exec, eval or a profiler"""
    out = []
    for n in own(node):
        if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            f = ast.unparse(n.func).split('.')[-1]
            if f in ('exec', 'eval', 'runctx', 'run') and ast.unparse(n.func) not in ('subprocess.run',):
                try:
                    t = ast.parse(n.args[0].value)
                except SyntaxError:
                    continue
                for x in ast.walk(t):
                    if hasattr(x, 'lineno'):
                        x.lineno = n.lineno
                out.append(t)
    return out


def mismatch(f, bound_, args, kws):
    """why a call does not fit a signature, None when it does or may"""
    if any(isinstance(a, ast.Starred) for a in args):
        return None
    if any(k.arg is None for k in kws):
        kws = [k for k in kws if k.arg is not None]
        open_ = True
    else:
        open_ = False
    if f is None:
        return 'it takes no arguments' if args or kws else None
    a = f.node.args
    pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
    if bound_ and not f.is_static:
        if not pos and not a.vararg:
            return 'the method takes no self'
        pos = pos[1:]
    npos = len(args)
    if npos > len(pos) and not a.vararg:
        return '%d positional arguments for %d parameters' % (npos, len(pos))
    given = set(pos[:npos])
    for k in kws:
        if k.arg in given:
            return 'two values for %s' % k.arg
        if k.arg not in pos and k.arg not in [x.arg for x in a.kwonlyargs]:
            if not a.kwarg:
                return 'no parameter %s' % k.arg
        given.add(k.arg)
    if open_:
        return None
    need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
    need += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [x for x in need if x not in given]
    return 'no value for %s' % ', '.join(miss) if miss else None


_LIB = {}


def libclass(name):
    """attributes of a class of the standard library, None when it is not known"""
    if name not in _LIB:
        _LIB[name] = None
        if hasattr(builtins, name):
            _LIB[name] = set(dir(getattr(builtins, name)))
        elif name.split('.')[0] in ('logging', 'multiprocessing', 'threading', 'collections', 'abc', 'enum', 'json', 'pickle', 'string', 'argparse', 'contextlib', 'queue'):
            parts = name.split('.')
            for k in range(len(parts) - 1, 0, -1):
                try:
                    o = importlib.import_module('.'.join(parts[:k]))
                except ImportError:
                    continue
                try:
                    for p in parts[k:]:
                        o = getattr(o, p)
                    names = set(dir(o))
                    for c in inspect.getmro(o):     # what its initialiser stores
                        try:
                            t = ast.parse(inspect.cleandoc('\n' + inspect.getsource(c)) if False else _dedent(inspect.getsource(c)))
                        except (OSError, TypeError, SyntaxError):
                            continue
                        for n in ast.walk(t):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                                names.add(n.attr)
                    _LIB[name] = names
                except (AttributeError, TypeError):
                    pass
                break
    return _LIB[name]


def _dedent(s_):
    import textwrap
    return textwrap.dedent(s_)


ASK = r'''
import sys, json, importlib, warnings
warnings.simplefilter('ignore')
out = {}
for d in json.load(sys.stdin):
    parts = d.split('.')
    try:
        importlib.import_module(parts[0])
    except Exception:
        out[d] = 'absent'
        continue
    o, ok = None, False
    for k in range(len(parts), 0, -1):
        try:
            o = importlib.import_module('.'.join(parts[:k]))
        except ImportError:
            continue
        except Exception:
            ok = None
            break
        ok = True
        for p in parts[k:]:
            if not hasattr(o, p):
                # attributes of instances and functions are not modules or classes
                ok = False if type(o).__name__ in ('module', 'type', 'ABCMeta') else None
                break
            o = getattr(o, p)
            if type(o).__name__ not in ('module', 'type', 'ABCMeta'):
                break
        break
    out[d] = ok
json.dump(out, sys.stdout)
'''


def installed(names):
    """{dotted name: exists} in the interpreter of the project, None when there is none"""
    if not os.path.exists(VENV):
        return None
    try:
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        env['MPLBACKEND'] = 'Agg'
        p = subprocess.run([VENV, '-I', '-c', ASK], input=json.dumps(names), capture_output=True, text=True, timeout=240, env=env, cwd='/')
        return json.loads(p.stdout)
    except (ValueError, OSError, subprocess.SubprocessError):
        return None


# ---------------------------------------------------------------- may-assigned flow
def flow(body, may, track, late):
    """returns the set of locals that may be assigned after the statements; reads before any assignment go to `late`"""
    for st in body:
        may = step(st, may, track, late)
    return may


def stores(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def step(st, may, track, late):
    may = set(may)
    late_ok = {id(x) for n in ast.walk(st) if isinstance(n, ast.Lambda) for x in ast.walk(n.body)}

    def rd(e):
        if e is None:
            return
        tmp = {}
        named = {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}
        may.update(named)
        for n in [e] + own(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in track and n.id not in may and id(n) not in late_ok:
                tmp.setdefault(n.id, n)
        for k, v in tmp.items():
            late.setdefault(k, v)
    if isinstance(st, ast.Assign):
        rd(st.value)
        for t in st.targets:
            rd(t)
            may |= stores(t) - needs(st.value, lambda x: x.id if isinstance(x, ast.Name) else None)
    elif isinstance(st, ast.AugAssign):
        rd(st.value)
        if isinstance(st.target, ast.Name):
            if st.target.id in track and st.target.id not in may:
                late.setdefault(st.target.id, st.target)        # an update is never the first assignment
        else:
            rd(st.target)
    elif isinstance(st, ast.AnnAssign):
        rd(st.value)
        if st.value is not None:
            may |= stores(st.target)
    elif isinstance(st, ast.If):
        rd(st.test)
        a = flow(st.body, may, track, late)
        b = flow(st.orelse, may, track, late)
        ea, eb = ends(st.body), ends(st.orelse)
        may = (set() if ea and not eb else a) | (set() if eb and not ea else b)
    elif isinstance(st, (ast.For, ast.AsyncFor)):
        rd(st.iter)
        m2 = may | stores(st.target)
        dry = {}
        m3 = flow(st.body, m2, track, dry)
        m3 = flow(st.body, m2 | m3, track, late)
        may = flow(st.orelse, may | m3, track, late) | m3
    elif isinstance(st, ast.While):
        dry = {}
        m3 = flow(st.body, may, track, dry)
        may2 = may | m3
        rd(st.test)
        m3 = flow(st.body, may2, track, late)
        may = flow(st.orelse, may | m3, track, late) | m3
    elif isinstance(st, (ast.With, ast.AsyncWith)):
        for i in st.items:
            rd(i.context_expr)
            if i.optional_vars is not None:
                may |= stores(i.optional_vars)
        may = flow(st.body, may, track, late)
    elif isinstance(st, ast.Try):
        a = flow(st.body, may, track, late)
        every = set(a)
        for x in st.body:
            every |= {n.id for n in [x] + own(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        outs = [flow(st.orelse, a, track, late)]
        for h in st.handlers:
            outs.append(flow(h.body, may | every | ({h.name} if h.name else set()), track, late))
        may = flow(st.finalbody, set().union(*outs) | every, track, late)
    elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        may.add(st.name)
    elif isinstance(st, (ast.Import, ast.ImportFrom)):
        may |= set(import_bindings(st))
    elif isinstance(st, ast.Delete):
        for t in st.targets:
            if isinstance(t, ast.Name):
                may.discard(t.id)
            else:
                rd(t)
    elif isinstance(st, (ast.Global, ast.Nonlocal, ast.Pass, ast.Break, ast.Continue)):
        pass
    elif hasattr(ast, 'Match') and isinstance(st, ast.Match):
        rd(st.subject)
        may |= {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {n.name for n in ast.walk(st) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name}
        for c in st.cases:
            may |= flow(c.body, may, track, late)
    else:
        for e in ast.iter_child_nodes(st):
            rd(e)
    return may


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def needs(e, name):
    """names an expression certainly reads whenever it is evaluated"""
    out, todo = set(), [e]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.IfExp):
            todo.append(n.test)
            continue
        if isinstance(n, ast.BoolOp):
            todo.append(n.values[0])
            continue
        if name(n) is not None and isinstance(n.ctx, ast.Load):
            out.add(name(n))
        todo.extend(ast.iter_child_nodes(n))
    return out


# ---------------------------------------------------------------- life cycle
class Life(object):
    """fields of an object that may have been stored, along the order in which its methods are called"""

    def __init__(self, A, ci):
        self.A, self.ci = A, ci
        self.late = {}              # field -> (function, node)
        self.open_ = False
        self.may = set(A.foreign)
        self.reads = 0
        self.given = set(dir(object)) | {'__dict__', '__module__', '__weakref__', '__name__', '__qualname__'}
        for c in ci.mro():
            if isinstance(c, ClassInfo):
                self.given |= set(c.methods) | set(c.getters) | set(c.setters) | set(c.attrs) | set(c.cy_fields)
                self.given |= {n.attr for m in A.P.modules.values() for n in ast.walk(m.tree)
                               if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == c.name}
                if '__getattr__' in c.methods or '__getattribute__' in c.methods or '__slots__' in c.attrs:
                    self.open_ = True
            else:
                ext = libclass(c)
                if ext is None:
                    self.open_ = True
                else:
                    self.given |= ext
        self.memo = {}
        self.stack = []
        self.frames = []
        self.dry = 0

    def opens(self, f):
        """stores fields whose names are not written down"""
        for n in ast.walk(f):
            if isinstance(n, ast.Call):
                t = ast.unparse(n.func)
                if t == 'setattr' and n.args and ast.unparse(n.args[0]) == 'self' and not (len(n.args) > 1 and isinstance(n.args[1], ast.Constant)):
                    return True
                if t in ('self.__dict__.update', 'vars(self).update', 'self.__dict__.setdefault', 'self.__setstate__'):
                    return True
            if isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.ctx, ast.Store):
                return True
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr == '__dict__':
                return True
        return False

    def method(self, name, after=None):
        r = self.ci.find(name, after=after) if after is not None else self.ci.find(name)
        return r[1] if r and r[0] in ('method', 'property') else None

    def call(self, fi, may):
        if fi in self.stack or len(self.stack) > 12:
            return may | self.everything(fi)
        k = (fi, frozenset(may), bool(self.dry))
        if k not in self.memo:
            a = fi.node.args
            sn = a.args[0].arg if a.args else None
            if fi.is_static or fi.is_class or sn is None:
                return may
            self.open_ = self.open_ or self.opens(fi.node)
            self.stack.append(fi)
            self.frames.append((fi, sn, self.asked(fi.node), guarded(fi.node, 'attribute')))
            self.memo[k] = self.body(fi.node.body, set(may))
            self.stack.pop()
            self.frames.pop()
        return set(self.memo[k])

    def asked(self, f):
        out = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr', 'delattr') and len(n.args) > 1:
                if isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
                else:
                    self.open_ = True
            if isinstance(n, ast.Compare) and any('__dict__' in ast.unparse(c) or 'vars(' in ast.unparse(c) or 'dir(' in ast.unparse(c) for c in n.comparators) and isinstance(n.left, ast.Constant):
                out.add(n.left.value)
        return out

    def everything(self, fi):
        return {n.attr for n in ast.walk(fi.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}

    def field(self, n):
        return n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == self.frames[-1][1] else None

    def read(self, n, may):
        nm = n.attr
        fi, sn, asked, safe = self.frames[-1]
        self.reads += 1
        if nm in may or nm in self.given or nm in asked or id(n) in safe or self.dry:
            return
        self.late.setdefault(nm, (fi, n))

    def expr(self, e, may):
        """evaluates an expression in order"""
        if e is None:
            return may
        if isinstance(e, (ast.Lambda,)):
            self.later(e, may)
            return may
        if isinstance(e, ast.IfExp):
            may = self.expr(e.test, may)
            return self.expr(e.body, set(may)) | self.expr(e.orelse, set(may))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in e.generators:
                may = self.expr(g.iter, may)
                for i in g.ifs:
                    may = self.expr(i, may)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                may = self.expr(x, may)
            return may
        if isinstance(e, ast.Call):
            f = e.func
            target = None
            if isinstance(f, ast.Attribute) and self.field(f) is not None:
                target = self.method(f.attr) if f.attr not in may or self.method(f.attr) else None
                if target is None:
                    self.read(f, may)
                else:
                    self.reads += 1
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                cls = self.frames[-1][0].cls
                target = self.method(f.attr, after=cls) if cls is not None else None
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == self.frames[-1][1]:
                fi = self.frames[-1][0]
                r = self.A.P.resolve_global(fi.module, f.value.id)
                if r and r[0] == 'class':
                    g = r[1].find(f.attr)
                    target = g[1] if g and g[0] == 'method' else None
            elif isinstance(f, ast.Name) and f.id == 'setattr' and len(e.args) == 3 and isinstance(e.args[1], ast.Constant) and ast.unparse(e.args[0]) == self.frames[-1][1]:
                may = self.expr(e.args[2], may)
                return may | {e.args[1].value}
            else:
                may = self.expr(f, may)
            for a in e.args:
                may = self.expr(a.value if isinstance(a, ast.Starred) else a, may)
            for k in e.keywords:
                may = self.expr(k.value, may)
            if target is not None:
                may = self.call(target, may)
            return may
        if isinstance(e, ast.Attribute) and self.field(e) is not None:
            if isinstance(e.ctx, ast.Load):
                m = self.method(e.attr)
                if m is not None:
                    p = self.ci.find(e.attr)
                    if p[0] == 'property':
                        return self.call(m, may)
                    # handed on, it may run from now on
                    return may | self.all_stores(m)
                self.read(e, may)
            return may
        if isinstance(e, ast.NamedExpr):
            return self.expr(e.value, may)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                may = self.expr(c, may)
            elif isinstance(c, ast.AST):
                for x in ast.walk(c):
                    if isinstance(x, ast.expr):
                        may = self.expr(x, may)
        return may

    def all_stores(self, fi):
        out, todo, seen = set(), [fi], set()
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            out |= self.everything(f)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and self.method(n.attr) is not None:
                    todo.append(self.method(n.attr))
        return out

    def later(self, f, may):
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                may.add(n.attr)

    def target(self, t, may):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                may = self.target(x, may)
            return may
        if isinstance(t, ast.Starred):
            return self.target(t.value, may)
        if isinstance(t, ast.Attribute):
            if self.field(t) is not None:
                p = self.ci.find(t.attr)
                for c in self.ci.mro():
                    if isinstance(c, ClassInfo) and t.attr in c.setters:
                        return self.call(c.setters[t.attr], may)
                return may | {t.attr}
            return self.expr(t.value, may)
        if isinstance(t, ast.Subscript):
            may = self.expr(t.value, may)
            return self.expr(t.slice, may)
        return may

    def body(self, stmts, may):
        for st in stmts:
            may = self.stmt(st, may)
        return may

    def stmt(self, st, may):
        may = set(may)
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            may = self.expr(st.value, may)
            own_ = needs(st.value, self.field) if st.value is not None else set()
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                if st.value is not None:
                    got = self.target(t, may)
                    may = (got - own_) | may
            return may
        if isinstance(st, ast.AugAssign):
            may = self.expr(st.value, may)
            if isinstance(st.target, ast.Attribute) and self.field(st.target) is not None:
                if self.method(st.target.attr) is None:
                    self.read(st.target, may)
                return may
            return self.target(st.target, may)
        if isinstance(st, ast.If):
            may = self.expr(st.test, may)
            a, b = self.body(st.body, set(may)), self.body(st.orelse, set(may))
            ea, eb = gone(st.body), gone(st.orelse)
            return (set() if ea and not eb else a) | (set() if eb and not ea else b)
        if isinstance(st, (ast.For, ast.While)):
            if isinstance(st, ast.For):
                may = self.target(st.target, self.expr(st.iter, may))
            self.dry += 1
            m2 = self.body(st.body, set(may))
            self.dry -= 1
            if isinstance(st, ast.While):
                may = self.expr(st.test, may | m2)
            may = may | m2
            may = self.body(st.body, set(may)) | may
            return self.body(st.orelse, set(may)) | may
        if isinstance(st, ast.With):
            for i in st.items:
                may = self.expr(i.context_expr, may)
                if i.optional_vars is not None:
                    may = self.target(i.optional_vars, may)
            return self.body(st.body, may)
        if isinstance(st, ast.Try):
            a = self.body(st.body, set(may)) | may
            outs = self.body(st.orelse, set(a))
            for h in st.handlers:
                outs = outs | self.body(h.body, set(a))
            return self.body(st.finalbody, outs)
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            self.later(st, may)
            return may
        if isinstance(st, ast.Delete):
            return may
        for e in ast.iter_child_nodes(st):
            if isinstance(e, ast.expr):
                may = self.expr(e, may)
            elif isinstance(e, ast.AST):
                for x in ast.walk(e):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        may.add(x.attr)
        return may


def gone(body):
    """the statements after do not run: the function returned or failed"""
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise))


def lifecycle(A):
    P, R = A.P, A.R
    protocols = [('sampler.Sampler', [('produce_sample',)]), ('NestedSampling.NestedSampler', [('nested_sampling_loop',)]),
                 ('proposal.Proposal', [('set_ensemble', 'get_sample'), ('get_sample',)]), ('NestedSampling._NSintegralState', [('increment', 'finalise')]),
                 ('cpnest.CPNest', [('run',), ('run', 'get_nested_samples'), ('run', 'get_posterior_samples'), ('run', 'get_prior_samples'), ('run', 'get_mcmc_samples'), ('run', 'plot')])]
    done = set()
    for q, seqs in protocols:
        root = P.cls(q)
        for ci in [root] + P.subclasses(root):
            done.add(ci)
            if any('abstractmethod' in ' '.join(m.decorators) for m in [ci.find(k)[1] for s_ in seqs for k in s_ if ci.find(k) and ci.find(k)[0] == 'method']):
                continue
            for seq in seqs:
                if seq == ('get_sample',) and ci.find('set_ensemble'):
                    continue            # the cycle hands it the ensemble first
                live(A, ci, seq)
    for m in P.modules.values():
        for ci in m.classes.values():
            if ci in done or ci.module.is_cython:
                continue
            for name, fi in sorted(ci.methods.items()):
                if not (name.startswith('__') and name not in ('__init__', '__call__')) and not fi.is_static and not fi.is_class:
                    live(A, ci, (name,) if name != '__init__' else (), others=True)


def live(A, ci, seq, others=False):
    R = A.R
    label = '%s.%s' % (ci.name, '.'.join(seq) or '__init__')
    with R.guard('field', label):
        L = Life(A, ci)
        fis = [ci.find(x) for x in (('__init__',) + tuple(seq))]
        if any(f is None for f in fis[1:]):
            return
        may = L.may
        if others:                  # no order is laid down: anything else may have run before
            for name in ci.methods:
                if name not in seq and not name.startswith('__'):
                    may = may | L.all_stores(ci.methods[name])
        for f in fis:
            if f is not None and f[0] == 'method':
                may = L.call(f[1], may)
        if L.open_:
            return
        R.count('field reads', L.reads)
        for nm, (fi, n) in sorted(L.late.items()):
            if A.has([ci], nm) is False:
                continue            # reported where it is read
            R.violation('field', '%s.%s' % (ci.name, nm), 'read in %s before anything can have stored it on an object that was only constructed%s' % (fi.qual, ''.join(', then %s()' % x for x in seq)), A.where(fi.module, n))
        if not L.late:
            R.ok('field', label, '%d reads' % L.reads)
