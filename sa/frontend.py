"""Load the package source into modules, classes and functions (no import, no execution)."""
import ast
import os
import glob

BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)


class AnchorMissing(Exception):
    """a public name the rules are anchored on no longer exists"""


class FuncInfo(object):
    def __init__(self, name, node, module, cls=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.qual = (module.name + '.' + (cls.name + '.' if cls else '') + name)
        self.opaque = getattr(node, '_opaque', False)
        decs = []
        for d in getattr(node, 'decorator_list', []):
            decs.append(ast.unparse(d))
        self.decorators = decs
        self.is_static = 'staticmethod' in decs
        self.is_class = 'classmethod' in decs
        self.is_generator = _has_yield(node)
        self.cy_argtypes = getattr(node, '_cy_argtypes', {})
        self.cy_locals = getattr(node, '_cy_locals', {}) or {}

    @property
    def file(self):
        return self.module.relpath

    def __repr__(self):
        return '<func %s>' % self.qual


def _has_yield(fn):
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(c):
                return True
        return False
    return walk(fn) if not isinstance(fn, ast.Lambda) else False


class ClassInfo(object):
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.qual = module.name + '.' + name
        self.methods = {}
        self.getters = {}
        self.setters = {}
        self.attrs = {}
        self.cy_fields = dict(getattr(node, '_cy_fields', {}))
        for st in node.body:
            self._stmt(st)
        self.bases = []      # resolved later: ClassInfo or dotted external name

    def _stmt(self, st):
        if isinstance(st, ast.FunctionDef):
            f = FuncInfo(st.name, st, self.module, self)
            if 'property' in f.decorators or any(d.endswith('cached_property') for d in f.decorators):
                self.getters[st.name] = f
            elif any(d.endswith('.setter') for d in f.decorators):
                self.setters[st.name] = f
            else:
                self.methods[st.name] = f
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = st.value
                elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple):
                    for a, b in zip(t.elts, st.value.elts):
                        if isinstance(a, ast.Name):
                            self.attrs[a.id] = b
        elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
            self.attrs[st.target.id] = st.value
        elif isinstance(st, (ast.If, ast.Try)):
            for x in st.body:
                self._stmt(x)

    def mro(self):
        """C3 is not needed for this code base's diamonds in practice, but do it right anyway"""
        seqs = []
        for b in self.bases:
            if isinstance(b, ClassInfo):
                seqs.append(list(b.mro()))
            else:
                seqs.append([b])
        seqs.append(list(self.bases))
        out = [self]
        while True:
            seqs = [q for q in seqs if q]
            if not seqs:
                return out
            for q in seqs:
                h = q[0]
                if not any(h in r[1:] for r in seqs):
                    break
            else:
                return out
            out.append(h)
            for q in seqs:
                if q[0] is h:
                    del q[0]

    def find(self, name, after=None):
        """(kind, info) of attribute `name` along the MRO; after=class to start behind (super)"""
        started = after is None
        for c in self.mro():
            if not started:
                if c is after:
                    started = True
                continue
            if not isinstance(c, ClassInfo):
                continue
            if name in c.methods:
                return 'method', c.methods[name]
            if name in c.getters:
                return 'property', c.getters[name]
            if name in c.attrs:
                return 'attr', (c, c.attrs[name])
        return None

    def find_setter(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.setters:
                return c.setters[name]
        return None

    def external_bases(self):
        return [b for b in self.mro() if not isinstance(b, ClassInfo)]

    def is_subclass(self, other):
        return other in self.mro()

    def __repr__(self):
        return '<class %s>' % self.qual


class Module(object):
    def __init__(self, name, path, relpath, tree, is_cython=False):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.is_cython = is_cython
        self.functions = {}
        self.classes = {}
        self.globals = {}
        self.imports = {}     # alias -> ('mod', dotted) | ('from', dotted, name)
        self._scan(tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                self.functions[st.name] = FuncInfo(st.name, st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(st.name, st, self)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                self.imports.update(import_bindings(st))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = st.value
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.globals[e.id] = None
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.globals[st.target.id] = st.value
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    self._scan(h.body)
                self._scan(st.orelse)
                self._scan(st.finalbody)
            elif isinstance(st, (ast.For, ast.With, ast.While)):
                self._scan(st.body)


def import_bindings(st):
    out = {}
    if isinstance(st, ast.Import):
        for a in st.names:
            if a.asname:
                out[a.asname] = ('mod', a.name)
            else:
                out[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
    else:
        mod = ('.' * (st.level or 0)) + (st.module or '')
        for a in st.names:
            out[a.asname or a.name] = ('from', mod, a.name)
    return out


class Program(object):
    def __init__(self, root='/repo', package='cpnest', overrides=None):
        """overrides: {relative path: text} replaces files in memory (self-tests only)"""
        self.root = root
        self.package = package
        self.modules = {}
        self.warnings = []
        self.files = []
        overrides = overrides or {}
        pkgdir = os.path.join(root, package)
        if not os.path.isdir(pkgdir):
            raise AnchorMissing('package directory %s' % pkgdir)
        for p in sorted(glob.glob(os.path.join(pkgdir, '*.py'))):
            rel = os.path.relpath(p, root)
            text = overrides.get(rel)
            if text is None:
                with open(p, encoding='utf-8') as f:
                    text = f.read()
            name = os.path.basename(p)[:-3]
            self.files.append(rel)
            self.modules[name] = Module(name, p, rel, ast.parse(text, p))
        for p in sorted(glob.glob(os.path.join(pkgdir, '*.pyx'))):
            from . import cy2ast
            rel = os.path.relpath(p, root)
            text = overrides.get(rel)
            if text is None:
                with open(p, encoding='utf-8') as f:
                    text = f.read()
            name = os.path.basename(p)[:-4]
            tree, warn = cy2ast.convert(name, text, p)
            self.warnings += ['%s: %s' % (rel, w) for w in warn]
            self.files.append(rel)
            m = Module(name, p, rel, tree, True)
            pxd = p[:-3] + 'pxd'
            if os.path.exists(pxd):
                relx = os.path.relpath(pxd, root)
                t = overrides.get(relx)
                if t is None:
                    with open(pxd, encoding='utf-8') as f:
                        t = f.read()
                self.files.append(relx)
                for c, f in cy2ast.pxd_fields(t).items():
                    if c in m.classes:
                        m.classes[c].cy_fields.update(f)
            self.modules[name] = m
        for m in self.modules.values():
            for c in m.classes.values():
                c.bases = [self._base(m, b) for b in c.node.bases]
                c.bases = [b for b in c.bases if b != 'object']

    def _base(self, m, b):
        if isinstance(b, ast.Name):
            r = self.resolve_global(m, b.id)
            if r and r[0] == 'class':
                return r[1]
            if r and r[0] == 'ext':
                return r[1]
            return b.id
        if isinstance(b, ast.Attribute):
            d = ast.unparse(b)
            r = self.resolve_dotted(m, d)
            if r and r[0] == 'class':
                return r[1]
            if r and r[0] == 'ext':
                return r[1]
            return d
        return ast.unparse(b)

    def resolve_dotted(self, m, dotted):
        parts = dotted.split('.')
        r = self.resolve_global(m, parts[0])
        for p in parts[1:]:
            if r is None:
                return None
            if r[0] == 'module':
                r = self.module_attr(r[1], p)
            elif r[0] == 'ext':
                r = ('ext', r[1] + '.' + p)
            else:
                return None
        return r

    def _pkgmodule(self, m, dotted):
        """package module name for an import path, or None"""
        if dotted.startswith('.'):
            d = dotted.lstrip('.')
            if len(dotted) - len(d) > 1:
                return None
            if d == '':
                return ''
            return d if d in self.modules else None
        if dotted == self.package:
            return '__init__'
        if dotted.startswith(self.package + '.'):
            d = dotted[len(self.package) + 1:]
            return d if d in self.modules else None
        return None

    def resolve_binding(self, m, b):
        if b[0] == 'mod':
            pm = self._pkgmodule(m, b[1])
            if pm:
                return ('module', self.modules[pm])
            return ('ext', b[1])
        _, mod, name = b
        pm = self._pkgmodule(m, mod)
        if pm == '':
            if name in self.modules:
                return ('module', self.modules[name])
            return self.module_attr(self.modules['__init__'], name)
        if pm is not None:
            r = self.module_attr(self.modules[pm], name)
            if r is None and pm == '__init__' and name in self.modules:
                return ('module', self.modules[name])
            return r
        if mod.startswith('.'):
            return None
        return ('ext', mod + '.' + name)

    def module_attr(self, m, name, depth=0):
        if name in m.functions:
            return ('func', m.functions[name])
        if name in m.classes:
            return ('class', m.classes[name])
        if name in m.globals:
            return ('global', m, name, m.globals[name])
        if name in m.imports and depth < 8:
            return self.resolve_binding(m, m.imports[name])
        if m.name == '__init__' and name in self.modules:
            return ('module', self.modules[name])
        return None

    def resolve_global(self, m, name):
        return self.module_attr(m, name)

    # ---- anchors
    def module(self, name):
        if name not in self.modules:
            raise AnchorMissing('module %s' % name)
        return self.modules[name]

    def cls(self, name):
        """class by bare name or module.Class"""
        if '.' in name:
            mod, c = name.split('.')
            r = self.module_attr(self.module(mod), c)
            if r and r[0] == 'class':
                return r[1]
            name = c
        hits = [m.classes[name] for m in self.modules.values() if name in m.classes]
        if len(hits) != 1:
            raise AnchorMissing('class %s' % name)
        return hits[0]

    def method(self, cls, name):
        c = self.cls(cls) if isinstance(cls, str) else cls
        r = c.find(name)
        if r is None or r[0] not in ('method', 'property'):
            raise AnchorMissing('method %s.%s' % (c.name, name))
        return r[1]

    def func(self, mod, name):
        r = self.module_attr(self.module(mod), name)
        if r is None or r[0] != 'func':
            raise AnchorMissing('function %s.%s' % (mod, name))
        return r[1]

    def all_functions(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for d in (c.methods, c.getters, c.setters):
                    for f in d.values():
                        yield f

    def subclasses(self, cls):
        return [c for m in self.modules.values() for c in m.classes.values() if cls in c.mro() and c is not cls]
