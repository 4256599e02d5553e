"""Abstract interpreter over the value-number domain.

Paths are partitioned by the branch conditions they take; loops are solved by a
fixpoint at the loop head (anti-unification of the head state with every back
edge), never by unrolling a symbolic number of iterations; package calls are
inlined.  Nothing of the package is imported or executed and no solver is used:
branch conditions are only compared with each other as terms.
"""
import ast
from .terms import *
from .seqs import *
from . import terms as T
from .frontend import FuncInfo, ClassInfo, import_bindings
from . import library

LP = 'parameter.LivePoint'
LPFIELDS = ('$coords', 'logL', 'logP', 'names', 'dimension')
SEQTYPES = ('list', 'deque', 'array', 'set', 'tuple')
MAXDEPTH = 14
MAXPATHS = 600


class TooComplex(Exception):
    pass


class Ev(object):
    """one event of a path"""
    __slots__ = ('kind', 'a', 'file', 'line', 'facts', 'locks', 'func')

    def __init__(self, kind, a, file, line, facts, locks, func):
        self.kind = kind
        self.a = a
        self.file = file
        self.line = line
        self.facts = facts
        self.locks = locks
        self.func = func

    def __getattr__(self, k):
        try:
            return self.a[k]
        except KeyError:
            raise AttributeError(k)

    def get(self, k, d=None):
        return self.a.get(k, d)

    @property
    def loc(self):
        return '%s:%s (%s)' % (self.file, self.line, self.func)

    def mapped(self, f):
        def go(v):
            if isinstance(v, Term):
                return f(v)
            if isinstance(v, tuple):
                return tuple(go(x) for x in v)
            if isinstance(v, list):
                return [go(x) for x in v]
            if isinstance(v, dict):
                return {k: go(x) for k, x in v.items()}
            if isinstance(v, Path):
                return v.mapped(f)
            return v
        return Ev(self.kind, {k: go(v) for k, v in self.a.items()}, self.file, self.line,
                  tuple(f(x) for x in self.facts), self.locks, self.func)

    def __repr__(self):
        return '%s(%s)@%s' % (self.kind, ', '.join('%s=%r' % kv for kv in self.a.items() if kv[0] != 'paths'), self.line)


class Path(object):
    """a path through a loop body (back edge) : events and the conditions it took"""
    __slots__ = ('trace', 'facts', 'end', 'sigma', 'onward')

    def __init__(self, trace, facts, end, sigma=None, onward=()):
        self.onward = onward        # alternatives under which another pass follows (while loops)
        self.trace = trace
        self.facts = facts
        self.end = end
        self.sigma = sigma or {}

    def mapped(self, f):
        return Path(tuple(e.mapped(f) for e in self.trace), tuple(f(x) for x in self.facts), self.end,
                    {k: f(v) for k, v in self.sigma.items()}, tuple(tuple(f(x) for x in fs) for fs in self.onward))


class State(object):
    __slots__ = ('env', 'heap', 'facts', 'trace', 'locks')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = ()
        self.trace = ()
        self.locks = ()

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.facts = self.facts
        s.trace = self.trace
        s.locks = self.locks
        return s

    def assume(self, c):
        for x in (c.args if c.op == 'and' else (c,)):
            if x is TRUE or x in self.facts:
                continue
            self.facts = self.facts + (x,)
        return self


class Frame(object):
    def __init__(self, fi, module, cls, selfname, gen=False):
        self.fi = fi
        self.module = module
        self.cls = cls
        self.selfname = selfname
        self.gen = gen
        self.imports = {}


class Outcome(object):
    """a finished path of an entry point"""

    def __init__(self, kind, value, state):
        self.kind = kind        # return | raise
        self.value = value
        self.state = state
        self.trace = state.trace
        self.facts = state.facts

    def __repr__(self):
        return '<%s %r: %d events>' % (self.kind, self.value, len(self.trace))


# ------------------------------------------------------------------ facts
def _split_const(p):
    d = pdict(p)
    c = d.pop((), 0)
    return frompdict(d), c


def decide(c, facts):
    """truth value of a condition implied by the facts (syntactic), or None"""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c in facts:
        return True
    if c.op == 'not':
        r = decide(c.args[0], facts)
        return None if r is None else not r
    if not_(c) in facts:
        return False
    if c.op == 'and':
        rs = [decide(x, facts) for x in c.args]
        if False in rs:
            return False
        return True if all(r is True for r in rs) else None
    if c.op == 'or':
        rs = [decide(x, facts) for x in c.args]
        if True in rs:
            return True
        return False if all(r is False for r in rs) else None
    if c.op in ('lt', 'le', 'eqz'):
        p = c.args[0]
        base, k = _split_const(p)
        nb = neg(base)
        for f in facts:
            if f.op in ('lt', 'le', 'eqz'):
                fb, fk = _split_const(f.args[0])
                if c.op == 'eqz':
                    if f.op == 'lt' and ((fb is base and fk >= k) or (fb is nb and fk >= -k)):
                        return False
                    if f.op == 'le' and ((fb is base and fk > k) or (fb is nb and fk > -k)):
                        return False
                    if f.op == 'eqz' and fb is base and fk != k:
                        return False
                    continue
                if f.op == 'eqz':
                    # base = -fk (or base = fk when negated)
                    if fb is base:
                        v = k - fk
                    elif fb is nb:
                        v = k + fk
                    else:
                        continue
                    return (v < 0) if c.op == 'lt' else (v <= 0)
                # f: fb + fk < 0 ; c: base + k < 0
                if fb is base:
                    if k < fk or (k == fk and (f.op == 'lt' or c.op == 'le')):
                        return True
                elif fb is nb:
                    # base > fk (or >=): base + k > k + fk
                    if k + fk > 0 or (k + fk == 0 and (f.op == 'lt' or c.op == 'lt')):
                        return False
            elif f.op == 'pred' and f.args[0] == 'isfinite':
                x = f.args[1]
                for i in (INF, neg(INF)):
                    if c.op == 'eqz' and c is eq(x, i):
                        return False
                if c.op == 'lt' and c is lt(neg(INF), x) or c.op == 'lt' and c is lt(x, INF):
                    return True
    if c.op == 'truthy':
        for f in facts:
            if f.op == 'eq' and NONE in f.args and c.args[0] in f.args:
                return False
    if c.op == 'eq' and NONE in c.args:
        o = c.args[0] if c.args[1] is NONE else c.args[1]
        if mk('truthy', o) in facts:
            return False
    return None


def simplify(t, facts):
    """resolve ite terms whose condition the facts decide"""
    hit = [x for x in subterms(t) if x.op == 'ite']
    if not hit:
        return t
    m = {}
    for x in hit:
        d = decide(x.args[0], facts)
        if d is True:
            m[x] = x.args[1]
        elif d is False:
            m[x] = x.args[2]
    if not m:
        return t
    return simplify(subst(t, m), facts)


# ------------------------------------------------------------------ engine
class Engine(object):
    def __init__(self, program, volatile=(), stubs=None, native_lp=True, hooks=None, async_exc=('CheckPoint',), inline=True):
        self.p = program
        self.volatile = set(volatile)
        self.stubs = stubs or {}
        self.native_lp = native_lp
        self.hooks = hooks or {}
        self.async_exc = set(async_exc)
        self.types = {}
        self.frames = []
        self.sinks = []
        self.yields = []
        self.notes = []
        self.drawscope = None            # (loop, number of draws met per site) while the body of a loop is executed
        self.drawids = {}
        self.closures = {}
        self.gens = {}
        self.loopinfo = {}
        self.attr_writes = []
        self.calls = 0
        self.steps = 0
        self.functions_seen = set()
        self._stored = None
        self._listlike = {}
        self._globals = {}
        self.budget = 400000

    # -------------------------------------------------------- helpers
    def note(self, why, node=None):
        f = self.frames[-1] if self.frames else None
        self.notes.append('%s at %s:%s' % (why, f.module.relpath if f else '?', getattr(node, 'lineno', '?')))

    def points_in(self, st, vals):
        """live points among values (and tuples of values), with what they hold right now"""
        out = []
        for v in vals:
            if isinstance(v, Term):
                if self.is_lp(v):
                    out.append((v, self.val(st, self.getfield(st, v, '$coords')), self.getfield(st, v, 'logL'), self.getfield(st, v, 'logP')))
                elif v.op == 'tuple':
                    out.extend(self.points_in(st, v.args))
        return tuple(out)

    def event(self, st, kind, node=None, **a):
        if kind == 'mut':
            a['lps'] = self.points_in(st, a.get('args') or ())
        f = self.frames[-1] if self.frames else None
        e = Ev(kind, a, f.module.relpath if f else '?', getattr(node, 'lineno', 0), st.facts, st.locks,
               f.fi.qual if f and f.fi else '?')
        st.trace = st.trace + (e,)
        return e

    def typ(self, t):
        """class/type of a value: qualified package class, builtin type name, or None"""
        if t.op in ('ref', 'inst'):
            return t.args[0]
        r = self.types.get(t)
        if r is not None:
            return r
        if t.op == 'num' or t.op == 'poly':
            return 'number'
        if t.op in ('str', 'fmt', 'path'):
            return 'str'
        if t.op == 'tuple':
            return 'tuple'
        if t.op in ('list', 'cat', 'map', 'range', 'slice', 'fill', 'sorted', 'store', 'rep', 'storemap', 'zip', 'enum', 'reversed', 'perm', 'rot', 'ins'):
            return 'seq'
        if t.op == 'c0':
            return 'seq'
        if t.op == 'idx':
            et = self.elemtype(t.args[0])
            if et and not (et == 'tuple' and t.args[0].op == 'tuple'):
                return et
            if t.args[0].op == 'idx' and t.args[1].op == 'num':
                ps = self.parttypes(t.args[0].args[0])
                k = t.args[1].args[0]
                if ps and 0 <= k < len(ps):
                    return ps[int(k)]
        if t.op == 'call' and t.args[0] in ('cumsum', 'asarray', 'sort'):
            return 'seq'
        if t.op == 'ite':
            a, b = self.typ(t.args[1]), self.typ(t.args[2])
            return a if a == b else None
        if t.op == 'phi':
            i = self.loopinfo.get(t)
            if i is not None:
                return self.typ(i)
        return None

    def settype(self, t, ty):
        if ty and t.op not in ('ref', 'num', 'str', 'bool', 'none'):
            self.types[t] = ty
        return t

    def elemtype(self, c):
        t = self.types.get(('elem', c))
        if t:
            return t
        if c.op in ('slice', 'sorted', 'rot', 'reversed', 'perm', 'store', 'ins', 'delidx', 'init'):
            return self.elemtype(c.args[0])
        if c.op == 'cat':
            for x in c.args:
                e = self.elemtype(x)
                if e:
                    return e
        if c.op == 'list' and c.args:
            return self.typ(c.args[0])
        if c.op == 'map':
            return self.typ(c.args[1])
        if c.op == 'c0':
            return self.types.get(('elem', c.args[0]))
        return None

    def parttypes(self, c):
        """types of the parts of the tuples a sequence holds"""
        for _ in range(20):
            if c.op == 'list' and c.args:
                return tuple(self.typ(x) for x in c.args[0].args) if c.args[0].op == 'tuple' else None
            if c.op == 'map':
                return tuple(self.typ(x) for x in c.args[1].args) if c.args[1].op == 'tuple' else None
            if c.op in ('slice', 'sorted', 'rot', 'reversed', 'perm', 'cat', 'ins', 'delidx'):
                c = c.args[0]
            elif c.op == 'phi':
                c = self.loopinfo.get(c)
                if c is None:
                    return None
            else:
                return None
        return None

    def setelem(self, c, ty):
        if ty:
            self.types[('elem', c)] = ty
        return c

    def classinfo(self, t):
        """ClassInfo of a value if it is an instance of a package class"""
        ty = self.typ(t)
        if isinstance(ty, str) and '.' in ty:
            m, c = ty.split('.', 1)
            mod = self.p.modules.get(m)
            if mod and c in mod.classes:
                return mod.classes[c]
        return None

    def is_lp(self, t):
        return self.native_lp and self.typ(t) == LP

    def new(self, cls):
        return mk('ref', cls, next(T._uid))

    def newseq(self, st, kind, content, elem=None):
        r = self.new(kind)
        st.heap[(r, '$c')] = content
        if elem:
            self.setelem(r, elem)
        return r

    def isident(self, t):
        """does the term denote a mutable sequence by identity (its content is separate)?"""
        op = t.op
        if op in ('ref', 'inst'):
            if t.args[0] in SEQTYPES:
                return True
            ci = self.classinfo(t)
            return ci is not None and self.listlike(ci)
        if op in ('fld', 'idx', 'sym', 'phi', 'dictget'):
            if op == 'fld' and t.args[1] in ('$coords', '$c'):
                return False
            ty = self.types.get(t)
            if ty in ('list', 'deque', 'array', 'set'):
                return True
            if isinstance(ty, str) and '.' in ty and ty != LP:
                ci = self.classinfo(t)
                return ci is not None and self.listlike(ci)
        return False

    def listlike(self, ci):
        r = self._listlike.get(ci.qual)
        if r is None:
            r = any(b in ('list', 'deque', 'collections.deque') for b in ci.external_bases())
            self._listlike[ci.qual] = r
        return r

    def c0(self, t):
        c = mk('c0', t)
        et = self.types.get(('elem', t))
        if et:
            self.types[('elem', c)] = et
        self.types[c] = 'seq'
        return c

    def seqcontent(self, st, t):
        """content term of a sequence value"""
        k = st.heap.get((t, '$c'))
        if k is not None:
            return k
        if t.op == 'coordsof':
            return self.getfield(st, t.args[0], '$coords')
        if self.isident(t):
            return self.c0(t)
        return t

    def val(self, st, t, _busy=()):
        """by-value: references to sequences replaced by their content"""
        heap = st.heap

        def isref(x):
            return (x, '$c') in heap or x.op == 'coordsof' or self.isident(x)
        if not any(isref(x) for x in subterms(t)):
            return t
        memo = {}

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            if x.op in ('c0', 'fld0') or x in _busy:
                return x
            if isref(x):
                c = self.seqcontent(st, x)
                r = self.val(st, c, _busy + (x,)) if c is not x else x
            elif x.op == 'fld':
                r = x
            elif not x.args or not any(isref(y) for y in subterms(x)):
                r = x
            else:
                r = rebuild(x, go)
                if r is not x:
                    if x in self.types and r not in self.types:
                        self.types[r] = self.types[x]
                    if ('elem', x) in self.types and ('elem', r) not in self.types:
                        self.types[('elem', r)] = self.types[('elem', x)]
            memo[x] = r
            return r
        return go(t)

    def getfield(self, st, obj, name):
        v = st.heap.get((obj, name))
        if v is not None:
            return v
        if obj.op == 'ite':
            return ite(obj.args[0], self.getfield(st, obj.args[1], name), self.getfield(st, obj.args[2], name))
        d = st.heap.get((obj, '$dict'))
        if d is not None and isinstance(name, str) and not name.startswith('$'):
            v = library.dictlookup(d, s(name))
            if v is not None and v is not False:
                return v
        v = mk('fld', obj, name)
        if self.is_lp(obj) and name in ('logL', 'logP', 'dimension'):
            self.settype(v, 'number')
        h = self.hooks.get('fieldtype')
        if h:
            ty = h(self, obj, name)
            if ty:
                if isinstance(ty, tuple):
                    self.settype(v, ty[0])
                    self.setelem(v, ty[1])
                else:
                    self.settype(v, ty)
        return v

    # -------------------------------------------------------- entry points
    def run(self, fi, selfval, args, kwargs, st=None):
        """analyse a function from a given abstract state; returns Outcomes"""
        st = st or State()
        self.sinks.append([])
        outs = []
        try:
            for s2, v in self.call_func(st, fi, ([selfval] if selfval is not None else []) + list(args), kwargs, fi.node):
                outs.append(Outcome('return', v, s2))
        finally:
            raised = self.sinks.pop()
        for exc, s2 in raised:
            outs.append(Outcome('raise', exc, s2))
        return outs

    def run_generator(self, fi, selfval, args, kwargs, st=None):
        """paths of a generator function up to its first yield"""
        st = st or State()
        self.sinks.append([])
        outs = []
        try:
            for s2, v in self.gen_first(st, fi, ([selfval] if selfval is not None else []) + list(args), kwargs, fi.node):
                outs.append(Outcome('return', v, s2))
        finally:
            raised = self.sinks.pop()
        for exc, s2 in raised:
            outs.append(Outcome('raise', exc, s2))
        return outs

    # -------------------------------------------------------- calls
    def bind(self, st, fi, args, kwargs, node):
        a = fi.node.args
        params = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        env = {}
        kwargs = dict(kwargs)
        rest = []
        for i, v in enumerate(args):
            if i < len(params):
                env[params[i]] = v
            else:
                rest.append(v)
        if a.vararg:
            env[a.vararg.arg] = mk('tuple', *rest)
        elif rest:
            self.event(st, 'arity', node, callee=fi.qual, why='too many positional arguments')
        star = kwargs.pop('**', None)
        for k in list(kwargs):
            if k in params or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    self.event(st, 'arity', node, callee=fi.qual, why='multiple values for %s' % k)
                env[k] = kwargs.pop(k)
        if a.kwarg:
            items = sorted(kwargs.items())
            r = self.new('dict')
            st.heap[(r, '$d')] = mk('dict', star if star is not None else NONE, *[mk('tuple', s(k), v) for k, v in items])
            env[a.kwarg.arg] = r
        elif kwargs:
            self.event(st, 'arity', node, callee=fi.qual, why='unexpected keyword %s' % ', '.join(kwargs))
        defs = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for pname in params + [x.arg for x in a.kwonlyargs]:
            if pname not in env:
                if pname in defs:
                    env[pname] = self.const_expr(defs[pname], fi)
                else:
                    if star is None:
                        self.event(st, 'arity', node, callee=fi.qual, why='missing argument %s' % pname)
                    env[pname] = fresh('missing_' + pname)
        return env

    def const_expr(self, node, fi):
        st = State()
        self.frames.append(Frame(fi, fi.module, fi.cls, None))
        self.sinks.append([])
        try:
            r = self.ev(st, node)
            return r[0][1] if r else fresh('const')
        finally:
            self.sinks.pop()
            self.frames.pop()

    def call_func(self, st, fi, args, kwargs, node, closure_env=None):
        h = self.stubs.get(fi.qual) or self.stubs.get(fi.name if fi.cls is None else fi.cls.name + '.' + fi.name)
        if h is not None:
            return h(self, st, fi, args, kwargs, node)
        if fi.opaque:
            self.note('untranslated function %s' % fi.qual, node)
            return [(st, fresh('opaque', s(fi.qual)))]
        depth = sum(1 for f in self.frames if f.fi is fi)
        if depth >= 2 or len(self.frames) > MAXDEPTH:
            self.note('recursion/depth %s' % fi.qual, node)
            return [(st, fresh('opaque', s(fi.qual)))]
        if fi.is_generator:
            g = mk('gen', fi.qual, next(T._uid))
            self.gens[g] = (fi, args, kwargs)
            return [(st, g)]
        return self.exec_func(st, fi, args, kwargs, node, closure_env)

    def exec_func(self, st, fi, args, kwargs, node, closure_env=None, gen=False):
        self.calls += 1
        self.functions_seen.add(fi.qual)
        saved = st.env
        env = dict(closure_env or {})
        env.update(self.bind(st, fi, args, kwargs, node))
        if fi.cy_argtypes:
            for k, ty in fi.cy_argtypes.items():
                if k in env and ty in ('float', 'int', 'long', 'short', 'char', 'bint', 'Py_ssize_t', 'unsigned int'):
                    env[k] = self.ccast(env[k], ty)
        st.env = env
        a = fi.node.args.args
        selfname = a[0].arg if a and fi.cls is not None and not fi.is_static else None
        self.frames.append(Frame(fi, fi.module, fi.cls, selfname, gen))
        if gen:
            self.yields.append([])
        res = []
        try:
            body = fi.node.body if isinstance(fi.node, ast.FunctionDef) else [ast.Return(value=fi.node.body)]
            outs = self.block(st, body)
        finally:
            self.frames.pop()
            ys = self.yields.pop() if gen else None
        if gen:
            for s2, v in ys:
                s2.env = dict(saved)
                res.append((s2, v))
        for kind, v, s2 in outs:
            s2.env = dict(saved)
            if gen:
                if kind == 'raise':
                    self.sinks[-1].append((v, s2))
                else:
                    self.sinks[-1].append((mk('exc', 'StopIteration'), s2))
                continue
            if kind == 'return':
                res.append((s2, v))
            elif kind == 'fall':
                res.append((s2, NONE))
            elif kind == 'raise':
                self.sinks[-1].append((v, s2))
        if len(res) > MAXPATHS:
            raise TooComplex('%d paths in %s' % (len(res), fi.qual))
        return self.dedupe(res)

    def dedupe(self, res):
        """join paths that ended in the same state with the same events"""
        if len(res) < 2:
            return res
        out, seen = [], {}
        for st, v in res:
            k = (v, tuple(id(e) for e in st.trace), st.locks)
            hit = None
            for o in seen.get(k, ()):
                if o[0].heap == st.heap and o[0].env == st.env:
                    hit = o
                    break
            if hit:
                hit[0].facts = joinfacts(hit[0].facts, st.facts)
                continue
            o = (st, v)
            seen.setdefault(k, []).append(o)
            out.append(o)
        return out

    def ccast(self, v, ty):
        if ty in ('double', 'object', 'list', 'str', 'LivePoint', 'array.array', 'np.ndarray', 'Py_ssize_t', 'int', 'unsigned int', 'bint', 'long'):
            if ty in ('int', 'long', 'unsigned int') and v.op not in ('num', 'iota', 'phi', 'fld', 'len', 'sym'):
                return call('cast_' + ty.replace(' ', '_'), v)
            return v
        return call('cast_' + ty, v)

    def gen_first(self, st, fi, args, kwargs, node):
        return self.exec_func(st, fi, args, kwargs, node, gen=True)

    def method(self, obj, name):
        ci = self.classinfo(obj)
        if ci is None:
            return None
        r = ci.find(name)
        return r[1] if r and r[0] == 'method' else None

    def call_method(self, st, obj, name, args, kwargs, node):
        out = []
        for s2, f in self.getattr_(st, obj, name, node):
            out.extend(self.call_value(s2, f, args, kwargs, node))
        return out

    def call_value(self, st, f, args, kwargs, node):
        op = f.op
        self.steps += 1
        if self.steps > self.budget:
            raise TooComplex('step budget')
        if op == 'func':
            fi = self.funcs[f]
            return self.call_func(st, fi, args, kwargs, node)
        if op == 'bound':
            fi = self.funcs[f.args[1]]
            recv = f.args[0]
            if fi.is_static:
                return self.call_func(st, fi, args, kwargs, node)
            return self.call_func(st, fi, [recv] + list(args), kwargs, node)
        if op == 'class':
            return self.instantiate(st, self.classof[f], args, kwargs, node)
        if op == 'closure':
            fi, env = self.closures[f]
            return self.call_func(st, fi, args, kwargs, node, closure_env=env)
        if op == 'ite':
            out = []
            for br, s2 in self.branch(st, f.args[0]):
                out.extend(self.call_value(s2, f.args[1] if br else f.args[2], args, kwargs, node))
            return out
        r = library.call_value(self, st, f, args, kwargs, node)
        if r is not None:
            return r
        if f.op == 'fld':
            g = self.ctorfield(f.args[0], f.args[1])
            if g is not None:
                return self.call_value(st, g, args, kwargs, node)
        if f.op in ('fld', 'sym') and self.hooks.get('purecalls') and not kwargs:
            vals = [self.val(st, a) for a in args]
            v = self.settype(mk('call', 'apply', f, *vals), 'number')
            return [(st, v)]
        # unknown callable
        self.note('unknown call %s' % show(f)[:60], node)
        vals = [self.val(st, a) for a in args]
        v = fresh('opaque', f)
        self.event(st, 'opaquecall', node, f=f, args=tuple(vals), ret=v)
        return [(st, v)]

    def ctorfield(self, obj, name):
        """callable a constructor stores in a field that is written nowhere else"""
        ci = self.classinfo(obj)
        if ci is None:
            return None
        key = ('ctorfield', ci.qual, name)
        if key in self._globals:
            return self._globals[key]
        self._globals[key] = None
        init = ci.find('__init__')
        if init is None or init[0] != 'method' or any(fi.name not in ('__init__', '__cinit__') for fi, n in self.stored_attrs().get(name, ())):
            return None
        st = State()
        o = self.new(ci.qual)
        st.heap[(o, '$fresh')] = TRUE
        a = init[1].node.args
        nargs = len(a.args) - 1 - len(a.defaults)
        ps = [fresh('ctorarg') for _ in range(nargs)]
        self.sinks.append([])
        notes = len(self.notes)
        frames, self.frames = self.frames, []
        try:
            r = self.call_func(st, init[1], [o] + ps, {}, init[1].node)
        except TooComplex:
            r = []
        finally:
            self.frames = frames
            self.sinks.pop()
            del self.notes[notes:]
        vs = set(s2.heap.get((o, name)) for s2, _ in r)
        if len(vs) == 1:
            v = vs.pop()
            if v is not None and not any(x in ps for x in subterms(v)) and v.op not in ('fld', 'sym', 'num', 'str', 'poly'):
                self._globals[key] = v
                return v
        return None

    funcs = {}
    classof = {}

    def functerm(self, fi):
        t = mk('func', fi.qual, id(fi))
        Engine.funcs[t] = fi
        return t

    def classterm(self, ci):
        t = mk('class', ci.qual, id(ci))
        Engine.classof[t] = ci
        return t

    def instantiate(self, st, ci, args, kwargs, node):
        if any(isinstance(b, str) and (b.endswith('Exception') or b.endswith('Error')) for b in ci.mro()):
            return [(st, mk('exc', ci.name, *[self.val(st, a) for a in args]))]
        h = self.hooks.get('instantiate')
        if h:
            r = h(self, st, ci, args, kwargs, node)
            if r is not None:
                return r
        obj = self.new(ci.qual)
        st.heap[(obj, '$fresh')] = TRUE
        if ci.qual == LP and self.native_lp:
            init = ci.find('__cinit__') or ci.find('__init__')
            env = self.bind(st, init[1], [obj] + list(args), kwargs, node)
            names = env.get('names', NONE)
            d = env.get('d', NONE)
            dim = length(self.val(st, names))
            st.heap[(obj, 'names')] = names
            st.heap[(obj, 'dimension')] = dim
            st.heap[(obj, '$coords')] = mk('fill', dim, ZERO) if d is NONE else self.val(st, d)
            st.heap[(obj, 'logL')] = env.get('logL', neg(INF))
            st.heap[(obj, 'logP')] = env.get('logP', neg(INF))
            self.event(st, 'newlp', node, obj=obj)
            return [(st, obj)]
        if ci.cy_fields:
            for f, ty in ci.cy_fields.items():
                st.heap[(obj, f)] = NONE if ty in ('list', 'array.array', 'object', 'str') else ZERO
        init = ci.find('__cinit__') if ci.cy_fields else None
        init = init or ci.find('__init__')
        if init is None:
            if any(b in ('list', 'deque') for b in ci.external_bases()):
                st.heap[(obj, '$c')] = EMPTY
            st.heap[(obj, '$ctorargs')] = mk('tuple', *args)
            return [(st, obj)]
        out = []
        for s2, _ in self.call_func(st, init[1], [obj] + list(args), kwargs, node):
            out.append((s2, obj))
        return out

    # -------------------------------------------------------- names
    def lookup(self, st, name, node):
        if name in st.env:
            return st.env[name]
        f = self.frames[-1]
        if name in f.imports:
            r = f.imports[name]
        else:
            r = self.p.resolve_global(f.module, name)
        if r is None:
            b = library.builtin(name)
            if b is not None:
                return b
            self.event(st, 'unbound', node, name=name)
            return fresh('unbound_' + name)
        return self.fromres(r)

    def fromres(self, r):
        if r is None:
            return fresh('unresolved')
        k = r[0]
        if k == 'func':
            return self.functerm(r[1])
        if k == 'class':
            return self.classterm(r[1])
        if k == 'module':
            t = mk('module', r[1].name)
            return t
        if k == 'ext':
            return library.external(r[1])
        if k == 'global':
            _, m, name, expr = r
            key = (m.name, name)
            if key not in self._globals:
                self._globals[key] = None
                v = None
                if expr is not None:
                    self.frames.append(Frame(None, m, None, None))
                    self.sinks.append([])
                    try:
                        rr = self.ev(State(), expr)
                        v = rr[0][1] if rr else None
                    finally:
                        self.sinks.pop()
                        self.frames.pop()
                self._globals[key] = v if v is not None else fresh('global_' + name)
            return self._globals[key]
        return fresh('unresolved')

    # -------------------------------------------------------- attributes
    def stored_attrs(self):
        """{attribute name: [(class qual of the storing method or None, node)]} for every store in the package"""
        if self._stored is None:
            st = {}
            for fi in self.p.all_functions():
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        st.setdefault(n.attr, []).append((fi, n))
            self._stored = st
        return self._stored

    def getattr_(self, st, base, name, node):
        op = base.op
        if op == 'module':
            m = self.p.modules[base.args[0]]
            r = self.p.module_attr(m, name)
            if r is None:
                self.event(st, 'noattr', node, base=base, name=name)
                return [(st, fresh('noattr_' + name))]
            return [(st, self.fromres(r))]
        if op == 'ext':
            return [(st, library.external(base.args[0] + '.' + name))]
        if op == 'class':
            ci = self.classof[base]
            r = ci.find(name)
            if name == '__name__':
                return [(st, s(ci.name))]
            if ci.qual == LP and self.native_lp and name in library.LP_OPS:
                return [(st, mk('lpop', name))]
            if r is None:
                if ci.external_bases():
                    return [(st, mk('extattr', base, name))]
                self.event(st, 'noattr', node, base=base, name=name)
                return [(st, fresh('noattr_' + name))]
            if r[0] == 'method':
                fi = r[1]
                if fi.is_class:
                    return [(st, mk('bound', base, self.functerm(fi)))]
                return [(st, self.functerm(fi))]
            if r[0] == 'attr':
                return [(st, self.classattr(r[1][0], name, r[1][1]))]
            return [(st, mk('extattr', base, name))]
        if op == 'super':
            obj, cq = base.args
            ci = self.classinfo(obj)
            here = self.classof[cq]
            if ci is None:
                ci = here
            r = ci.find(name, after=here)
            if r is None:
                return [(st, mk('extbound', mk('superobj', obj), name))]
            if r[0] == 'method':
                return [(st, mk('bound', obj, self.functerm(r[1])))]
            if r[0] == 'attr':
                return [(st, self.classattr(r[1][0], name, r[1][1]))]
            return self.call_func(st, r[1], [obj], {}, node)
        if op == 'ite' and self.typ(base) is None or op == 'ite' and base.args[1].op in ('ref',):
            out = []
            for br, s2 in self.branch(st, base.args[0]):
                out.extend(self.getattr_(s2, base.args[1] if br else base.args[2], name, node))
            return out
        h = self.hooks.get('getattr')
        if h:
            r = h(self, st, base, name, node)
            if r is not None:
                return r
        r = library.getattr_(self, st, base, name, node)
        if r is not None:
            return r
        if (base, name) in st.heap:
            return [(st, st.heap[(base, name)])]
        ci = self.classinfo(base)
        if ci is not None:
            r = ci.find(name)
            if r is not None:
                if r[0] == 'method':
                    fi = r[1]
                    recv = self.classterm(ci) if fi.is_class else base
                    return [(st, mk('bound', recv, self.functerm(fi)))]
                if r[0] == 'property':
                    return self.call_func(st, r[1], [base], {}, node)
                if r[0] == 'attr':
                    if (base, '$fresh') in st.heap or not self.instance_stored(ci, name):
                        return [(st, self.classattr(r[1][0], name, r[1][1]))]
            ext = ci.external_bases()
            if any(b in ('list', 'deque', 'dict', 'collections.deque', 'collections.OrderedDict') for b in ext):
                if library.is_seq_method(name):
                    return [(st, mk('extbound', base, name))]
            if r is None and (base, '$fresh') in st.heap and not ext and name not in ci.cy_fields:
                self.event(st, 'noattr', node, base=base, name=name)
            if r is None and name.startswith('__') and name.endswith('__') and name not in ('__dict__',):
                return [(st, mk('extbound', base, name))]
            if r is None and ext and not self.instance_stored(ci, name):
                return [(st, mk('extbound', base, name))]
        return [(st, self.getfield(st, base, name))]

    def instance_stored(self, ci, name):
        for fi, n in self.stored_attrs().get(name, ()):
            if fi.cls is None:
                return True
            if isinstance(n.value, ast.Name) and fi.node.args.args and n.value.id == fi.node.args.args[0].arg:
                if ci in fi.cls.mro() or fi.cls in ci.mro():
                    return True
            else:
                return True
        return False

    def classattr(self, ci, name, expr):
        key = ('classattr', ci.qual, name)
        if key not in self._globals:
            self.frames.append(Frame(None, ci.module, ci, None))
            self.sinks.append([])
            try:
                st = State()
                rr = self.ev(st, expr)
                v = self.val(rr[0][0], rr[0][1]) if rr else fresh('classattr')
            finally:
                self.sinks.pop()
                self.frames.pop()
            self._globals[key] = v
        return self._globals[key]

    def setattr_(self, st, base, name, v, node):
        if base.op == 'ite':
            out = []
            for br, s2 in self.branch(st, base.args[0]):
                out.extend(self.setattr_(s2, base.args[1] if br else base.args[2], name, v, node))
            return out
        h = self.hooks.get('setattr')
        if h:
            r = h(self, st, base, name, v, node)
            if r is not None:
                return r
        r = library.setattr_(self, st, base, name, v, node)
        if r is not None:
            return r
        ci = self.classinfo(base)
        if ci is not None:
            se = ci.find_setter(name)
            if se is not None:
                return [s2 for s2, _ in self.call_func(st, se, [base, v], {}, node)]
            if name in ci.cy_fields and not (self.native_lp and ci.qual == LP):
                v = self.ccast(v, ci.cy_fields[name])
        st.heap[(base, name)] = v
        self.attr_writes.append((base, name, v, node, self.frames[-1].fi.qual if self.frames and self.frames[-1].fi else '?'))
        return [st]

    # -------------------------------------------------------- expressions
    def ev(self, st, node):
        m = getattr(self, 'x_' + type(node).__name__, None)
        if m is None:
            self.note('expression %s' % type(node).__name__, node)
            return [(st, fresh('opaque'))]
        return m(st, node)

    def evs(self, st, nodes):
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s2, vs in res:
                if isinstance(n, ast.Starred):
                    for s3, v in self.ev(s2, n.value):
                        c = self.val(s3, v)
                        if c.op in ('list', 'tuple'):
                            nxt.append((s3, vs + list(c.args)))
                        else:
                            nxt.append((s3, vs + [mk('star', c)]))
                else:
                    for s3, v in self.ev(s2, n):
                        nxt.append((s3, vs + [v]))
            res = nxt
        return res

    def x_Constant(self, st, n):
        return [(st, const(n.value))]

    def x_Name(self, st, n):
        v = self.lookup(st, n.id, n)
        if v.op == 'ite':
            v = simplify(v, st.facts)
        return [(st, v)]

    def x_Attribute(self, st, n):
        out = []
        for s2, b in self.ev(st, n.value):
            for s3, v in self.getattr_(s2, b, n.attr, n):
                if v.op == 'ite':
                    v = simplify(v, s3.facts)
                out.append((s3, v))
        return out

    def x_Tuple(self, st, n):
        return [(s2, mk('tuple', *vs)) for s2, vs in self.evs(st, n.elts)]

    def x_List(self, st, n):
        out = []
        for s2, vs in self.evs(st, n.elts):
            c = EMPTY
            for v in vs:
                c = cat(c, v.args[0] if v.op == 'star' else mk('list', v))
            out.append((s2, self.newseq(s2, 'list', c)))
        return out

    def x_Set(self, st, n):
        return [(s2, self.newseq(s2, 'set', mk('list', *vs))) for s2, vs in self.evs(st, n.elts)]

    def x_Dict(self, st, n):
        out = []
        keys = [k for k in n.keys if k is not None]
        if len(keys) != len(n.keys):
            self.note('dict unpacking', n)
        for s2, vs in self.evs(st, keys + [v for k, v in zip(n.keys, n.values) if k is not None]):
            k = len(keys)
            r = self.new('dict')
            s2.heap[(r, '$d')] = mk('dict', NONE, *[mk('tuple', a, b) for a, b in zip(vs[:k], vs[k:])])
            out.append((s2, r))
        return out

    def x_JoinedStr(self, st, n):
        res = [(st, [])]
        for v in n.values:
            nxt = []
            for s2, acc in res:
                if isinstance(v, ast.Constant):
                    nxt.append((s2, acc + [s(str(v.value))]))
                else:
                    spec = ''
                    if v.format_spec is not None:
                        spec = ''.join(x.value for x in v.format_spec.values if isinstance(x, ast.Constant))
                    for s3, t in self.ev(s2, v.value):
                        nxt.append((s3, acc + [library.fmtval(self.val(s3, t), spec)]))
            res = nxt
        return [(s2, concat(*acc)) for s2, acc in res]

    def x_BinOp(self, st, n):
        out = []
        for s2, (a, b) in self.evs(st, [n.left, n.right]):
            out.extend(self.binop(s2, n.op, a, b, n))
        return out

    def binop(self, st, op, a, b, node):
        return library.binop(self, st, op, a, b, node)

    def x_UnaryOp(self, st, n):
        if isinstance(n.op, ast.Not):
            return [(s2, not_(truth(self.truthval(s2, v)))) for s2, v in self.evcond(st, n.operand)]
        out = []
        for s2, v in self.ev(st, n.operand):
            if isinstance(n.op, ast.USub):
                x = self.val(s2, v)
                if self.is_lp(v):
                    out.extend(library.binop(self, s2, ast.Mult(), v, num(-1), n))
                    continue
                out.append((s2, self.settype(neg(x), self.typ(x)) if self.typ(x) == 'seq' else neg(x)))
            elif isinstance(n.op, ast.UAdd):
                out.append((s2, v))
            else:
                x = self.val(s2, v)
                if x.op in BOOLOPS:
                    out.append((s2, not_(x)))
                else:
                    out.append((s2, call('invert', x)))
        return out

    def truthval(self, st, v):
        """boolean term of a value used as a condition"""
        t = self.typ(v)
        if t in SEQTYPES and v.op == 'ref':
            return not_(eq(length(self.val(st, v)), ZERO))
        if v.op == 'fld' and t in SEQTYPES:
            return not_(eq(length(v), ZERO))
        if v.op in ('list', 'cat', 'map', 'slice', 'sorted') and t == 'seq':
            return not_(eq(length(v), ZERO))
        if v.op in ('ref', 'inst'):
            return TRUE
        return truth(v)

    def evcond(self, st, node):
        """evaluate as a condition, keeping short-circuit operators as terms when they are pure"""
        return [(s2, self.truthval(s2, v)) for s2, v in self.ev(st, node)]

    def x_BoolOp(self, st, n):
        isand = isinstance(n.op, ast.And)
        res = self.ev(st, n.values[0])
        for nx in n.values[1:]:
            nxt = []
            for s2, v in res:
                c = self.truthval(s2, v)
                d = decide(c, s2.facts)
                if d is not None:
                    if d == isand:
                        nxt.extend(self.ev(s2, nx))
                    else:
                        nxt.append((s2, v))
                    continue
                t0, h0, f0 = s2.trace, dict(s2.heap), s2.facts
                probe = s2.fork()
                probe.assume(c if isand else not_(c))
                sub_ = self.ev(probe, nx)
                if len(sub_) == 1 and sub_[0][0].trace == t0 and self.sameheap(sub_[0][0].heap, h0):
                    s3, w = sub_[0]
                    s2.heap = s3.heap
                    cw = self.truthval(s3, w)
                    if v.op in BOOLOPS and w.op in BOOLOPS or True:
                        if v.op in BOOLOPS or w.op in BOOLOPS:
                            nxt.append((s2, and_(c, cw) if isand else or_(c, cw)))
                        else:
                            nxt.append((s2, ite(c, w, v) if isand else ite(c, v, w)))
                else:
                    for s3, w in sub_:
                        nxt.append((s3, w))
                    other = s2.fork()
                    other.assume(not_(c) if isand else c)
                    nxt.append((other, (FALSE if isand else TRUE) if v.op in BOOLOPS else v))
            res = nxt
        return res

    def sameheap(self, a, b):
        return a == b or all(b.get(k) is v or k not in b for k, v in a.items())

    def x_Compare(self, st, n):
        out = []
        for s2, vs in self.evs(st, [n.left] + n.comparators):
            t = TRUE
            for a, op, b in zip(vs, n.ops, vs[1:]):
                t = and_(t, library.compare(self, s2, op, a, b))
            out.append((s2, t))
        return out

    def x_IfExp(self, st, n):
        out = []
        for s2, c in self.evcond(st, n.test):
            d = decide(c, s2.facts)
            if d is not None:
                out.extend(self.ev(s2, n.body if d else n.orelse))
                continue
            a, b = s2.fork().assume(c), s2.fork().assume(not_(c))
            ra, rb = self.ev(a, n.body), self.ev(b, n.orelse)
            if len(ra) == 1 and len(rb) == 1 and ra[0][0].trace == s2.trace and rb[0][0].trace == s2.trace \
                    and not self.isobj(ra[0][1]) and not self.isobj(rb[0][1]):
                s2.heap = dict(rb[0][0].heap)
                s2.heap.update(ra[0][0].heap)
                out.append((s2, ite(c, ra[0][1], rb[0][1])))
            else:
                out.extend(ra + rb)
        return out

    def isobj(self, t):
        return t.op in ('ref', 'inst', 'closure', 'gen') or self.is_lp(t)

    def x_Subscript(self, st, n):
        out = []
        for s2, b in self.ev(st, n.value):
            if isinstance(n.slice, ast.Slice):
                for s3, (lo, hi, step) in self.evslice(s2, n.slice):
                    out.extend(library.getslice(self, s3, b, lo, hi, step, n))
            else:
                for s3, i in self.ev(s2, n.slice):
                    out.extend(library.getitem(self, s3, b, i, n))
        return out

    def evslice(self, st, sl):
        res = [(st, [])]
        for x in (sl.lower, sl.upper, sl.step):
            nxt = []
            for s2, acc in res:
                if x is None:
                    nxt.append((s2, acc + [NONE]))
                else:
                    for s3, v in self.ev(s2, x):
                        nxt.append((s3, acc + [self.val(s3, v)]))
            res = nxt
        return res

    def x_Slice(self, st, n):
        return [(s2, mk('sliceobj', *v)) for s2, v in self.evslice(st, n)]

    def x_Starred(self, st, n):
        return self.ev(st, n.value)

    def x_Lambda(self, st, n):
        f = self.frames[-1]
        fi = FuncInfo('<lambda>', n, f.module, None)
        t = mk('closure', '<lambda>', next(T._uid))
        self.closures[t] = (fi, dict(st.env))
        return [(st, t)]

    def x_Yield(self, st, n):
        if n.value is None:
            vals = [(st, NONE)]
        else:
            vals = self.ev(st, n.value)
        for s2, v in vals:
            if self.yields:
                self.event(s2, 'yield', n, value=self.val(s2, v))
                self.yields[-1].append((s2, v))
        return []

    def x_Await(self, st, n):
        return self.ev(st, n.value)

    def x_NamedExpr(self, st, n):
        out = []
        for s2, v in self.ev(st, n.value):
            s2.env[n.target.id] = v
            out.append((s2, v))
        return out

    def x_Call(self, st, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in st.env:
            f = self.frames[-1]
            if n.args:
                out = []
                for s2, vs in self.evs(st, n.args):
                    out.append((s2, mk('super', vs[1], vs[0])))
                return out
            return [(st, mk('super', st.env.get(f.selfname, NONE), self.classterm(f.cls)))]
        out = []
        for s2, f in self.ev(st, n.func):
            for s3, args in self.evs(s2, n.args):
                res = [(s3, {})]
                for kw in n.keywords:
                    nxt = []
                    for s4, kws in res:
                        for s5, v in self.ev(s4, kw.value):
                            k2 = dict(kws)
                            if kw.arg is None:
                                d = s5.heap.get((v, '$d'))
                                if d is not None and d.op == 'dict' and all(x.args[0].op == 'str' for x in d.args[1:]):
                                    for x in d.args[1:]:
                                        k2[x.args[0].args[0]] = x.args[1]
                                    if d.args[0] is not NONE:
                                        k2['**'] = d.args[0]
                                else:
                                    k2['**'] = v
                            else:
                                k2[kw.arg] = v
                            nxt.append((s5, k2))
                    res = nxt
                for s4, kws in res:
                    # expand *args
                    a2 = []
                    for a in args:
                        if a.op == 'star':
                            c = a.args[0]
                            if c.op in ('tuple', 'list'):
                                a2.extend(c.args)
                            else:
                                a2.append(a)
                        else:
                            a2.append(a)
                    out.extend(self.call_value(s4, f, a2, kws, n))
        return out

    # comprehensions ------------------------------------------------
    def x_ListComp(self, st, n):
        out = []
        for s2, c in self.comp(st, n.generators, n.elt, n):
            out.append((s2, self.newseq(s2, 'list', c)))
        return out

    def x_GeneratorExp(self, st, n):
        return self.comp(st, n.generators, n.elt, n)

    def x_SetComp(self, st, n):
        return [(s2, self.newseq(s2, 'set', c)) for s2, c in self.comp(st, n.generators, n.elt, n)]

    def filtered(self, st, n):
        """{k: v for k, v in d.items() if k not in names}: a copy of a dictionary without some keys; None when it is something else"""
        g = n.generators[0] if len(n.generators) == 1 else None
        if g is None or not (isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == 'items' and not g.iter.args and not g.iter.keywords):
            return None
        t = g.target
        if not (isinstance(t, ast.Tuple) and len(t.elts) == 2 and all(isinstance(x, ast.Name) for x in t.elts)
                and isinstance(n.key, ast.Name) and n.key.id == t.elts[0].id and isinstance(n.value, ast.Name) and n.value.id == t.elts[1].id and t.elts[0].id != t.elts[1].id):
            return None
        k = t.elts[0].id
        tests = []
        for i in g.ifs:
            for c in (i.values if isinstance(i, ast.BoolOp) and isinstance(i.op, ast.And) else [i]):
                if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not) and isinstance(c.operand, ast.Compare) and len(c.operand.ops) == 1 and isinstance(c.operand.ops[0], (ast.In, ast.Eq)):
                    c = ast.copy_location(ast.Compare(left=c.operand.left, ops=[ast.NotIn() if isinstance(c.operand.ops[0], ast.In) else ast.NotEq()], comparators=c.operand.comparators), c)
                if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.NotIn, ast.NotEq)) and isinstance(c.left, ast.Name) and c.left.id == k):
                    return None
                tests.append((c.ops[0], c.comparators[0]))
        out = []
        for s2, d in self.ev(st, g.iter.func.value):
            term = library.dictterm(self, s2, d)
            if term.op not in ('objdict', 'dictset', 'dictdel', 'dictmerge', 'dict') or term.op == 'dict' and not all(is_const(x.args[0]) for x in term.args[1:] if x.op == 'tuple'):
                return None
            states = [(s2, ())]
            for op, e in tests:
                nxt = []
                for s3, names in states:
                    for s4, v in self.ev(s3, e):
                        v = self.val(s4, v)
                        c = self.seqcontent(s4, v) if v.op == 'ref' else v
                        if isinstance(op, ast.NotEq):
                            c = mk('list', c)
                        if c.op == 'set':
                            c = mk('list', *c.args)
                        if c.op not in ('list', 'tuple') or not all(x.op == 'str' for x in c.args):
                            return None
                        nxt.append((s4, names + c.args))
                states = nxt
            for s3, names in states:
                new = term
                for x in names:
                    if library.dictlookup(new, x) is not False:
                        new = mk('dictdel', new, x)
                r = self.new('dict')
                s3.heap[(r, '$d')] = new
                out.append((s3, r))
        return out

    def x_DictComp(self, st, n):
        r = self.filtered(st, n)
        if r is not None:
            return r
        pair = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        ast.copy_location(pair, n)
        out = []
        for s2, c in self.comp(st, n.generators, pair, n):
            r = self.new('dict')
            if c.op == 'list':
                s2.heap[(r, '$d')] = mk('dict', NONE, *c.args)
            else:
                s2.heap[(r, '$d')] = mk('dict', mk('dictof', c))
            out.append((s2, r))
        return out

    def comp(self, st, gens, elt, node):
        g = gens[0]
        out = []
        for s2, it in self.ev(st, g.iter):
            c = self.iterable(s2, it)
            saved = dict(s2.env)
            lit = c.args if c.op in ('list', 'tuple') else None
            if lit is not None and len(lit) <= 12:
                res = [(s2, EMPTY)]
                for e in lit:
                    nxt = []
                    for s3, acc in res:
                        for s4 in self.assign(s3, g.target, e):
                            nxt.extend(self.comp_elem(s4, g, gens, elt, node, acc))
                    res = nxt
                for s3, acc in res:
                    s3.env = dict(saved)
                    out.append((s3, acc))
                continue
            iota = mk('iota', next(T._uid))
            self.settype(iota, 'number')
            n_ = length(c)
            base = s2.fork()
            base.trace = ()
            e = idx(c, iota)
            self.typeelem(c, e)
            states = self.assign(base, g.target, e)
            res = []
            for s3 in states:
                res.extend(self.comp_elem(s3, g, gens, elt, node, EMPTY, symbolic=True))
            evs_ = any(s3.trace for s3, _ in res)
            if not res:
                continue
            if len(res) == 1:
                s3, acc = res[0]
                if acc.op == 'list' and len(acc.args) == 1:
                    cont = mapterm(n_, acc.args[0], iota)
                elif acc.op == 'filter1':
                    cont = mk('filtermap', n_, *_lam2(acc.args[0], acc.args[1], iota))
                else:
                    cont = mk('flatmap', n_, *_lam1(acc, iota))
            elif len(res) == 2 and all(r[1].op == 'list' and len(r[1].args) <= 1 for r in res) and \
                    sorted(len(r[1].args) for r in res) == [0, 1]:
                r1 = [r for r in res if r[1].args][0]
                extra = [f for f in r1[0].facts if f not in base.facts]
                cont = mk('filtermap', n_, *_lam2(and_(*extra), r1[1].args[0], iota))
            else:
                cont = mk('map', n_, mk('alt', *sorted(set(r[1] for r in res))), iota)
                self.note('forking comprehension', node)
            if evs_:
                paths = [Path(s3.trace, tuple(f for f in s3.facts if f not in s2.facts), 'back') for s3, _ in res]
                self.event(s2, 'loop', node, uid=iota, n=n_, seq=c, paths=paths, form='comp')
            # heap effects of the element expression: keep fields of new objects
            for s3, _ in res:
                for k, v in s3.heap.items():
                    if k not in s2.heap:
                        s2.heap[k] = v
            s2.env = saved
            out.append((s2, cont))
        return out

    def comp_elem(self, st, g, gens, elt, node, acc, symbolic=False):
        states = [(st, TRUE)]
        for cnd in g.ifs:
            nxt = []
            for s2, tot in states:
                for s3, c in self.evcond(s2, cnd):
                    d = decide(c, s3.facts)
                    if d is False:
                        nxt.append((s3, FALSE))
                    elif d is True:
                        nxt.append((s3, tot))
                    else:
                        nxt.append((s3, and_(tot, c)))
            states = nxt
        out = []
        for s2, c in states:
            if c is FALSE:
                out.append((s2, acc))
                continue
            if c is not TRUE and not symbolic:
                a, b = s2.fork().assume(c), s2.fork().assume(not_(c))
                for s3, v in self._comp_val(a, gens, elt, node):
                    out.append((s3, cat(acc, v)))
                out.append((b, acc))
                continue
            if c is not TRUE:
                s2.assume(c)
            for s3, v in self._comp_val(s2, gens, elt, node):
                if c is not TRUE:
                    if v.op == 'list' and len(v.args) == 1:
                        out.append((s3, mk('filter1', c, v.args[0])))
                    else:
                        out.append((s3, mk('filter1', c, v)))
                else:
                    out.append((s3, cat(acc, v)))
        return out

    def _comp_val(self, st, gens, elt, node):
        if len(gens) > 1:
            return self.comp(st, gens[1:], elt, node)
        return [(s2, mk('list', v)) for s2, v in self.ev(st, elt)]

    def iterable(self, st, it):
        """content term of something iterated over"""
        v = self.val(st, it)
        if v.op == 'dict' or (it, '$d') in st.heap:
            d = st.heap.get((it, '$d'), v)
            if d.op == 'dict' and d.args[0] is NONE:
                return mk('list', *[x.args[0] for x in d.args[1:]])
            return mk('call', 'keys', d)
        if v.op == 'ref' and self.typ(v) == LP:
            return mk('fld', v, 'names')
        if v.op == 'ref':
            return self.seqcontent(st, v)
        if v.op == 'str' and len(v.args[0]) <= 8:
            return mk('list', *[s(ch) for ch in v.args[0]])
        return v

    def typeelem(self, c, e):
        if e.op in ('num', 'str', 'ref', 'list', 'tuple', 'poly'):
            return
        if self.typ(e) is None:
            et = self.elemtype(c)
            if et:
                self.settype(e, et)

    # -------------------------------------------------------- statements
    def block(self, st, stmts):
        """[(kind, value, state)] ; kind in fall/return/raise/break/continue"""
        live = [st]
        done = []
        for n in stmts:
            nxt = []
            for s2 in live:
                for k, v, s3 in self.stmt(s2, n):
                    if k == 'fall':
                        nxt.append(s3)
                    else:
                        done.append((k, v, s3))
            live = self.joinstates(nxt)
            if len(live) + len(done) > MAXPATHS:
                raise TooComplex('%d paths' % (len(live) + len(done)))
            if not live:
                break
        return done + [('fall', NONE, x) for x in live]

    def joinstates(self, states):
        if len(states) < 2:
            return states
        out = []
        for s2 in states:
            for o in out:
                if o.trace == s2.trace and o.locks == s2.locks and o.env == s2.env and o.heap == s2.heap:
                    o.facts = joinfacts(o.facts, s2.facts)
                    break
            else:
                out.append(s2)
        return out

    def stmt(self, st, n):
        self.steps += 1
        if self.steps > self.budget:
            raise TooComplex('step budget')
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.note('statement %s' % type(n).__name__, n)
            return [('fall', NONE, st)]
        self.sinks.append([])
        try:
            outs = m(st, n)
        finally:
            raised = self.sinks.pop()
        return outs + [('raise', e, s2) for e, s2 in raised]

    def falls(self, states):
        return [('fall', NONE, x) for x in states]

    def s_Expr(self, st, n):
        return self.falls([s2 for s2, _ in self.ev(st, n.value)])

    def s_Pass(self, st, n):
        return [('fall', NONE, st)]

    def s_Global(self, st, n):
        return [('fall', NONE, st)]
    s_Nonlocal = s_Global

    def s_Import(self, st, n):
        f = self.frames[-1]
        for alias, b in import_bindings(n).items():
            r = self.p.resolve_binding(f.module, b)
            if r is None:
                self.event(st, 'unbound', n, name=alias)
                st.env[alias] = fresh('import_' + alias)
            else:
                st.env[alias] = self.fromres(r)
        return [('fall', NONE, st)]
    s_ImportFrom = s_Import

    def s_FunctionDef(self, st, n):
        f = self.frames[-1]
        fi = FuncInfo(n.name, n, f.module, None)
        t = mk('closure', n.name, next(T._uid))
        env = dict(st.env)
        env[n.name] = t
        self.closures[t] = (fi, env)
        st.env[n.name] = t
        return [('fall', NONE, st)]

    def s_ClassDef(self, st, n):
        self.note('local class', n)
        st.env[n.name] = fresh('localclass')
        return [('fall', NONE, st)]

    def s_Return(self, st, n):
        if n.value is None:
            return [('return', NONE, st)]
        return [('return', v, s2) for s2, v in self.ev(st, n.value)]

    def s_Break(self, st, n):
        return [('break', NONE, st)]

    def s_Continue(self, st, n):
        return [('continue', NONE, st)]

    def s_Raise(self, st, n):
        if n.exc is None:
            cur = st.env.get('$exc', mk('exc', 'unknown'))
            return [('raise', cur, st)]
        out = []
        for s2, v in self.ev(st, n.exc):
            if v.op == 'class':
                v = mk('exc', self.classof[v].name)
            elif v.op == 'ext':
                v = mk('exc', v.args[0].split('.')[-1])
            out.append(('raise', v, s2))
        return out

    def s_Assert(self, st, n):
        out = []
        for s2, c in self.evcond(st, n.test):
            if decide(c, s2.facts) is False:
                out.append(('raise', mk('exc', 'AssertionError'), s2))
                continue
            s2.assume(c)
            out.append(('fall', NONE, s2))
        return out

    def s_Delete(self, st, n):
        states = [st]
        for t in n.targets:
            nxt = []
            for s2 in states:
                nxt.extend(library.delete(self, s2, t))
            states = nxt
        return self.falls(states)

    def s_Assign(self, st, n):
        out = []
        for s2, v in self.ev(st, n.value):
            states = [s2]
            for t in n.targets:
                nxt = []
                for s3 in states:
                    nxt.extend(self.assign(s3, t, v))
                states = nxt
            out.extend(states)
        return self.falls(out)

    def s_AnnAssign(self, st, n):
        if n.value is None:
            return [('fall', NONE, st)]
        out = []
        for s2, v in self.ev(st, n.value):
            out.extend(self.assign(s2, n.target, v))
        return self.falls(out)

    def s_AugAssign(self, st, n):
        out = []
        load = ast.parse(ast.unparse(n.target), mode='eval').body if False else _asload(n.target)
        t = n.target
        # evaluate the target's base once
        if isinstance(t, ast.Name):
            for s2, (a, b) in self.evs(st, [load, n.value]):
                for s3, v in self.inplace(s2, n.op, a, b, n):
                    s3.env[t.id] = v
                    out.append(s3)
        elif isinstance(t, ast.Attribute):
            for s2, base in self.ev(st, t.value):
                for s3, a in self.getattr_(s2, base, t.attr, t):
                    for s4, b in self.ev(s3, n.value):
                        for s5, v in self.inplace(s4, n.op, a, b, n):
                            out.extend(self.setattr_(s5, base, t.attr, v, t))
        elif isinstance(t, ast.Subscript):
            for s2, base in self.ev(st, t.value):
                for s3, i in self.ev(s2, t.slice):
                    got = library.getslice(self, s3, base, *i.args, n) if i.op == 'sliceobj' else library.getitem(self, s3, base, i, t)
                    for s4, a in got:
                        for s5, b in self.ev(s4, n.value):
                            for s6, v in self.inplace(s5, n.op, a, b, n):
                                out.extend(library.setitem(self, s6, base, i, v, t))
        return self.falls(out)

    def inplace(self, st, op, a, b, node):
        return library.inplace(self, st, op, a, b, node)

    def assign(self, st, target, v):
        """bind a target; returns states"""
        if isinstance(target, ast.Name):
            f = self.frames[-1] if self.frames else None
            if f is not None and f.fi is not None and f.fi.cy_locals.get(target.id) in ('float', 'int', 'short', 'char', 'long', 'unsigned int'):
                v = self.ccast(v, f.fi.cy_locals[target.id])
            st.env[target.id] = v
            return [st]
        if isinstance(target, ast.Attribute):
            out = []
            for s2, b in self.ev(st, target.value):
                out.extend(self.setattr_(s2, b, target.attr, v, target))
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s2, b in self.ev(st, target.value):
                for s3, i in self.ev(s2, target.slice):
                    out.extend(library.setitem(self, s3, b, i, v, target))
            return out
        if isinstance(target, (ast.Tuple, ast.List)):
            states = [st]
            c = self.val(st, v) if v.op == 'ref' else v
            for k, t in enumerate(target.elts):
                nxt = []
                for s2 in states:
                    if isinstance(t, ast.Starred):
                        nxt.extend(self.assign(s2, t.value, slc(c, num(k), NONE)))
                        continue
                    e = idx(c, num(k))
                    self.typeelem(c, e)
                    nxt.extend(self.assign(s2, t, e))
                states = nxt
            return states
        if isinstance(target, ast.Starred):
            return self.assign(st, target.value, v)
        self.note('assignment target', target)
        return [st]

    # ---- branching
    def branch(self, st, c):
        """[(truth, state)]"""
        c = simplify(c, st.facts)
        d = decide(c, st.facts)
        if d is not None:
            return [(d, st)]
        a, b = st.fork(), st.fork()
        a.assume(c)
        b.assume(not_(c))
        return [(True, a), (False, b)]

    def s_If(self, st, n):
        out = []
        for s2, c in self.evcond(st, n.test):
            c = simplify(c, s2.facts)
            d = decide(c, s2.facts)
            if d is not None:
                out.extend(self.block(s2, n.body if d else n.orelse))
                continue
            base = s2
            a, b = s2.fork().assume(c), s2.fork().assume(not_(c))
            ra = self.block(a, n.body)
            rb = self.block(b, n.orelse) if n.orelse else [('fall', NONE, b)]
            m = self.mergeif(base, c, ra, rb)
            out.extend(m)
        return out

    def mergeif(self, base, c, ra, rb):
        """join the two arms of an if when they differ only in scalar values"""
        fa = [x for x in ra if x[0] == 'fall']
        fb = [x for x in rb if x[0] == 'fall']
        if len(fa) != 1 or len(fb) != 1:
            return ra + rb
        a, b = fa[0][2], fb[0][2]
        if a.trace != b.trace or a.locks != b.locks:
            return ra + rb
        env, heap = {}, {}
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x is y:
                env[k] = x
            elif x is None or y is None:
                z = x if x is not None else y
                if self.isobj(z):
                    return ra + rb
                # bound on one side only: keep the path split, a later use may be unbound
                return ra + rb
            elif self.isobj(x) or self.isobj(y) or x.op == 'tuple' or y.op == 'tuple':
                return ra + rb
            else:
                env[k] = ite(c, x, y)
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y:
                heap[k] = x
                continue
            obj = k[0]
            if x is None or y is None:
                known = k in base.heap
                z = x if x is not None else y
                if obj.op == 'ref' and not any(kk[0] is obj for kk in base.heap):
                    heap[k] = z          # object created in one arm
                    continue
                if isinstance(k[1], str) and not known and not k[1].startswith('$'):
                    dflt = mk('fld', obj, k[1])
                    x = x if x is not None else dflt
                    y = y if y is not None else dflt
                    if (obj, '$fresh') in base.heap:
                        return ra + rb
                else:
                    return ra + rb
            if self.isobj(x) or self.isobj(y) or k[1] in ('$c', '$d', '$coords'):
                return ra + rb
            heap[k] = ite(c, x, y)
        s2 = a
        s2.env, s2.heap = env, heap
        s2.facts = joinfacts(a.facts, b.facts)
        rest = [x for x in ra if x[0] != 'fall'] + [x for x in rb if x[0] != 'fall']
        return rest + [('fall', NONE, s2)]

    # ---- with
    def s_With(self, st, n):
        return self.with_items(st, n.items, n.body, n)
    s_AsyncWith = s_With

    def with_items(self, st, items, body, node):
        if not items:
            return self.block(st, body)
        it = items[0]
        out = []
        for s2, cm in self.ev(st, it.context_expr):
            for s3, entered in library.enter(self, s2, cm, node):
                states = [s3]
                if it.optional_vars is not None:
                    states = self.assign(s3, it.optional_vars, entered)
                for s4 in states:
                    for k, v, s5 in self.with_items(s4, items[1:], body, node):
                        for s6, ret in library.exit_(self, s5, cm, node, k, v):
                            if k == 'raise' and ret is not NONE and ret is not FALSE:
                                # a true result swallows the exception
                                g = simplify(self.truthval(s6, ret), s6.facts)
                                d = decide(g, s6.facts)
                                if d is not False:
                                    out.append(('fall', NONE, s6.fork().assume(g)))
                                if d is True:
                                    continue
                                s6 = s6.fork().assume(not_(g))
                            out.append((k, v, s6))
        return out

    # ---- try
    def s_Try(self, st, n):
        entry = st.fork()
        outs = self.block(st, n.body)
        res = []
        handled = []
        for k, v, s2 in outs:
            if k == 'raise':
                h = self.match_handler(n.handlers, v)
                if h is not None:
                    s2.env['$exc'] = v
                    if h.name:
                        s2.env[h.name] = v
                    self.event(s2, 'except', h, exc=v)
                    handled.extend(self.block(s2, h.body))
                    continue
            elif k == 'fall' and n.orelse:
                res.extend(self.block(s2, n.orelse))
                continue
            res.append((k, v, s2))
        # asynchronous exceptions (signals) can surface anywhere in the body
        for h in n.handlers:
            names = self.handler_names(h)
            hit = [x for x in names if x in self.async_exc or x in ('Exception', 'BaseException', '*')]
            if hit and self.async_exc:
                hs = self.havoc(entry, [o[2] for o in outs], n)
                exc = mk('exc', sorted(self.async_exc)[0])
                self.event(hs, 'async', h, exc=exc, paths=[Path(o[2].trace[len(entry.trace):], (), o[0]) for o in outs])
                hs.env['$exc'] = exc
                if h.name:
                    hs.env[h.name] = exc
                handled.extend(self.block(hs, h.body))
                break
        res.extend(handled)
        if n.finalbody:
            fin = []
            for k, v, s2 in res:
                for k2, v2, s3 in self.block(s2, n.finalbody):
                    fin.append((k, v, s3) if k2 == 'fall' else (k2, v2, s3))
            res = fin
        return res
    s_TryStar = s_Try

    def handler_names(self, h):
        if h.type is None:
            return ['*']
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(t).split('.')[-1] for t in ts]

    def exc_bases(self, name):
        out = [name]
        for m in self.p.modules.values():
            if name in m.classes:
                for b in m.classes[name].mro()[1:]:
                    out.append(b.name if isinstance(b, ClassInfo) else b.split('.')[-1])
        std = {'SystemExit': ['BaseException'], 'KeyboardInterrupt': ['BaseException'],
               'KeyError': ['LookupError', 'Exception', 'BaseException'], 'GeneratorExit': ['BaseException']}
        for x in list(out):
            out += std.get(x, [])
        if 'SystemExit' not in out and 'KeyboardInterrupt' not in out and 'GeneratorExit' not in out:
            out += ['Exception', 'BaseException']
        return out

    def match_handler(self, handlers, exc):
        name = exc.args[0] if exc.op == 'exc' else None
        for h in handlers:
            ns = self.handler_names(h)
            if '*' in ns:
                return h
            if name is not None and set(ns) & set(self.exc_bases(name)):
                return h
            if name is None:
                return h
        return None

    def havoc(self, entry, ends, node):
        """state at an arbitrary point between entry and the given ends"""
        hs = entry.fork()
        changed_e, changed_h = set(), set()
        for e in ends:
            for k, v in e.env.items():
                if entry.env.get(k) is not v:
                    changed_e.add(k)
            for k, v in e.heap.items():
                if entry.heap.get(k) is not v:
                    changed_h.add(k)
        for k in changed_e:
            hs.env[k] = fresh('havoc_' + k)
            if k in entry.env:
                self.settype(hs.env[k], self.typ(entry.env[k]))
        for k in changed_h:
            if isinstance(k[1], str) and (k in entry.heap or k[0].op != 'ref' or any(kk[0] is k[0] for kk in entry.heap)):
                v = fresh('havoc_%s' % k[1])
                if k in entry.heap:
                    self.settype(v, self.typ(entry.heap[k]))
                hs.heap[k] = v
        return hs

    # ---- loops
    def s_While(self, st, n):
        from . import loops
        return loops.while_loop(self, st, n)

    def s_For(self, st, n):
        from . import loops
        return loops.for_loop(self, st, n)
    s_AsyncFor = s_For


def _asload(t):
    import copy as _c
    t2 = _c.copy(t)
    t2.ctx = ast.Load()
    return t2


def _lam1(body, iota):
    b, v = lam(body, iota)
    return b, v


def joinfacts(a, b):
    """what holds on either of two paths: their common facts and the small clauses of the disjunction of the others"""
    sb = set(b)
    common = [f for f in a if f in sb]
    sa_ = set(common)
    ra, rb = [f for f in a if f not in sa_], [f for f in b if f not in sa_]
    if ra and rb and len(ra) * len(rb) <= 6:
        for x in ra:
            for y in rb:
                c = or_(x, y)
                if c is TRUE or c.op == 'or' and (len(c.args) > 8 or any(not_(z) in c.args for z in c.args)) or c.op != 'or' and c in common:
                    continue
                if c not in common:
                    common.append(c)
    return tuple(common)


def _lam2(c, body, iota):
    both, v = lam(mk('tuple', c, body), iota)
    return both.args[0], both.args[1], v
