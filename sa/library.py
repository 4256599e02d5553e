"""Models of the builtins, numpy/scipy, multiprocessing, file system and logging
calls the package uses.  Pure functions become canonical terms; anything with an
effect (pipes, shared values, files, processes, random draws, in-place
modification of points) becomes an event on the path."""
import string
from .terms import *
from .seqs import *
from . import terms as T
import ast

LP = 'parameter.LivePoint'
SEQOPS = ('c0', 'list', 'cat', 'map', 'range', 'slice', 'fill', 'sorted', 'store', 'rep', 'storemap', 'zip', 'enum',
          'reversed', 'perm', 'rot', 'ins', 'filtermap', 'flatmap', 'delidx', 'coordsof', 'draws', 'listdir', 'vec')

# ------------------------------------------------------------------ names
_CONSTS = {
    'numpy.inf': INF, 'math.inf': INF, 'numpy.Inf': INF, 'numpy.infty': INF, 'numpy.math.INFINITY': INF, 'numpy.PINF': INF,
    'numpy.NINF': neg(INF), 'numpy.nan': NAN, 'math.nan': NAN, 'numpy.NaN': NAN, 'numpy.newaxis': NONE,
    'numpy.pi': mk('atom', 'pi'), 'math.pi': mk('atom', 'pi'), 'numpy.e': mk('atom', 'e'), 'math.e': mk('atom', 'e'),
    'os.sep': s('/'), 'os.path.sep': s('/'), 'os.pardir': s('..'), 'os.path.pardir': s('..'), 'os.curdir': s('.'), 'os.path.curdir': s('.'),
}

BUILTIN_NAMES = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)


def external(dotted):
    c = _CONSTS.get(dotted)
    if c is not None:
        return c
    return mk('ext', ALIASES.get(dotted, dotted))


def builtin(name):
    if name in BUILTIN_NAMES:
        return mk('ext', 'builtins.' + name)
    if name in ('__name__', '__file__'):
        return s(name)
    return None


ALIASES = {
    'numpy.random.mtrand.seed': 'numpy.random.seed',
    'os.unlink': 'os.remove', 'os.rename': 'os.replace', 'posix.remove': 'os.remove',
    'multiprocessing.sharedctypes.Value': 'multiprocessing.Value',
    'multiprocessing.context.Process': 'multiprocessing.Process',
    'multiprocessing.connection.Pipe': 'multiprocessing.Pipe',
    'operator.attrgetter': 'operator.attrgetter',
    'numpy.lib.recfunctions.stack_arrays': 'numpy.lib.recfunctions.stack_arrays',
    'functools.reduce': 'functools.reduce',
    'tqdm.tqdm': 'tqdm.tqdm', 'tqdm.auto.tqdm': 'tqdm.tqdm', 'tqdm.trange': 'tqdm.trange',
    'numpy.absolute': 'numpy.abs',
    'array.array': 'array.array', 'cpython.array.array': 'array.array',
}

# pure scalar functions: external name -> canonical name
PURE = {}
for _n in ('exp', 'log', 'log1p', 'expm1', 'sqrt', 'floor', 'ceil', 'sin', 'cos', 'tan', 'log2', 'log10',
           'isfinite', 'isnan', 'isinf', 'logaddexp', 'sign'):
    PURE['numpy.' + _n] = _n
    PURE['math.' + _n] = _n
PURE.update({'numpy.abs': 'abs', 'math.fabs': 'abs', 'numpy.fabs': 'abs', 'builtins.abs': 'abs',
             'numpy.power': 'pow', 'math.pow': 'pow',
             'math.prod': 'prod', 'numpy.prod': 'prod',
             'numpy.float64': 'float', 'numpy.floor_divide': 'floordiv', 'numpy.isneginf': 'isneginf',
             'numpy.isposinf': 'isposinf'})
ELEMENTWISE = {'exp', 'log', 'log1p', 'expm1', 'sqrt', 'floor', 'ceil', 'abs', 'logaddexp', 'pow', 'sign', 'max', 'min', 'pow'}

LP_OPS = {'__add__': '+', '__sub__': '-', '__mul__': '*', '__truediv__': '/', '__iadd__': '+=', '__isub__': '-=',
          '__imul__': '*=', '__itruediv__': '/=', '__getitem__': '[]', '__setitem__': '[]=', 'copy': 'copy',
          '__len__': 'len', 'keys': 'keys', 'asnparray': 'asnparray', '__str__': 'str', '__repr__': 'repr'}

SEQ_METHODS = {'append', 'extend', 'insert', 'pop', 'popleft', 'appendleft', 'remove', 'clear', 'sort', 'reverse', 'rotate',
               'index', 'count', 'copy', '__len__', '__getitem__', '__setitem__', '__delitem__', '__iter__', '__init__',
               'tolist', 'shuffle', 'extendleft', '__contains__'}


def is_seq_method(name):
    return name in SEQ_METHODS


def isseq(eng, t):
    """does the term denote a sequence / array (so that arithmetic on it is elementwise)?"""
    op = t.op
    if op in SEQOPS:
        return True
    if op == 'fld' and t.args[1] == '$coords':
        return True
    ty = eng.types.get(t)
    if ty in ('seq', 'list', 'deque', 'array', 'tuple', 'set'):
        return True
    if op == 'poly':
        return any(isseq(eng, a) for m, c in t.args for a, e in m)
    if op == 'call' and t.args[0] in ELEMENTWISE:
        return any(isseq(eng, a) for a in t.args[1:])
    if op == 'call' and t.args[0] in ('cumsum', 'diff', 'isin'):
        return True
    if op == 'ite':
        return isseq(eng, t.args[1]) or isseq(eng, t.args[2])
    return False


def seqlen(eng, t):
    """length of a sequence term, elementwise arithmetic included"""
    if t.op == 'poly':
        for m, c in t.args:
            for a, e in m:
                if isseq(eng, a):
                    return seqlen(eng, a)
    if t.op == 'call' and t.args[0] in ELEMENTWISE:
        for a in t.args[1:]:
            if isseq(eng, a):
                return seqlen(eng, a)
    if t.op == 'call' and t.args[0] in ('cumsum',):
        return seqlen(eng, t.args[1])
    return length(t)


def seqidx(eng, t, i):
    """element i of a sequence term, pushing the index through elementwise arithmetic"""
    if t.op == 'poly':
        r = ZERO
        for m, c in t.args:
            mono = mk('num', c)
            for a, e in m:
                x = seqidx(eng, a, i) if isseq(eng, a) else a
                for _ in range(abs(e)):
                    mono = mul(mono, x) if e > 0 else div(mono, x)
            r = add(r, mono)
        return r
    if t.op == 'call' and t.args[0] in ELEMENTWISE and any(isseq(eng, a) for a in t.args[1:]):
        return call(t.args[0], *[seqidx(eng, a, i) if isseq(eng, a) else a for a in t.args[1:]])
    if t.op == 'call' and t.args[0] == 'cumsum':
        b = t.args[1]
        c = constelem(eng, b)
        if c is not None:
            n = numval(i)
            if n is not None and n < 0:
                i = add(seqlen(eng, b), i)
            return mul(add(i, ONE), c)
    return idx(t, i)


def constelem(eng, t):
    """the constant value of every element of a sequence, if it is constant"""
    if not isseq(eng, t):
        return t
    if t.op == 'fill':
        return t.args[1]
    if t.op == 'map' and not contains(t.args[1], t.args[2]):
        return t.args[1]
    if t.op == 'poly':
        r = ZERO
        for m, c in t.args:
            mono = mk('num', c)
            for a, e in m:
                x = constelem(eng, a)
                if x is None:
                    return None
                for _ in range(abs(e)):
                    mono = mul(mono, x) if e > 0 else div(mono, x)
            r = add(r, mono)
        return r
    return None


# ------------------------------------------------------------------ strings
def fmtval(t, spec=''):
    spec = spec.strip()
    if spec in ('', 'd', 's', 'i'):
        return to_str(t)
    return mk('fmt', mk('tostr', t, spec))


def strformat(eng, st, tmpl, args, kwargs):
    if tmpl.op != 'str':
        return mk('fmt', mk('tostr', mk('tuple', tmpl, *args), 'format'))
    segs = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(tmpl.args[0]):
            if lit:
                segs.append(s(lit))
            if field is None:
                continue
            name = field.split('.')[0].split('[')[0]
            if name == '':
                v = args[auto] if auto < len(args) else None
                auto += 1
            elif name.isdigit():
                v = args[int(name)] if int(name) < len(args) else None
            else:
                v = kwargs.get(name)
            if v is None:
                eng.event(st, 'badformat', None, template=tmpl)
                v = fresh('formatarg')
            if field != name and name != '':
                v = mk('call', 'formatfield', v, s(field[len(name):]))
            segs.append(fmtval(v, spec))
    except ValueError:
        eng.event(st, 'badformat', None, template=tmpl)
    return concat(*segs)


def percent(eng, st, tmpl, val):
    import re
    args = list(val.args) if val.op == 'tuple' else [val]
    segs = []
    pos = 0
    k = 0
    text = tmpl.args[0]
    for m in re.finditer(r'%(\([^)]*\))?([-+ #0]*)(\d+|\*)?(\.\d+)?([diouxXeEfFgGcrsa%])', text):
        if m.start() > pos:
            segs.append(s(text[pos:m.start()]))
        pos = m.end()
        if m.group(5) == '%':
            segs.append(s('%'))
            continue
        v = args[k] if k < len(args) else None
        k += 1
        if v is None:
            eng.event(st, 'badformat', None, template=tmpl)
            v = fresh('formatarg')
        spec = (m.group(2) or '') + (m.group(3) or '') + (m.group(4) or '') + m.group(5)
        segs.append(fmtval(v, spec))
    if pos < len(text):
        segs.append(s(text[pos:]))
    return concat(*segs)


def mkpath(*parts):
    """path of components; '' components (trailing separators) vanish, strings are split at '/'"""
    out = []
    for p in parts:
        ps = p.args if p.op == 'path' else (p,)
        for x in ps:
            if x.op == 'str':
                comps = x.args[0].split('/')
                if x.args[0].startswith('/'):
                    out = []
                    comps[0] = '/'
                for c in comps:
                    if c not in ('', '.') or (c == '.' and x.args[0] in ('.', './') and not out and len(parts) == 1):
                        out.append(s(c))
            elif x.op == 'fmt' and x.args[0].op == 'str' and x.args[0].args[0].startswith('/'):
                out = [x]
            elif x.op == 'fmt' and any(y.op == 'path' for y in x.args):
                out.append(x)
            else:
                out.append(x)
    if len(out) == 1:
        return out[0]
    return mk('path', *out)


def pathof(t):
    """normalise a string used as a file name"""
    if t.op == 'fmt' and t.args and t.args[0].op == 'path':
        # path + suffix: extend the last component
        p = t.args[0]
        last = concat(p.args[-1], *t.args[1:])
        return mkpath(*(p.args[:-1] + (last,)))
    if t.op == 'fmt':
        # split "a/b" spellings: segments with a slash separate components
        comps = [[]]
        for x in t.args:
            if x.op == 'tostr' and x.args[0].op in ('path',):
                x = x.args[0]
            if x.op == 'str' and '/' in x.args[0]:
                ps = x.args[0].split('/')
                comps[-1].append(s(ps[0]))
                for q in ps[1:]:
                    comps.append([s(q)])
            else:
                comps[-1].append(x)
        if len(comps) > 1:
            return mkpath(*[_comp(c) for c in comps])
        return _comp(comps[0])
    if t.op == 'str':
        return mkpath(t)
    return t


def _comp(c):
    c = [x for x in c if not (x.op == 'str' and x.args[0] == '')]
    if not c:
        return s('')
    if len(c) == 1:
        x = c[0]
        if x.op == 'tostr' and x.args[1] == '':
            return x.args[0]
        return x
    return pathof(mk('fmt', *c)) if c[0].op == 'path' else concat(*c)


# ------------------------------------------------------------------ random draws
def drawid(eng, node):
    """identity of a draw; the same site in the same round of a loop keeps it while the loop is solved"""
    if eng.drawscope is None or node is None:
        return mk('uid', next(T._uid))
    iota, met = eng.drawscope
    k = id(node)
    met[k] = met.get(k, 0) + 1
    key = (iota, k, met[k])
    if key not in eng.drawids:
        eng.drawids[key] = mk('uid', next(T._uid))
    return eng.drawids[key]


def _draw(eng, st, node, dist, *params):
    if dist == 'int' and 'intrange' in eng.hooks:
        eng.hooks['intrange'](eng, st, params[0], params[1], node)
    d = mk('draw', dist, *(params + (drawid(eng, node),)))
    eng.event(st, 'draw', node, dist=dist, draw=d)
    return d


# (is it of the random module, name) -> parameters in order, under the names they may be given by
PARAMS = {(False, 'uniform'): (('low',), ('high',)), (True, 'uniform'): (('a',), ('b',)),
          (False, 'normal'): (('loc',), ('scale',)), (True, 'gauss'): (('mu',), ('sigma',)), (True, 'normalvariate'): (('mu',), ('sigma',)),
          (False, 'randint'): (('low',), ('high',)), (False, 'integers'): (('low',), ('high',)), (True, 'randint'): (('a',), ('b',)),
          (True, 'randrange'): (('start',), ('stop',)), (False, 'choice'): (('a',),), (True, 'choice'): (('seq',),),
          (True, 'sample'): (('population',), ('k',)), (True, 'choices'): (('population',),), (True, 'expovariate'): (('lambd',),),
          (False, 'exponential'): (('scale',),)}


def draw(eng, st, node, name, args, kwargs):
    """value of a call of a random function; None if unknown"""
    args = [eng.val(st, a) for a in args]
    kw = {k: eng.val(st, v) for k, v in kwargs.items()}
    # positional parameters that were given by name
    for names in PARAMS.get((name.split('.')[0] == 'random', name.split('.')[-1]), ()):
        if not any(k in kw for k in names):
            break
        if len(args) > PARAMS[(name.split('.')[0] == 'random', name.split('.')[-1])].index(names):
            continue
        args.append(next(kw.pop(k) for k in names if k in kw))
    size = kw.pop('size', None)

    def par(i, key, dflt):
        if i < len(args):
            return args[i]
        return kw.get(key, dflt)

    def base(dist):
        if size is not None and size is not NONE:
            d = mk('draws', dist, size, drawid(eng, node))
            eng.event(st, 'draw', node, dist=dist, draw=d)
            return d
        return _draw(eng, st, node, dist)
    n = name.split('.')[-1]
    mod = name[:-len(n) - 1]
    if n in ('random', 'random_sample', 'ranf', 'rand', 'sample') and not (mod == 'random' and n == 'sample') \
            and (not args or n in ('rand',)):
        if n in ('rand', 'random', 'random_sample') and args:
            size = args[0] if len(args) == 1 else mk('tuple', *args)
        return base('u01')
    if n in ('random', 'random_sample') and args:
        size = args[0]
        return base('u01')
    if n == 'uniform':
        if len(args) > 2:
            size = args[2]
        lo, hi = par(0, 'low', ZERO), par(1, 'high', ONE)
        return add(lo, mul(sub(hi, lo), base('u01')))
    if n in ('gauss', 'normal', 'normalvariate'):
        if len(args) > 2:
            size = args[2]
        m, sd = par(0, 'mu' if 'mu' in kw else 'loc', ZERO), par(1, 'sigma' if 'sigma' in kw else 'scale', ONE)
        return add(m, mul(sd, base('n01')))
    if n in ('randn', 'standard_normal'):
        if args:
            size = args[0]
        return base('n01')
    if n in ('exponential', 'standard_exponential'):
        sc = par(0, 'scale', ONE) if n == 'exponential' else ONE
        return mul(sc, neg(call('log', base('u01'))))
    if n == 'expovariate':
        return div(neg(call('log', base('u01'))), par(0, 'lambd', ONE))
    if n in ('randint', 'randrange', 'integers'):
        if len(args) == 1:
            lo, hi = ZERO, args[0]
            if kw.get('high') is not None:
                lo, hi = args[0], kw['high']
        else:
            lo, hi = args[0], args[1]
            if hi is NONE:
                lo, hi = ZERO, lo
        if mod == 'random' and n == 'randint':
            hi = add(hi, ONE)
        if len(args) > 2 and n != 'randrange' and (size is None or size is NONE):
            size = args[2]
        if size is not None and size is not NONE:
            d = mk('draws', 'int', size, drawid(eng, node), lo, hi)
            eng.event(st, 'draw', node, dist='int', draw=d)
            eng.settype(d, 'seq')
            eng.setelem(d, 'number')
            return d
        return eng.settype(_draw(eng, st, node, 'int', lo, hi), 'number')
    if n == 'choice':
        c = args[0]
        if mod == 'random' or (size is None and len(args) == 1 and 'p' not in kw):
            if eng.typ(c) == 'number' or c.op == 'num':
                return _draw(eng, st, node, 'int', ZERO, c)
            i = _draw(eng, st, node, 'int', ZERO, length(c))
            e = idx(c, i)
            eng.typeelem(c, e)
            return e
        pv = kw.get('p', args[3] if len(args) > 3 else NONE)
        rep = kw.get('replace', args[2] if len(args) > 2 else TRUE)
        if size is None and len(args) > 1:
            size = args[1]
        if size is not None:
            d = mk('choices', c, size, rep, pv, mk('uid', next(T._uid)))
            eng.event(st, 'draw', node, dist='choice', draw=d)
            eng.settype(d, 'seq')
            eng.setelem(d, eng.elemtype(c))
            return d
        d = mk('draw', 'choice', c, pv, mk('uid', next(T._uid)))
        eng.event(st, 'draw', node, dist='choice', draw=d)
        if eng.typ(c) == 'number' or c.op in ('num', 'poly', 'len'):
            eng.types[('int', d)] = True
            return eng.settype(d, 'number')
        e = idx(c, d)
        eng.typeelem(c, e)
        return e
    if n == 'choices' and mod == 'random':
        c, w = args[0], par(1, 'weights', NONE)
        if kw.get('cum_weights', NONE) is not NONE or len(args) > 2:
            return None
        pv = NONE
        if w is not NONE:
            if w.op not in ('list', 'tuple'):
                i = mk('iota', next(T._uid))
                eng.settype(i, 'number')
                pv = mapterm(seqlen(eng, w), div(seqidx(eng, w, i), sumterm(seqlen(eng, w), seqidx(eng, w, i), i)), i)
            else:
                pv = mk('list', *[div(x, add(*w.args)) for x in w.args])
        d = mk('choices', c, par(3, 'k', ONE), TRUE, pv, mk('uid', next(T._uid)))
        eng.event(st, 'draw', node, dist='choice', draw=d)
        eng.settype(d, 'seq')
        eng.setelem(d, eng.elemtype(c))
        return d
    if n == 'sample' and mod == 'random':
        c = args[0]
        k = numval(par(1, 'k', ONE))
        if k is not None and k <= 8:
            u = mk('uid', next(T._uid))
            out = []
            for j in range(int(k)):
                e = mk('draw', 'sample', c, num(k), num(j), u)
                et = eng.elemtype(c)
                eng.settype(e, et or LP)
                out.append(e)
            eng.event(st, 'draw', node, dist='sample', draw=mk('list', *out))
            return mk('list', *out)
        return mk('call', 'samplelist', c, par(1, 'k', ONE), mk('uid', next(T._uid)))
    if n in ('permutation',):
        c = args[0]
        if isseq(eng, c):
            return mk('perm', c, mk('uid', next(T._uid)))
        return mk('perm', rng(ZERO, c), mk('uid', next(T._uid)))
    if n == 'multivariate_normal':
        d = mk('draw', 'mvn', par(0, 'mean', NONE), par(1, 'cov', NONE), mk('uid', next(T._uid)))
        eng.settype(d, 'array')
        eng.event(st, 'draw', node, dist='mvn', draw=d)
        return d
    return None


# ------------------------------------------------------------------ live points
def lpnew(eng, st, names, coords, logL=None, logP=None, node=None, dim=None):
    r = eng.new(LP)
    st.heap[(r, '$fresh')] = TRUE
    st.heap[(r, 'names')] = names
    st.heap[(r, 'dimension')] = dim if dim is not None else length(names)
    st.heap[(r, '$coords')] = coords
    st.heap[(r, 'logL')] = logL if logL is not None else neg(INF)
    st.heap[(r, 'logP')] = logP if logP is not None else neg(INF)
    return r


def lpcopy(eng, st, a, node):
    r = lpnew(eng, st, eng.getfield(st, a, 'names'), eng.getfield(st, a, '$coords'),
              eng.getfield(st, a, 'logL'), eng.getfield(st, a, 'logP'), node, eng.getfield(st, a, 'dimension'))
    return r


def lpbin(eng, st, op, a, b, node):
    """LivePoint op; returns (st, value)"""
    ca = eng.getfield(st, a, '$coords')
    if op in ('+', '-', '+=', '-='):
        cb = eng.getfield(st, b, '$coords') if eng.is_lp(b) else eng.val(st, b)
        r = add(ca, cb) if op[0] == '+' else sub(ca, cb)
    elif op[0] == '*':
        r = mul(ca, eng.val(st, b))
    else:
        r = div(ca, eng.val(st, b))
    if op.endswith('='):
        lpset(eng, st, a, '$coords', r, node)
        return [(st, a)]
    return [(st, lpnew(eng, st, eng.getfield(st, a, 'names'), r, node=node, dim=eng.getfield(st, a, 'dimension')))]


def lpset(eng, st, p, field, v, node):
    if field in ('logL', 'logP', '$coords'):
        v = eng.val(st, v)
    st.heap[(p, field)] = v
    eng.event(st, 'lpset', node, obj=p, field=field, value=v)


def namepos(eng, st, p, key):
    names = eng.getfield(st, p, 'names')
    names = eng.val(st, names)
    if key.op == 'idx' and key.args[0] is names:
        return key.args[1]
    if key.op == 'str' and names.op in ('list', 'tuple') and key in names.args:
        return num(names.args.index(key))
    if key.op == 'idx' and key.args[0].op == 'fld' and key.args[0].args[1] == 'names':
        # names of another point of the same model
        return key.args[1]
    return mk('pos', names, key)


# ------------------------------------------------------------------ attributes
OPAQUE_SCALARS = ('number', 'str')
NOOP_TYPES = ('logger', 'tqdm')


def getattr_(eng, st, base, name, node):
    op = base.op
    ty = eng.typ(base)
    if op == 'logger' or ty == 'logger':
        return [(st, mk('extbound', base, name))]
    if op == 'tqdm':
        return [(st, mk('extbound', base, name))]
    if op == 'exc':
        if name == 'args':
            return [(st, mk('tuple', *base.args[1:]))]
        return [(st, fresh('excattr'))]
    if eng.is_lp(base):
        if name in LP_OPS:
            return [(st, mk('extbound', base, name))]
        if name == 'values':
            v = mk('coordsof', base)
            eng.settype(v, 'array')
            return [(st, v)]
        if name in ('logL', 'logP', 'names', 'dimension', 'bounds'):
            v = eng.getfield(st, base, name)
            return [(st, v)]
        if name in ('__getstate__', '__setstate__', '__class__', '__reduce__', '__dict__'):
            return [(st, mk('extbound', base, name))]
        eng.event(st, 'noattr', node, base=base, name=name)
        return [(st, fresh('noattr_' + name))]
    if ty == 'mpvalue':
        if name == 'value':
            return [(st, readshared(eng, st, base, node))]
        if name in ('get_lock', 'get_obj', 'acquire', 'release'):
            return [(st, mk('extbound', base, name))]
    if ty == 'pipe' or ty == 'process' or ty == 'file' or ty == 'lock':
        return [(st, mk('extbound', base, name))]
    if ty == 'usermodel':
        if name in ('log_likelihood', 'log_prior', 'in_bounds', 'new_point', 'potential', 'force', 'header', 'strsample',
                    'from_normalised', 'to_normalised'):
            return [(st, mk('extbound', base, name))]
        v = eng.getfield(st, base, name)
        if name in ('names', 'bounds'):
            eng.settype(v, 'list')
        return [(st, v)]
    if ty == 'proposal' and name in ('get_sample', 'set_ensemble', 'get_direction', 'update_time_step', 'update_trajectory_length'):
        return [(st, mk('extbound', base, name))]
    if op in ('plotobj', 'idx', 'extbound') and plotobj(base):
        return [(st, mk('extbound', base, name))]
    if name == '__dict__' and (op in ('ref', 'inst', 'sym') or eng.classinfo(base)):
        return [(st, mk('objdict', base))]
    if name == '__class__':
        return [(st, typeof(eng, base))]
    if op == 'objdict' or ty == 'dict' or (base, '$d') in st.heap:
        return [(st, mk('extbound', base, name))]
    if (base, '$dict') in st.heap and (base, name) not in st.heap:
        d = dictlookup(st.heap[(base, '$dict')], s(name), eng)
        ci = eng.classinfo(base)
        if d is False:
            if ci is not None and ci.find(name) is not None:
                return None
            eng.event(st, 'noattr', node, base=base, name=name)
            return [(st, fresh('noattr_' + name))]
        if d is not None:
            if ci is not None:
                r = ci.find(name)
                if r is not None and r[0] in ('method', 'property'):
                    return None
            return [(st, d)]
    if op in ('str', 'fmt', 'path') or ty == 'str':
        return [(st, mk('extbound', base, name))]
    ci = eng.classinfo(base)
    if ci is None and (isseq(eng, base) or ty in ('list', 'deque', 'array', 'set', 'tuple', 'seq') or op == 'tuple'):
        if name == 'shape':
            return [(st, mk('shape', eng.val(st, base)))]
        if name == 'size':
            return [(st, seqlen(eng, eng.val(st, base)))]
        if name == 'T':
            v = mk('call', 'transpose', eng.val(st, base))
            eng.settype(v, 'array')
            return [(st, v)]
        if name == 'dtype' or name == 'maxlen' or name == 'flat' or name == 'real' or name == 'ndim':
            return [(st, mk('fld', eng.val(st, base) if name != 'maxlen' else base, name))]
        return [(st, mk('extbound', base, name))]
    if op == 'gen':
        return [(st, mk('extbound', base, name))]
    if op in ('call', 'readtable', 'poly', 'draw', 'draws', 'idx') and ci is None and ty not in ('proposal',):
        if (base, name) in st.heap:
            return None
        if op == 'call' and base.args[0] in ('stack', 'asnparray') or op == 'readtable' or ty == 'table':
            if name in ('dtype', 'shape', 'size'):
                if name == 'shape':
                    return [(st, mk('shape', base))]
                return [(st, mk('fld', base, name))]
        return [(st, mk('extbound', base, name))] if name in KNOWN_METHODS else [(st, mk('fld', base, name))]
    return None


KNOWN_METHODS = {'ravel', 'mean', 'sum', 'max', 'min', 'copy', 'conjugate', 'tolist', 'argsort', 'view', 'astype', 'squeeze',
                 'flatten', 'reshape', 'any', 'all', 'std', 'var', 'dot', 'fill', 'item', 'cumsum', 'rvs', 'format', 'rstrip', 'strip',
                 'lstrip', 'split', 'join', 'startswith', 'endswith', 'replace', 'lower', 'upper', 'append', 'extend', 'pop', 'get',
                 'items', 'keys', 'values', 'update', 'sort', 'insert', 'index', 'count', 'add_subplot'}


def typeof(eng, t):
    ci = eng.classinfo(t)
    if ci is not None:
        return eng.classterm(ci)
    if eng.is_lp(t):
        return eng.classterm(eng.p.cls('parameter.LivePoint'))
    ty = eng.typ(t)
    if ty in ('list', 'dict', 'tuple', 'set'):
        return mk('ext', 'builtins.' + ty)
    if t.op == 'str':
        return mk('ext', 'builtins.str')
    return mk('call', 'type', t)


def sharedname(eng, st, base):
    """the name a shared value goes by: the attribute it is stored under"""
    if base.op == 'fld':
        return base.args[1]
    n = st.heap.get((base, '$name'))
    if n is not None:
        return n.args[0]
    for k, v in st.heap.items():
        if v is base and isinstance(k[1], str) and not k[1].startswith('$'):
            return k[1]
    return show(base)


def readshared(eng, st, base, node):
    name = sharedname(eng, st, base)
    if name in eng.volatile:
        held = any(l is mk('lock', base) for l in st.locks)
        cur = st.heap.get((base, '$locked'))
        if held and cur is not None:
            return cur
        v = fresh('shared_' + name)
        eng.settype(v, 'number')
        if held:
            st.heap[(base, '$locked')] = v
    else:
        v = st.heap.get((base, '$v'))
        if v is None:
            v = mk('fld', base, 'value')
            eng.settype(v, 'number')
    eng.event(st, 'shared_read', node, obj=base, name=name, value=v)
    return v


def setattr_(eng, st, base, name, v, node):
    ty = eng.typ(base)
    if ty == 'mpvalue' and name == 'value':
        v = eng.val(st, v)
        nm = sharedname(eng, st, base)
        eng.event(st, 'shared_write', node, obj=base, name=nm, value=v)
        if nm in eng.volatile:
            if any(l is mk('lock', base) for l in st.locks):
                st.heap[(base, '$locked')] = v
        else:
            st.heap[(base, '$v')] = v
        return [st]
    if eng.is_lp(base):
        if name == 'values':
            lpset(eng, st, base, '$coords', eng.val(st, v), node)
            return [st]
        if name in ('logL', 'logP'):
            lpset(eng, st, base, name, v, node)
            return [st]
        lpset(eng, st, base, name, v, node)
        return [st]
    if name == '__dict__':
        d = dictterm(eng, st, v)
        st.heap[(base, '$dict')] = d
        for k in [k for k in st.heap if k[0] is base and isinstance(k[1], str) and not k[1].startswith('$')]:
            del st.heap[k]
        return [st]
    return None


# ------------------------------------------------------------------ dictionaries
def dictterm(eng, st, v):
    """functional dictionary term of a dict value"""
    d = st.heap.get((v, '$d'))
    if d is not None:
        return d
    if v.op == 'objdict':
        obj = v.args[0]
        d = st.heap.get((obj, '$dict'))
        if d is None:
            d = v
        for k, x in sorted(((k, x) for k, x in st.heap.items() if k[0] is obj and isinstance(k[1], str) and not k[1].startswith('$')),
                           key=lambda kx: kx[0][1]):
            d = mk('dictset', d, s(k[1]), x)
        return d
    return v


def dictlookup(d, key, eng=None):
    """value at key; False if definitely absent; None if unknown"""
    while True:
        if d.op == 'dictset':
            if d.args[1] is key:
                return d.args[2]
            if not (is_const(key) and is_const(d.args[1])):
                return None
            d = d.args[0]
        elif d.op == 'dictdel':
            if d.args[1] is key:
                return False
            if not (is_const(key) and is_const(d.args[1])):
                return None
            d = d.args[0]
        elif d.op == 'dict':
            for x in d.args[1:]:
                if x.args[0] is key:
                    return x.args[1]
            if d.args[0] is NONE:
                return False if is_const(key) and all(is_const(x.args[0]) for x in d.args[1:]) else None
            d = d.args[0]
        elif d.op == 'dictfilter':
            # dictfilter(base, excluded...)
            if key in d.args[1:]:
                return False
            d = d.args[0]
        elif d.op == 'objdict':
            if key.op == 'str':
                v = mk('fld', d.args[0], key.args[0])
                return v
            return None
        else:
            return None


def dictset(eng, st, d, key, v, node):
    cur = dictterm(eng, st, d)
    if d.op == 'objdict':
        if key.op == 'str':
            return eng.setattr_(st, d.args[0], key.args[0], v, node)
        eng.note('dynamic attribute store', node)
        return [st]
    if cur.op == 'dict' and is_const(key):
        items = [x for x in cur.args[1:] if x.args[0] is not key]
        if cur.args[0] is NONE:
            st.heap[(d, '$d')] = mk('dict', NONE, *(items + [mk('tuple', key, v)]))
            return [st]
    st.heap[(d, '$d')] = mk('dictset', cur, key, v)
    eng.event(st, 'dictset', node, obj=d, key=key, value=v)
    return [st]


def dictdel(eng, st, d, key, node):
    if d.op == 'objdict' and key.op == 'str':
        obj = d.args[0]
        cur = dictterm(eng, st, d)
        st.heap[(obj, '$dict')] = mk('dictdel', cur, key)
        for k in [k for k in st.heap if k[0] is obj and isinstance(k[1], str) and not k[1].startswith('$')]:
            del st.heap[k]
        return
    cur = dictterm(eng, st, d)
    if dictlookup(cur, key) is False:
        eng.event(st, 'keyerror', node, obj=d, key=key)
    st.heap[(d, '$d')] = mk('dictdel', cur, key)


# ------------------------------------------------------------------ subscripts
def getitem(eng, st, base, i, node):
    i = eng.val(st, i)
    if i.op == 'sliceobj':
        return getslice(eng, st, base, i.args[0], i.args[1], i.args[2], node)
    if eng.is_lp(base):
        p = namepos(eng, st, base, i)
        return [(st, idx(eng.getfield(st, base, '$coords'), p))]
    if base.op == 'ite' and eng.typ(base) is None and not isseq(eng, base):
        return [(st, ite(base.args[0], getitem(eng, st, base.args[1], i, node)[0][1],
                         getitem(eng, st, base.args[2], i, node)[0][1]))]
    ty = eng.typ(base)
    if ty == 'dict' or (base, '$d') in st.heap or base.op == 'objdict':
        d = dictterm(eng, st, base)
        r = dictlookup(d, i)
        if r is False:
            eng.event(st, 'keyerror', node, obj=base, key=i)
            return [(st, fresh('keyerror'))]
        if r is not None:
            return [(st, r)]
        return [(st, idx(d, i))]
    if base.op == 'ext':
        return [(st, base)]
    ci = eng.classinfo(base)
    if ci is not None:
        m = ci.find('__getitem__')
        if m is not None and m[0] == 'method':
            return eng.call_func(st, m[1], [base, i], {}, node)
    c = eng.seqcontent(st, base)
    if c.op in ('tuple', 'list') and i.op == 'num' and -len(c.args) <= i.args[0] < len(c.args) and i.args[0] == int(i.args[0]) \
            and c.args[int(i.args[0])].op == 'ref':
        return [(st, c.args[int(i.args[0])])]      # the object itself, not its content
    c = eng.val(st, c)
    if i.op == 'tuple' and not (c.op == 'call' and False):
        # multi-dimensional subscript
        return [(st, mk('idx', c, i))]
    if c.op == 'shape':
        if i is ZERO:
            return [(st, seqlen(eng, c.args[0]))]
        return [(st, mk('idx', c, i))]
    if i.op == 'str':
        # record array column
        v = mk('col', c, i)
        eng.settype(v, 'seq')
        if c.op == 'idx':
            eng.types.pop(v, None)
            eng.settype(v, 'number')
        return [(st, v)]
    if isseq(eng, i):
        v = mk('call', 'take', c, i)
        eng.settype(v, 'seq')
        return [(st, v)]
    if i.op in BOOLOPS and i.op != 'bool':
        v = mk('call', 'mask', c, i)
        eng.settype(v, 'seq')
        return [(st, v)]
    e = seqidx(eng, c, i)
    eng.typeelem(c, e)
    return [(st, e)]


def getslice(eng, st, base, lo, hi, step, node):
    if base.op == 'path' or base.op == 'fmt':
        return [(st, mk('slice', base, lo, hi, step))]
    c = eng.val(st, eng.seqcontent(st, base))
    v = slc(c, lo, hi, step)
    if c.op == 'fld' and c.args[1] == '$coords' and v is c:
        pass
    et = eng.elemtype(c)
    if et and v.op not in ('list',):
        eng.setelem(v, et)
    if v.op in ('list', 'cat') or True:
        # a slice of a list is a new list
        if eng.typ(base) in ('list', 'deque') or eng.classinfo(base) is not None or c.op in ('list', 'cat', 'map'):
            r = eng.newseq(st, 'array' if eng.typ(base) == 'array' else 'list', v, et)
            return [(st, r)]
    eng.settype(v, 'seq')
    return [(st, v)]


def setitem(eng, st, base, i, v, node):
    if i.op != 'sliceobj':
        i = eng.val(st, i)
    if eng.is_lp(base):
        p = namepos(eng, st, base, i)
        c = eng.getfield(st, base, '$coords')
        lpset(eng, st, base, '$coords', store(c, p, eng.val(st, v)), node)
        return [st]
    if base.op == 'coordsof':
        lp = base.args[0]
        c = eng.getfield(st, lp, '$coords')
        if i.op == 'sliceobj':
            nv = eng.val(st, v) if i.args == (NONE, NONE, NONE) else mk('call', 'setslice', c, i, eng.val(st, v))
        else:
            nv = store(c, i, eng.val(st, v))
        lpset(eng, st, lp, '$coords', nv, node)
        return [st]
    ty = eng.typ(base)
    if ty == 'dict' or (base, '$d') in st.heap or base.op == 'objdict':
        return dictset(eng, st, base, i, v, node)
    ci = eng.classinfo(base)
    m = ci.find('__setitem__') if ci is not None else None
    if m is not None and m[0] == 'method':
        return [s2 for s2, _ in eng.call_func(st, m[1], [base, i, v], {}, node)]
    c = eng.seqcontent(st, base)
    if i.op == 'sliceobj':
        nv = mk('call', 'setslice', eng.val(st, c), i, eng.val(st, v))
        if i.args == (NONE, NONE, NONE):
            nv = eng.val(st, v)
    else:
        j = i
        if numval(i) is not None and numval(i) < 0:
            L = seqlen(eng, c)
            j = add(L, i)
        nv = store(c, j, v)
        et = eng.elemtype(c)
        if eng.is_lp(v) and not et:
            et = LP
        if et:
            eng.setelem(nv, et)
    eng.settype(nv, 'seq')
    st.heap[(base, '$c')] = nv
    if base.op == 'ref' and base.args[0] == 'list' and eng.elemtype(nv):
        pass
    eng.event(st, 'mut', node, obj=base, name='setitem', args=(i, v), before=c, after=nv)
    return [st]


def store(c, j, v):
    if c.op == 'list' and numval(j) is not None and 0 <= numval(j) < len(c.args):
        a = list(c.args)
        a[int(numval(j))] = v
        return mk('list', *a)
    if c.op == 'fill' and numval(j) is not None and c.args[0].op == 'num' and 0 <= numval(j) < c.args[0].args[0] <= 16 and c.args[1].op == 'num':
        return store(mk('list', *[c.args[1]] * int(c.args[0].args[0])), j, v)
    if c.op == 'store' and c.args[1] is j:
        return mk('store', c.args[0], j, v)
    if c.op == 'storemap':
        base, cnt, pos, val, b = c.args
        if subst(pos, {b: cnt}) is j and subst(val, {b: cnt}) is v:
            return mk('storemap', base, add(cnt, ONE), pos, val, b)
    return mk('store', c, j, v)


def delete(eng, st, t):
    """del target"""
    if isinstance(t, ast.Name):
        st.env.pop(t.id, None)
        return [st]
    out = []
    if isinstance(t, ast.Attribute):
        for s2, b in eng.ev(st, t.value):
            dictdel(eng, s2, mk('objdict', b), s(t.attr), t)
            out.append(s2)
        return out
    if isinstance(t, ast.Subscript):
        for s2, b in eng.ev(st, t.value):
            for s3, i in eng.ev(s2, t.slice):
                if eng.typ(b) == 'dict' or (b, '$d') in s3.heap or b.op == 'objdict':
                    dictdel(eng, s3, b, eng.val(s3, i), t)
                    out.append(s3)
                    continue
                c = eng.seqcontent(s3, b)
                et = eng.elemtype(c)
                if i.op == 'sliceobj':
                    lo, hi, step = i.args
                    if step in (NONE, ONE) and (lo is NONE or lo is ZERO):
                        nv = slc(c, hi, NONE) if hi is not NONE else EMPTY
                    elif step in (NONE, ONE) and hi is NONE:
                        nv = slc(c, NONE, lo)
                    else:
                        nv = cat(slc(c, NONE, lo), slc(c, hi, NONE))
                else:
                    i = eng.val(s3, i)
                    if i is ZERO:
                        nv = slc(c, ONE, NONE)
                    elif i is MINUS_ONE:
                        nv = slc(c, NONE, MINUS_ONE)
                    else:
                        nv = mk('delidx', c, i)
                if et:
                    eng.setelem(nv, et)
                eng.settype(nv, 'seq')
                s3.heap[(b, '$c')] = nv
                eng.event(s3, 'mut', t, obj=b, name='del', args=(i,), before=c, after=nv)
                out.append(s3)
        return out
    if isinstance(t, (ast.Tuple, ast.List)):
        states = [st]
        for e in t.elts:
            states = [x for s2 in states for x in delete(eng, s2, e)]
        return states
    return [st]


# ------------------------------------------------------------------ operators
_OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
        ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}


def isliststr(eng, st, t):
    return eng.typ(t) in ('list', 'tuple', 'deque') or t.op in ('tuple', 'list', 'cat') and eng.types.get(t) != 'array'


def binop(eng, st, op, a, b, node):
    o = _OPS.get(type(op), '?')
    if eng.is_lp(a) and o in ('+', '-', '*', '/'):
        return lpbin(eng, st, o, a, b, node)
    if eng.is_lp(b) and o in ('*',) and not eng.is_lp(a):
        eng.event(st, 'badop', node, op=o, left=a, right=b)
        return lpbin(eng, st, o, b, a, node)
    ci = eng.classinfo(a)
    if ci is not None:
        nm = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__'}.get(o)
        r = ci.find(nm) if nm else None
        if r is not None and r[0] == 'method':
            return eng.call_func(st, r[1], [a, b], {}, node)
    ta, tb = eng.typ(a), eng.typ(b)
    if o == '%' and (a.op in ('str', 'fmt') or ta == 'str'):
        if a.op == 'str':
            return [(st, percent(eng, st, a, eng.val(st, b)))]
        return [(st, mk('fmt', mk('tostr', mk('tuple', a, eng.val(st, b)), '%')))]
    if o == '+' and (ta == 'str' or tb == 'str' or a.op in ('str', 'fmt', 'path') or b.op in ('str', 'fmt', 'path')):
        return [(st, addstr(a, b))]
    if o == '+' and (isliststr(eng, st, a) or isliststr(eng, st, b)):
        if a.op == 'tuple' and b.op == 'tuple':
            return [(st, mk('tuple', *(a.args + b.args)))]
        ca, cb = eng.seqcontent(st, a), eng.seqcontent(st, b)
        return [(st, eng.newseq(st, 'list', cat(ca, cb), eng.elemtype(ca) or eng.elemtype(cb)))]
    if o == '*' and (isliststr(eng, st, a) or isliststr(eng, st, b)) and not (eng.typ(a) == 'array' or eng.typ(b) == 'array'):
        if not isliststr(eng, st, a):
            a, b = b, a
        c = eng.val(st, a)
        if c.op == 'list' and len(c.args) == 1:
            return [(st, eng.newseq(st, 'list', mk('fill', eng.val(st, b), c.args[0]), eng.elemtype(c)))]
        return [(st, eng.newseq(st, 'list', mk('rep', c, eng.val(st, b))))]
    x, y = eng.val(st, a), eng.val(st, b)
    if x.op == 'str' and o == '*':
        return [(st, mk('fmt', mk('tostr', mk('tuple', x, y), '*')))]
    if o in ('/', '//', '%') and 'division' in eng.hooks:
        eng.hooks['division'](eng, st, o, x, y, node)
    r = arith(o, x, y)
    if isseq(eng, x) or isseq(eng, y):
        eng.settype(r, 'seq')
    return [(st, r)]


def addstr(a, b):
    if a.op == 'path':
        # path + suffix
        return pathof(mk('fmt', a, *(b.args if b.op == 'fmt' else (b if b.op in ('str', 'path') else mk('tostr', b, ''),))))
    xa = a if a.op in ('str', 'fmt') else mk('fmt', mk('tostr', a, '')) if a.op != 'path' else a
    xb = b if b.op in ('str', 'fmt') else mk('fmt', mk('tostr', b, '')) if b.op != 'path' else b
    return concat(xa, xb)


def arith(o, x, y):
    if o == '+':
        return add(x, y)
    if o == '-':
        return sub(x, y)
    if o == '*':
        return mul(x, y)
    if o == '/':
        return div(x, y)
    if o == '//':
        return call('floordiv', x, y)
    if o == '%':
        return mod(x, y)
    if o == '**':
        return power(x, y)
    if o == '&' and x.op in BOOLOPS and y.op in BOOLOPS:
        return and_(x, y)
    if o == '|' and x.op in BOOLOPS and y.op in BOOLOPS:
        return or_(x, y)
    if o == '@':
        return call('numpy.dot', x, y)
    if o == '@':
        return call('numpy.dot', x, y)
    return call('op' + o, x, y)


def mod(x, y):
    n, d = numval(x), numval(y)
    if n is not None and d:
        return num(n % d)
    return call('mod', x, y)


def inplace(eng, st, op, a, b, node):
    o = _OPS.get(type(op), '?')
    if eng.is_lp(a) and o in ('+', '-', '*', '/'):
        return lpbin(eng, st, o + '=', a, b, node)
    if o == '+' and a.op == 'ref' and eng.typ(a) in ('list', 'deque'):
        c = eng.seqcontent(st, a)
        nv = cat(c, eng.iterable(st, b))
        if eng.elemtype(c):
            eng.setelem(nv, eng.elemtype(c))
        st.heap[(a, '$c')] = nv
        eng.event(st, 'mut', node, obj=a, name='extend', args=(b,), before=c, after=nv)
        return [(st, a)]
    if o == '+' and a.op == 'fld' and eng.typ(a) in ('list', 'deque'):
        c = eng.seqcontent(st, a)
        nv = cat(c, eng.iterable(st, b))
        if eng.elemtype(c):
            eng.setelem(nv, eng.elemtype(c))
        st.heap[(a, '$c')] = nv
        eng.event(st, 'mut', node, obj=a, name='extend', args=(b,), before=c, after=nv)
        return [(st, a)]
    if eng.typ(a) == 'array' and (a, '$c') in st.heap:
        x, y = eng.val(st, a), eng.val(st, b)
        r = arith(o, x, y)
        eng.settype(r, 'seq')
        eng.event(st, 'mut', node, obj=a, name='inplace', args=(b,), before=st.heap[(a, '$c')], after=r)
        st.heap[(a, '$c')] = r
        return [(st, a)]
    ci = eng.classinfo(a)
    if ci is not None and not isinstance(ci, str):
        nm = {'+': '__iadd__', '-': '__isub__', '*': '__imul__', '/': '__itruediv__', '//': '__ifloordiv__', '%': '__imod__', '**': '__ipow__'}.get(o)
        f = ci.find(nm) if nm else None
        if f and f[0] == 'method':
            return eng.call_func(st, f[1], [a, b], {}, node)
    return binop(eng, st, op, a, b, node)


def compare(eng, st, op, a, b):
    if isinstance(op, (ast.Is, ast.IsNot)):
        t = eq(a, b) if not (a is b) else TRUE
        for x, y in ((a, b), (b, a)):
            if x is NONE and y.op == 'pred' and y.args[0] == 'rematch' and str(y.args[1])[:2] != 'fn':
                t = not_(y)          # a match object or None
        if t.op not in ('bool',) and (eng.is_lp(a) or eng.is_lp(b) or a.op == 'ref' or b.op == 'ref') and NONE in (a, b):
            o = a if b is NONE else b
            if o.op == 'ref' or (o.op == 'sym' and eng.types.get(o) == LP and eng.types.get(('nonnull', o))):
                t = FALSE
        return not_(t) if isinstance(op, ast.IsNot) else t
    if isinstance(op, (ast.In, ast.NotIn)):
        t = contains_(eng, st, a, b)
        return not_(t) if isinstance(op, ast.NotIn) else t
    if isinstance(op, (ast.Eq, ast.NotEq)):
        if eng.is_lp(a) and eng.is_lp(b):
            t = TRUE if a is b else mk('eq', *sorted((a, b)))
        else:
            x, y = eng.val(st, a), eng.val(st, b)
            t = eqterm(eng, x, y)
        return not_(t) if isinstance(op, ast.NotEq) else t
    x, y = eng.val(st, a), eng.val(st, b)
    if isinstance(op, ast.Lt):
        return lt(x, y)
    if isinstance(op, ast.LtE):
        return le(x, y)
    if isinstance(op, ast.Gt):
        return lt(y, x)
    return le(y, x)


def eqterm(eng, x, y):
    if x.op == 'call' and x.args[0] == 'type' or y.op == 'call' and y.args[0] == 'type':
        t = x if x.op == 'call' else y
        o = y if t is x else x
        return mk('pred', 'istype', t.args[1], o)
    if (x.op in ('ext', 'class') and y.op in ('ext', 'class')):
        return TRUE if x is y else FALSE
    if x.op == 'len' or y.op == 'len':
        return eq(x, y) if numval(x) is not None or numval(y) is not None else _numeq(x, y)
    if eng.typ(x) == 'number' or eng.typ(y) == 'number':
        if x.op not in ('none', 'str') and y.op not in ('none', 'str'):
            return _numeq(x, y)
    return eq(x, y)


def _numeq(x, y):
    p = sub(x, y)
    if p.op in ('num',):
        return TRUE if p.args[0] == 0 else FALSE
    return eq(p, ZERO)


def contains_(eng, st, a, b):
    x = eng.val(st, a)
    if eng.typ(b) == 'dict' or (b, '$d') in st.heap or b.op == 'objdict':
        d = dictterm(eng, st, b)
        r = dictlookup(d, x)
        if r is False:
            return FALSE
        if r is not None:
            return TRUE
        return mk('in', x, d)
    y = eng.val(st, b)
    if y.op in ('list', 'tuple') and y.args:
        return or_(*[eqterm(eng, x, e) for e in y.args])
    if y.op in ('list', 'tuple'):
        return FALSE
    if x.op == 'str' and y.op == 'str':
        return TRUE if x.args[0] in y.args[0] else FALSE
    return mk('in', x, y)


# ------------------------------------------------------------------ context managers
def enter(eng, st, cm, node):
    ty = eng.typ(cm)
    if ty == 'lock' or cm.op == 'lock':
        st.locks = st.locks + (cm,)
        eng.event(st, 'acquire', node, lock=cm)
        if cm.op == 'lock':
            st.heap.pop((cm.args[0], '$locked'), None)
        return [(st, cm)]
    if ty == 'mpvalue':
        return [(st, cm)]
    if ty == 'file':
        return [(st, cm)]
    if cm.op == 'tqdm':
        return [(st, cm)]
    ci = eng.classinfo(cm)
    if ci is not None:
        r = ci.find('__enter__')
        if r is not None and r[0] == 'method':
            return eng.call_func(st, r[1], [cm], {}, node)
        eng.event(st, 'noattr', node, base=cm, name='__enter__')
    eng.event(st, 'enter', node, cm=cm)
    return [(st, cm)]


def exit_(eng, st, cm, node, kind, v):
    ty = eng.typ(cm)
    if ty == 'lock' or cm.op == 'lock':
        if cm in st.locks:
            l = list(st.locks)
            l.remove(cm)
            st.locks = tuple(l)
        eng.event(st, 'release', node, lock=cm)
        if cm.op == 'lock':
            st.heap.pop((cm.args[0], '$locked'), None)
        return [(st, NONE)]
    if ty == 'file':
        closefile(eng, st, cm, node)
        return [(st, NONE)]
    if cm.op == 'tqdm' or ty == 'mpvalue':
        return [(st, NONE)]
    ci = eng.classinfo(cm)
    if ci is not None:
        r = ci.find('__exit__')
        if r is not None and r[0] == 'method':
            ex = v if kind == 'raise' else NONE
            args = [cm, typeof(eng, ex) if ex is not NONE else NONE, ex, NONE]
            return [(s2, r2) for s2, r2 in eng.call_func(st, r[1], args, {}, node)]
    eng.event(st, 'exit', node, cm=cm)
    return [(st, NONE)]


def closefile(eng, st, f, node):
    st.heap[(f, '$open')] = FALSE
    eng.event(st, 'close', node, file=f, path=st.heap.get((f, '$path'), NONE))


# ------------------------------------------------------------------ calls
def call_value(eng, st, f, args, kwargs, node):
    op = f.op
    if op == 'ext':
        return call_ext(eng, st, f.args[0], args, kwargs, node)
    if op == 'extbound':
        return call_bound(eng, st, f.args[0], f.args[1], args, kwargs, node)
    if op == 'lpop':
        return call_bound(eng, st, args[0], f.args[0], args[1:], kwargs, node)
    if op == 'attrgetter':
        names = f.args
        if len(names) == 1:
            return eng.getattr_(st, args[0], names[0], node)
        return None
    if op == 'itemgetter':
        return getitem(eng, st, args[0], f.args[0], node)
    if op == 'purefn':
        return [(st, mk('call', f.args[0], *[eng.val(st, a) for a in args]))]
    if op == 'partial':
        return eng.call_value(st, f.args[0], list(f.args[1].args) + list(args), dict(kwargs, **{k: v for k, v in f.args[2]}), node)
    if op == 'exc':
        return [(st, f)]
    if op == 'fld':
        base, name = f.args
        ty = eng.typ(base)
        if ty == 'usermodel' and name in ('log_likelihood', 'log_prior', 'potential'):
            return model_method(eng, st, base, name, args, kwargs, node)
        if ty == 'usermodel' or eng.typ(f) == 'usercallable':
            return [(st, mk('call', 'user.' + name, *[eng.val(st, a) for a in args]))]
        if eng.typ(f) == 'purefn' or (f, '$pure') in eng.types:
            return [(st, mk('call', 'fld.' + name, base, *[eng.val(st, a) for a in args]))]
        if name in ('V', 'dV', 'log_likelihood', 'T') and eng.hooks.get('hmcfield'):
            r = eng.hooks['hmcfield'](eng, st, base, name, args, kwargs, node)
            if r is not None:
                return r
        if name in ('get_sample', 'get_direction', 'set_ensemble') and ty is None:
            return proposal_method(eng, st, base, name, args, kwargs, node)
        if base.op in ('call', 'readtable', 'poly', 'idx', 'fld', 'col', 'draw', 'draws', 'slice') and ty in (None, 'seq', 'array', 'list', 'table', 'number'):
            eng.note('unknown method .%s' % name, node)
            if base.op == 'fld' and ty is None:
                eng.event(st, 'appliedcall', node, obj=base, name=name, args=tuple(args), kwargs=dict(kwargs))
            return [(st, mk('call', '.' + name, eng.val(st, base), *[eng.val(st, a) for a in args]))]
    return None


def kwval(args, kwargs, i, key, dflt=None):
    if i is not None and i < len(args):
        return args[i]
    return kwargs.get(key, dflt)


def call_bound(eng, st, base, name, args, kwargs, node):
    ty = eng.typ(base)
    op = base.op
    if op == 'logger' or ty == 'logger':
        if name in ('addHandler', 'removeHandler'):
            eng.event(st, name, node, logger=base, handler=args[0] if args else NONE)
        return [(st, NONE)]
    if op == 'tqdm':
        return [(st, NONE)]
    if eng.is_lp(base):
        return lp_method(eng, st, base, name, args, kwargs, node)
    if ty == 'mpvalue':
        if name == 'get_lock':
            l = mk('lock', base)
            eng.settype(l, 'lock')
            return [(st, l)]
        return [(st, fresh('mpvalue_' + name))]
    if ty == 'lock' or op == 'lock':
        if name in ('acquire', '__enter__'):
            block = args[0] if args else kwargs.get('block', kwargs.get('blocking', TRUE))
            wait = args[1] if len(args) > 1 else kwargs.get('timeout', NONE)
            if name == 'acquire' and (block is not TRUE and block is not ONE or wait is not NONE):
                # an attempt that may fail
                no = st.fork()
                enter(eng, st, base, node)
                return [(st, TRUE), (no, FALSE)]
            enter(eng, st, base, node)
            return [(st, TRUE)]
        if name in ('release', '__exit__'):
            exit_(eng, st, base, node, 'fall', NONE)
            return [(st, NONE)]
        return [(st, NONE)]
    if ty == 'pipe':
        return pipe_method(eng, st, base, name, args, kwargs, node)
    if ty == 'process':
        eng.event(st, 'proc_' + name, node, proc=base, args=tuple(args), kwargs=dict(kwargs))
        return [(st, NONE)]
    if ty == 'file':
        return file_method(eng, st, base, name, args, kwargs, node)
    if ty == 'usermodel':
        return model_method(eng, st, base, name, args, kwargs, node)
    if ty == 'proposal':
        return proposal_method(eng, st, base, name, args, kwargs, node)
    if op == 'objdict' or ty == 'dict' or (base, '$d') in st.heap:
        return dict_method(eng, st, base, name, args, kwargs, node)
    if op in ('str', 'fmt', 'path') or ty == 'str':
        return str_method(eng, st, base, name, args, kwargs, node)
    if op == 'superobj':
        obj = base.args[0]
        ci = eng.classinfo(obj)
        if ci is not None and any(b in ('list', 'deque', 'collections.deque') for b in ci.external_bases()):
            if name == '__init__':
                c = eng.iterable(st, args[0]) if args else EMPTY
                st.heap[(obj, '$c')] = c
                et = eng.elemtype(c)
                if et:
                    eng.setelem(obj, et)
                return [(st, NONE)]
            return seq_method(eng, st, obj, name, args, kwargs, node)
        if name == '__init__':
            eng.event(st, 'superinit', node, obj=obj, args=tuple(eng.val(st, a) for a in args), kwargs=dict(kwargs))
            return [(st, NONE)]
        if name == '__setattr__' and len(args) == 2 and args[0].op == 'str':
            return [(s2, NONE) for s2 in eng.setattr_(st, obj, args[0].args[0], args[1], node)]
        eng.event(st, 'supercall', node, obj=obj, name=name)
        return [(st, fresh('super_' + name))]
    if op == 'gen':
        return [(st, NONE)]
    ci = eng.classinfo(base)
    if ci is not None:
        ext = ci.external_bases()
        if any(b in ('list', 'deque', 'collections.deque') for b in ext) and name in SEQ_METHODS:
            return seq_method(eng, st, base, name, args, kwargs, node)
        eng.event(st, 'extmethod', node, obj=base, name=name, args=tuple(eng.val(st, a) for a in args))
        return [(st, mk('call', '.' + name, base, *[eng.val(st, a) for a in args]))]
    if name in SEQ_METHODS and (isseq(eng, base) or ty in ('list', 'deque', 'array', 'set', 'tuple', 'seq') or op in ('ref', 'fld', 'phi')):
        return seq_method(eng, st, base, name, args, kwargs, node)
    if plotobj(base):
        if name == 'savefig':
            eng.event(st, 'savefig', node, path=pathof(eng.val(st, args[0])))
        else:
            eng.event(st, 'plot', node, name=name, args=tuple(eng.val(st, a) for a in args), kwargs={k: eng.val(st, v) for k, v in kwargs.items()}, obj=base)
        return [(st, mk('plotobj', '.' + name, next(T._uid)))]
    return pure_method(eng, st, base, name, args, kwargs, node)


def plotobj(t):
    while t.op in ('idx', 'fld', 'extbound'):
        t = t.args[0]
    return t.op == 'plotobj'



def pure_method(eng, st, base, name, args, kwargs, node):
    b = eng.val(st, base)
    a = [eng.val(st, x) for x in args]
    if name in ('ravel', 'flatten', 'squeeze'):
        return [(st, b)]
    if name == 'copy' and not args:
        if isseq(eng, b):
            return [(st, eng.newseq(st, 'array', b, eng.elemtype(b)))]
        return [(st, b)]
    if name == 'sum' and not args:
        return [(st, call('sum', b))]
    if name in ('max', 'min') and not args:
        return [(st, mk('call', name + 'of', b))]
    if name == 'cumsum' and not args:
        return [(st, eng.settype(mk('call', 'cumsum', b), 'seq'))]
    if name == 'rvs':
        d = mk('draw', 'rvs', b, mk('uid', next(T._uid)))
        eng.settype(d, 'array')
        eng.event(st, 'draw', node, dist='rvs', draw=d)
        return [(st, d)]
    if name in ('any', 'all') and not args:
        return [(st, mk('pred', name, b))]
    if name == 'tolist':
        return [(st, eng.newseq(st, 'list', b, eng.elemtype(b)))]
    if name == 'format' or name in ('rstrip', 'strip', 'join', 'split'):
        return str_method(eng, st, base, name, args, kwargs, node)
    kws = [mk('kw', k, eng.val(st, v)) for k, v in sorted(kwargs.items())]
    r = mk('call', '.' + name, b, *(a + kws))
    if name in ('view', 'astype', 'argsort', 'reshape', 'conjugate'):
        eng.settype(r, 'array')
    return [(st, r)]


def lp_method(eng, st, p, name, args, kwargs, node):
    o = LP_OPS.get(name)
    if o == 'copy':
        return [(st, lpcopy(eng, st, p, node))]
    if o in ('+', '-', '*', '/', '+=', '-=', '*=', '/='):
        return lpbin(eng, st, o, p, args[0], node)
    if o == '[]':
        return getitem(eng, st, p, args[0], node)
    if o == '[]=':
        return [(x, NONE) for x in setitem(eng, st, p, args[0], args[1], node)]
    if o == 'len':
        return [(st, eng.getfield(st, p, 'dimension'))]
    if o == 'keys':
        return [(st, eng.getfield(st, p, 'names'))]
    if o == 'asnparray':
        v = mk('call', 'asnparray', lpsnap(eng, st, p))
        eng.settype(v, 'table')
        return [(st, v)]
    if name == '__getstate__':
        return [(st, mk('tuple', eng.getfield(st, p, 'logL'), eng.getfield(st, p, 'logP'), mk('coordsof', p)))]
    if name == '__setstate__':
        c = eng.val(st, args[0])
        lpset(eng, st, p, 'logL', idx(c, ZERO), node)
        lpset(eng, st, p, 'logP', idx(c, ONE), node)
        lpset(eng, st, p, '$coords', idx(c, num(2)), node)
        return [(st, NONE)]
    return [(st, mk('fmt', mk('tostr', p, name)))]


def lpsnap(eng, st, p):
    """value snapshot of a point"""
    return mk('lp', eng.val(st, eng.getfield(st, p, '$coords')), eng.getfield(st, p, 'logL'), eng.getfield(st, p, 'logP'), p)


def pipe_method(eng, st, base, name, args, kwargs, node):
    if name == 'send':
        eng.event(st, 'send', node, pipe=base, value=args[0] if args else NONE, snap=snapshot(eng, st, args[0] if args else NONE))
        return [(st, NONE)]
    if name == 'recv':
        h = eng.hooks.get('recv')
        v = h(eng, st, base, node) if h else fresh('recv')
        eng.event(st, 'recv', node, pipe=base, value=v)
        return [(st, v)]
    if name == 'poll':
        v = fresh('poll')
        eng.event(st, 'poll', node, pipe=base, value=v)
        return [(st, mk('truthy', v))]
    eng.event(st, 'pipe_' + name, node, pipe=base)
    return [(st, NONE)]


def snapshot(eng, st, v):
    """value of something handed over, with the fields of live points at this moment"""
    if eng.is_lp(v):
        return lpsnap(eng, st, v)
    if v.op == 'tuple':
        return mk('tuple', *[snapshot(eng, st, x) for x in v.args])
    return eng.val(st, v)


def file_method(eng, st, f, name, args, kwargs, node):
    path = st.heap.get((f, '$path'), NONE)
    if name == 'write':
        fault(eng, st, node, 'write', file=f, path=path)
        eng.event(st, 'write', node, file=f, path=path, data=eng.val(st, args[0]))
        return [(st, NONE)]
    if name == 'writelines':
        eng.event(st, 'writelines', node, file=f, path=path, data=eng.val(st, args[0]))
        return [(st, NONE)]
    if name == 'close':
        closefile(eng, st, f, node)
        return [(st, NONE)]
    if name in ('flush', '__enter__'):
        eng.event(st, 'flush', node, file=f, path=path)
        return [(st, f)]
    if name == '__exit__':
        closefile(eng, st, f, node)
        return [(st, NONE)]
    if name == 'fileno':
        return [(st, mk('call', 'fileno', f))]
    if name in ('read', 'readline', 'readlines'):
        return [(st, mk('call', 'read', path, fresh('read')))]
    if name == 'name':
        return [(st, path)]
    return [(st, fresh('file_' + name))]


def coords_of(eng, st, p):
    if eng.is_lp(p):
        return eng.val(st, eng.getfield(st, p, '$coords'))
    return eng.val(st, p)


def model_method(eng, st, m, name, args, kwargs, node):
    args = list(args) + [kwargs[k] for k in kwargs]
    if name == 'log_likelihood':
        c = coords_of(eng, st, args[0])
        v = call('LL', c)
        eng.settype(v, 'number')
        eng.event(st, 'll', node, point=args[0], coords=c, value=v)
        return [(st, v)]
    if name in ('log_prior', 'potential'):
        c = coords_of(eng, st, args[0])
        v = call('LP', c)
        eng.settype(v, 'number')
        eng.event(st, 'lp', node, point=args[0], coords=c, value=v) if eng.hooks.get('lpevents') else None
        return [(st, v if name == 'log_prior' else neg(v))]
    if name == 'in_bounds':
        return [(st, mk('pred', 'in_bounds', coords_of(eng, st, args[0])))]
    if name == 'new_point':
        u = next(T._uid)
        names = mk('fld', m, 'names')
        c = mk('newcoords', u)
        eng.settype(c, 'array')
        r = lpnew(eng, st, names, c, node=node)
        eng.event(st, 'new_point', node, obj=r)
        return [(st, r)]
    if name == 'force':
        return [(st, eng.settype(call('force', coords_of(eng, st, args[0])), 'array'))]
    if name == 'header':
        return [(st, eng.settype(mk('call', 'user.header'), 'str'))]
    if name == 'strsample':
        return [(st, eng.settype(mk('call', 'user.strsample', snapshot(eng, st, args[0])), 'str'))]
    return [(st, mk('call', 'user.' + name, *[eng.val(st, a) for a in args]))]


def freeze(st, b, c):
    """values computed from b before it was changed in place keep its former content c (views of b do not)"""
    def old(v):
        if not is_term(v) or v is b or not contains(v, b):
            return v
        x = v
        while x.op in ('col', 'slice', 'idx', 'fld') and x.args and is_term(x.args[0]):
            x = x.args[0]
            if x is b:
                return v
        return subst(v, {b: c})
    for d in (st.env, st.heap):
        for k, v in list(d.items()):
            w = old(v)
            if w is not v:
                d[k] = w


def proposal_method(eng, st, p, name, args, kwargs, node):
    eng.event(st, 'proposal_' + name, node, obj=p, args=tuple(args), kwargs=dict(kwargs))
    if name == 'get_sample':
        u = next(T._uid)
        arg = args[0] if args else NONE
        names = eng.getfield(st, arg, 'names') if eng.is_lp(arg) else fresh('names')
        if eng.is_lp(arg):
            # the jump may change the point it was given
            c = eng.c0(mk('sym', 'jumped', next(T._uid)))
            st.heap[(arg, '$coords')] = c
            for f in ('logL', 'logP'):
                v = mk('sym', 'jumped_' + f, next(T._uid))
                eng.settype(v, 'number')
                st.heap[(arg, f)] = v
        c = eng.c0(mk('sym', 'proposed', u))
        r = lpnew(eng, st, names, c, node=node)
        h = eng.hooks.get('proposed')
        if h:
            h(eng, st, p, r, args, kwargs)
        else:
            for f in ('logL', 'logP'):
                v = mk('sym', 'proposed_' + f, u)
                eng.settype(v, 'number')
                st.heap[(r, f)] = v
        st.heap[(p, 'log_J')] = eng.settype(mk('logJ', r), 'number')
        eng.event(st, 'proposed', node, obj=p, result=r, coords=c, arg=arg)
        return [(st, r)]
    if name == 'get_direction':
        v = mk('sym', 'direction', next(T._uid))
        eng.event(st, 'direction', node, obj=p, result=v, scale=eng.val(st, kwargs['mu']) if 'mu' in kwargs else eng.val(st, args[0]) if args else None)
        st.heap[(p, 'log_J')] = eng.settype(mk('logJ', v), 'number')
        h = eng.hooks.get('direction')
        if h:
            return h(eng, st, p, v, node)
        return [(st, v)]
    return [(st, NONE)]


def dict_method(eng, st, d, name, args, kwargs, node):
    cur = dictterm(eng, st, d)
    if name == 'copy':
        r = eng.new('dict')
        st.heap[(r, '$d')] = cur
        return [(st, r)]
    if name == 'get':
        k = eng.val(st, args[0])
        v = dictlookup(cur, k)
        dflt = args[1] if len(args) > 1 else NONE
        if v is False:
            return [(st, dflt)]
        if v is not None:
            return [(st, v)]
        return [(st, mk('call', 'dictget', cur, k, dflt))]
    if name == 'pop':
        k = eng.val(st, args[0])
        v = dictlookup(cur, k)
        if v is False:
            if len(args) > 1:
                return [(st, args[1])]
            eng.event(st, 'keyerror', node, obj=d, key=k)
            return [(st, fresh('keyerror'))]
        if v is None:
            dflt = args[1] if len(args) > 1 else NONE
            v = mk('call', 'dictget', cur, k, dflt)
        dictdel(eng, st, d, k, node)
        return [(st, v)]
    if name == 'update':
        states = [st]
        items = []
        for a in args:
            ad = dictterm(eng, st, a)
            if ad.op == 'dict' and ad.args[0] is NONE:
                items += [(x.args[0], x.args[1]) for x in ad.args[1:]]
            else:
                # unfold settings over another base
                if d.op == 'objdict':
                    st.heap[(d.args[0], '$dict')] = ad
                    for k in [k for k in st.heap if k[0] is d.args[0] and isinstance(k[1], str) and not k[1].startswith('$')]:
                        del st.heap[k]
                else:
                    st.heap[(d, '$d')] = mk('dictmerge', cur, ad) if cur is not mk('dict', NONE) else ad
        items += [(s(k), v) for k, v in kwargs.items()]
        for k, v in items:
            states = [x for s2 in states for x in dictset(eng, s2, d, k, v, node)]
        return [(x, NONE) for x in states]
    if name in ('items', 'keys', 'values'):
        if cur.op == 'dict' and cur.args[0] is NONE:
            pick = {'items': lambda x: x, 'keys': lambda x: x.args[0], 'values': lambda x: x.args[1]}[name]
            return [(st, mk('list', *[pick(x) for x in cur.args[1:]]))]
        v = mk('call', 'dict' + name, cur)
        eng.settype(v, 'seq')
        return [(st, v)]
    if name in ('setdefault',):
        k = eng.val(st, args[0])
        v = dictlookup(cur, k)
        if v not in (False, None):
            return [(st, v)]
        dv = args[1] if len(args) > 1 else NONE
        if v is None:
            dv = mk('call', 'dictget', cur, k, dv)
        return [(x, dv) for x in dictset(eng, st, d, k, dv, node)]
    if name == '__delitem__':
        dictdel(eng, st, d, eng.val(st, args[0]), node)
        return [(st, NONE)]
    if name == '__setitem__':
        return [(x, NONE) for x in dictset(eng, st, d, eng.val(st, args[0]), args[1], node)]
    if name == '__contains__':
        return [(st, contains_(eng, st, args[0], d))]
    if name == 'clear':
        st.heap[(d, '$d')] = mk('dict', NONE)
        return [(st, NONE)]
    eng.note('dict method %s' % name, node)
    return [(st, fresh('dict_' + name))]


def str_method(eng, st, b, name, args, kwargs, node):
    a = [eng.val(st, x) for x in args]
    if name == 'format':
        return [(st, strformat(eng, st, b, a, {k: eng.val(st, v) for k, v in kwargs.items()}))]
    if name == 'join':
        c = eng.iterable(st, args[0])
        if c.op in ('list', 'tuple'):
            segs = []
            for k, x in enumerate(c.args):
                if k:
                    segs.append(b)
                segs.append(to_str(x) if x.op != 'path' else x)
            return [(st, concat(*segs))]
        return [(st, mk('fmt', mk('join', b, c)))]
    if name in ('rstrip', 'strip', 'lstrip', 'lower', 'upper', 'casefold', 'title', 'capitalize', 'swapcase', 'replace', 'removeprefix', 'removesuffix') and b.op == 'str' and all(x.op == 'str' for x in a) and not kwargs:
        return [(st, s(getattr(b.args[0], name)(*[x.args[0] for x in a])))]
    if name in ('startswith', 'endswith') and b.op == 'str' and len(a) == 1 and a[0].op == 'str':
        return [(st, TRUE if getattr(b.args[0], name)(a[0].args[0]) else FALSE)]
    if name in ('startswith', 'endswith'):
        return [(st, mk('pred', name, b, *a))]
    if name == 'encode':
        return [(st, b)]
    r = call('str.' + name, b, *a)
    eng.settype(r, 'str')
    if name in ('split', 'splitlines'):
        eng.settype(r, 'list')
    return [(st, r)]


def seq_method(eng, st, b, name, args, kwargs, node):
    c = eng.seqcontent(st, b)
    et = eng.elemtype(c) or eng.elemtype(b)

    def upd(nv, mname, a=()):
        e2 = et
        if not e2:
            for x in a:
                if isinstance(x, Term) and eng.is_lp(x):
                    e2 = LP
        if e2:
            eng.setelem(nv, e2)
        eng.settype(nv, 'seq')
        if b.op == 'coordsof':
            lpset(eng, st, b.args[0], '$coords', nv, node)
            return
        st.heap[(b, '$c')] = nv
        kw = {}
        if any(x.op == 'ref' and (x, '$c') in st.heap for x in a if isinstance(x, Term)):
            kw['vals'] = tuple(eng.val(st, x) for x in a)
        eng.event(st, 'mut', node, obj=b, name=mname, args=tuple(a), before=c, after=nv, **kw)
    if name == 'append':
        upd(cat(c, mk('list', args[0])), 'append', (args[0],))
        return [(st, NONE)]
    if name == 'appendleft':
        upd(cat(mk('list', args[0]), c), 'appendleft', (args[0],))
        return [(st, NONE)]
    if name == 'extend':
        x = eng.iterable(st, args[0])
        if not et:
            et = eng.elemtype(x)
        upd(cat(c, x), 'extend', (x,))
        return [(st, NONE)]
    if name == 'insert':
        i = eng.val(st, args[0])
        if i is ZERO:
            nv = cat(mk('list', args[1]), c)
        elif i is length(c):
            nv = cat(c, mk('list', args[1]))
        else:
            nv = mk('ins', c, i, args[1])
        upd(nv, 'insert', (i, args[1]))
        return [(st, NONE)]
    if name in ('pop', 'popleft'):
        i = ZERO if name == 'popleft' else (eng.val(st, args[0]) if args else MINUS_ONE)
        v = idx(c, i)
        if et and v.op not in ('ref',):
            eng.settype(v, et)
        if i is ZERO:
            nv = slc(c, ONE, NONE)
        elif i is MINUS_ONE:
            if c.op == 'cat' and c.args[-1].op == 'list':
                nv = cat(*(c.args[:-1] + (mk('list', *c.args[-1].args[:-1]),)))
            else:
                nv = slc(c, NONE, MINUS_ONE)
        else:
            nv = mk('delidx', c, i)
        upd(nv, name, (v,))
        return [(st, v)]
    if name == 'sort':
        k = kwargs.get('key', NONE)
        rv = kwargs.get('reverse', FALSE)
        upd(sortedterm(eng, st, c, k, rv), 'sort', (k,))
        return [(st, NONE)]
    if name == 'reverse':
        upd(mk('reversed', c), 'reverse')
        return [(st, NONE)]
    if name == 'rotate':
        upd(mk('rot', c, eng.val(st, args[0]) if args else ONE), 'rotate', tuple(eng.val(st, a) for a in args))
        return [(st, NONE)]
    if name == 'clear':
        upd(EMPTY, 'clear')
        return [(st, NONE)]
    if name == 'remove':
        upd(mk('call', 'removed', c, eng.val(st, args[0])), 'remove', (args[0],))
        return [(st, NONE)]
    if name in ('copy', 'tolist'):
        return [(st, eng.newseq(st, 'list' if name == 'tolist' or eng.typ(b) not in ('array', 'deque') else eng.typ(b), eng.val(st, c), et))]
    if name in ('__len__',):
        return [(st, seqlen(eng, c))]
    if name == '__getitem__':
        if args[0].op == 'sliceobj':
            return getslice(eng, st, b, args[0].args[0], args[0].args[1], args[0].args[2], node)
        return getitem_raw(eng, st, b, args[0], node)
    if name == '__setitem__':
        return [(x, NONE) for x in setitem(eng, st, b, args[0], args[1], node)]
    if name == '__delitem__':
        i = args[0]
        if i.op == 'sliceobj':
            lo, hi, step = i.args
            nv = slc(c, hi, NONE) if lo in (NONE, ZERO) else cat(slc(c, NONE, lo), slc(c, hi, NONE) if hi is not NONE else EMPTY)
        else:
            nv = slc(c, ONE, NONE) if i is ZERO else mk('delidx', c, eng.val(st, i))
        upd(nv, 'del', (i,))
        return [(st, NONE)]
    if name == '__init__':
        upd(eng.iterable(st, args[0]) if args else EMPTY, 'init')
        return [(st, NONE)]
    if name in ('index', 'count'):
        cc, x = eng.val(st, c), eng.val(st, args[0])
        if len(args) == 1 and cc.op in ('list', 'tuple') and x.op in ('str', 'num') and all(y.op in ('str', 'num') for y in cc.args):
            k = [i for i, y in enumerate(cc.args) if y is x]
            if name == 'count' or k:
                return [(st, num(len(k) if name == 'count' else k[0]))]
        return [(st, eng.settype(mk('call', 'seq.' + name, eng.val(st, c), eng.val(st, args[0])), 'number'))]
    eng.note('sequence method %s' % name, node)
    return [(st, fresh('seq_' + name))]


def getitem_raw(eng, st, b, i, node):
    c = eng.val(st, eng.seqcontent(st, b))
    e = seqidx(eng, c, eng.val(st, i))
    eng.typeelem(c, e)
    return [(st, e)]


def sortedterm(eng, st, c, key, rev=FALSE):
    k = keyterm(eng, st, key)
    if c.op == 'sorted' and c.args[1] is k and c.args[2] is rev:
        return c
    r = mk('sorted', c, k, rev)
    et = eng.elemtype(c)
    if et:
        eng.setelem(r, et)
    return r


def keyterm(eng, st, key):
    """canonical term of a key function: its body over a bound point"""
    if key is NONE:
        return NONE
    if key.op == 'attrgetter' and len(key.args) == 1:
        return mk('key', mk('fld', bv(0), key.args[0]))
    if key.op in ('closure', 'bound', 'func'):
        p = mk('sym', 'keyarg', 0)
        eng.settype(p, LP)
        st2 = st.fork()
        eng.sinks.append([])
        try:
            r = eng.call_value(st2, key, [p], {}, None)
        finally:
            eng.sinks.pop()
        if len(r) == 1:
            return mk('key', subst(r[0][1], {p: bv(0)}))
    return key


# ------------------------------------------------------------------ external functions
def call_ext(eng, st, name, args, kwargs, node):
    h = eng.hooks.get('ext')
    if h:
        r = h(eng, st, name, args, kwargs, node)
        if r is not None:
            return r
    if name in PURE:
        vals = [eng.val(st, a) for a in args]
        extra = [mk('kw', k, eng.val(st, v)) for k, v in sorted(kwargs.items())]
        f = PURE[name]
        if f == 'pow':
            r = power(vals[0], vals[1])
        elif f == 'isneginf':
            r = eq(vals[0], neg(INF))
        elif f == 'isposinf':
            r = eq(vals[0], INF)
        elif f == 'isinf':
            r = or_(eq(vals[0], INF), eq(vals[0], neg(INF)))
        elif f == 'float':
            r = vals[0] if vals else ZERO
        else:
            r = call(f, *(vals + extra))
        if any(isseq(eng, v) for v in vals) and f not in ('prod',):
            eng.settype(r, 'seq')
        return [(st, r)]
    m = name.rsplit('.', 1)
    if m[0] in ('random', 'numpy.random') or name in ('random.random',):
        if m[1] == 'seed':
            a = eng.val(st, args[0]) if args else eng.val(st, kwargs['seed']) if 'seed' in kwargs else \
                (eng.val(st, kwargs['a']) if 'a' in kwargs else NONE)
            eng.event(st, 'seed', node, which=m[0], value=a)
            return [(st, NONE)]
        if m[1] == 'shuffle':
            b = args[0]
            c = eng.seqcontent(st, b)
            if c is b and not eng.isident(b):
                # the value itself is changed from here on, its present content gets a name
                c = eng.c0(b)
                freeze(st, b, c)
            nv = mk('perm', eng.val(st, c), mk('uid', next(T._uid)))
            eng.settype(nv, 'seq')
            st.heap[(b, '$c')] = nv
            eng.event(st, 'mut', node, obj=b, name='shuffle', args=(), before=c, after=nv)
            return [(st, NONE)]
        r = draw(eng, st, node, name, args, kwargs)
        if r is not None:
            if r.op == 'list' or r.op in ('perm',):
                et = eng.elemtype(r)
                r = eng.newseq(st, 'list' if r.op == 'list' else 'array', r, et)
            return [(st, r)]
    fn = EXT.get(name)
    if fn is not None:
        return fn(eng, st, args, kwargs, node)
    last = m[-1]
    if name.startswith('builtins.') and (last.endswith('Error') or last.endswith('Exception') or last in ('SystemExit', 'KeyboardInterrupt', 'Warning')):
        return [(st, mk('exc', last, *[eng.val(st, a) for a in args]))]
    if name.split('.')[0] in ('numpy', 'scipy', 'math', 'operator', 'itertools', 'corner'):
        vals = [eng.val(st, a) for a in args] + [mk('kw', k, eng.val(st, v)) for k, v in sorted(kwargs.items())]
        r = mk('call', name, *vals)
        return [(st, r)]
    if name.startswith('matplotlib'):
        return [(st, plotcall(eng, st, name, args, kwargs, node))]
    if name.startswith('logging.') or name.startswith('warnings.') or name.startswith('sys.std'):
        return [(st, NONE)]
    if name.startswith('builtins.'):
        vals = [eng.val(st, a) for a in args]
        return [(st, mk('call', last, *vals))]
    eng.event(st, 'extcall', node, name=name, args=tuple(eng.val(st, a) for a in args),
              kwargs={k: eng.val(st, v) for k, v in kwargs.items()})
    return [(st, fresh('ext_' + last))]


def plotcall(eng, st, name, args, kwargs, node):
    last = name.rsplit('.', 1)[1]
    if last == 'savefig':
        eng.event(st, 'savefig', node, path=pathof(eng.val(st, args[0])))
    else:
        eng.event(st, 'plot', node, name=last, args=tuple(eng.val(st, a) for a in args),
                  kwargs={k: eng.val(st, v) for k, v in kwargs.items()})
    return mk('plotobj', name, next(T._uid))


EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def V(eng, st, x):
    return eng.val(st, x)


@ext('builtins.len')
def _len(eng, st, a, k, n):
    x = a[0]
    if eng.is_lp(x):
        return [(st, eng.getfield(st, x, 'dimension'))]
    ci = eng.classinfo(x)
    if ci is not None:
        r = ci.find('__len__')
        if r is not None and r[0] == 'method':
            return eng.call_func(st, r[1], [x], {}, n)
    d = st.heap.get((x, '$d'))
    if d is not None:
        if d.op == 'dict' and d.args[0] is NONE:
            return [(st, num(len(d.args) - 1))]
        return [(st, mk('len', d))]
    return [(st, eng.settype(seqlen(eng, V(eng, st, eng.seqcontent(st, x))), 'number'))]


@ext('builtins.float')
def _float(eng, st, a, k, n):
    if not a:
        return [(st, ZERO)]
    v = V(eng, st, a[0])
    if v.op == 'str':
        try:
            return [(st, num(float(v.args[0])))]
        except ValueError:
            pass
    return [(st, v)]


@ext('builtins.int', 'numpy.int64')
def _int(eng, st, a, k, n):
    if not a:
        return [(st, ZERO)]
    v = V(eng, st, a[0])
    if isinteger(eng, v):
        return [(st, v)]
    return [(st, eng.settype(call('int', v), 'number'))]


def isinteger(eng, v):
    if v.op == 'num':
        return v.args[0].denominator == 1
    if v.op == 'bool':
        return True
    if v.op == 'len' or v.op == 'iota':
        return True
    if v.op == 'draw' and v.args[0] == 'int':
        return True
    if v.op == 'call' and v.args[0] in ('int', 'floordiv', 'floor', 'mod'):
        return v.args[0] == 'int' or all(isinteger(eng, x) for x in v.args[1:])
    if v.op == 'poly':
        return all(c.denominator == 1 and all(e > 0 and isinteger(eng, a) for a, e in m) for m, c in v.args)
    return eng.types.get(('int', v)) is True


@ext('builtins.bool')
def _bool(eng, st, a, k, n):
    return [(st, eng.truthval(st, a[0]))]


@ext('builtins.str', 'builtins.repr')
def _str(eng, st, a, k, n):
    if not a:
        return [(st, s(''))]
    v = V(eng, st, a[0])
    if v.op in ('str', 'fmt', 'path') or eng.typ(v) == 'str':
        return [(st, v)]
    return [(st, to_str(v))]


@ext('builtins.list', 'builtins.tuple', 'collections.deque', 'builtins.set', 'builtins.frozenset')
def _list(eng, st, a, k, n):
    c = eng.iterable(st, a[0]) if a else EMPTY
    if c.op == 'tuple':
        c = mk('list', *c.args)
    r = eng.newseq(st, 'list', c, eng.elemtype(c))
    return [(st, r)]


def _deque(eng, st, a, k, n):
    c = eng.iterable(st, a[0]) if a else EMPTY
    r = eng.newseq(st, 'deque', c, eng.elemtype(c))
    ml = a[1] if len(a) > 1 else k.get('maxlen', NONE)
    st.heap[(r, 'maxlen')] = V(eng, st, ml)
    return [(st, r)]


EXT['collections.deque'] = _deque


@ext('builtins.tuple')
def _tuple(eng, st, a, k, n):
    c = eng.iterable(st, a[0]) if a else EMPTY
    if c.op in ('list', 'tuple'):
        return [(st, mk('tuple', *c.args))]
    return [(st, c)]


@ext('builtins.dict', 'collections.OrderedDict')
def _dict(eng, st, a, k, n):
    r = eng.new('dict')
    base = NONE
    items = []
    if a:
        d = dictterm(eng, st, a[0])
        if d.op == 'dict':
            base = d.args[0]
            items = [(x.args[0], x.args[1]) for x in d.args[1:]]
        elif d.op in ('objdict', 'dictset', 'dictdel', 'dictfilter', 'dictmerge'):
            base = d
        else:
            c = eng.iterable(st, a[0])
            if c.op == 'list' and all(x.op == 'tuple' and len(x.args) == 2 for x in c.args):
                items = [(x.args[0], x.args[1]) for x in c.args]
            else:
                base = mk('dictof', c)
    items += [(s(x), v) for x, v in k.items()]
    if base is not NONE and base.op in ('objdict', 'dictset', 'dictdel', 'dictfilter'):
        for x, v in items:
            base = mk('dictset', base, x, v)
        st.heap[(r, '$d')] = base
    else:
        st.heap[(r, '$d')] = mk('dict', base, *[mk('tuple', x, v) for x, v in items])
    return [(st, r)]


@ext('builtins.range', 'builtins.xrange')
def _range(eng, st, a, k, n):
    v = [V(eng, st, x) for x in a]
    if len(v) == 1:
        r = rng(ZERO, v[0])
    elif len(v) == 2:
        r = rng(v[0], v[1])
    else:
        r = rng(v[0], v[1], v[2])
    return [(st, r)]


@ext('numpy.arange')
def _arange(eng, st, a, k, n):
    st2, r = _range(eng, st, a, k, n)[0]
    return [(st2, eng.newseq(st2, 'array', r))]


@ext('builtins.enumerate')
def _enum(eng, st, a, k, n):
    c = eng.iterable(st, a[0])
    start = V(eng, st, a[1]) if len(a) > 1 else V(eng, st, k.get('start', ZERO))
    if c.op in ('list', 'tuple'):
        return [(st, mk('list', *[mk('tuple', add(start, num(i)), x) for i, x in enumerate(c.args)]))]
    return [(st, mk('enum', c, start))]


@ext('builtins.zip')
def _zip(eng, st, a, k, n):
    if len(a) == 1 and a[0].op == 'star':
        c = V(eng, st, a[0].args[0])
        return [(st, mk('unzip', c))]
    cs = [eng.iterable(st, x) for x in a]
    if all(c.op in ('list', 'tuple') for c in cs):
        return [(st, mk('list', *[mk('tuple', *t) for t in zip(*[c.args for c in cs])]))]
    if all(c.op == 'map' for c in cs) and all(c.args[0] is cs[0].args[0] for c in cs):
        i = mk('iota', next(T._uid))
        return [(st, mapterm(cs[0].args[0], mk('tuple', *[idx(c, i) for c in cs]), i))]
    return [(st, mk('zip', *cs))]


@ext('builtins.reversed')
def _rev(eng, st, a, k, n):
    c = eng.iterable(st, a[0])
    if c.op in ('list', 'tuple'):
        return [(st, mk('list', *reversed(c.args)))]
    if c.op == 'range' and c.args[2] is ONE:
        return [(st, mk('range', sub(c.args[1], ONE), sub(c.args[0], ONE), MINUS_ONE))]
    r = mk('reversed', c)
    if eng.elemtype(c):
        eng.setelem(r, eng.elemtype(c))
    return [(st, r)]


@ext('builtins.sorted')
def _sorted(eng, st, a, k, n):
    c = eng.iterable(st, a[0])
    if c.op in ('list', 'tuple') and c.args and all(x.op == 'str' for x in c.args) and k.get('key', NONE) is NONE and k.get('reverse', FALSE) is FALSE:
        return [(st, eng.newseq(st, 'list', mk('list', *sorted(c.args, key=lambda x: x.args[0])), 'str'))]
    r = sortedterm(eng, st, c, k.get('key', NONE), k.get('reverse', FALSE))
    return [(st, eng.newseq(st, 'list', r, eng.elemtype(c)))]


@ext('numpy.diff')
def _npdiff(eng, st, a, k, n):
    c = V(eng, st, eng.seqcontent(st, a[0]))
    if len(a) > 1 or k:
        return [(st, eng.settype(call('numpy.diff', *([c] + list(a[1:]) + list(k.values()))), 'array'))]
    if c.op in ('list', 'tuple'):
        return [(st, eng.newseq(st, 'array', mk('list', *[sub(y, x) for x, y in zip(c.args, c.args[1:])]), 'number'))]
    i = mk('iota', next(T._uid))
    eng.settype(i, 'number')
    return [(st, eng.newseq(st, 'array', mapterm(sub(seqlen(eng, c), ONE), sub(seqidx(eng, c, add(i, ONE)), seqidx(eng, c, i)), i), 'number'))]


@ext('numpy.sort')
def _npsort(eng, st, a, k, n):
    c = V(eng, st, eng.seqcontent(st, a[0]))
    r = sortedterm(eng, st, c, NONE, FALSE)
    return [(st, eng.newseq(st, 'array', r, eng.elemtype(c)))]


def applymap(eng, st, f, cs, node, n_=None):
    """map f over sequences; returns [(st, content)]"""
    if all(c.op in ('list', 'tuple') for c in cs):
        res = [(st, EMPTY)]
        for t in zip(*[c.args for c in cs]):
            nxt = []
            for s2, acc in res:
                for s3, v in eng.call_value(s2, f, list(t), {}, node):
                    nxt.append((s3, cat(acc, mk('list', v))))
            res = nxt
        return res
    i = mk('iota', next(T._uid))
    eng.settype(i, 'number')
    es = []
    for c in cs:
        e = seqidx(eng, c, i)
        eng.typeelem(c, e)
        es.append(e)
    t0 = st.trace
    r = eng.call_value(st, f, es, {}, node)
    if len(r) == 1 and r[0][0].trace == t0:
        s2, v = r[0]
        return [(s2, mapterm(seqlen(eng, cs[0]), eng.val(s2, v), i))]
    eng.note('map with effects', node)
    return [(st, mk('call', 'map', f, *cs))]


@ext('builtins.map')
def _map(eng, st, a, k, n):
    return applymap(eng, st, a[0], [eng.iterable(st, x) for x in a[1:]], n)


@ext('builtins.filter')
def _filter(eng, st, a, k, n):
    c = eng.iterable(st, a[1])
    i = mk('iota', next(T._uid))
    e = seqidx(eng, c, i)
    eng.typeelem(c, e)
    r = eng.call_value(st, a[0], [e], {}, n) if a[0] is not NONE else [(st, e)]
    if len(r) == 1:
        from .engine import _lam2
        cond = eng.truthval(r[0][0], r[0][1])
        return [(r[0][0], mk('filtermap', seqlen(eng, c), *_lam2(cond, e, i)))]
    return [(st, mk('call', 'filter', a[0], c))]


@ext('builtins.sum', 'numpy.sum', 'math.fsum')
def _sum(eng, st, a, k, n):
    c = eng.iterable(st, a[0])
    start = V(eng, st, a[1]) if len(a) > 1 else V(eng, st, k.get('start', ZERO)) if not k.get('axis') else ZERO
    if c.op in ('list', 'tuple'):
        if any(eng.is_lp(x) for x in c.args):
            acc = None
            if len(a) > 1:
                acc = a[1]
            for x in c.args:
                if acc is None:
                    acc = x
                else:
                    st, acc = lpbin(eng, st, '+', acc, x, n)[0]
            return [(st, acc)]
        return [(st, add(start, *c.args))]
    if c.op == 'map':
        i = mk('iota', next(T._uid))
        return [(st, add(start, sumterm(c.args[0], subst(c.args[1], {c.args[2]: i}), i)))]
    return [(st, add(start, call('sum', c)))]


@ext('builtins.max', 'builtins.min', 'numpy.max', 'numpy.min', 'numpy.amax', 'numpy.amin', 'numpy.maximum', 'numpy.minimum',
     'numpy.fmax', 'numpy.fmin')
def _maxmin(eng, st, a, k, n):
    pass


def _mk_mm(which):
    def f(eng, st, a, k, n):
        vs = [V(eng, st, x) for x in a]
        if k.get('key') is not None:
            return [(st, mk('call', which + 'by', keyterm(eng, st, k['key']), *vs))]
        if len(vs) == 1:
            c = eng.iterable(st, a[0])
            if c.op in ('list', 'tuple') and c.args:
                return [(st, call(which, *c.args))]
            return [(st, eng.settype(mk('call', which + 'of', c), 'number'))]
        return [(st, call(which, *vs))]
    return f


for _n in ('builtins.max', 'numpy.max', 'numpy.amax', 'numpy.maximum', 'numpy.fmax'):
    EXT[_n] = _mk_mm('max')
for _n in ('builtins.min', 'numpy.min', 'numpy.amin', 'numpy.minimum', 'numpy.fmin'):
    EXT[_n] = _mk_mm('min')


def _clip(eng, st, a, k, n):
    vs = [V(eng, st, x) for x in a]
    r = vs[0]
    if len(vs) > 1 and vs[1] is not NONE:
        r = call('max', r, vs[1])
    if len(vs) > 2 and vs[2] is not NONE:
        r = call('min', r, vs[2])
    return [(st, r)]


EXT['numpy.clip'] = _clip


def _allany(which):
    def f(eng, st, a, k, n):
        c = V(eng, st, a[0])
        if c.op in ('list', 'tuple'):
            ts = [truth(x) for x in c.args]
            return [(st, and_(*ts) if which == 'all' else or_(*ts))]
        if c.op == 'map':
            return [(st, mk('pred', which, c.args[0], c.args[1], c.args[2]))]
        if c.op in BOOLOPS:
            return [(st, mk('pred', 'np' + which, c))] if any(isseq(eng, x) for x in subterms(c)) else [(st, c)]
        return [(st, mk('pred', which, c))]
    return f


EXT['builtins.all'] = EXT['numpy.all'] = _allany('all')
EXT['builtins.any'] = EXT['numpy.any'] = _allany('any')


@ext('builtins.round', 'numpy.round', 'numpy.rint')
def _round(eng, st, a, k, n):
    return [(st, call('round', *[V(eng, st, x) for x in a]))]


@ext('builtins.isinstance')
def _isinst(eng, st, a, k, n):
    x, c = a
    cs = c.args if c.op == 'tuple' else (c,)
    ci = eng.classinfo(x)
    ts = []
    for cl in cs:
        if cl.op == 'class':
            want = eng.classof[cl]
            if eng.is_lp(x):
                ts.append(TRUE if want.qual == LP else FALSE)
            elif ci is not None:
                if want in ci.mro():
                    ts.append(TRUE)
                elif x.op == 'ref' or ci not in want.mro():
                    ts.append(FALSE)
                else:
                    ts.append(mk('pred', 'isinstance', x, cl))
            elif x.op == 'draw' and x.args[0] == 'mvn' or eng.typ(x) in ('array', 'number', 'list', 'seq'):
                ts.append(FALSE)
            elif isseq(eng, V(eng, st, x)):
                ts.append(FALSE)
            else:
                ts.append(mk('pred', 'isinstance', x, cl))
        elif cl.op == 'ext':
            nm = cl.args[0].split('.')[-1]
            ty = eng.typ(x)
            if x.op == 'ref' and ty in ('list', 'dict', 'set', 'deque'):
                ts.append(TRUE if ty == nm else FALSE)
            elif x.op == 'str':
                ts.append(TRUE if nm == 'str' else FALSE)
            elif x is NONE:
                ts.append(FALSE)
            else:
                ts.append(mk('pred', 'isinstance', V(eng, st, x), cl))
        else:
            ts.append(mk('pred', 'isinstance', x, cl))
    return [(st, or_(*ts))]


@ext('builtins.type')
def _type(eng, st, a, k, n):
    return [(st, typeof(eng, a[0]))]


@ext('builtins.hasattr')
def _hasattr(eng, st, a, k, n):
    if a[1].op == 'str':
        ci = eng.classinfo(a[0])
        nm = a[1].args[0]
        if (a[0], nm) in st.heap or (ci is not None and ci.find(nm) is not None):
            return [(st, TRUE)]
        d = st.heap.get((a[0], '$dict'))
        if d is not None:
            r = dictlookup(d, a[1])
            return [(st, FALSE if r is False else TRUE)]
        if (a[0], '$fresh') in st.heap:
            return [(st, FALSE)]
    return [(st, mk('pred', 'hasattr', a[0], V(eng, st, a[1])))]


@ext('builtins.getattr')
def _getattr(eng, st, a, k, n):
    if a[1].op == 'str':
        if len(a) > 2 and (a[0], '$fresh') in st.heap and (a[0], a[1].args[0]) not in st.heap:
            ci = eng.classinfo(a[0])
            if ci is not None and ci.find(a[1].args[0]) is None:
                return [(st, a[2])]
        return eng.getattr_(st, a[0], a[1].args[0], n)
    eng.note('dynamic getattr', n)
    return [(st, fresh('getattr'))]


@ext('builtins.setattr')
def _setattr(eng, st, a, k, n):
    if a[1].op == 'str':
        return [(x, NONE) for x in eng.setattr_(st, a[0], a[1].args[0], a[2], n)]
    eng.note('dynamic setattr', n)
    return [(st, NONE)]


@ext('builtins.delattr')
def _delattr(eng, st, a, k, n):
    if a[1].op == 'str':
        dictdel(eng, st, mk('objdict', a[0]), a[1], n)
    return [(st, NONE)]


@ext('builtins.vars')
def _vars(eng, st, a, k, n):
    return [(st, mk('objdict', a[0]))]


@ext('builtins.next')
def _next(eng, st, a, k, n):
    g = a[0]
    if g.op == 'gen':
        fi, ga, gk = eng.gens[g]
        h = eng.stubs.get('next:' + fi.qual) or eng.stubs.get('next:' + (fi.cls.name + '.' if fi.cls else '') + fi.name)
        if h:
            return h(eng, st, fi, ga, gk, n)
        return eng.gen_first(st, fi, ga, gk, n)
    h = eng.hooks.get('next')
    if h:
        r = h(eng, st, g, n)
        if r is not None:
            return r
    c = V(eng, st, g)
    if c.op == 'list' and c.args:
        return [(st, c.args[0])]
    if c.op == 'filtermap':
        return [(st, mk('call', 'firstof', c))]
    return [(st, mk('call', 'next', c, mk('uid', next(T._uid))))]


@ext('builtins.iter')
def _iter(eng, st, a, k, n):
    return [(st, a[0])]


@ext('builtins.print', 'builtins.input', 'sys.stdout.flush', 'sys.stderr.flush', 'sys.stdout.write', 'sys.stderr.write', 'time.sleep',
     'gc.collect', 'multiprocessing.freeze_support')
def _noop(eng, st, a, k, n):
    f = k.get('file')
    if f is not None and eng.typ(f) == 'file':
        sep, end = V(eng, st, k.get('sep', NONE)), V(eng, st, k.get('end', NONE))
        segs = []
        for i, x in enumerate(a):
            if i:
                segs.append(s(' ') if sep is NONE else sep)
            segs.append(to_str(V(eng, st, x)))
        segs.append(s('\n') if end is NONE else end)
        eng.event(st, 'write', n, file=f, path=st.heap.get((f, '$path')), data=concat(*segs))
    return [(st, NONE)]


@ext('builtins.open', 'io.open', 'os.fdopen')
def _open(eng, st, a, k, n):
    p = pathof(V(eng, st, a[0]))
    mode = kwval(a, k, 1, 'mode', s('r'))
    fault(eng, st, n, 'open', path=p)
    f = eng.new('file')
    st.heap[(f, '$path')] = p
    st.heap[(f, '$mode')] = mode
    st.heap[(f, '$open')] = TRUE
    eng.event(st, 'open', n, file=f, path=p, mode=mode)
    return [(st, f)]


@ext('os.path.join')
def _join(eng, st, a, k, n):
    return [(st, mkpath(*[pathof(V(eng, st, x)) for x in a]))]


@ext('os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.lexists')
def _exists(eng, st, a, k, n):
    return [(st, mk('pred', 'exists', pathof(V(eng, st, a[0]))))]


@ext('os.path.dirname')
def _dirname(eng, st, a, k, n):
    p = pathof(V(eng, st, a[0]))
    if p.op == 'path':
        return [(st, mkpath(*p.args[:-1]))]
    return [(st, call('dirname', p))]


@ext('os.path.basename')
def _basename(eng, st, a, k, n):
    p = pathof(V(eng, st, a[0]))
    if p.op == 'path':
        return [(st, p.args[-1])]
    return [(st, call('basename', p))]


@ext('os.path.abspath', 'os.path.normpath', 'os.path.realpath', 'os.fspath', 'os.path.expanduser')
def _abspath(eng, st, a, k, n):
    return [(st, pathof(V(eng, st, a[0])))]


@ext('os.path.splitext')
def _splitext(eng, st, a, k, n):
    p = pathof(V(eng, st, a[0]))
    return [(st, mk('tuple', call('splitext0', p), call('splitext1', p)))]


@ext('os.makedirs', 'os.mkdir')
def _mkdir(eng, st, a, k, n):
    eng.event(st, 'mkdir', n, path=pathof(V(eng, st, a[0])), kwargs={x: V(eng, st, y) for x, y in k.items()})
    return [(st, NONE)]


@ext('os.remove', 'os.unlink')
def _remove(eng, st, a, k, n):
    eng.event(st, 'remove', n, path=pathof(V(eng, st, a[0])))
    return [(st, NONE)]


@ext('shutil.rmtree', 'os.rmdir', 'os.removedirs')
def _rmtree(eng, st, a, k, n):
    eng.event(st, 'remove', n, path=pathof(V(eng, st, a[0])), tree=TRUE)
    return [(st, NONE)]


@ext('os.replace', 'shutil.move')
def _replace(eng, st, a, k, n):
    eng.event(st, 'replace', n, src=pathof(V(eng, st, a[0])), dst=pathof(V(eng, st, a[1])), how='replace')
    return [(st, NONE)]


def _move(eng, st, a, k, n):
    eng.event(st, 'replace', n, src=pathof(V(eng, st, a[0])), dst=pathof(V(eng, st, a[1])), how='move')
    return [(st, NONE)]


EXT['shutil.move'] = _move


@ext('shutil.copy', 'shutil.copyfile', 'shutil.copy2')
def _copyfile(eng, st, a, k, n):
    eng.event(st, 'copyfile', n, src=pathof(V(eng, st, a[0])), path=pathof(V(eng, st, a[1])))
    return [(st, NONE)]


@ext('os.system', 'subprocess.call', 'subprocess.run', 'subprocess.check_call', 'subprocess.check_output', 'subprocess.Popen', 'os.popen',
     'subprocess.getoutput')
def _shell(eng, st, a, k, n):
    eng.event(st, 'shell', n, cmd=V(eng, st, a[0]) if a else NONE, shell=V(eng, st, k['shell']) if 'shell' in k else NONE)
    return [(st, fresh('shell'))]


def _rematch(f):
    def h(eng, st, a, k, n):
        vals = [V(eng, st, x) for x in a]
        if len(vals) < 2:
            return [(st, fresh('rematch'))]
        if f.startswith('fn'):
            vals = [vals[1], vals[0]]
        return [(st, mk('pred', 'rematch', f, *vals))]
    return h


for _f in ('match', 'fullmatch', 'search'):
    EXT['re.' + _f] = _rematch(_f)
for _f in ('fnmatch', 'fnmatchcase'):
    EXT['fnmatch.' + _f] = _rematch(_f)


@ext('os.listdir')
def _listdir(eng, st, a, k, n):
    c = mk('listdir', pathof(V(eng, st, a[0])) if a else s('.'), mk('uid', next(T._uid)))
    eng.setelem(c, 'str')
    return [(st, c)]


@ext('glob.glob', 'glob.iglob')
def _glob(eng, st, a, k, n):
    p = pathof(V(eng, st, a[0]))
    c = mk('glob', p, mk('uid', next(T._uid)))
    eng.settype(c, 'seq')
    eng.setelem(c, 'str')
    return [(st, c)]


@ext('os.getpid', 'multiprocessing.current_process')
def _getpid(eng, st, a, k, n):
    return [(st, mk('atom', 'pid'))]


@ext('os.fsync', 'os.sync')
def _fsync(eng, st, a, k, n):
    eng.event(st, 'fsync', n)
    return [(st, NONE)]


@ext('os.getcwd')
def _cwd(eng, st, a, k, n):
    return [(st, s('.'))]


@ext('os.kill', 'os._exit', 'os.abort')
def _kill(eng, st, a, k, n):
    eng.event(st, 'kill', n, args=tuple(V(eng, st, x) for x in a))
    return [(st, NONE)]


@ext('time.time', 'time.monotonic', 'time.perf_counter', 'time.process_time')
def _time(eng, st, a, k, n):
    return [(st, eng.settype(fresh('time'), 'number'))]


@ext('sys.exit', 'builtins.exit', 'builtins.quit')
def _exit(eng, st, a, k, n):
    code = V(eng, st, a[0]) if a else ZERO
    eng.sinks[-1].append((mk('exc', 'SystemExit', code), st))
    return []


@ext('logging.getLogger')
def _getLogger(eng, st, a, k, n):
    return [(st, mk('logger', V(eng, st, a[0]) if a else s('')))]


@ext('signal.signal')
def _signal(eng, st, a, k, n):
    eng.event(st, 'signal', n, sig=a[0], handler=a[1])
    return [(st, fresh('oldhandler'))]


@ext('multiprocessing.cpu_count', 'os.cpu_count')
def _cpu(eng, st, a, k, n):
    v = mk('atom', 'cpu_count')
    eng.settype(v, 'number')
    return [(st, v)]


@ext('multiprocessing.Value')
def _mpvalue(eng, st, a, k, n):
    r = eng.new('mpvalue')
    init = V(eng, st, a[1]) if len(a) > 1 else ZERO
    st.heap[(r, '$v')] = init
    st.heap[(r, '$lockarg')] = k.get('lock', TRUE)
    eng.event(st, 'newvalue', n, obj=r, ctype=a[0] if a else NONE, init=init, lock=k.get('lock', TRUE))
    return [(st, r)]


@ext('ctypes.c_double', 'ctypes.c_int')
def _cvalue(eng, st, a, k, n):
    return [(st, fresh('rawvalue'))]


@ext('multiprocessing.RawValue', 'multiprocessing.sharedctypes.RawValue')
def _rawvalue(eng, st, a, k, n):
    eng.event(st, 'rawvalue', n)
    return [(st, fresh('rawvalue'))]


@ext('multiprocessing.Pipe')
def _pipe(eng, st, a, k, n):
    u = next(T._uid)
    p, q = mk('pipe', u, 0), mk('pipe', u, 1)
    eng.settype(p, 'pipe')
    eng.settype(q, 'pipe')
    dup = kwval(a, k, 0, 'duplex', TRUE)
    eng.event(st, 'newpipe', n, ends=(p, q), duplex=dup)
    return [(st, mk('tuple', p, q))]


@ext('multiprocessing.Process')
def _process(eng, st, a, k, n):
    r = eng.new('process')
    tgt = k.get('target', NONE)
    st.heap[(r, '$target')] = tgt
    eng.event(st, 'newprocess', n, proc=r, target=tgt, kwargs={x: V(eng, st, y) for x, y in k.items() if x != 'target'})
    return [(st, r)]


@ext('multiprocessing.Lock', 'multiprocessing.RLock', 'threading.Lock', 'threading.RLock')
def _lock(eng, st, a, k, n):
    l = mk('lock', fresh('lock'))
    eng.settype(l, 'lock')
    return [(st, l)]


def fault(eng, st, node, what, names=('OSError',), **a):
    """the operation may fail: the paths on which it raises (only for checks that ask for them)"""
    if what in (eng.hooks.get('faults') or ()) and eng.sinks:
        for nm in names:
            s2 = st.fork()
            eng.event(s2, 'fault', node, what=what, **a)
            eng.sinks[-1].append((mk('exc', nm), s2))


@ext('pickle.dump', 'cPickle.dump', 'dill.dump', 'joblib.dump')
def _dump(eng, st, a, k, n):
    f = a[1] if len(a) > 1 else k.get('file', NONE)
    fault(eng, st, n, 'dump', ('PicklingError', 'OSError'), file=f, path=st.heap.get((f, '$path'), NONE))
    eng.event(st, 'dump', n, obj=a[0], file=f, path=st.heap.get((f, '$path'), NONE))
    return [(st, NONE)]


@ext('pickle.dumps')
def _dumps(eng, st, a, k, n):
    fault(eng, st, n, 'dumps', ('PicklingError',))
    eng.event(st, 'dumps', n, obj=a[0])
    return [(st, mk('call', 'pickled', a[0], mk('uid', next(T._uid))))]


@ext('pickle.load', 'pickle.loads')
def _load(eng, st, a, k, n):
    f = a[0]
    p = st.heap.get((f, '$path'), NONE)
    h = eng.hooks.get('unpickle')
    v = h(eng, st, f, n) if h else fresh('unpickled')
    eng.event(st, 'load', n, file=f, path=p, value=v)
    return [(st, v)]


@ext('copy.copy', 'copy.deepcopy')
def _copy(eng, st, a, k, n):
    x = a[0]
    if eng.is_lp(x):
        return [(st, lpcopy(eng, st, x, n))]
    if (x, '$d') in st.heap:
        r = eng.new('dict')
        st.heap[(r, '$d')] = st.heap[(x, '$d')]
        return [(st, r)]
    if x.op == 'objdict':
        return dict_method(eng, st, x, 'copy', [], {}, n)
    c = eng.seqcontent(st, x)
    if c is not x or isseq(eng, x):
        return [(st, eng.newseq(st, 'list', c, eng.elemtype(c)))]
    return [(st, mk('call', 'copyof', x))]


@ext('operator.attrgetter')
def _attrgetter(eng, st, a, k, n):
    if all(x.op == 'str' for x in a):
        return [(st, mk('attrgetter', *[x.args[0] for x in a]))]
    return [(st, fresh('attrgetter'))]


@ext('operator.itemgetter')
def _itemgetter(eng, st, a, k, n):
    return [(st, mk('itemgetter', *a))]


for _o, _f in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('iadd', '+='), ('isub', '-=')):
    def _mko(sym):
        def f(eng, st, a, k, n):
            if eng.is_lp(a[0]):
                return lpbin(eng, st, sym, a[0], a[1], n)
            return [(st, arith(sym[0], V(eng, st, a[0]), V(eng, st, a[1])))]
        return f
    EXT['operator.' + _o] = _mko(_f)
for _o, _c in (('lt', ast.Lt), ('le', ast.LtE), ('gt', ast.Gt), ('ge', ast.GtE), ('eq', ast.Eq), ('ne', ast.NotEq)):
    def _mkc(cls):
        return lambda eng, st, a, k, n: [(st, compare(eng, st, cls(), a[0], a[1]))]
    EXT['operator.' + _o] = _mkc(_c)
for _o, _c in (('less', ast.Lt), ('less_equal', ast.LtE), ('greater', ast.Gt), ('greater_equal', ast.GtE), ('equal', ast.Eq), ('not_equal', ast.NotEq)):
    EXT['numpy.' + _o] = _mkc(_c)
for _o, _f in (('add', '+'), ('subtract', '-'), ('multiply', '*'), ('divide', '/'), ('true_divide', '/')):
    EXT['numpy.' + _o] = _mko(_f)
EXT['operator.neg'] = EXT['numpy.negative'] = lambda eng, st, a, k, n: [(st, neg(V(eng, st, a[0])))]
EXT['operator.not_'] = lambda eng, st, a, k, n: [(st, not_(eng.truthval(st, a[0])))]
EXT['numpy.logical_not'] = lambda eng, st, a, k, n: [(st, not_(truth(V(eng, st, a[0]))))]


def _logical(w):
    def f(eng, st, a, k, n):
        ts = [truth(V(eng, st, x)) for x in a]
        return [(st, and_(*ts) if w == 'and' else or_(*ts))]
    return f


EXT['numpy.logical_and'] = _logical('and')
EXT['numpy.logical_or'] = _logical('or')


@ext('functools.reduce')
def _reduce(eng, st, a, k, n):
    f, c = a[0], eng.iterable(st, a[1])
    if c.op in ('list', 'tuple'):
        xs = list(c.args)
        if len(a) > 2:
            acc = a[2]
        elif xs:
            acc = xs.pop(0)
        else:
            return [(st, fresh('reduce_empty'))]
        res = [(st, acc)]
        for x in xs:
            nxt = []
            for s2, v in res:
                nxt.extend(eng.call_value(s2, f, [v, x], {}, n))
            res = nxt
        return res
    fn = PURE.get(f.args[0]) if f.op == 'ext' else None
    if f.op == 'lpop':
        fn = 'lp' + f.args[0]
    if fn is None and f.op == 'ext':
        fn = f.args[0]
    return [(st, mk('call', 'reduce', s(fn) if fn else f, c))]


@ext('functools.partial')
def _partial(eng, st, a, k, n):
    return [(st, mk('partial', a[0], mk('tuple', *a[1:]), tuple(sorted(k.items()))))]


@ext('tqdm.tqdm')
def _tqdm(eng, st, a, k, n):
    if a:
        return [(st, a[0])]
    if 'iterable' in k:
        return [(st, k['iterable'])]
    return [(st, mk('tqdm', next(T._uid)))]


@ext('tqdm.trange')
def _trange(eng, st, a, k, n):
    return _range(eng, st, a, {}, n)


# ---- numpy
@ext('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.fromiter', 'numpy.copy')
def _nparray(eng, st, a, k, n):
    x = a[0]
    if eng.typ(x) == 'table':
        return [(st, x)]
    c = V(eng, st, eng.seqcontent(st, x))
    if c.op == 'tuple':
        c = mk('list', *c.args)
    if isseq(eng, c) or eng.typ(x) in ('list', 'deque', 'seq', 'array'):
        r = eng.newseq(st, 'array', c, eng.elemtype(c))
        d = recorddtype(eng, st, k)
        if d is not None:
            st.heap[(r, 'dtype')] = d
        return [(st, r)]
    return [(st, c)]


def recorddtype(eng, st, k):
    d = k.get('dtype')
    if d is None:
        return None
    if eng.typ(d) == 'dict':
        return eng.val(st, dictterm(eng, st, d))
    c = V(eng, st, eng.seqcontent(st, d)) if d.op in ('ref', 'list', 'cat') or isseq(eng, d) else None
    return c if c is not None and c.op in ('list', 'cat', 'map', 'tuple') else None


@ext('numpy.atleast_1d', 'numpy.squeeze', 'numpy.ravel')
def _at1(eng, st, a, k, n):
    c = V(eng, st, eng.seqcontent(st, a[0]))
    if isseq(eng, c):
        return [(st, eng.newseq(st, 'array', c, eng.elemtype(c)))]
    if eng.typ(c) == 'array':
        return [(st, a[0])]
    r = mk('call', 'atleast_1d', c)
    return [(st, eng.settype(r, 'array'))]


@ext('array.array')
def _array(eng, st, a, k, n):
    c = V(eng, st, eng.seqcontent(st, a[1])) if len(a) > 1 else EMPTY
    if len(a) > 1 and a[0].op == 'str' and a[0].args[0] != 'd':     # another number format
        code = a[0].args[0]
        if c.op == 'list':
            c = mk('list', *[eng.settype(mk('call', 'cast_' + code, x), 'number') for x in c.args])
        else:
            c = eng.settype(mk('call', 'cast_' + code, c), 'array')
    return [(st, eng.newseq(st, 'array', c, eng.elemtype(c)))]


def _filled(v):
    def f(eng, st, a, k, n):
        x = V(eng, st, a[0])
        d = recorddtype(eng, st, k)
        if d is not None:
            r = eng.newseq(st, 'array', mk('fill', x, mk('record', d)))
            st.heap[(r, 'dtype')] = d
            return [(st, r)]
        if x.op == 'tuple':
            if len(x.args) == 1:
                x = x.args[0]
            else:
                r = mk('fill2', *(x.args + (v,)))
                return [(st, eng.newseq(st, 'array', r))]
        return [(st, eng.newseq(st, 'array', mk('fill', x, v)))]
    return f


EXT['numpy.zeros'] = _filled(ZERO)
EXT['numpy.ones'] = _filled(ONE)


@ext('numpy.empty')
def _empty(eng, st, a, k, n):
    x = V(eng, st, a[0])
    r = eng.newseq(st, 'array', mk('fill', x, fresh('uninit')))
    d = recorddtype(eng, st, k)
    if d is not None:
        st.heap[(r, 'dtype')] = d
    return [(st, r)]


@ext('numpy.full')
def _full(eng, st, a, k, n):
    return [(st, eng.newseq(st, 'array', mk('fill', V(eng, st, a[0]), V(eng, st, a[1]))))]


@ext('numpy.dtype')
def _dtype(eng, st, a, k, n):
    return [(st, a[0])] if a else None


@ext('numpy.zeros_like', 'numpy.ones_like', 'numpy.full_like')
def _like(eng, st, a, k, n):
    c = V(eng, st, eng.seqcontent(st, a[0]))
    v = V(eng, st, a[1]) if len(a) > 1 else ZERO
    return [(st, eng.newseq(st, 'array', mk('fill', seqlen(eng, c), v)))]


@ext('numpy.concatenate', 'numpy.hstack', 'numpy.append')
def _concat(eng, st, a, k, n):
    x = a[0]
    if len(a) > 1 and n is not None and not (isinstance(getattr(n, 'func', None), ast.Attribute) and n.func.attr != 'append'):
        cs = [V(eng, st, eng.seqcontent(st, y)) for y in a[:2]]
        cs = [c if isseq(eng, c) or c.op == 'tuple' else mk('list', c) for c in cs]
        return [(st, eng.newseq(st, 'array', cat(*cs)))]
    c = V(eng, st, eng.seqcontent(st, x)) if x.op != 'tuple' else x
    if c.op in ('tuple', 'list'):
        parts = [V(eng, st, eng.seqcontent(st, y)) for y in c.args]
        r = cat(*parts)
        return [(st, eng.newseq(st, 'array', r))]
    r = mk('call', 'concat', c)
    eng.settype(r, 'seq')
    return [(st, r)]


@ext('numpy.vstack', 'numpy.column_stack', 'numpy.stack')
def _vstack(eng, st, a, k, n):
    r = mk('call', 'vstack', V(eng, st, eng.seqcontent(st, a[0])))
    return [(st, eng.settype(r, 'array'))]


@ext('numpy.cumsum')
def _cumsum(eng, st, a, k, n):
    c = V(eng, st, eng.seqcontent(st, a[0]))
    r = mk('call', 'cumsum', c)
    eng.settype(r, 'seq')
    return [(st, eng.newseq(st, 'array', r))]


@ext('numpy.logaddexp.reduce', 'scipy.special.logsumexp', 'scipy.misc.logsumexp')
def _lse(eng, st, a, k, n):
    c = V(eng, st, eng.seqcontent(st, a[0]))
    if c.op in ('list', 'tuple') and c.args:
        r = c.args[0]
        for x in c.args[1:]:
            r = call('logaddexp', r, x)
        return [(st, r)]
    return [(st, eng.settype(mk('call', 'logsumexp', c), 'number'))]


@ext('numpy.logaddexp.accumulate')
def _lsea(eng, st, a, k, n):
    c = V(eng, st, eng.seqcontent(st, a[0]))
    r = mk('call', 'cumlogsumexp', c)
    return [(st, eng.settype(r, 'seq'))]


@ext('numpy.mean', 'numpy.average')
def _mean(eng, st, a, k, n):
    return [(st, mk('call', 'mean', *[V(eng, st, x) for x in a] + [mk('kw', x, V(eng, st, y)) for x, y in sorted(k.items())]))]


@ext('numpy.where')
def _where(eng, st, a, k, n):
    v = [V(eng, st, x) for x in a]
    if len(v) == 3:
        if any(isseq(eng, x) for x in v) or any(isseq(eng, x) for x in subterms(v[0])):
            r = mk('call', 'where', *v)
            eng.settype(r, 'seq')
            return [(st, r)]
        return [(st, ite(truth(v[0]), v[1], v[2]))]
    return [(st, mk('tuple', eng.settype(mk('call', 'where', *v), 'seq')))]


@ext('numpy.digitize', 'numpy.searchsorted')
def _dig(eng, st, a, k, n):
    v = [V(eng, st, eng.seqcontent(st, x)) for x in a]
    nm = 'digitize' if isinstance(n.func, ast.Attribute) and n.func.attr == 'digitize' or isinstance(n.func, ast.Name) and n.func.id == 'digitize' else 'searchsorted'
    kw = {x: V(eng, st, y) for x, y in k.items()}
    if nm == 'searchsorted':
        side = kw.pop('side', v[2] if len(v) > 2 else s('left'))
        if side is s('right'):
            r = mk('call', 'bisect_right', v[0], v[1])
        else:
            r = mk('call', 'bisect_left', v[0], v[1])
    else:
        right = kw.pop('right', v[2] if len(v) > 2 else FALSE)
        r = mk('call', 'bisect_right' if right is FALSE else 'bisect_left', v[1], v[0])
    if any(isseq(eng, x) for x in r.args[2:]):
        eng.settype(r, 'seq')
    else:
        eng.settype(r, 'number')
    return [(st, r)]


@ext('bisect.bisect', 'bisect.bisect_right')
def _bisr(eng, st, a, k, n):
    return _bis(eng, st, a, k, n, 'bisect_right')


def _bis(eng, st, a, k, n, which):
    c = V(eng, st, eng.seqcontent(st, a[0]))
    x = V(eng, st, a[1])
    if 'key' in k:
        kt = keyterm(eng, st, k['key'])
        if kt.op == 'key':
            i = mk('iota', next(T._uid))
            e = idx(c, i)
            eng.typeelem(c, e)
            c = mapterm(length(c), subst(kt.args[0], {bv(0): e}), i)
    extra = [V(eng, st, y) for y in a[2:]] + [V(eng, st, k[y]) for y in ('lo', 'hi') if y in k]
    if extra and extra[0] is ZERO:
        extra = extra[1:]
    r = mk('call', which, c, x, *extra)
    eng.settype(r, 'number')
    eng.types[('int', r)] = True
    return [(st, r)]


EXT['bisect.bisect_left'] = lambda eng, st, a, k, n: _bis(eng, st, a, k, n, 'bisect_left')


@ext('bisect.insort', 'bisect.insort_right', 'bisect.insort_left')
def _insort(eng, st, a, k, n):
    which = 'bisect_left' if 'left' in ast.unparse(n.func) else 'bisect_right'
    c = eng.seqcontent(st, a[0])
    x = a[1]
    if 'key' in k:
        kt = keyterm(eng, st, k['key'])
        if kt.op == 'key':
            x = subst(kt.args[0], {bv(0): V(eng, st, x)})
    i = _bis(eng, st, [a[0], x] + list(a[2:]), k, n, which)[0][1]
    return seq_method(eng, st, a[0], 'insert', [i, a[1]], {}, n)


@ext('heapq.heappush', 'heapq.heappop', 'heapq.heapify', 'heapq.heappushpop')
def _heap(eng, st, a, k, n):
    c = eng.seqcontent(st, a[0])
    nv = mk('call', 'heap', c, fresh('heap'))
    st.heap[(a[0], '$c')] = nv
    eng.event(st, 'mut', n, obj=a[0], name='heap', args=tuple(a[1:]), before=c, after=nv)
    return [(st, fresh('heapitem'))]


@ext('scipy.stats.kstest')
def _kstest(eng, st, a, k, n):
    d = V(eng, st, eng.seqcontent(st, a[0]))
    eng.event(st, 'kstest', n, data=d, args=tuple(V(eng, st, x) for x in a[1:]), kwargs={x: V(eng, st, y) for x, y in k.items()})
    u = mk('call', 'kstest', d, mk('uid', next(T._uid)))
    return [(st, mk('tuple', mk('idx', u, ZERO), mk('idx', u, ONE)))]


@ext('numpy.savetxt')
def _savetxt(eng, st, a, k, n):
    p = V(eng, st, kwval(a, k, 0, 'fname'))
    x = kwval(a, k, 1, 'X')
    kw = {y: V(eng, st, z) for y, z in k.items()}
    kw.update({y: V(eng, st, z) for y, z in zip(('fmt', 'delimiter', 'newline', 'header', 'footer', 'comments'), a[2:])})
    eng.event(st, 'savetxt', n, path=pathof(p), data=V(eng, st, eng.seqcontent(st, x)), kwargs=kw)
    return [(st, NONE)]


@ext('numpy.save', 'numpy.savez')
def _npsave(eng, st, a, k, n):
    eng.event(st, 'savetxt', n, path=pathof(V(eng, st, a[0])), data=V(eng, st, a[1]), kwargs={})
    return [(st, NONE)]


@ext('numpy.genfromtxt', 'numpy.loadtxt', 'numpy.load', 'numpy.recfromtxt')
def _genfromtxt(eng, st, a, k, n):
    p = pathof(V(eng, st, a[0]))
    v = mk('readtable', p)
    eng.settype(v, 'table')
    eng.event(st, 'readtable', n, path=p, value=v, kwargs={y: V(eng, st, z) for y, z in k.items()})
    return [(st, v)]


@ext('numpy.lib.recfunctions.stack_arrays')
def _stack(eng, st, a, k, n):
    c = V(eng, st, eng.seqcontent(st, a[0]))
    v = mk('call', 'stack', c)
    eng.settype(v, 'table')
    return [(st, v)]


@ext('numpy.exp.__call__')
def _x(eng, st, a, k, n):
    return None


@ext('cProfile.runctx', 'cProfile.run')
def _profile(eng, st, a, k, n):
    eng.event(st, 'profile', n, stmt=V(eng, st, a[0]))
    return [(st, NONE)]


@ext('matplotlib.use')
def _mpluse(eng, st, a, k, n):
    return [(st, NONE)]


@ext('itertools.repeat')
def _repeat(eng, st, a, k, n):
    if len(a) > 1:
        return [(st, mk('fill', V(eng, st, a[1]), a[0]))]
    return [(st, fresh('repeat'))]


@ext('itertools.chain')
def _chain(eng, st, a, k, n):
    return [(st, cat(*[eng.iterable(st, x) for x in a]))]


@ext('itertools.islice')
def _islice(eng, st, a, k, n):
    c = eng.iterable(st, a[0])
    v = [V(eng, st, x) for x in a[1:]]
    if len(v) == 1:
        r = slc(c, NONE, v[0])
    else:
        r = slc(c, v[0] if v[0] is not ZERO else NONE, v[1], v[2] if len(v) > 2 else NONE)
    if eng.elemtype(c):
        eng.setelem(r, eng.elemtype(c))
    return [(st, r)]


@ext('itertools.count')
def _count(eng, st, a, k, n):
    return [(st, mk('count', V(eng, st, a[0]) if a else ZERO))]


@ext('tempfile.NamedTemporaryFile', 'tempfile.mkstemp', 'tempfile.mktemp')
def _tempfile(eng, st, a, k, n):
    d = k.get('dir', NONE)
    f = eng.new('file')
    base = V(eng, st, d)
    p = mkpath(base, concat(s('tmp'), mk('tostr', fresh('tmp'), ''))) if base is not NONE else mkpath(s('/tmp'), concat(s('tmp'), mk('tostr', fresh('tmp'), '')))
    st.heap[(f, '$path')] = p
    st.heap[(f, '$mode')] = s('wb')
    st.heap[(f, '$open')] = TRUE
    eng.event(st, 'open', n, file=f, path=p, mode=s('wb'))
    if ast.unparse(n.func).endswith('mkstemp'):
        return [(st, mk('tuple', f, p))]
    st.heap[(f, 'name')] = p
    return [(st, f)]
