"""Random interpretation of terms (Gulwani & Necula): two value numbers whose
normal forms differ are compared by interpreting the *terms* over a random
model: every leaf (a field, a parameter, a draw) gets a random value of the
right shape, every unknown function is an uninterpreted, congruent function.
Terms that are equal by algebra or by re-indexing agree in every model; terms
that disagree in a model are different expressions.  Only terms of the abstract
domain are evaluated, never code of the package.
"""
import hashlib
import math
import random
from .terms import *
from .seqs import *
from . import terms as T


class Undef(Exception):
    pass


class Obj(object):
    """an opaque value of the model, determined by its key"""
    __slots__ = ('key', 'isint', 'pos')

    def __init__(self, key, isint=False, pos=None):
        self.key = key
        self.isint = isint
        self.pos = pos

    def __eq__(self, o):
        return isinstance(o, Obj) and o.key == self.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return 'Obj%r' % (self.key,)


def hval(*k):
    h = hashlib.md5(repr(k).encode()).digest()
    return int.from_bytes(h[:7], 'big') / float(1 << 56)


_FREE = {}
BINDERS = ('map', 'filtermap', 'sumover', 'fold', 'storemap')


def closed(t):
    """no free bound variable"""
    return not freebv(t)


def freebv(t):
    r = _FREE.get(t)
    if r is None:
        if t.op == 'bv':
            r = frozenset((t,))
        else:
            r = frozenset()
            for a in _children(t):
                r |= freebv(a)
            if t.op in BINDERS:
                r -= {t.args[-1]}
            elif t.op == 'key':
                r -= {bv(0)}
            elif r and t.op not in _TRANSPARENT:
                r |= {bv(0)}             # an operation that may bind variables in its own way
        _FREE[t] = r
    return r


_TRANSPARENT = ('poly', 'idx', 'slice', 'call', 'list', 'cat', 'store', 'eq', 'lt', 'le', 'not', 'and', 'or', 'ite', 'len', 'fld', 'tuple', 'sorted',
                'fill', 'reversed', 'zip', 'enum', 'draw', 'draws')


def _children(t):
    if t.op == 'poly':
        for m, c in t.args:
            for b, k in m:
                yield b
                if isinstance(k, Term):
                    yield k
        return
    for a in t.args:
        if isinstance(a, Term):
            yield a


class Model(object):
    def __init__(self, seed, bind=None, lens=None, leaf=None, ints=None, default_len=None, number=None):
        self.seed = seed
        self.bind = dict(bind or {})      # term -> python value
        self.lens = dict(lens or {})      # term (sequence) -> length
        self.leaf = leaf                  # f(model, term) -> value or None
        self.ints = ints                  # f(term) -> is integer
        self.numhook = number             # f(model, key) -> number or None
        self.memo = {}
        self.env = None
        self.default_len = default_len or (3 + int(hval(seed, 'len') * 3))

    # ------------------------------------------------ coercions
    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, Obj):
            if self.numhook:
                r = self.numhook(self, v.key)
                if r is not None:
                    return r
            x = hval(self.seed, v.key)
            if v.isint:
                return 2 + int(x * 7)
            if isinstance(v.key, tuple) and v.key and v.key[0] == 'draw' and v.key[1] == 'u01':
                return x
            if isinstance(v.key, tuple) and v.key and v.key[0] == 'draw' and v.key[1] == 'n01':
                return 3 * x - 1.5
            return 0.2 + 2.6 * x
        if isinstance(v, list):
            if len(v) == 1:
                return self.num(v[0])
            raise Undef('sequence as number')
        raise Undef('not a number: %r' % (v,))

    def seq(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, Obj):
            n = self.lens.get(v.key, self.default_len)
            return [Obj(('elem', v.key, i)) for i in range(n)]
        if isinstance(v, str):
            return list(v)
        raise Undef('not a sequence: %r' % (v,))

    def key(self, v):
        if isinstance(v, Obj):
            return v.key
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            if isinstance(v, float) and v == v and abs(v) != math.inf:
                return float('%.8g' % v)
            return float(v) if v == v else 'nan'
        if isinstance(v, (list, tuple)):
            return ('seq',) + tuple(self.key(x) for x in v)
        return v

    def truth(self, v):
        if isinstance(v, Obj):
            return hval(self.seed, 'truth', v.key) < 0.5
        if isinstance(v, (list, tuple)):
            return len(v) > 0
        if v is None:
            return False
        return bool(v)

    # ------------------------------------------------ evaluation
    def ev(self, t, env=None):
        if env is not None and t.op in BINDERS and closed(t):
            env = None
        if env is None:
            r = self.memo.get(t, self)
            if r is not self:
                return r
        if t in self.bind:
            r = self.bind[t]
        else:
            r = None
            if self.leaf:
                self.env = env
                r = self.leaf(self, t)
            if r is None:
                m = getattr(self, 'e_' + t.op, None)
                r = m(t, env) if m else self.opaque(t, env)
        if env is None:
            self.memo[t] = r
        return r

    def N(self, t, env):
        return self.num(self.ev(t, env))

    def S(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, Obj) and t in self.lens:
            return [Obj(('elem', v.key, i)) for i in range(self.lens[t])]
        return self.seq(v)

    def opaque(self, t, env):
        k = []
        for a in t.args:
            if isinstance(a, Term):
                k.append(self.key(self.ev(a, env)))
            else:
                k.append(repr(a) if not isinstance(a, (str, int)) else a)
        return Obj((t.op,) + tuple(k), bool(self.ints and self.ints(t)))

    def e_num(self, t, env):
        v = t.args[0]
        return int(v) if v.denominator == 1 else float(v)

    def e_str(self, t, env):
        return t.args[0]

    def e_bool(self, t, env):
        return t.args[0]

    def e_none(self, t, env):
        return None

    def e_atom(self, t, env):
        if t is INF:
            return math.inf
        if t is NAN:
            return math.nan
        return Obj(('atom', t.args[0]))

    def e_uid(self, t, env):
        return Obj(('uid',) + t.args)

    def e_bv(self, t, env):
        if env and t in env:
            return env[t]
        raise Undef('free bound variable')

    def elementwise(self, f, *vs):
        if any(isinstance(v, list) for v in vs):
            n = max(len(v) for v in vs if isinstance(v, list))
            if any(isinstance(v, list) and len(v) not in (n, 1) for v in vs):
                raise Undef('shapes')
            return [self.elementwise(f, *[(v[i if len(v) > 1 else 0] if isinstance(v, list) else v) for v in vs]) for i in range(n)]
        return f(*[self.num(v) for v in vs])

    def e_poly(self, t, env):
        def term(m, c):
            r = int(c) if c.denominator == 1 else float(c)
            for a, e in m:
                v = self.ev(a, env)
                if isinstance(v, Obj) and a in self.lens:
                    v = self.seq(v)
                r = self.elementwise(lambda x, y: _mulpow(x, y, e), r, v)
            return r
        tot = 0
        for m, c in t.args:
            tot = self.elementwise(_plus, tot, term(m, c))
        return tot

    e_mul = None

    def cmp(self, t, env, f):
        v = self.ev(t.args[0], env)
        if isinstance(v, float) and v != v and t.args[0].op == 'poly':
            # infinities on both sides of the comparison are equal, an undefined operand compares false
            parts = [self.e_poly(mk('poly', x), env) for x in t.args[0].args]
            if all(isinstance(x, (int, float)) and x == x for x in parts):
                return f(0)
            return False
        return self.elementwise(f, v)

    def e_lt(self, t, env):
        return self.cmp(t, env, lambda x: x < -1e-12 if abs(x) != math.inf else x < 0)

    def e_le(self, t, env):
        return self.cmp(t, env, lambda x: x <= 1e-12)

    def e_eqz(self, t, env):
        return self.cmp(t, env, lambda x: abs(x) < 1e-12)

    def e_eq(self, t, env):
        return same_value(self, self.ev(t.args[0], env), self.ev(t.args[1], env))

    def e_not(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, list):
            return [not x for x in v]
        return not self.truth(v)

    def e_and(self, t, env):
        return all(self.truth(self.ev(x, env)) for x in t.args)

    def e_or(self, t, env):
        return any(self.truth(self.ev(x, env)) for x in t.args)

    def e_truthy(self, t, env):
        return self.truth(self.ev(t.args[0], env))

    def e_ite(self, t, env):
        c = self.ev(t.args[0], env)
        return self.ev(t.args[1] if self.truth(c) else t.args[2], env)

    def e_pred(self, t, env):
        f = t.args[0]
        if f in ('isnan', 'isfinite', 'isinf'):
            x = self.ev(t.args[1], env)
            if isinstance(x, (list, tuple)):
                return [{'isnan': math.isnan, 'isfinite': math.isfinite, 'isinf': math.isinf}[f](self.num(y)) for y in x]
            x = self.num(x)
            return {'isnan': math.isnan, 'isfinite': math.isfinite, 'isinf': math.isinf}[f](x)
        if f in ('all', 'any') and len(t.args) == 2:
            return (all if f == 'all' else any)(self.truth(x) for x in self.S(t.args[1], env))
        if f in ('all', 'any') and len(t.args) == 4:
            n, b, v = t.args[1:]
            got = []
            for i in range(self.int(n, env)):
                e = dict(env or {})
                e[v] = i
                got.append(self.truth(self.ev(b, e)))
            return (all if f == 'all' else any)(got)
        if f == 'npall':
            v = self.ev(t.args[1], env)
            return all(self.truth(x) for x in v) if isinstance(v, list) else self.truth(v)
        return self.truth(self.opaque(t, env))

    # sequences
    def e_list(self, t, env):
        return [self.ev(x, env) for x in t.args]

    e_tuple = e_list

    def e_cat(self, t, env):
        r = []
        for x in t.args:
            r.extend(self.S(x, env))
        return r

    def e_map(self, t, env):
        n, b, v = t.args
        out = []
        for i in range(self.int(n, env)):
            e = dict(env or {})
            e[v] = i
            out.append(self.ev(b, e))
        return out

    def e_filtermap(self, t, env):
        n, c, b, v = t.args
        out = []
        for i in range(self.int(n, env)):
            e = dict(env or {})
            e[v] = i
            if self.truth(self.ev(c, e)):
                out.append(self.ev(b, e))
        return out

    def int(self, t, env):
        v = self.N(t, env)
        if v != v or abs(v) == math.inf or abs(v - round(v)) > 1e-9:
            raise Undef('not an integer: %r' % v)
        return int(round(v))

    def e_range(self, t, env):
        a, b, st = [self.int(x, env) for x in t.args]
        if st == 0:
            raise Undef('step')
        return list(range(a, b, st))

    def e_len(self, t, env):
        return len(self.S(t.args[0], env))

    def e_slice(self, t, env):
        c = self.S(t.args[0], env)
        ix = [None if x is NONE else self.int(x, env) for x in t.args[1:]]
        return c[slice(*ix)]

    def e_idx(self, t, env):
        c = self.ev(t.args[0], env)
        i = self.ev(t.args[1], env)
        c = self.S(t.args[0], env)
        if isinstance(i, list) and t.args[1].op == 'tuple':
            # one index per axis
            for j in i:
                j = int(self.num(j)) if not isinstance(j, list) else None
                if j is None or not isinstance(c, list) or not -len(c) <= j < len(c):
                    raise Undef('index range')
                c = c[j]
            return c
        if isinstance(i, list):
            return [c[int(self.num(j))] for j in i]
        i = self.num(i)
        if abs(i - round(i)) > 1e-9:
            raise Undef('index')
        i = int(round(i))
        if not -len(c) <= i < len(c):
            raise Undef('index range')
        return c[i]

    def e_store(self, t, env):
        c = list(self.S(t.args[0], env))
        i = self.int(t.args[1], env)
        if not -len(c) <= i < len(c):
            raise Undef('store range')
        c[i] = self.ev(t.args[2], env)
        return c

    def e_storemap(self, t, env):
        base, n, pos, val, v = t.args
        c = list(self.S(base, env))
        for i in range(self.int(n, env)):
            e = dict(env or {})
            e[v] = i
            j = self.int(pos, e)
            if not -len(c) <= j < len(c):
                raise Undef('store range')
            c[j] = self.ev(val, e)
        return c

    def e_ins(self, t, env):
        c = list(self.S(t.args[0], env))
        c.insert(self.int(t.args[1], env), self.ev(t.args[2], env))
        return c

    def e_delidx(self, t, env):
        c = list(self.S(t.args[0], env))
        i = self.int(t.args[1], env)
        if not -len(c) <= i < len(c):
            raise Undef('del range')
        del c[i]
        return c

    def e_reversed(self, t, env):
        return list(reversed(self.S(t.args[0], env)))

    def e_perm(self, t, env):
        c = list(self.S(t.args[0], env))
        random.Random(repr((self.seed, t.args[1].args))).shuffle(c)
        return c

    def e_rot(self, t, env):
        c = list(self.S(t.args[0], env))
        k = self.int(t.args[1], env)
        if not c:
            return c
        k %= len(c)
        return c[-k:] + c[:-k] if k else c

    def e_fill(self, t, env):
        return [self.ev(t.args[1], env)] * self.int(t.args[0], env)

    def e_rep(self, t, env):
        return list(self.S(t.args[0], env)) * self.int(t.args[1], env)

    def e_zip(self, t, env):
        return [list(x) for x in zip(*[self.S(x, env) for x in t.args])]

    def e_enum(self, t, env):
        k = self.N(t.args[1], env)
        return [[i + k, x] for i, x in enumerate(self.S(t.args[0], env))]

    def e_unzip(self, t, env):
        return [list(x) for x in zip(*[self.seq(y) for y in self.S(t.args[0], env)])]

    def e_sorted(self, t, env):
        c = list(self.S(t.args[0], env))
        k = t.args[1]
        rev = len(t.args) > 2 and t.args[2] is TRUE
        strs = bool(c) and all(isinstance(x, str) for x in c)

        def kv(x):
            if k is NONE:
                return x if strs else self.num(x)
            if k.op == 'key':
                return self.num(self.apply_key(k, x))
            raise Undef('sort key')
        return sorted(c, key=kv, reverse=rev)

    def apply_key(self, k, x):
        e = {bv(0): x}
        return self.ev(k.args[0], e)

    def e_sumover(self, t, env):
        n, b, v = t.args
        r = 0
        for i in range(self.int(n, env)):
            e = dict(env or {})
            e[v] = i
            r = self.elementwise(_plus, r, self.ev(b, e))
        return r

    def e_fold(self, t, env):
        f, init, n, b, v = t.args
        acc = self.ev(init, env)
        for i in range(self.int(n, env)):
            e = dict(env or {})
            e[v] = i
            acc = self.func(f if isinstance(f, str) else f.args[0], [acc, self.ev(b, e)], t, env)
        return acc

    def e_fld(self, t, env):
        o = self.ev(t.args[0], env)
        return Obj(('fld', self.key(o), t.args[1] if isinstance(t.args[1], str) else self.key(self.ev(t.args[1], env))),
                   bool(self.ints and self.ints(t)))

    def e_c0(self, t, env):
        o = self.ev(t.args[0], env)
        if isinstance(o, list):
            return o
        n = self.lens.get(t, self.lens.get(t.args[0]))
        k = ('c0', self.key(o))
        if n is None:
            n = self.lens.get(k, self.default_len)
        return [Obj(('elem', k, i)) for i in range(n)]

    def e_draw(self, t, env):
        return Obj(('draw', t.args[0]) + tuple(self.key(self.ev(x, env)) if isinstance(x, Term) else x for x in t.args[1:]))

    def e_draws(self, t, env):
        k = ('draw', t.args[0]) + tuple(self.key(self.ev(x, env)) if isinstance(x, Term) else x for x in t.args[1:])
        try:
            n = self.int(t.args[1], env)
        except Undef:
            return Obj(k)
        if t.args[0] == 'int' and len(t.args) > 4:
            lo, hi = self.int(t.args[3], env), self.int(t.args[4], env)
            if hi <= lo:
                raise Undef('empty range')
            return [lo + int(hval(self.seed, k, i) * (hi - lo)) for i in range(n)]
        return [Obj(('draw', t.args[0], 'elem', k, i)) for i in range(n)]

    def e_choices(self, t, env):
        """one outcome of drawing with or without replacement"""
        pop, rep = t.args[0], t.args[2]
        n = self.int(t.args[1], env)
        c = self.ev(pop, env)
        if rep not in (TRUE, FALSE):
            raise Undef('replacement')
        if not isinstance(c, list):
            c = list(range(int(self.num(c))))
        k = ('choices', self.key(self.ev(t.args[4], env)) if isinstance(t.args[4], Term) and t.args[4].op != 'uid' else t.args[4])
        if not c or (rep is FALSE and n > len(c)) or n > 4096:
            raise Undef('nothing to draw')
        if rep is TRUE:
            return [c[int(hval(self.seed, k, 0 if self.seed % 2 else i) * len(c)) % len(c)] for i in range(n)]
        return [c[i] for i in sorted(range(len(c)), key=lambda i: hval(self.seed, k, i))[:n]]

    def e_lp(self, t, env):
        return self.opaque(t, env)

    def e_in(self, t, env):
        x = self.key(self.ev(t.args[0], env))
        return any(self.key(y) == x for y in self.S(t.args[1], env))

    def e_call(self, t, env):
        f = t.args[0]
        if not isinstance(f, str):
            return self.opaque(t, env)
        vs = []
        for a in t.args[1:]:
            if isinstance(a, Term):
                v = self.ev(a, env)
                if isinstance(v, Obj) and a in self.lens:
                    v = self.seq(v)
                vs.append(v)
            else:
                vs.append(a)
        return self.func(f, vs, t, env)

    def func(self, f, vs, t, env):
        g = FUNCS.get(f)
        if f == 'where' and len(vs) == 3:
            n = {len(v) for v in vs if isinstance(v, (list, tuple))}
            if len(n) == 1:
                n = n.pop()
                c, a, b = [list(v) if isinstance(v, (list, tuple)) else [v] * n for v in vs]
                return [y if self.truth(x) else z for x, y, z in zip(c, a, b)]
        if g is not None:
            try:
                return self.elementwise(g, *vs)
            except (ValueError, OverflowError, ZeroDivisionError) as e:
                raise Undef(str(e))
        if f in ('max', 'min') or f in ('maxof', 'minof', 'sum', 'mean', 'logsumexp', 'prod'):
            if f in ('max', 'min'):
                return self.elementwise(lambda *a: (max if f == 'max' else min)(a), *vs)
            xs = [self.num(x) for x in self.seq(vs[0])]
            if f == 'sum':
                return sum(xs)
            if not xs:
                raise Undef('empty')
            if f == 'maxof':
                return max(xs)
            if f == 'minof':
                return min(xs)
            if f == 'mean':
                return sum(xs) / len(xs)
            if f == 'prod':
                return math.prod(xs)
            r = -math.inf
            for x in xs:
                r = _lae(r, x)
            return r
        if f in ('cumsum', 'cumlogsumexp'):
            out, acc = [], 0 if f == 'cumsum' else -math.inf
            for x in self.seq(vs[0]):
                acc = acc + self.num(x) if f == 'cumsum' else _lae(acc, self.num(x))
                out.append(acc)
            return out
        if f in ('concat',):
            r = []
            for x in self.seq(vs[0]):
                r.extend(self.seq(x))
            return r
        if f in ('bisect_right', 'bisect_left') and len(vs) == 2:
            c = [self.num(x) for x in self.seq(vs[0])]
            import bisect

            def one(x):
                x = self.num(x)
                if x != x:
                    raise Undef('nan')
                return getattr(bisect, f)(c, x)
            return [one(x) for x in vs[1]] if isinstance(vs[1], list) else one(vs[1])
        if f == 'take':
            c = self.seq(vs[0])
            return [c[int(self.num(i))] for i in self.seq(vs[1])]
        if f == 'mask':
            c = self.seq(vs[0])
            return [x for x, b in zip(c, self.seq(vs[1])) if self.truth(b)]
        if f in ('asarray', 'atleast_1d', 'copyof', 'ravel'):
            return vs[0]
        if f == 'transpose' and isinstance(vs[0], list) and (not vs[0] or all(isinstance(x, list) and len(x) == len(vs[0][0]) for x in vs[0])):
            return [list(x) for x in zip(*vs[0])]
        if f == 'setslice':
            return self.opaque(t, env)
        return Obj(('call', f) + tuple(self.key(v) for v in vs), bool(self.ints and self.ints(t)))


del Model.e_mul


def _plus(x, y):
    return x + y


def _mulpow(x, y, e):
    try:
        p = y ** e
    except ZeroDivisionError:
        raise Undef('division by zero')
    except OverflowError:
        raise Undef('overflow')
    return x * p


def _lae(x, y):
    if x == -math.inf:
        return y
    if y == -math.inf:
        return x
    if x == math.inf or y == math.inf:
        return math.inf
    m = max(x, y)
    return m + math.log(math.exp(x - m) + math.exp(y - m))


def _log(x):
    if x != x:
        return x
    if x == 0:
        return -math.inf
    if x < 0:
        return math.nan
    return math.log(x)


def _mod(x, y):
    if y == 0:
        raise Undef('mod 0')
    return x % y


FUNCS = {
    'exp': lambda x: math.exp(x) if x < 700 else math.inf,
    'log': _log, 'sqrt': lambda x: math.sqrt(x) if x >= 0 else math.nan, 'abs': abs,
    'logaddexp': _lae, 'floor': lambda x: math.floor(x) if abs(x) != math.inf and x == x else x,
    'ceil': lambda x: math.ceil(x) if abs(x) != math.inf and x == x else x,
    'int': lambda x: int(x), 'round': lambda x, *k: round(x, *[int(i) for i in k]), 'floordiv': lambda x, y: x // y, 'mod': _mod,
    'pow': lambda x, y: x ** y, 'sin': math.sin, 'cos': math.cos, 'tanh': math.tanh, 'cast_float': lambda x: x,
    'log2': lambda x: math.log2(x) if x > 0 else math.nan, 'log10': lambda x: math.log10(x) if x > 0 else math.nan,
}


def same_value(m, a, b, tol=1e-7):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_value(m, x, y, tol) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.key == b.key:
            return True
        if not a.isint and not b.isint and not m.numhook:
            return False
        return m.num(a) == m.num(b)
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return type(a) is type(b) and a == b
    try:
        x, y = m.num(a), m.num(b)
    except Undef:
        return False
    if x != x or y != y:
        return x != x and y != y
    if x == y:
        return True
    if abs(x) == math.inf or abs(y) == math.inf:
        return False
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


def same(a, b, trials=12, models=None, **kw):
    """True: agree in every model tried; False: some model separates them; None: not comparable"""
    if a is b:
        return True
    done = 0
    for k in range(trials):
        m = models(k) if models else Model(k + 1, **kw)
        try:
            x = m.ev(a)
            y = m.ev(b)
        except Undef:
            continue
        except RecursionError:
            return None
        done += 1
        if not same_value(m, x, y):
            return False
    return True if done >= 3 else None


def value(t, k=1, **kw):
    m = Model(k, **kw)
    try:
        return m.ev(t)
    except Undef:
        return None
