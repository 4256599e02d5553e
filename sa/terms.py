"""Interned terms: the value-number domain.

Every abstract value is a hash-consed Term, so two expressions have the same
value number exactly when they are the same Python object.  Arithmetic is kept
in polynomial normal form over atoms, comparisons as a sign test on such a
polynomial, strings as concatenations of segments, so that the spelling of an
expression (order of operands, temporaries, helper functions, a loop rewritten)
does not change its value number.
"""
from fractions import Fraction
import itertools

_table = {}
_uid = itertools.count(1)


class Term(object):
    __slots__ = ('op', 'args', 'key', '_sub')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.key < other.key


def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.args = args
        t.key = len(_table)
        t._sub = None
        _table[k] = t
    return t


def is_term(x):
    return isinstance(x, Term)


# ---------------------------------------------------------------- constants
NONE = mk('none')
TRUE = mk('bool', True)
FALSE = mk('bool', False)
INF = mk('atom', 'inf')
NAN = mk('atom', 'nan')
ELLIPSIS = mk('atom', 'ellipsis')


def num(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, float):
        if v == float('inf'):
            return INF
        if v == float('-inf'):
            return neg(INF)
        if v != v:
            return NAN
        v = Fraction(repr(v))
    return mk('num', Fraction(v))


def s(v):
    return mk('str', v)


ZERO = num(0)
ONE = num(1)
MINUS_ONE = num(-1)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if isinstance(v, str):
        return s(v)
    if v is Ellipsis:
        return ELLIPSIS
    return mk('pyconst', repr(v))


def is_num(t):
    return t.op == 'num'


def numval(t):
    """Fraction of a numeric (or boolean) constant, else None"""
    if t.op == 'num':
        return t.args[0]
    if t.op == 'bool':
        return Fraction(1 if t.args[0] else 0)
    return None


def is_const(t):
    return t.op in ('num', 'str', 'bool', 'none', 'pyconst')


def fresh(name, *info):
    return mk('sym', name, next(_uid), *info)


# ---------------------------------------------------------------- polynomials
# canonical dict: monomial (tuple of (atom, exponent) sorted by atom key) -> Fraction
def pdict(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'bool':
        return {(): Fraction(1)} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def frompdict(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda kv: tuple((a.key, e) for a, e in kv[0])))
    return mk('poly', *items)


def padd(a, b, sign=1):
    d = pdict(a)
    for m, c in pdict(b).items():
        d[m] = d.get(m, 0) + sign * c
    # inf absorbs finite constants: INF + 3 = INF
    im = ((INF, 1),)
    if im in d and d[im] != 0 and set(d) <= {im, ()}:
        d = {im: Fraction(1 if d[im] > 0 else -1)}
    return frompdict(d)


def _mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: ae[0].key))


def pmul(a, b):
    da, db = pdict(a), pdict(b)
    if len(da) * len(db) > 400:
        return mk('mul', *sorted((a, b)))
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return frompdict(d)


def neg(t):
    return pmul(MINUS_ONE, t) if t.op != 'num' else mk('num', -t.args[0])


def sub(a, b):
    return padd(a, b, -1)


def add(*ts):
    r = ZERO
    for t in ts:
        r = padd(r, t)
    return r


def mul(*ts):
    r = ONE
    for t in ts:
        r = pmul(r, t)
    return r


def div(a, b):
    d = pdict(b)
    if not d:
        return mk('call', 'div0', a)
    if len(d) == 1:
        (m, c), = d.items()
        inv = frompdict({tuple((x, -e) for x, e in m): Fraction(1) / c})
        return pmul(a, inv)
    # normalise the leading coefficient of the divisor to one
    lead = sorted(d.items(), key=lambda kv: tuple((x.key, e) for x, e in kv[0]))[0][1]
    nb = frompdict({m: c / lead for m, c in d.items()})
    q = _exact_quotient(a, nb)
    if q is not None:
        return pmul(q, mk('num', Fraction(1) / lead))
    return pmul(a, frompdict({((nb, -1),): Fraction(1) / lead}))


def _exact_quotient(a, b):
    """a/b if a is a rational multiple of b"""
    da, db = pdict(a), pdict(b)
    if set(da) != set(db) or not da:
        return None
    ratio = None
    for m in da:
        r = da[m] / db[m]
        if ratio is None:
            ratio = r
        elif ratio != r:
            return None
    return mk('num', ratio)


def power(a, b):
    if b.op == 'num' and b.args[0].denominator == 1 and 0 <= b.args[0] <= 6:
        r = ONE
        for _ in range(int(b.args[0])):
            r = pmul(r, a)
        return r
    if b.op == 'num' and b.args[0] == -1:
        return div(ONE, a)
    return mk('call', 'pow', a, b)


def coeff(t, atom):
    """(coefficient of atom (a Term), rest) when t is affine in atom, else None"""
    d = pdict(t)
    c, r = {}, {}
    for m, k in d.items():
        hit = [(a, e) for a, e in m if a is atom]
        if hit:
            if hit[0][1] != 1:
                return None
            rest = tuple((a, e) for a, e in m if a is not atom)
            if any(contains(a, atom) for a, e in rest):
                return None
            c[rest] = k
        else:
            if any(contains(a, atom) for a, e in m):
                return None
            r[m] = k
    return frompdict(c), frompdict(r)


# ---------------------------------------------------------------- comparisons
def _norm_sign(p):
    """scale a polynomial by a positive rational so that the first coefficient is +-1"""
    d = pdict(p)
    if not d:
        return p
    first = sorted(d.items(), key=lambda kv: tuple((x.key, e) for x, e in kv[0]))
    # scale by first non constant coefficient
    nonc = [kv for kv in first if kv[0] != ()]
    lead = abs((nonc or first)[0][1])
    return frompdict({m: c / lead for m, c in d.items()})


def _cmp_const(p, strict):
    v = numval(p)
    if v is not None:
        return (v < 0) if strict else (v <= 0)
    if p is INF:
        return False
    if p is neg(INF):
        return True
    return None


def lt(a, b):
    """a < b"""
    if a is b:
        return FALSE
    p = sub(a, b)
    c = _cmp_const(p, True)
    if c is not None:
        return TRUE if c else FALSE
    return mk('lt', _norm_sign(p))


def le(a, b):
    if a is b:
        return TRUE
    p = sub(a, b)
    c = _cmp_const(p, False)
    if c is not None:
        return TRUE if c else FALSE
    return mk('le', _norm_sign(p))


_NUMERICISH = ('num', 'poly', 'bool')


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        va, vb = numval(a), numval(b)
        if va is not None and vb is not None:
            return TRUE if va == vb else FALSE
        return FALSE
    if NONE in (a, b):
        o = a if b is NONE else b
        if o.op in ('poly', 'num', 'str', 'list', 'tuple', 'ref', 'fmt', 'dict', 'inst', 'func', 'class', 'bound'):
            return FALSE
        return mk('eq', *sorted((a, b)))
    if a.op in _NUMERICISH or b.op in _NUMERICISH or INF in (a, b):
        p = sub(a, b)
        d = pdict(p)
        v = numval(p)
        if v is not None:
            return TRUE if v == 0 else FALSE
        # orientation
        first = sorted(d.items(), key=lambda kv: tuple((x.key, e) for x, e in kv[0]))
        nonc = [kv for kv in first if kv[0] != ()]
        lead = (nonc or first)[0][1]
        return mk('eqz', frompdict({m: c / lead for m, c in d.items()}))
    if (a.op in ('str', 'list', 'tuple', 'func', 'class') and b.op in ('str', 'list', 'tuple', 'func', 'class')
            and is_const(a) and is_const(b)):
        return FALSE
    return mk('eq', *sorted((a, b)))


def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'and':
        return or_(*[not_(x) for x in t.args])
    if t.op == 'or':
        return and_(*[not_(x) for x in t.args])
    return mk('not', t)


def and_(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for x in (t.args if t.op == 'and' else (t,)):
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *sorted(out))


def or_(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for x in (t.args if t.op == 'or' else (t,)):
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', *sorted(out))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    # max/min in disguise
    if c.op in ('lt', 'le'):
        d = sub(a, b)
        if c.args[0] is _norm_sign(d):     # a < b ? a : b
            return call('min', a, b)
        if c.args[0] is _norm_sign(neg(d)):  # b < a ? a : b
            return call('max', a, b)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    return mk('ite', c, a, b)


BOOLOPS = ('lt', 'le', 'eq', 'eqz', 'not', 'and', 'or', 'bool', 'in', 'truthy', 'isinst', 'pred')


def truth(t):
    """the truth value of a term as a boolean term"""
    if t.op in BOOLOPS:
        return t
    if t is NONE:
        return FALSE
    if t.op == 'num':
        return TRUE if t.args[0] != 0 else FALSE
    if t.op == 'str':
        return TRUE if t.args[0] else FALSE
    if t.op in ('func', 'class', 'bound', 'module', 'inst'):
        return TRUE
    if t.op in ('list', 'tuple'):
        return TRUE if t.args else FALSE
    if t.op == 'len':
        return not_(eq(t, ZERO))
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == 'call' and t.args[0] == 'bool':
        return truth(t.args[1])
    return mk('truthy', t)


# ---------------------------------------------------------------- functions
COMMUTATIVE = {'max', 'min', 'logaddexp'}
PREDICATES = {'isnan', 'isfinite', 'isinf', 'isinstance'}


def call(f, *args):
    """application of a pure function, by canonical name"""
    n = [numval(a) for a in args]
    if f in ('max', 'min'):
        flat = []
        for a in args:
            if a.op == 'call' and a.args[0] == f:
                flat.extend(a.args[1:])
            else:
                flat.append(a)
        consts = [x for x in flat if numval(x) is not None]
        rest = sorted(set(x for x in flat if numval(x) is None))
        if consts:
            v = (max if f == 'max' else min)(numval(x) for x in consts)
            if not rest:
                return num(v)
            rest = sorted(rest + [num(v)])
        ninf = neg(INF) if f == 'max' else INF
        pinf = INF if f == 'max' else neg(INF)
        if pinf in rest:
            return pinf
        if len(rest) > 1:
            rest = [x for x in rest if x is not ninf]
        if len(rest) == 1:
            return rest[0]
        return mk('call', f, *rest)
    if f == 'exp':
        if n[0] == 0:
            return ONE
        if args[0] is neg(INF):
            return ZERO
        if args[0].op == 'call' and args[0].args[0] == 'log':
            return args[0].args[1]
    if f == 'log':
        if n[0] == 1:
            return ZERO
        if n[0] == 0:
            return neg(INF)
        if args[0].op == 'call' and args[0].args[0] == 'exp':
            return args[0].args[1]
    if f == 'log1p':
        return call('log', add(ONE, args[0]))
    if f == 'expm1':
        return sub(call('exp', args[0]), ONE)
    if f == 'abs' and n[0] is not None:
        return num(abs(n[0]))
    if f == 'sqrt' and n[0] in (0, 1):
        return args[0]
    if f == 'floordiv':
        if n[0] is not None and n[1]:
            return num(n[0] // n[1])
        if n[1] == 1:
            return args[0]
    if f == 'mod':
        if n[0] is not None and n[1]:
            return num(n[0] % n[1])
        # normalise the dividend inside nested mods: (x mod n + 1) mod n
    if f == 'logaddexp':
        if args[0] is neg(INF):
            return args[1]
        if args[1] is neg(INF):
            return args[0]
    if f == 'int' and n[0] is not None:
        return num(int(n[0]))
    if f == 'isfinite':
        if n[0] is not None:
            return TRUE
        if args[0] in (INF, neg(INF), NAN):
            return FALSE
    if f == 'isnan':
        if n[0] is not None or args[0] in (INF, neg(INF)):
            return FALSE
    if f in COMMUTATIVE:
        args = sorted(args)
    if f in PREDICATES:
        return mk('pred', f, *args)
    return mk('call', f, *args)


# ---------------------------------------------------------------- strings
def concat(*ts):
    segs = []
    for t in ts:
        for x in (t.args if t.op == 'fmt' else (t,)):
            if x.op == 'str' and x.args[0] == '':
                continue
            if x.op == 'str' and segs and segs[-1].op == 'str':
                segs[-1] = s(segs[-1].args[0] + x.args[0])
            else:
                segs.append(x)
    if not segs:
        return s('')
    if len(segs) == 1 and segs[0].op == 'str':
        return segs[0]
    return mk('fmt', *segs)


def to_str(t):
    if t.op in ('str', 'fmt', 'path'):
        return t
    if t.op == 'num' and t.args[0].denominator == 1:
        return s(str(int(t.args[0])))
    if t is NONE:
        return s('None')
    if t.op == 'bool':
        return s(str(t.args[0]))
    return mk('fmt', mk('tostr', t, ''))


# ---------------------------------------------------------------- traversal
def children(t):
    if t.op == 'poly':
        for m, c in t.args:
            for a, e in m:
                yield a
    else:
        for a in t.args:
            if isinstance(a, Term):
                yield a
            elif isinstance(a, tuple):
                for b in _tterms(a):
                    yield b


def _tterms(tp):
    for a in tp:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            for b in _tterms(a):
                yield b


def subterms(t):
    """frozenset of all subterms, t included"""
    if t._sub is None:
        r = {t}
        for c in children(t):
            r |= subterms(c)
        t._sub = frozenset(r)
    return t._sub


def contains(t, x):
    return x in subterms(t)


def rebuild(t, f):
    """rebuild t with children mapped through f, renormalising"""
    op = t.op
    if op == 'poly':
        r = ZERO
        for m, c in t.args:
            mono = mk('num', c)
            for a, e in m:
                fa = f(a)
                if e > 0:
                    for _ in range(e):
                        mono = pmul(mono, fa)
                else:
                    for _ in range(-e):
                        mono = div(mono, fa)
            r = padd(r, mono)
        return r
    if not t.args:
        return t
    new = []
    changed = False
    for a in t.args:
        if isinstance(a, Term):
            b = f(a)
        elif isinstance(a, tuple):
            b = _maptuple(a, f)
        else:
            b = a
        changed |= (b is not a)
        new.append(b)
    if not changed:
        return t
    return remake(op, new)


def _maptuple(tp, f):
    out = tuple(f(a) if isinstance(a, Term) else (_maptuple(a, f) if isinstance(a, tuple) else a) for a in tp)
    return out if any(x is not y for x, y in zip(out, tp)) else tp


_SEQ_HOOKS = {}


def remake(op, args):
    if op == 'call':
        h = _SEQ_HOOKS.get('call')
        if h:
            r = h(args)
            if r is not None:
                return r
        return call(*args)
    if op == 'pred':
        return call(*args) if args[0] in PREDICATES else mk('pred', *args)
    if op == 'lt':
        return lt(args[0], ZERO)
    if op == 'le':
        return le(args[0], ZERO)
    if op == 'eqz':
        return eq(args[0], ZERO)
    if op == 'eq':
        return eq(*args)
    if op == 'not':
        return not_(args[0])
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'truthy':
        return truth(args[0])
    if op == 'fmt':
        return concat(*args)
    if op == 'tostr' and args[0].op in ('str', 'fmt'):
        return args[0]
    h = _SEQ_HOOKS.get(op)
    if h:
        return h(*args)
    return mk(op, *args)


def hook(op):
    def deco(f):
        _SEQ_HOOKS[op] = f
        return f
    return deco


def subst(t, mapping, memo=None):
    """replace terms by terms (mapping Term->Term), renormalising"""
    if not mapping:
        return t
    if memo is None:
        memo = {}
    keys = set(mapping)

    def go(x):
        r = mapping.get(x)
        if r is not None:
            return r
        if x in memo:
            return memo[x]
        if not (subterms(x) & keys):
            memo[x] = x
            return x
        r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, Term):
        return repr(t)
    if depth > 12:
        return '…'
    d = depth + 1
    op, a = t.op, t.args
    if op == 'num':
        return str(a[0])
    if op == 'str':
        return repr(a[0])
    if op == 'none':
        return 'None'
    if op == 'bool':
        return str(a[0])
    if op == 'atom':
        return a[0]
    if op == 'sym':
        return '%s#%s' % (a[0], a[1])
    if op == 'poly':
        parts = []
        for m, c in a:
            f = ''.join('*' + show(x, d) + ('' if e == 1 else '^%d' % e) for x, e in m)
            parts.append((str(c) if c != 1 or not f else '') + (f if c != 1 and f else f[1:]))
        return '(' + ' + '.join(parts) + ')'
    if op in ('call', 'pred'):
        return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1:]))
    if op == 'lt':
        return '[%s < 0]' % show(a[0], d)
    if op == 'le':
        return '[%s <= 0]' % show(a[0], d)
    if op == 'eqz':
        return '[%s == 0]' % show(a[0], d)
    if op == 'eq':
        return '[%s == %s]' % (show(a[0], d), show(a[1], d))
    if op == 'not':
        return 'not ' + show(a[0], d)
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(show(x, d) for x in a) + ')'
    if op == 'inst':
        return a[0].split('.')[-1] + ('' if a[1] == 1 else '#%s' % a[1])
    if op == 'c0':
        return show(a[0], d)
    if op == 'iota':
        return 'i%s' % a[0]
    if op == 'fld':
        return '%s.%s' % (show(a[0], d), a[1])
    if op == 'idx':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if op == 'ref':
        return '<%s#%s>' % (a[0], a[1])
    if op == 'fmt':
        return 'f"' + ''.join(x.args[0] if x.op == 'str' else '{%s}' % show(x, d) for x in a) + '"'
    if op == 'tostr':
        return show(a[0], d) + (':' + a[1] if a[1] else '')
    return '%s(%s)' % (op, ', '.join(show(x, d) if isinstance(x, Term) else
                                     (repr(x) if not isinstance(x, tuple) else
                                      '(' + ','.join(show(y, d) for y in x) + ')') for x in a))
