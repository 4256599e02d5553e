"""Sequence terms: literals, concatenations, maps over an index, slices."""
from .terms import *
from . import terms as T


def bv(k):
    return mk('bv', k)


def _bvdepth(t):
    d = 0
    for x in subterms(t):
        if x.op == 'bv':
            d = max(d, x.args[0])
    return d


def lam(body, iota):
    """abstract a loop index out of a term: canonical bound variable"""
    k = _bvdepth(body) + 1
    return subst(body, {iota: bv(k)}), bv(k)


def mapterm(n, body, iota):
    """sequence of length n whose element at `iota` is body"""
    if n.op == 'num' and n.args[0] <= 0:
        return EMPTY
    b, v = lam(body, iota)
    # eta: idx(S, v) for all v < len(S) is S itself
    if b.op == 'idx' and b.args[1] is v and not contains(b.args[0], v) and length(b.args[0]) is n:
        return b.args[0]
    return mk('map', n, b, v)


EMPTY = mk('list')


def listlit(*xs):
    return mk('list', *xs)


def cat(*cs):
    out = []
    for c in cs:
        parts = c.args if c.op == 'cat' else (c,)
        for p in parts:
            if p.op == 'tuple':
                p = mk('list', *p.args)
            if p.op == 'list':
                # map(f, n) + [f(n)] is map(f, n+1)
                while p.args and out and out[-1].op == 'map' and out[-1].args[0].op != 'num':
                    n, body, v = out[-1].args
                    if subst(body, {v: n}) is not p.args[0]:
                        break
                    out[-1] = mk('map', add(n, ONE), body, v)
                    p = mk('list', *p.args[1:])
                if not p.args:
                    continue
                if out and out[-1].op == 'list':
                    out[-1] = mk('list', *(out[-1].args + p.args))
                    continue
            out.append(p)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def rng(a, b, step=ONE):
    if numval(a) is not None and numval(b) is not None and numval(step):
        n = range(int(numval(a)), int(numval(b)), int(numval(step)))
        if len(n) <= 8:
            return mk('list', *[num(i) for i in n])
    return mk('range', a, b, step)


def length(c):
    op = c.op
    if op in ('list', 'tuple'):
        return num(len(c.args))
    if op == 'cat':
        return add(*[length(x) for x in c.args])
    if op == 'map':
        return c.args[0]
    if op == 'range':
        a, b, st = c.args
        if st is ONE:
            return sub(b, a)
        if st is MINUS_ONE:
            return sub(a, b)
        return mk('len', c)
    if op == 'slice':
        x, a, b, st = c.args
        if st is NONE or st is ONE:
            n = length(x)

            def norm(v, dflt):
                if v is NONE:
                    return dflt
                if _negative(v):
                    return add(n, v)
                return v
            lo, hi = norm(a, ZERO), norm(b, n)
            return sub(hi, lo)
        if st is MINUS_ONE and a is NONE and b is NONE:
            return length(x)
        return mk('len', c)
    if op in ('sorted', 'rot', 'reversed', 'perm'):
        return length(c.args[0])
    if op == 'store':
        return length(c.args[0])
    if op == 'ins':
        return add(length(c.args[0]), ONE)
    if op == 'rep':
        return mul(length(c.args[0]), c.args[1])
    if op == 'choices' and numval(c.args[1]) is not None:
        return c.args[1]
    if op == 'str':
        return num(len(c.args[0]))
    if op == 'fld' and c.args[1] in ('$coords', 'names', 'values', 'keys()'):
        return mk('fld', c.args[0], 'dimension')
    if op == 'fill':
        return c.args[0]
    if op == 'storemap':
        return length(c.args[0])
    if op == 'zip':
        return length(c.args[0])
    if op == 'enum':
        return length(c.args[0])
    return mk('len', c)


def _negative(v):
    nv = numval(v)
    if nv is not None:
        return nv < 0
    # -X with X a plain symbolic count
    if v.op == 'poly' and all(c < 0 for m, c in v.args):
        return True
    return False


def columnname(i):
    """an element of the column names of a record array"""
    return i.op == 'idx' and i.args[0].op == 'fld' and i.args[0].args[1] == 'names' and i.args[0].args[0].op == 'fld' and i.args[0].args[0].args[1] == 'dtype'


def idx(c, i):
    op = c.op
    n = numval(i)
    if op in ('list', 'tuple'):
        if n is not None and n.denominator == 1 and -len(c.args) <= n < len(c.args):
            return c.args[int(n)]
        if c.args and all(x is c.args[0] for x in c.args):
            return c.args[0]
        return mk('idx', c, i)
    if i.op in ('tuple', 'sliceobj') or (op in ('slice', 'map', 'range', 'cat') and columnname(i)):
        return mk('idx', c, i)
    if n is None and _negative(i):
        L = length(c)
        return idx(c, add(L, i))
    if n is not None and n < 0:
        if op == 'cat' and c.args[-1].op in ('list',) and -n <= len(c.args[-1].args):
            return c.args[-1].args[int(n)]
        L = length(c)
        if L.op != 'len':
            return idx(c, add(L, i))
        return mk('idx', c, add(L, i))
    if op == 'map':
        return subst(c.args[1], {c.args[2]: i})
    if op == 'range':
        return add(c.args[0], mul(i, c.args[2]))
    if op == 'rep':
        b = c.args[0]
        if b.op == 'list' and len(b.args) == 1:
            return b.args[0]
    if op == 'fill':
        return c.args[1]
    if op == 'zip':
        return mk('tuple', *[idx(x, i) for x in c.args])
    if op == 'enum':
        return mk('tuple', add(i, c.args[1]), idx(c.args[0], i))
    if op == 'reversed':
        return idx(c.args[0], sub(sub(length(c.args[0]), ONE), i))
    if op == 'slice':
        x, a, b, st = c.args
        if st is NONE or st is ONE:
            if a is NONE:
                return idx(x, i)
            if not _negative(a):
                return idx(x, add(a, i))
            return idx(x, add(length(x), a, i))
        if st is MINUS_ONE and a is NONE and b is NONE:
            return idx(x, sub(sub(length(x), ONE), i))
    if op == 'cat':
        # index into a concatenation: walk the parts with known offsets
        off = ZERO
        for p in c.args:
            L = length(p)
            rel = sub(i, off)
            rv, lv = numval(rel), numval(L)
            if rv is not None and lv is not None:
                if 0 <= rv < lv:
                    return idx(p, rel)
                off = add(off, L)
                continue
            if rel is ZERO and p.op == 'list':
                return p.args[0]
            d = sub(rel, L)
            dv = numval(d)
            if dv is not None and dv >= 0:
                off = add(off, L)
                continue
            if dv is not None and dv < 0 and p.op != 'list' and _boundedneg(dv):
                return idx(p, rel)
            break
        # the last part, addressed from the end
        tot = length(c)
        back = sub(tot, i)
        bvv = numval(back)
        if bvv is not None and c.args[-1].op == 'list' and 1 <= bvv <= len(c.args[-1].args):
            return c.args[-1].args[-int(bvv)]
    if op == 'store':
        base, j, v = c.args
        if j is i:
            return v
        d = numval(sub(i, j)) if j.op in ('num', 'poly', 'sym', 'iota', 'len', 'fld') else None
        if d is not None and d != 0:
            return idx(base, i)
    if op == 'storemap':
        # storemap(base, n, pos, val, bv): elements pos(v) hold val(v), v in 0..n-1
        base, cnt, pos, val, v = c.args
        co = coeff(pos, v)
        if co is not None and co[0] is ONE:
            k = sub(i, co[1])
            kv = numval(k)
            if kv is not None and kv < 0:
                return idx(base, i)
            if co[1] is ZERO and cnt is length(base):
                return subst(val, {v: k})
            past = numval(sub(k, cnt))
            if past is not None and past >= 0:
                return idx(base, i)
    if op == 'ins':
        base, j, x = c.args
        if j is i:
            return x
    if op == 'vec':
        return subst(c.args[0], {c.args[1]: i})
    if op == 'sorted' and c.args[0].op in ('range',) and c.args[1] is NONE:
        return idx(c.args[0], i)
    if op == 'ite':
        return ite(c.args[0], idx(c.args[1], i), idx(c.args[2], i))
    return mk('idx', c, i)


def _boundedneg(dv):
    return True


def slc(c, a, b, st=NONE):
    if st is ONE:
        st = NONE
    if (a is NONE or a is ZERO) and b is NONE and st is NONE:
        return c
    if a is ZERO:
        a = NONE
    if c.op in ('list', 'tuple'):
        try:
            def iv(x):
                if x is NONE:
                    return None
                v = numval(x)
                if v is None:
                    raise ValueError
                return int(v)
            return mk(c.op, *c.args[slice(iv(a), iv(b), iv(st))])
        except ValueError:
            pass
    # a[lo:][lo2:] style composition
    if st is NONE and c.op == 'slice' and c.args[3] is NONE and c.args[2] is NONE and b is NONE \
            and not _negative(a if a is not NONE else ZERO) and c.args[1] is not NONE and not _negative(c.args[1]):
        return slc(c.args[0], add(c.args[1], a), NONE)
    # explicit end equal to the length
    if b is not NONE and b is length(c):
        b = NONE
        if a is NONE and st is NONE:
            return c
    if b is not NONE and st is NONE:
        # c[:len-k] -> c[:-k]
        d = sub(b, length(c))
        if _negative(d) and not _negative(b) and length(c).op != 'num' and contains(b, length(c)):
            b = d
    if a is not NONE and st is NONE:
        d = sub(a, length(c))
        if _negative(d) and not _negative(a) and length(c).op != 'num' and (contains(a, length(c)) or length(c) in [x for m, _ in pdict(a).items() for x, e in m]):
            a = d
    return mk('slice', c, a, b, st)


def fold(f, init, n, body, iota):
    b, v = lam(body, iota)
    return mk('fold', f, init, n, b, v)


def sumterm(n, body, iota):
    """sum over iota<n of body"""
    if body is ZERO:
        return ZERO
    if not contains(body, iota) and not _has_draw(body):
        return mul(n, body)
    b, v = lam(body, iota)
    if b.op == 'idx' and b.args[1] is v and not contains(b.args[0], v) and length(b.args[0]) is n:
        return call('sum', b.args[0])
    return mk('sumover', n, b, v)


def _has_draw(t):
    return any(x.op in ('draw', 'sym') for x in subterms(t))


@T.hook('idx')
def _h_idx(c, i):
    return idx(c, i)


@T.hook('cat')
def _h_cat(*a):
    return cat(*a)


@T.hook('len')
def _h_len(c):
    return length(c)


@T.hook('slice')
def _h_slc(*a):
    return slc(*a)


@T.hook('range')
def _h_rng(*a):
    return rng(*a)


@T.hook('map')
def _h_map(n, b, v):
    if n.op == 'num' and n.args[0] <= 0:
        return EMPTY
    return mk('map', n, b, v)
