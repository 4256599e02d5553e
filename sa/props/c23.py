"""C23: live-point arithmetic, copying and pickling are exact and independent."""
from .common import *
from ..engine import State

EXPLANATION = ('Every operator the point type defines is executed symbolically on two points with symbolic coordinates, for each dimension up to five, for distinct operands and for a point combined with itself, with symbolic names. '
               'The coordinates of the result are compared with the operation the operator names, coordinate by coordinate; heap identities decide which object and which coordinate storage the result is and what became of the operands. '
               'copy and the reduce/rebuild/setstate round trip are executed the same way; item access is decided for every name and for a name the point does not have.')
TECHNIQUE = 'static analysis: symbolic execution of the point type with heap identities, value comparison by normal form and by exact evaluation'
F = 'cpnest/parameter.pyx'
ADD = "            result.values[i]=self.values[i]+other.values[i]\n"
MUTANTS = [
    (F, ADD, "            result.values[i]=self.values[i]+self.values[i]\n"),
    (F, ADD, "            self.values[i]=result.values[i]=self.values[i]+other.values[i]\n"),
    (F, "        result=LivePoint(self.names)\n        cdef Py_ssize_t i\n        for i in range(self.dimension):\n" + ADD + "        return result", "        cdef Py_ssize_t i\n        for i in range(self.dimension):\n            self.values[i]+=other.values[i]\n        return self"),
    (F, "            result.values[i]=self.values[i]-other.values[i]\n", "            result.values[i]=other.values[i]-self.values[i]\n"),
    (F, "            result.values[i]=self.values[i]-other.values[i]\n", "            result.values[i]=self.values[i]-other.values[0]\n"),
    (F, "        for i in range(self.dimension):\n            result.values[i]=self.values[i]-other.values[i]\n", "        for i in range(self.dimension-1):\n            result.values[i]=self.values[i]-other.values[i]\n"),
    (F, "            self.values[i]-=other.values[i]\n", "            other.values[i]-=self.values[i]\n"),
    (F, "            self.values[i]-=other.values[i]\n        return self", "            self.values[i]-=other.values[i]\n        return other"),
    (F, "            self.values[i]-=other.values[i]\n        return self", "            self.values[i]-=other.values[i]\n        return self.copy()"),
    (F, "        for i in range(self.dimension):\n            self.values[i]+=other.values[i]\n", "        for i in range(1,self.dimension):\n            self.values[i]+=other.values[i]\n"),
    (F, "            result.values[i]=other*self.values[i]\n", "            result.values[i]=other*self.values[i]*self.values[i]\n"),
    (F, "            result.values[i]=self.values[i]/other\n", "            result.values[i]=self.values[i]//other\n"),
    (F, "            result.values[i]=self.values[i]/other\n", "            result.values[i]=other/self.values[i]\n"),
    (F, "            self.values[i]/=other\n", "            self.values[i]*=other\n"),
    (F, "            self.values[i]*=other\n", "            self.values[i]*=int(other)\n"),
    (F, "        result.__setstate__(self.__getstate__())\n", "        result.values = self.values\n        result.logL = self.logL\n        result.logP = self.logP\n"),
    (F, "        result.__setstate__(self.__getstate__())\n", "        result.values = array.array('d',self.values)\n        result.logL = self.logL\n"),
    (F, "        result.__setstate__(self.__getstate__())\n", "        result.logL, result.logP, result.values = self.__getstate__()\n"),
    (F, "        result.__setstate__(self.__getstate__())\n        return result", "        result.__setstate__(self.__getstate__())\n        return self"),
    (F, "        return (self.logL, self.logP, self.values)", "        return (self.logP, self.logL, self.values)"),
    (F, "          self.logP = state[1]\n", "          self.logP = state[0]\n"),
    (F, "          self.values = array.array('d',state[2])", "          self.values = state[2]"),
    (F, "          self.values = array.array('d',state[2])", "          self.values = array.array('d',sorted(state[2]))"),
    (F, "          self.values = array.array('d',state[2])", "          self.values = array.array('f',state[2])"),
    (F, "(rebuild_livepoint, (self.names,),self.__getstate__())", "(rebuild_livepoint, (self.names,))"),
    (F, "(rebuild_livepoint, (self.names,),self.__getstate__())", "(rebuild_livepoint, (sorted(self.names),),self.__getstate__())"),
    (F, "    cdef LivePoint lp = LivePoint(names)\n    return lp", "    cdef LivePoint lp = LivePoint(sorted(names))\n    return lp"),
    (F, "                return self.values[i]\n", "                return self.values[i-1]\n"),
    (F, "            if self.names[i] == name:\n                return self.values[i]\n", "            if self.names[i].startswith(name):\n                return self.values[i]\n"),
    (F, "            if self.names[i] == name:\n                self.values[i] = value\n", "            if self.names[i] in name:\n                self.values[i] = value\n"),
    (F, "                self.values[i] = value\n                return\n", "                self.values[i] += value\n                return\n"),
    (F, "                self.values[i] = value\n                return\n", "                self.values[0] = value\n                return\n"),
    (F, "                self.values[i] = value\n                return\n", "                self.values[i] = int(value)\n                return\n"),
    (F, "                self.values[i] = value\n                return\n", "                self.values = array.array('d',self.values[:i])\n                self.values.append(value)\n                return\n"),
]
NAMES = ['x', 'theta', 'X', 'a', 'th']
POINT = {'__add__': '+', '__sub__': '-', '__iadd__': '+', '__isub__': '-', '__radd__': '+'}
SCALAR = {'__mul__': '*', '__rmul__': '*', '__imul__': '*', '__truediv__': '/', '__itruediv__': '/', '__div__': '/', '__idiv__': '/'}
INPLACE = ('__iadd__', '__isub__', '__imul__', '__itruediv__', '__idiv__')
DIMS = (0, 1, 2, 3, 5)


class Ground(object):
    """a world with points of a concrete dimension and symbolic coordinates"""

    def __init__(self, P):
        self.P = P
        self.W = World(P, native_lp=False, hooks={'purecalls': True})
        self.ci = P.cls('parameter.LivePoint')
        self.k = 0

    def point(self, st, dim):
        W = self.W
        self.k += 1
        me = W.instance(self.ci, self.k)
        xs = [W.eng.settype(mk('sym', 'p%d_%d' % (self.k, i), -(100 * self.k + i)), 'number') for i in range(dim)]
        names = W.eng.newseq(st, 'list', mk('list', *[s(n) for n in NAMES[:dim]]), 'str')
        st.heap[(me, 'names')] = names
        st.heap[(me, 'dimension')] = num(dim)
        st.heap[(me, 'values')] = W.eng.newseq(st, 'array', mk('list', *xs), 'number')
        st.heap[(me, 'logL')] = W.eng.settype(mk('sym', 'logL%d' % self.k, -(900 + self.k)), 'number')
        st.heap[(me, 'logP')] = W.eng.settype(mk('sym', 'logP%d' % self.k, -(950 + self.k)), 'number')
        return me, xs

    def get(self, st, me, f):
        return self.W.eng.val(st, st.heap[(me, f)]) if (me, f) in st.heap else None

    def storage(self, st, me):
        return st.heap.get((me, 'values'))

    def fields(self, st, me, seed):
        """(names, coordinates, logL, logP) of a point for one valuation; the pieces that are not decided are None"""
        m = Model(seed, leaf=lambda m, t: None)
        out = []
        for f in ('names', 'values', 'logL', 'logP'):
            t = self.get(st, me, f)
            try:
                out.append(None if t is None else (m.num(m.ev(t)) if f.startswith('log') else [x if f == 'names' else m.num(x) for x in m.seq(m.ev(t))]))
            except (Undef, TypeError, ValueError):
                out.append(None)
        return out


def value(op, a, b):
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()


def close(a, b):
    return a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-9 * max(abs(a), abs(b)))


def agree(xs, ys):
    return len(xs) == len(ys) and all(close(x, y) for x, y in zip(xs, ys))


def live(o, seeds=range(6)):
    """seeds under whose valuation this path is taken; None if that is not decided"""
    out = []
    for k in seeds:
        m = Model(k)
        try:
            if all(m.truth(m.ev(f)) for f in o.facts):
                out.append(k)
        except Undef:
            return None
    return out


def check(P, R, tier):
    ci = P.cls('parameter.LivePoint')
    seen = 0
    for meth in list(POINT) + list(SCALAR):
        got = ci.find(meth)
        if not got or got[0] != 'method':
            if meth in ('__add__', '__sub__', '__mul__', '__truediv__', '__iadd__', '__isub__', '__imul__', '__itruediv__'):
                if meth in INPLACE and ci.find(meth.replace('__i', '__')):
                    # without the in-place form Python falls back to the plain one, which rebinds the name
                    R.violation('arithmetic', meth, 'the in-place form is not defined: the left operand is not changed')
                else:
                    R.undet('arithmetic', meth, 'the point type does not define it')
            continue
        with R.guard('arithmetic', meth):
            arithmetic(P, R, ci, meth)
            seen += 1
    for rule in (copying, pickling, access):
        with R.guard(rule.__name__, 'LivePoint'):
            rule(P, R, ci)
    R.count('operators', seen)


def raised(R, rule, what, o):
    ks = live(o)
    if ks:
        R.violation(rule, what, '%s for operands it accepts' % show(o.value)[:60], '')
    elif ks is None:
        R.undet(rule, what, 'may raise %s' % show(o.value)[:60])


def arithmetic(P, R, ci, meth):
    op = POINT.get(meth) or SCALAR[meth]
    point = meth in POINT
    fi = P.method(ci, meth)
    for dim in DIMS:
        for alias in ((False, True) if point else (False,)):
            what = '%s, %d coordinates%s' % (meth, dim, ', with itself' if alias else '')
            G = Ground(P)
            st = State()
            a, xa = G.point(st, dim)
            if point:
                b, xb = (a, xa) if alias else G.point(st, dim)
                arg = b
            else:
                arg = G.W.param('c', 'number')
            sa, sb = G.storage(st, a), G.storage(st, arg) if point else None
            before = {p: [G.fields(st, p, k) for k in range(6)] for p in {a, arg} if point or p is a}
            for o in G.W.run(ci, meth, a, [arg], st=st):
                if o.kind != 'return':
                    raised(R, 'arithmetic', what, o)
                    continue
                R.count('operator paths')
                ks = live(o)
                if ks is None:
                    R.undet('arithmetic', what, 'path condition not decided: %s' % [show(f)[:60] for f in o.facts])
                    continue
                v = o.value
                if meth in INPLACE:
                    R.verdict(v is a if v.op in ('inst', 'ref', 'none') or v is NONE else None, 'result', what, 'the left operand', 'the in-place operation does not return its left operand')
                else:
                    isnew = v.op == 'ref' and G.W.eng.classinfo(v) is ci
                    if v is a or v is arg:
                        R.violation('result', what, 'the result is an operand, not a new point')
                    elif not isnew:
                        R.verdict(False if v is NONE else None, 'result', what, '', 'the result is %s' % show(v)[:80])
                        continue
                    elif G.storage(o.state, v) in (sa, sb):
                        R.violation('result', what, 'the result shares the coordinate storage of an operand')
                    else:
                        R.ok('result', what, 'a new point with its own coordinates')
                for k in ks:
                    m = Model(k)
                    try:
                        A = [m.num(m.ev(x)) for x in xa]
                        B = [m.num(m.ev(x)) for x in xb] if point else [m.num(m.ev(arg))] * dim
                        want = [value(op, x, y) for x, y in zip(A, B)]
                    except (Undef, ZeroDivisionError):
                        continue
                    names, vals, lL, lP = G.fields(o.state, v if meth not in INPLACE else a, k)
                    if vals is None:
                        R.undet('coordinates', what, 'coordinates not decided: %s' % show(G.get(o.state, v if meth not in INPLACE else a, 'values'))[:100])
                        break
                    if not all(isinstance(x, (int, float)) for x in vals):
                        R.undet('coordinates', what, 'not numbers')
                        break
                    if not agree(vals, want):
                        R.violation('coordinates', what, 'for %s and %s the coordinates are %s, not %s' % (short(A), short(B), short(vals), short(want)))
                        break
                    if names is not None and names != NAMES[:dim]:
                        R.violation('names', what, 'the result has names %s' % names)
                        break
                else:
                    R.ok('coordinates', what, 'as the operator names')
                for p in before:
                    if p is a and meth in INPLACE:
                        continue
                    for k in ks:
                        was, now = before[p][k], G.fields(o.state, p, k)
                        if None in now:
                            R.undet('operands', what, 'operand not decided')
                            break
                        if any((not agree(w, n_)) if isinstance(w, list) and i == 1 else w != n_ for i, (w, n_) in enumerate(zip(was, now))):
                            R.violation('operands', what, 'the operation changes %s operand' % ('its' if p is a else 'its right'))
                            break
                    else:
                        R.ok('operands', what, 'left as they were')
            R.covers(G.W.eng)


def short(xs):
    return '[%s]' % ', '.join('%.4g' % x for x in xs)


def carried(R, rule, what, G, st, v, before, ks):
    for k in ks:
        was, now = before[k], G.fields(st, v, k)
        for label, w, n_ in zip(('names', 'coordinates', 'log-likelihood', 'log-prior'), was, now):
            if n_ is None:
                R.undet(rule, what, '%s not decided' % label)
                return
            if (label == 'coordinates' and not agree(n_, w)) or (label == 'names' and n_ != w) or (label.startswith('log') and not close(n_, w)):
                R.violation(rule, what, '%s %s become %s' % (label, w if label != 'coordinates' else short(w), n_ if label != 'coordinates' else n_))
                return
    R.ok(rule, what, 'names, coordinates, log-likelihood and log-prior carried')


def copying(P, R, ci):
    for dim in DIMS:
        what = 'copy, %d coordinates' % dim
        G = Ground(P)
        st = State()
        a, xs = G.point(st, dim)
        before = [G.fields(st, a, k) for k in range(6)]
        store = G.storage(st, a)
        for o in G.W.run(ci, 'copy', a, [], st=st):
            if o.kind != 'return':
                raised(R, 'copy', what, o)
                continue
            ks = live(o)
            if ks is None:
                R.undet('copy', what, 'path condition not decided')
                continue
            v = o.value
            if v is a:
                R.violation('copy', what, 'the copy is the point itself')
                continue
            if G.W.eng.classinfo(v) is not ci:
                R.verdict(False if v is NONE else None, 'copy', what, '', 'the copy is %s' % show(v)[:80])
                continue
            s_ = G.storage(o.state, v)
            R.verdict(None if s_ is None or s_.op not in ('ref', 'inst') else s_ is not G.storage(o.state, a) and s_ is not store, 'storage', what, 'coordinates of its own', 'the copy shares its coordinates with the original')
            carried(R, 'copy', what, G, o.state, v, before, ks)
            carried(R, 'copy', 'original after ' + what, G, o.state, a, before, ks)
        R.covers(G.W.eng)
        R.count('copies')


def pickling(P, R, ci):
    for dim in DIMS:
        what = 'pickle round trip, %d coordinates' % dim
        G = Ground(P)
        st = State()
        a, xs = G.point(st, dim)
        before = [G.fields(st, a, k) for k in range(6)]
        meth = '__reduce__' if ci.find('__reduce__') else '__reduce_ex__'
        if not ci.find(meth):
            R.undet('pickle', what, 'the point type has no __reduce__')
            continue
        for o in G.W.run(ci, meth, a, [] if meth == '__reduce__' else [num(4)], st=st):
            if o.kind != 'return':
                raised(R, 'pickle', what, o)
                continue
            ks = live(o)
            v = o.value
            if ks is None or v.op != 'tuple' or not 2 <= len(v.args) <= 3:
                R.undet('pickle', what, 'reduce returns %s' % show(v)[:80])
                continue
            args = v.args[1]
            if args.op != 'tuple':
                R.undet('pickle', what, 'arguments of the rebuilder are %s' % show(args)[:80])
                continue
            for p in G.W.call(v.args[0], list(args.args), {}, o.state):
                if p.kind != 'return':
                    raised(R, 'pickle', what, p)
                    continue
                new = p.value
                if G.W.eng.classinfo(new) is not ci:
                    R.undet('pickle', what, 'the rebuilder returns %s' % show(new)[:80])
                    continue
                if len(v.args) == 3 and v.args[2] is not NONE:
                    for q in G.W.run(ci, '__setstate__', new, [v.args[2]], st=p.state):
                        if q.kind != 'return':
                            raised(R, 'pickle', what, q)
                            continue
                        ks2 = live(q)
                        if ks2 is None:
                            R.undet('pickle', what, 'path condition not decided')
                            continue
                        carried(R, 'pickle', what, G, q.state, new, before, ks2)
                        R.count('round trips')
                else:
                    carried(R, 'pickle', what, G, p.state, new, before, ks)
                    R.count('round trips')
        R.covers(G.W.eng)


def access(P, R, ci):
    for dim in DIMS:
        for name in NAMES[:dim] + ['absent', 'thet', 'thetas', 'A', ' x']:
            for meth in ('__getitem__', '__setitem__'):
                G = Ground(P)
                st = State()
                a, xs = G.point(st, dim)
                new = G.W.param('v', 'number')
                what = '%s[%r], names %s' % (meth, name, NAMES[:dim])
                before = [G.fields(st, a, k) for k in range(6)]
                done = False
                for o in G.W.run(ci, meth, a, [s(name)] + ([new] if meth == '__setitem__' else []), st=st):
                    ks = live(o)
                    if ks is None:
                        R.undet('access', what, 'path condition not decided')
                        done = True
                        continue
                    if not ks:
                        continue
                    done = True
                    R.count('accesses')
                    if name not in NAMES[:dim]:
                        R.verdict(o.kind != 'return', 'access', what, 'refused', 'a point without that name answers with %s' % show(o.value)[:60])
                        continue
                    if o.kind != 'return':
                        raised(R, 'access', what, o)
                        continue
                    i = NAMES.index(name)
                    for k in ks:
                        m = Model(k)
                        now = G.fields(o.state, a, k)
                        want = list(before[k][1])
                        if meth == '__setitem__':
                            want[i] = m.num(m.ev(new))
                        else:
                            try:
                                got = m.num(m.ev(G.W.eng.val(o.state, o.value)))
                            except Undef:
                                R.undet('access', what, 'value read not decided: %s' % show(o.value)[:60])
                                break
                            if not close(got, want[i]):
                                R.violation('access', what, 'reads %s' % show(o.value)[:60])
                                break
                        if now[1] is None:
                            R.undet('access', what, 'coordinates not decided')
                            break
                        if not agree(now[1], want):
                            R.violation('access', what, 'leaves the coordinates %s, not %s' % (now[1], short(want)))
                            break
                    else:
                        R.ok('access', what, 'the coordinate of that name')
                if not done:
                    R.undet('access', what, 'no path')
                R.covers(G.W.eng)
