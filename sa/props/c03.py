"""C03: the ordered live-point collection."""
import ast
from .common import *
from ..engine import State

EXPLANATION = ('Inductive invariant (entries ordered by key; keys[i] = key(entry i)) checked for the constructor and every method of the live-point collection by abstract interpretation: '
               'the terms for the new entries, the new keys and the returned position are interpreted over random collections that satisfy the invariant, including ties. '
               'In the step, the fill and the main loop every change of the live points is matched with the same change of the keys.')
MUTANTS = [
    ('cpnest/NestedSampling.py', '        self._keys.insert(index, self._key(item))\n', '        self._keys.append(self._key(item))\n'),
    ('cpnest/NestedSampling.py', '        del self._keys[:n]\n', ''),
    ('cpnest/NestedSampling.py', '        del self._keys[:n]\n', '        del self._keys[:n-1]\n'),
    ('cpnest/NestedSampling.py', '        self.insert(index, item)\n', '        self.insert(index + 1, item)\n'),
    ('cpnest/NestedSampling.py', '        iterable = sorted(iterable, key=key)\n', '        iterable = list(iterable)\n'),
    ('cpnest/NestedSampling.py', '        return index\n', '        return index + 1\n'),
    ('cpnest/NestedSampling.py', "live_points, key=attrgetter('logL'))", "live_points, key=attrgetter('logP'))"),
    ('cpnest/NestedSampling.py', "index = self.params.insert_live_point(proposed)", "index = self.params.search(proposed); self.params.insert(index, proposed)"),
    ('cpnest/NestedSampling.py', "self.params = OrderedLivePoints(params)", "self.params = params"),
    ('cpnest/NestedSampling.py', "self._keys = [self._key(v) for v in iterable]", "self._keys = sorted([self._key(v) for v in iterable], reverse=True)"),
]
C = 'NestedSampling.OrderedLivePoints'


def check(P, R, tier):
    with R.guard('constructor', C):
        ctor(P, R)
    ci = P.cls(C)
    names = []
    for c in ci.mro():
        if not isinstance(c, str):
            for n in c.methods:
                if n not in names and not (n.startswith('__') and n != '__setitem__'):
                    names.append(n)
    for n in names:
        if n.startswith('_') and n != '__setitem__':
            continue
        with R.guard('method', C + '.' + n):
            method(P, R, ci, n)
    with R.guard('users', 'NestedSampler'):
        users(P, R, own(P, R, ci))


def own(P, R, ci):
    """methods of the collection that were shown to keep the entries and the keys together"""
    bad = [o for o in R.obs if o.rule in ('stays-sorted', 'keys-in-step', 'position') and o.verdict == 'violation']
    if bad or R.anchor_missing:
        return {}
    unsure = {o.construct.split('.')[-1] for o in R.obs if o.rule in ('stays-sorted', 'keys-in-step', 'method') and o.verdict == 'undetermined'}
    out = {}
    for c in ci.mro():
        if isinstance(c, str):
            continue
        inner = {n for n in ast.walk(c.node)}
        for n, fi in c.methods.items():
            private = n.startswith('_')
            if private and any(isinstance(x, ast.Attribute) and x.attr == n and x not in inner for m in P.modules.values() for x in ast.walk(m.tree)):
                continue
            out[fi.qual] = None if n in unsure or unsure and private else True
    return out


def logls(k, size):
    v = sorted(-6 + 11 * abs(math.sin(2.3 * k + 1.9 * j)) for j in range(size))
    if k % 4 == 1 and size > 2:
        v[1] = v[2]
    return v


class LPModel(Model):
    pass


def make(k, W, me, size, extra=None):
    """random collection that satisfies the invariant"""
    vals = logls(k, size)
    pts = [Obj(('pt', j)) for j in range(size)]

    def number(m, key):
        if isinstance(key, tuple) and len(key) == 3 and key[0] == 'fld' and key[2] == 'logL' and isinstance(key[1], tuple) and key[1][0] == 'pt':
            j = key[1][1]
            return vals[j] if j >= 0 else m.itemval
        return None
    bind = {mk('c0', me): pts, me: pts}
    kf = mk('fld', me, '_keys')
    bind[mk('c0', kf)] = vals
    bind[kf] = vals
    bind.update(extra or {})
    m = Model(k, bind=bind, number=number, ints=lambda t: ('int', t) in W.eng.types)
    m.vals, m.pts = vals, pts
    return m


def invariant(m, content, keys):
    """(sorted, keys in step) of the new state"""
    q = m.seq(m.ev(content))
    kk = [m.num(x) for x in m.seq(m.ev(keys))]
    ls = [m.num(Obj(('fld', m.key(x), 'logL'))) for x in q]
    return all(a <= b for a, b in zip(ls, ls[1:])), kk == ls, q


def ctor(P, R):
    W = World(P, hooks={'purecalls': True})
    x = W.sym('live_points', 'list', LP)
    outs = W.eng.instantiate(State(), P.cls(C), [x], {}, None)
    R.covers(W.eng)
    for st, me in outs:
        content = W.content(st, me)
        kf = W.field(st, me, '_keys')
        keys = W.content(st, kf)
        rs, rk = [], []
        for k in range(1, 20):
            n = 2 + k % 6
            vals = [-3 + 7 * abs(math.sin(3.1 * k + 1.3 * j)) for j in range(n)]

            def number(m, key):
                if isinstance(key, tuple) and len(key) == 3 and key[0] == 'fld' and key[2] == 'logL' and isinstance(key[1], tuple) and key[1][0] == 'pt':
                    return vals[key[1][1]]
            pts = [Obj(('pt', j)) for j in range(n)]
            m = Model(k, bind={x: pts, mk('c0', x): pts}, number=number)
            try:
                a, b, q = invariant(m, content, keys)
                rs.append(a and sorted(map(repr, q)) == sorted(map(repr, pts)))
                rk.append(b)
            except Undef:
                rs.append(None)
                rk.append(None)
        verdict(R, rs, content, 'constructor-sorted', C + '.__init__', 'a new collection holds the given points in increasing order', 'a new collection holds %s' % show(content)[:120])
        verdict(R, rk, keys, 'constructor-keys', C + '.__init__', 'one key per entry, at its position', 'the keys of a new collection are %s' % show(keys)[:120])


def verdict(R, rs, t, rule, construct, good, bad, where=''):
    v = allof(rs)
    R.verdict(None if v is False and unresolved(t) else v, rule, construct, good, bad, where)


def method(P, R, ci, name):
    fi = P.method(ci, name)
    W = World(P, hooks={'purecalls': True})
    me = W.instance(C)
    st = State()
    args, item, cnt = [], None, None
    ps = [a.arg for a in fi.node.args.args][1:]
    nd = len(fi.node.args.defaults)
    for p in ps[:len(ps) - nd if nd else None]:
        if 'n' == p or 'index' in p or p in ('i', 'k', 'num', 'count'):
            cnt = W.param(p, integer=True)
            args.append(cnt)
        else:
            item = W.sym(p, LP)
            args.append(item)
    outs = W.run(C, name, me, args, st=st)
    R.covers(W.eng)
    R.count('methods of the collection')
    F = C + '.' + name
    for o in returns(outs):
        content = W.content(o.state, me)
        kf = W.field(o.state, me, '_keys')
        keys = W.content(o.state, kf)
        unchanged = content is mk('c0', me) and keys is mk('c0', mk('fld', me, '_keys'))
        rs, rk, rp = [], [], []
        # small collections too; large ones for a path that only they take
        rounds = list(range(1, 60)) + [k for big in (130, 1300, 12000) for k in range(big, big + 3)]
        for k in rounds:
            size = 4 + k % 4 if k < 30 else k % 4
            if k >= 60:
                if rk:
                    break
                size = k
            m = make(k, W, me, size)
            if item is not None:
                m.bind[item] = Obj(('pt', -1))
                m.itemval = m.vals[k % size] if k % 5 == 0 and size else -7 + 13 * ((k * 0.618) % 1.0)
            if cnt is not None:
                m.bind[cnt] = size if k % 9 == 5 else k % 4
            if not feasible(m, o.facts):
                continue
            try:
                a, b, q = invariant(m, content, keys)
                rs.append(a)
                rk.append(b)
                if item is not None and o.value is not NONE:
                    p = m.num(m.ev(o.value))
                    if unchanged:
                        full = m.vals
                        rp.append(all(v <= m.itemval for v in full[:int(p)]) and all(v >= m.itemval for v in full[int(p):]))
                    else:
                        rp.append(0 <= p < len(q) and m.key(q[int(p)]) == ('pt', -1))
            except (Undef, IndexError):
                if size > 3 or not rs:
                    rs.append(None)
        where = o.trace[0].loc if o.trace else F
        verdict(R, rs, content, 'stays-sorted', F, 'entries stay in increasing order', 'the entries become %s, out of order' % show(content)[:140], where)
        verdict(R, rk, keys, 'keys-in-step', F, 'one key per entry, at its position', 'the keys become %s while the entries become %s' % (show(keys)[:140], show(content)[:140]), where)
        if rp:
            verdict(R, rp, o.value, 'position', F, 'the returned position is where the entry is', 'the returned position %s is not where the entry is placed' % show(o.value)[:100], where)


def users(P, R, own):
    S = Step(P)
    R.covers(S.W.eng)
    kf = mk('fld', S.params, '_keys')
    F = 'NestedSampler.consume_sample'
    n = 0
    for o in S.rets:
        for path, chain in bodies(o.trace):
            mp = [e for e in path if e.kind == 'mut' and e.obj is S.params]
            mkk = [e for e in path if e.kind == 'mut' and e.obj is kf]
            inside = [e for e in mp if e.func in own]
            if inside:
                R.verdict(True if all(own[e.func] for e in inside) else None, 'keys-follow', F, 'the live points are changed by methods that keep the keys', 'changed by a method that was not decided', inside[0].loc)
                n += len(inside)
                mp, mkk = [e for e in mp if e not in inside], [e for e in mkk if e.func not in own]
            if not mp and not mkk:
                continue
            n += len(mp)
            where = (mp or mkk)[0].loc
            if len(mp) != len(mkk):
                def diff(pp):
                    return sum(1 for e in pp if e.kind == 'mut' and e.obj is kf) - sum(1 for e in pp if e.kind == 'mut' and e.obj is S.params)
                d = len(mkk) - len(mp)
                other = any(diff(p2) * d < 0 for p2, c2 in bodies(o.trace))
                R.verdict(None if other else False, 'keys-follow', F, '', 'the live points are changed (%s) without the matching change of the keys' % ', '.join(e.a['name'] for e in mp), where)
                continue
            for a, b in zip(mp, mkk):
                x, y = mut_op(a), mut_op(b)
                v = None
                if x and y:
                    if x[0] == y[0] == 'ins':
                        v = same_pos(a.after.args[1], b.after.args[1]) and y[1] is mk('fld', x[1], 'logL')
                    elif x[0] == y[0] and x[0].startswith('del'):
                        v = x[1] is y[1] or cmp(x[1], y[1])
                    elif x[0] != y[0]:
                        v = False
                R.verdict(v, 'keys-follow', F, 'the keys change with the entries', 'the live points change by %s, the keys by %s' % (a.a['name'], b.a['name']), a.loc)
    R.count('changes of the live points matched', n)
    M = Main(P)
    R.covers(M.W.eng)
    G = 'NestedSampler.nested_sampling_loop'
    for o in M.rets:
        for e, l in walk(o.trace):
            if e.kind == 'mut' and e.obj is M.params:
                op = mut_op(e)
                base = e.after
                while base.op in ('sorted',):
                    base = base.args[0]
                rs = []
                for k in range(1, 8):
                    m = sorted_model(k, [base], 5)
                    try:
                        ls = [m.num(Obj(('fld', m.key(x), 'logL'))) for x in m.seq(m.ev(e.after))]
                        rs.append(ls == sorted(ls))
                    except Undef:
                        rs.append(None)
                verdict(R, rs, e.after, 'loop-keeps-order', G, 'the live points stay ordered', 'the live points become %s' % show(e.after)[:100], e.loc)
    W = World(P, volatile=('logLmax',), hooks={'purecalls': True})
    me = W.instance(NS)
    outs = W.run(NS, 'reset', me)
    R.covers(W.eng)
    for o in returns(outs):
        p = W.field(o.state, me, 'params')
        ty = W.eng.typ(p)
        ci = P.classes.get(ty) if hasattr(P, 'classes') and isinstance(ty, str) else None
        try:
            ci = P.cls(ty) if isinstance(ty, str) and ty not in ('list', 'seq') else None
        except AnchorMissing:
            ci = None
        c = W.content(o.state, p)
        v = None
        if ci is not None and (ci.qual == C or P.cls(C) in ci.mro()):
            v = True
        elif ty in ('list', 'seq', 'array'):
            v = False
        R.verdict(v, 'fill-ordered', 'NestedSampler.reset', 'the initial live points are put in an ordered collection',
                  'the initial live points are kept in %s' % show(c)[:80], o.trace[-1].loc if o.trace else '')


def same_pos(a, b):
    return True if a is b else None
