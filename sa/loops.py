"""Loops: fixpoint at the loop head, closed forms, and exits."""
import ast
from .terms import *
from .seqs import *
from . import terms as T
from . import library
from . import engine as E

LP = 'parameter.LivePoint'
MAXUNROLL = 8


def phi_for(eng, loc, init, backs):
    name = loc if isinstance(loc, str) else '%s' % (loc[1],)
    t = mk('phi', name, next(T._uid))
    ty = eng.typ(init) if init is not None else None
    if ty is None or init is NONE:
        for b in backs:
            ty = eng.typ(b) or ty
    if ty and not (isinstance(ty, str) and ty == 'seq' and False):
        if not (init is not None and init.op == 'tuple'):
            eng.types[t] = ty if ty != 'tuple' else 'tuple'
    et = eng.elemtype(init) if init is not None else None
    if et is None:
        for b in backs:
            et = eng.elemtype(b) or et
    if et:
        eng.setelem(t, et)
    if init is not None:
        eng.loopinfo[t] = init
    if init is not None and eng.typ(init) == 'number' and library.isinteger(eng, init) and \
            all(library.isinteger(eng, subst(b, {t: ZERO})) for b in backs):
        eng.types[('int', t)] = True
    return t


def made_after(t, uid):
    """the term holds something created after `uid`"""
    for x in subterms(t):
        if x.op in ('sym', 'ref', 'phi') and len(x.args) > 1 and isinstance(x.args[1], int) and x.args[1] > uid:
            return True
        if x.op in ('uid', 'iota') and x.args[0] > uid:
            return True
    return False


class Loop(object):
    def __init__(self, eng, st, node, step, iota=None, bounds=()):
        """step(state) -> list of (kind, value, state) for one iteration from the head state"""
        self.eng = eng
        self.entry = st
        self.node = node
        self.step = step
        self.iota = iota or mk('iota', next(T._uid))
        self.range = bounds
        eng.settype(self.iota, 'number')

    def solve(self):
        eng = self.eng
        entry = self.entry
        head = {}      # loc -> term at the head (overrides of the entry value)
        phis = {}      # loc -> phi
        closed = {}    # loc -> closed form
        denied = set()
        filtered = set()
        for rnd in range(24):
            notes0 = len(eng.notes)
            H = entry.fork()
            H.trace = ()
            for loc, t in head.items():
                self.put(H, loc, t)
            H0 = (dict(H.env), dict(H.heap))
            scope, eng.drawscope = eng.drawscope, (self.iota, {})
            try:
                outs = self.step(H.fork())
            finally:
                eng.drawscope = scope
            backs = [x for x in outs if x[0] in ('fall', 'continue')]
            changed = False
            # fields of existing objects first written in the body
            known = None
            for b in backs:
                for k in b[2].heap:
                    if k in H0[1] or not isinstance(k[1], str) or k[1] in ('$fresh', '$d', '$dict', '$ctorargs'):
                        continue
                    if k[0].op == 'ref':
                        if known is None:
                            known = set(kk[0] for kk in entry.heap)
                        if k[0] not in known:
                            continue
                    elif k[0].op in ('phi',) or contains(k[0], self.iota) or made_after(k[0], self.iota.args[0]):
                        continue
                    if k[1] == '$c':
                        d = eng.seqcontent(entry, k[0])
                    elif (k[0], '$fresh') in entry.heap:
                        d = mk('unset', k[0], k[1])
                    else:
                        d = eng.getfield(entry, k[0], k[1])
                    entry.heap[k] = d
                    changed = True
            if changed:
                del eng.notes[notes0:]
                continue
            # values of every location at the back edges
            vals = {}
            for loc in list(self.locs(H0)):
                h = self.get(H0, loc)
                bs = [self.getst(b[2], loc, h) for b in backs]
                vals[loc] = (h, bs)
            # pairwise generalisation
            for loc, (h, bs) in vals.items():
                if loc in closed and loc in filtered:
                    if self.reduced(loc, h, self.get((entry.env, entry.heap), loc), bs, backs, [phis[l] for l in phis if l not in closed]) is not closed[loc]:
                        denied.add(loc)
                        del closed[loc]
                        filtered.discard(loc)
                        head[loc] = phis[loc]
                        changed = True
                    continue
                if loc in closed:
                    want = subst(closed[loc], {self.iota: add(self.iota, ONE)})
                    if any(not self.same(b, want) for b in bs):
                        denied.add(loc)
                        del closed[loc]
                        head[loc] = phis[loc]
                        changed = True
                    continue
                if loc in phis:
                    continue
                if any(b is not h for b in bs):
                    p = phi_for(eng, loc, h, bs)
                    phis[loc] = p
                    head[loc] = p
                    changed = True
            if changed:
                del eng.notes[notes0:]
                continue
            # stable: try closed forms
            for loc, p in phis.items():
                if loc in closed or loc in denied:
                    continue
                h, bs = vals[loc]
                init = self.get((entry.env, entry.heap), loc)
                cf = self.closed(p, init, bs, phis, closed)
                if cf is None:
                    cf = self.reduced(loc, p, init, bs, backs, [phis[l] for l in phis if l not in closed])
                    if cf is not None:
                        filtered.add(loc)
                if cf is not None:
                    closed[loc] = cf
                    head[loc] = cf
                    if eng.elemtype(init) or eng.elemtype(p):
                        eng.setelem(cf, eng.elemtype(p) or eng.elemtype(init))
                    if eng.typ(p) and cf.op not in ('num', 'str', 'poly'):
                        eng.settype(cf, eng.typ(p))
                    changed = True         # re-run: others may depend on it
            if changed:
                del eng.notes[notes0:]
                continue
            break
        else:
            raise E.TooComplex('no fixpoint of the loop at line %d' % self.node.lineno)
        self.rounds = rnd
        self.head, self.phis, self.closedforms = head, phis, closed
        self.H = H0
        self.outs = outs
        self.backs = backs
        # sigma of each back edge
        self.paths = []
        for k, v, b in backs:
            sig = {}
            for loc, p in phis.items():
                if loc in closed:
                    continue
                bv_ = self.getst(b, loc, p)
                sig[p] = bv_
                if eng.is_lp(p):
                    for f in E.LPFIELDS:
                        fv = eng.getfield(b, bv_, f) if (eng.is_lp(bv_)) else fresh('nofield')
                        sig[mk('fld', p, f)] = fv
            facts = tuple(f for f in b.facts if f not in entry.facts)
            self.paths.append(E.Path(b.trace, facts, k, sig))
        return self

    # -- locations
    def locs(self, H):
        for k in H[0]:
            if not k.startswith('$'):
                yield k
        for k in H[1]:
            yield k

    def get(self, H, loc):
        return H[0].get(loc) if isinstance(loc, str) else H[1].get(loc)

    def getst(self, st, loc, default):
        if isinstance(loc, str):
            return st.env.get(loc, default)
        v = st.heap.get(loc)
        if v is None:
            return default
        return v

    def put(self, st, loc, t):
        if isinstance(loc, str):
            st.env[loc] = t
        else:
            st.heap[loc] = t

    def same(self, a, b):
        return a is b

    def closed(self, p, init, backs, phis, closed):
        """closed form at the head after iota iterations, or None"""
        eng, iota = self.eng, self.iota
        if init is None or not backs:
            return None
        live = [phis[l] for l in phis if l not in closed]
        if eng.is_lp(p) or any(eng.is_lp(b) for b in backs):
            return None
        b = backs[0]
        if any(x is not b for x in backs):
            return None

        def inv(t, iota_ok=False):
            for x in subterms(t):
                if x in live:
                    return False
                if x.op == 'sym' and x.args[1] > self.iota.args[0]:
                    return False
                if x.op == 'draw' and not (x.args[-1].op == 'uid' and x.args[-1].args[0] < self.iota.args[0]):
                    return False
                if x.op == 'ref' and x.args[1] > self.iota.args[0]:
                    return False
                if not iota_ok and x is iota:
                    return False
            return True
        # induction / sum
        if b.op in ('poly', 'num') or b is p:
            d = sub(b, p)
            if not contains(d, p):
                if inv(d):
                    return add(init, mul(iota, d))
                if inv(d, True):
                    return add(init, sumterm(iota, d, iota))
        if b.op == 'cat' and b.args[0] is p and len(b.args) == 2 and b.args[1].op == 'list' and len(b.args[1].args) == 1:
            x = b.args[1].args[0]
            xv = x
            if inv(xv, True) and not contains(xv, p):
                return cat(init, mapterm(iota, xv, iota))
        if b.op == 'cat' and b.args[0] is p and len(b.args) == 2 and b.args[1].op == 'slice' and False:
            return None
        if b.op == 'store' and b.args[0] is p:
            pos, val = b.args[1], b.args[2]
            if pos is iota and contains(val, p) and not contains(subst(val, {mk('idx', p, iota): ZERO}), p):
                # each position is written once, from what it held before the loop
                val = subst(val, {mk('idx', p, iota): mk('idx', init, iota)})
            if inv(pos, True) and inv(val, True) and not contains(val, p) and not contains(pos, p):
                both, v = lam(mk('tuple', pos, val), iota)
                r = mk('storemap', init, iota, both.args[0], both.args[1], v)
                return r
        return None


    def reduced(self, loc, h, init, bs, backs, live):
        if isinstance(loc, tuple) and loc[1] == '$c':
            return self.filtered(h, init, bs, backs, live)
        return self.extreme(h, init, bs, backs, live)

    def extreme(self, h, init, bs, backs, live):
        """the running maximum (minimum) of one value per iteration that meets a condition, or None"""
        iota = self.iota
        if init is None or not backs or init.op in ('list', 'tuple', 'cat', 'str', 'bool', 'none'):
            return None
        f, x, app = None, None, []
        for t, b in zip(bs, backs):
            if t is h:
                continue
            if t.op != 'call' or t.args[0] not in ('max', 'min') or len(t.args) != 3 or h not in t.args[1:]:
                return None
            y = [a for a in t.args[1:] if a is not h]
            if len(y) != 1 or f not in (None, t.args[0]) or x not in (None, y[0]):
                return None
            f, x = t.args[0], y[0]
            app.append(b)
        if x is None:
            return None
        c = TRUE if len(app) == len(backs) else or_(*[and_(*[g for g in b[2].facts if g not in self.entry.facts and g not in self.range]) for b in app])
        for t in (x, c):
            for y in subterms(t):
                if y in live or y is h or y.op == 'ref' and y.args[1] > iota.args[0] or y.op in ('draw', 'draws') or y.op == 'sym' and len(y.args) > 1 and isinstance(y.args[1], int) and y.args[1] > iota.args[0]:
                    return None
        if c is TRUE:
            return mk('call', f + 'of', cat(mk('list', init), mapterm(iota, x, iota)))
        both, v = lam(mk('tuple', c, x), iota)
        return mk('call', f + 'of', cat(mk('list', init), mk('filtermap', iota, both.args[0], both.args[1], v)))

    def filtered(self, h, init, bs, backs, live):
        """one entry appended in the iterations that meet a condition: the collection at the head, or None"""
        iota = self.iota
        if init is None or not backs:
            return None
        app, n = [], 0
        x = None
        for t, b in zip(bs, backs):
            if t is h:
                continue
            if t.op != 'cat' or t.args[-1].op != 'list':
                return None
            y = t.args[-1].args[-1]
            if cat(h, mk('list', y)) is not t or x not in (None, y):
                return None
            x = y
            app.append(b)
        if x is None:
            return None
        conds = []
        for b in app:
            conds.append(and_(*[f for f in b[2].facts if f not in self.entry.facts and f not in self.range]))
        c = TRUE if len(app) == len(backs) else or_(*conds)
        for t in (x, c):
            for y in subterms(t):
                if y in live or y is h or y.op == 'ref' and y.args[1] > iota.args[0] or y.op == 'sym' and len(y.args) > 1 and isinstance(y.args[1], int) and y.args[1] > iota.args[0]:
                    return None
        if c is TRUE:
            return cat(init, mapterm(iota, x, iota))
        if not contains(c, iota) and not any(y.op in ('draw', 'draws') for y in subterms(c)):
            return None
        both, v = lam(mk('tuple', c, x), iota)
        return cat(init, mk('filtermap', iota, both.args[0], both.args[1], v))


# ------------------------------------------------------------------ entry points
def has_effect(paths):
    return any(p.trace for p in paths)


def loopevent(eng, st, lp, n, seq, form, paths=None):
    paths = lp.paths if paths is None else paths
    if not paths:
        return None
    f = eng.frames[-1] if eng.frames else None
    return E.Ev('loop', dict(uid=lp.iota, n=n, seq=seq, paths=list(paths), form=form, phis={p: eng.loopinfo.get(p) for p in lp.phis.values()},
                             guard=getattr(lp, 'guard', None)),
                f.module.relpath if f else '?', lp.node.lineno, st.facts, st.locks, f.fi.qual if f and f.fi else '?')


def finish(eng, st, lp, end, ev):
    """compose the state at an exit with the trace before the loop"""
    tr = st.trace
    if ev is not None and has_effect(ev.a['paths']):
        tr = tr + (ev,)
    elif ev is not None and lp.phis:
        tr = tr + (ev,)
    end.trace = tr + end.trace
    return end


def subst_state(eng, st, m):
    memo = {}
    for k, v in list(st.env.items()):
        nv = subst(v, m, memo)
        if nv is not v:
            cp(eng, v, nv)
            st.env[k] = nv
    for k, v in list(st.heap.items()):
        nv = subst(v, m, memo)
        if nv is not v:
            cp(eng, v, nv)
            st.heap[k] = nv
    st.facts = tuple(subst(f, m, memo) for f in st.facts)
    st.facts = tuple(f for f in st.facts if f is not TRUE)
    return st


def cp(eng, a, b):
    if a in eng.types and b not in eng.types:
        eng.settype(b, eng.types[a])
    if ('elem', a) in eng.types and ('elem', b) not in eng.types:
        eng.types[('elem', b)] = eng.types[('elem', a)]


def for_loop(eng, st, n):
    out = []
    for s2, it in eng.ev(st, n.iter):
        c = eng.iterable(s2, it)
        if it.op == 'gen':
            eng.note('loop over generator', n)
            c = mk('call', 'gen', it)
        if c.op in ('list', 'tuple') and len(c.args) <= MAXUNROLL:
            out.extend(unrolled(eng, s2, n, list(c.args)))
            continue
        out.extend(counted(eng, s2, n, c, n.target, n.body, n.orelse))
    return out


def unrolled(eng, st, n, elems):
    live = [st]
    res = []
    for e in elems:
        nxt = []
        for s2 in live:
            for s3 in eng.assign(s2, n.target, e):
                for k, v, s4 in eng.block(s3, n.body):
                    if k in ('fall', 'continue'):
                        nxt.append(s4)
                    elif k == 'break':
                        res.append(('fall', NONE, s4))
                    else:
                        res.append((k, v, s4))
        live = eng.joinstates(nxt)
    for s2 in live:
        if n.orelse:
            res.extend(eng.block(s2, n.orelse))
        else:
            res.append(('fall', NONE, s2))
    return res


def counted(eng, st, n, c, target, body, orelse):
    iota = mk('iota', next(T._uid))
    eng.settype(iota, 'number')
    eng.types[('int', iota)] = True
    total = library.seqlen(eng, c)

    bounds = (le(ZERO, iota), lt(iota, total))

    def step(H):
        H.assume(bounds[0])
        H.assume(bounds[1])
        e = library.seqidx(eng, c, iota)
        eng.typeelem(c, e)
        outs = []
        for s2 in eng.assign(H, target, e):
            outs.extend(eng.block(s2, body))
        return outs
    lp = Loop(eng, st, n, step, iota, bounds).solve()
    res = []
    ev = loopevent(eng, st, lp, total, c, 'for')
    evb = loopevent(eng, st, lp, iota, c, 'for')
    every = search(eng, st, lp, total, bounds)
    # normal end
    for s2 in normal_exit(eng, st, lp, total):
        finish(eng, st, lp, s2, ev)
        if every is not None:
            s2.assume(every)
        if orelse:
            res.extend(eng.block(s2, orelse))
        else:
            res.append(('fall', NONE, s2))
    for k, v, s2 in lp.outs:
        if k in ('fall', 'continue'):
            continue
        if every is not None:
            # some element ends the search: which one does not matter
            s3 = st.fork()
            s3.assume(not_(every))
            for loc, t in s2.env.items():
                if t is not st.env.get(loc):
                    s3.env[loc] = fresh('found_' + loc) if contains(t, iota) else t
            res.append(('fall', NONE, s3) if k == 'break' else (k, v, s3))
            break
        finish(eng, st, lp, s2, evb)
        res.append(('fall', NONE, s2) if k == 'break' else (k, v, s2))
    return res


def search(eng, st, lp, total, bounds):
    """the condition under which every element lets a loop go on that only looks for one that does not; None for other loops"""
    iota = lp.iota
    exits = [x for x in lp.outs if x[0] not in ('fall', 'continue')]
    if not exits or not lp.backs or any(x[2].trace for x in lp.outs):
        return None
    k, v, s0 = exits[0]
    names = set(target_names(lp.node))
    same_ = lambda s2: {l: t for l, t in s2.env.items() if l not in names and t is not st.env.get(l)}
    mine = same_(s0)
    for k2, v2, s2 in exits:
        if k2 != k or v2 is not v or same_(s2) != mine:
            return None
    for t in [v] + list(mine.values()):
        if is_term(t) and any(y is iota or T_after(y, iota) for y in subterms(t)):
            return None
    live = [p for l, p in lp.phis.items() if l not in lp.closedforms and l not in names]
    if live:
        return None
    for x in lp.outs:
        for key, t in x[2].heap.items():
            if st.heap.get(key) is not t and key in st.heap:
                return None
    conds = []
    for b in lp.backs:
        if any(b[2].env.get(l) is not t for l, t in st.env.items() if l not in names):
            return None
        conds.append(and_(*[f for f in b[2].facts if f not in st.facts and f not in bounds]))
    c = or_(*conds)
    if c is TRUE or any(y.op in ('draw', 'draws', 'phi') or T_after(y, iota) for y in subterms(c)):
        return None
    return mk('pred', 'all', total, *lam(c, iota))


def T_after(y, iota):
    return y.op in ('sym', 'ref') and len(y.args) > 1 and isinstance(y.args[1], int) and y.args[1] > iota.args[0]


def target_names(node):
    return [x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)] if hasattr(node, 'target') else []


def normal_exit(eng, st, lp, total):
    """state when the iterations are exhausted"""
    if not lp.backs:
        # the body never completes an iteration: only the zero-trip exit
        z = decide_zero(eng, st, total)
        if z is False:
            return []
        s2 = st.fork()
        s2.trace = ()
        s2.assume(le(total, ZERO))
        return [s2]
    end = st.fork()
    end.trace = ()
    for loc, t in lp.head.items():
        lp.put(end, loc, t)
    m = {lp.iota: total}
    subst_state_partial(eng, end, m, lp)
    # variables and objects first bound in the body: last value
    last = {lp.iota: sub(total, ONE)}
    memo = {}
    for loc in set(k for b in lp.backs for k in b[2].env) - set(lp.H[0]):
        if loc.startswith('$'):
            continue
        vs = []
        for b in lp.backs:
            v = b[2].env.get(loc)
            if v is not None and v not in vs:
                vs.append(v)
        if len(vs) == 1 and len([b for b in lp.backs if loc in b[2].env]) == len(lp.backs):
            nv = subst(vs[0], last, memo)
            cp(eng, vs[0], nv)
            end.env[loc] = nv
        else:
            t = fresh('last_' + loc)
            for v in vs:
                eng.settype(t, eng.typ(v))
            end.env[loc] = t
    for b in lp.backs:
        for k, v in b[2].heap.items():
            if k not in end.heap and k not in lp.H[1]:
                nv = subst(v, last, memo)
                cp(eng, v, nv)
                if len(lp.backs) == 1:
                    end.heap[k] = nv
                elif k[0].op == 'ref' and not any(k in o[2].heap and o[2].heap[k] is not v for o in lp.backs):
                    end.heap[k] = nv
                elif k[0].op != 'ref':
                    # field of a pre-existing object first written in the loop
                    t = fresh('maybe_%s' % k[1])
                    end.heap[k] = t
    # a field of an existing object, first written in the body: only if it ran
    return [end]


def subst_state_partial(eng, st, m, lp):
    memo = {}
    for k, v in list(st.env.items()):
        nv = subst(v, m, memo)
        if nv is not v:
            cp(eng, v, nv)
            st.env[k] = nv
    for k, v in list(st.heap.items()):
        nv = subst(v, m, memo)
        if nv is not v:
            cp(eng, v, nv)
            st.heap[k] = nv


def decide_zero(eng, st, total):
    return E.decide(le(total, ZERO), st.facts)


def while_loop(eng, st, n):
    guard_false = []

    iota = mk('iota', next(T._uid))
    eng.settype(iota, 'number')
    eng.types[('int', iota)] = True

    def step(H):
        H.assume(le(ZERO, iota))
        outs = []
        for s2, g in eng.evcond(H, n.test):
            g = E.simplify(g, s2.facts)
            for br, s3 in eng.branch(s2, g):
                if br:
                    outs.extend(eng.block(s3, n.body))
        return outs

    # entry test
    res = []
    entries = []
    for s2, g in eng.evcond(st.fork(), n.test):
        g = E.simplify(g, s2.facts)
        d = E.decide(g, s2.facts)
        if d is False:
            res.extend(end_else(eng, s2, n))
        elif d is True:
            entries.append(('must', s2))
        else:
            entries.append(('may', s2))
            z = s2.fork()
            z.assume(not_(g))
            entries.append(('zero', z))
    if not any(k in ('must', 'may') for k, _ in entries):
        return res
    # small constant trip counts: the guard stays decided at the head
    unr = try_unroll(eng, st, n)
    if unr is not None:
        return unr
    lp = Loop(eng, st, n, step, iota).solve()
    # counting loop: guard is a comparison affine in iota at the head, nothing else varying
    tc = tripcount(eng, st, lp, n)
    if tc is not None:
        total, extra = tc
        ev = loopevent(eng, st, lp, total, None, 'while')
        evb = loopevent(eng, st, lp, iota, None, 'while')
        for s2 in normal_exit(eng, st, lp, total):
            finish(eng, st, lp, s2, ev)
            res.extend(end_else(eng, s2, n))
    else:
        # zero iterations
        for k, z in entries:
            if k == 'zero':
                res.extend(end_else(eng, z, n))
        # exits after an explicit last iteration
        keep = []
        exits = []
        for (k, v, b), pth in zip(lp.backs, lp.paths):
            b2 = b.fork()
            cont = False
            onward = []
            for s3, g in eng.evcond(b2, n.test):
                g = E.simplify(g, s3.facts)
                d = E.decide(g, s3.facts)
                if d is not True:
                    if d is None:
                        s4 = s3.fork().assume(not_(g))
                    else:
                        s4 = s3
                    exits.append(s4)
                if d is not False:
                    cont = True
                    onward.append(s3.facts if d else s3.fork().assume(g).facts)
            if cont:
                # the alternatives under which the pass is followed by another
                pth.onward = tuple(onward)
                keep.append(pth)
        evb = loopevent(eng, st, lp, iota, None, 'while', keep)
        for s4 in exits:
            s4 = s4.fork()
            finish(eng, st, lp, s4, evb)
            res.extend(end_else(eng, s4, n))
    for k, v, s2 in lp.outs:
        if k in ('fall', 'continue'):
            continue
        s2 = s2.fork()
        finish(eng, st, lp, s2, evb)
        res.append(('fall', NONE, s2) if k == 'break' else (k, v, s2))
    return res


def end_else(eng, s2, n):
    if n.orelse:
        return eng.block(s2, n.orelse)
    return [('fall', NONE, s2)]


def tripcount(eng, st, lp, n):
    """(number of iterations, facts) of a loop whose guard only counts"""
    if not lp.closedforms:
        return None
    H = st.fork()
    H.trace = ()
    for loc, t in lp.head.items():
        lp.put(H, loc, t)
    gs = eng.evcond(H, n.test)
    if len(gs) != 1 or gs[0][0].trace:
        return None
    g = gs[0][1]
    if g.op not in ('lt', 'le') and not (g.op == 'not' and g.args[0].op in ('lt', 'le', 'eqz')):
        return None
    live = [p for l, p in lp.phis.items() if l not in lp.closedforms]
    if any(x in live for x in subterms(g)) or not contains(g, lp.iota):
        return None
    if g.op == 'not':
        inner = g.args[0]
        co = coeff(inner.args[0], lp.iota)
        if co is None:
            return None
        if inner.op == 'eqz':
            # while x != y: counting by one until equal
            a, r = co
            if a is ONE or a is MINUS_ONE:
                return div(neg(r), a), None
            return None
        # not (p < 0)  ==  -p <= 0
        p = neg(inner.args[0])
        strict = inner.op == 'le'
    else:
        p = g.args[0]
        strict = g.op == 'lt'
    co = coeff(p, lp.iota)
    if co is None:
        return None
    a, r = co
    av = numval(a)
    if av is None or av <= 0:
        return None
    # a*iota + r < 0  -> iota < -r/a
    total = div(neg(r), a)
    if av != 1:
        total = call('ceil', total)
    if not strict:
        total = add(total, ONE) if av == 1 else add(call('floor', div(neg(r), a)), ONE)
    elif av == 1 and not library.isinteger(eng, total) and total.op != 'num':
        pass
    if numval(total) is not None and numval(total) < 0:
        total = ZERO
    return total, None


def try_unroll(eng, st, n):
    """run a while loop whose guard is decided by constants, at most MAXUNROLL times"""
    live = [st.fork()]
    res = []
    notes0 = len(eng.notes)
    # cheap pre-check: every comparison operand must evaluate to a constant now
    gs = eng.evcond(st.fork(), n.test)
    if len(gs) != 1 or gs[0][1] is not TRUE or isinstance(n.test, ast.Constant):
        return None
    bases = set(id(x.value) for x in ast.walk(n.test) if isinstance(x, ast.Attribute))
    names = set(x.id for x in ast.walk(n.test) if isinstance(x, ast.Name) and id(x) not in bases)
    if not all(numval(st.env[x]) is not None for x in names if x in st.env):
        return None
    for k in range(MAXUNROLL + 1):
        nxt = []
        for s2 in live:
            for s3, g in eng.evcond(s2, n.test):
                if g is TRUE:
                    if k == MAXUNROLL:
                        del eng.notes[notes0:]
                        return None
                    for kk, v, s4 in eng.block(s3, n.body):
                        if kk in ('fall', 'continue'):
                            nxt.append(s4)
                        elif kk == 'break':
                            res.append(('fall', NONE, s4))
                        else:
                            res.append((kk, v, s4))
                elif g is FALSE:
                    res.extend(end_else(eng, s3, n))
                else:
                    del eng.notes[notes0:]
                    return None
        live = nxt
        if not live:
            return res
    return None
