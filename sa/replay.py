"""Evaluation of summarised paths whose loops carry values from pass to pass.

A path that goes through a loop says what holds in the last pass; the values the loop carries are
variables (phis) with a first value and a new value for every pass. Here the passes are followed
for given inputs until one of the paths applies."""
from .terms import subterms
from .randeval import Model, Undef

BAD = (Undef, TypeError, ValueError, ZeroDivisionError, KeyError, OverflowError)


class Endless(Exception):
    pass


class Replay(object):
    def __init__(self, outs, model, limit=60, only=None, cache=None):
        """model(bind) -> Model; cache: shared between replays that use the same model"""
        self.cache = cache if cache is not None else {}
        self.outs, self.model, self.limit = outs, model, limit
        self.vague = None
        self.hits = []
        self.endless = None
        for o in outs:
            if only is not None and not only(o):
                continue
            loops = []
            seen = set()
            for e in o.trace:
                if e.kind == 'loop' and e.a['uid'] not in seen:
                    seen.add(e.a['uid'])
                    loops.append(e)
            # the conditions that can be evaluated once the first loops are followed
            own = [set(e.a.get('phis') or {}) | {e.a['uid']} for e in loops]
            self.stage = [[] for _ in range(len(loops) + 1)]
            for f in o.facts:
                k = 0
                for i, syms in enumerate(own):
                    if any(x in syms for x in subterms(f)) or self.drawn(f, loops[i].a['uid']):
                        k = i + 1
                self.stage[k].append(f)
            self.extend(o, loops, {}, True)

    def holds(self, facts, bind):
        """True, False, or None where a condition could not be evaluated"""
        r = True
        m = self.model(bind)
        for f in facts:
            try:
                if not m.truth(m.ev(f)):
                    return False
            except BAD as e:
                r = None
                self.vague = '%s' % e
        return r

    def extend(self, o, loops, bind, ok):
        r = self.holds(self.stage[len(self.stage) - 1 - len(loops)], bind)
        if r is False:
            return
        ok = ok if r else None
        if not loops:
            self.hits.append((o, bind, ok))
            return
        e = loops[0]
        phis = e.a.get('phis') or {}
        b = dict(bind)
        try:
            for p, init in phis.items():
                if init is None:
                    raise Undef('no first value')
                b[p] = self.model(bind).ev(init)
        except BAD as x:
            self.vague = str(x)
            self.hits.append((o, None, None))
            return
        for k in range(self.limit):
            b[e.a['uid']] = k
            n0 = len(self.hits)
            if e.n is not None and e.n is not e.a['uid']:
                try:
                    m = self.model(b)
                    n = m.num(m.ev(e.n))
                except BAD as x:
                    n = None
                if n is None or n <= k:
                    self.extend(o, loops[1:], dict(b), ok)
                    if n is not None:
                        return
            else:
                self.extend(o, loops[1:], dict(b), ok)
            if any(h[0] is o and h[2] for h in self.hits[n0:]):
                return
            try:
                key = (e.a['uid'],) + tuple(sorted((id(t), self.freeze(v)) for t, v in b.items()))
            except TypeError:
                key = None
            if key is not None and key in self.cache:
                nxt, vague = self.cache[key]
            else:
                nxt, vague = self.onward(e, b)
                if key is not None:
                    self.cache[key] = nxt, vague
            if vague:
                self.hits.append((o, None, None))
                self.vague = self.vague or vague
                return
            if nxt is None:
                return
            c = dict(b)
            try:
                for p in phis:
                    m = self.model(b)
                    c[p] = m.ev(nxt.sigma.get(p, p))
            except BAD as x:
                self.vague = str(x)
                self.hits.append((o, None, None))
                return
            if all(self.same(b[p], c[p]) for p in phis) and phis and not any(e.a['uid'] in subterms(f) and not self.trivial(f, e.a['uid']) or self.drawn(f, e.a['uid'])
                                                                        for f in list(nxt.facts) + list(nxt.sigma.values())):
                # nothing changes any more
                self.endless = e
                return
            b = c
        self.endless = e

    def freeze(self, v):
        if isinstance(v, list):
            return tuple(self.freeze(x) for x in v)
        hash(v)
        return v

    def onward(self, e, b):
        """(the path of the pass that applies, why it is unclear)"""
        nxt = None
        for p in e.a['paths']:
            if p.end not in ('fall', 'continue'):
                continue
            r = self.holds(p.facts, b)
            if r is False:
                continue
            if r is None or nxt is not None:
                return None, self.vague or 'several passes apply'
            nxt = p
        return nxt, None

    def drawn(self, f, uid):
        """a random number drawn after the loop began"""
        n = uid.args[0]
        for x in subterms(f):
            if x.op in ('draw', 'draws'):
                ks = [y.args[-1] for y in subterms(x) if y.op == 'uid']
                if not ks or max(ks) > n:
                    return True
        return False

    def trivial(self, f, uid):
        return f.op in ('le', 'lt') and all(x is uid or x.op in ('num', 'poly') for x in subterms(f) if x is not f)

    def same(self, a, b):
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return type(a) is type(b) and a == b

    def result(self):
        """(outcome, bindings) of the only path that applies; Undef if it is not clear, Endless if a loop is never left"""
        sure = [h for h in self.hits if h[2]]
        if len(sure) == 1 and len(self.hits) == 1:
            return sure[0][0], sure[0][1]
        if len(self.hits) == 0 and self.endless is not None and self.vague is None:
            raise Endless(self.endless.loc)
        raise Undef(self.vague or '%d paths apply' % len(self.hits))
