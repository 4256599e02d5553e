"""Typestate over event skeletons.

A trace of the abstract interpreter is a regular structure of events and loops
whose conditions, trip counts and indices are terms.  The skeleton walker
follows every way through it for a small instance (so many workers, so many
live points), with every message a peer may send enumerated, and runs a
typestate automaton over the events met.  Conditions are decided by evaluating
their terms; a condition that cannot be evaluated lets both ways pass and the
trajectory is marked as guessed.
"""
import time
from .terms import *
from .seqs import *
from .randeval import Model, Obj, Undef

START = time.time()


class Bad(object):
    __slots__ = ('rule', 'msg', 'loc')

    def __init__(self, rule, msg, loc):
        self.rule, self.msg, self.loc = rule, msg, loc

    def __repr__(self):
        return 'Bad(%s, %s)' % (self.rule, self.msg)


class Tr(object):
    """one trajectory"""
    __slots__ = ('env', 'gs', 'bad', 'guess')

    def __init__(self, env, gs, bad=None, guess=False):
        self.env, self.gs, self.bad, self.guess = env, gs, bad, guess

    def key(self):
        return (tuple(sorted((t.key, repr(v)) for t, v in self.env.items())), repr(self.gs), self.bad.rule if self.bad else None,
                self.guess)


def maybe_infinite(f):
    """`not isfinite(x)` / `isinf(x)` of a log-likelihood: minus infinity is a legitimate value"""
    if f.op == 'not':
        f, want = f.args[0], 'isfinite'
    else:
        want = 'isinf'
    return f.op == 'pred' and f.args[0] == want and any((x.op == 'fld' and x.args[1] == 'logL') or (x.op == 'call' and 'log_likelihood' in str(x.args[0]))
                                                         for x in subterms(f.args[1]))


class Skeleton(object):
    """choices(ev, tr) -> iterable of {term: value} bindings made when the event happens
    on(ev, tr, sk) -> new automaton state, or Bad"""

    def __init__(self, eng, bind, lens, choices, on, seed=1, maxiter=8, maxstates=6000, number=None):
        self.eng = eng
        self.base = dict(bind)
        self.lens = dict(lens)
        self.choices, self.on = choices, on
        self.seed, self.maxiter, self.maxstates = seed, maxiter, maxstates
        self.number = number
        self.undefined = set()
        self.overflow = False
        self.steps = 0
        self._un = {}
        self.rel = None
        self.used = None
        self.far = False
        self.conds = ()
        self.deadline = START + 400

    def model(self, tr):
        b = dict(self.base)
        b.update(tr.env)
        return Model(self.seed, bind=b, lens=self.lens, ints=lambda t: ('int', t) in self.eng.types, number=self.number)

    def value(self, tr, t):
        try:
            return self.model(tr).ev(t)
        except (Undef, ValueError, IndexError, ZeroDivisionError, OverflowError, TypeError):
            return Undef

    def vague(self, t, env):
        """the term has parts that are neither bound nor understood"""
        un = self._un.get(t)
        if un is None:
            from .props.common import unresolved_terms
            un = self._un[t] = unresolved_terms(t)
        return any(x not in env and x not in self.base for x in un)

    def holds(self, tr, f, m=None):
        if self.vague(f, tr.env):
            return None
        m = m or self.model(tr)
        try:
            return bool(m.truth(m.ev(f)))
        except (Undef, ValueError, IndexError, ZeroDivisionError, OverflowError, TypeError):
            return None

    def filter(self, trs, facts):
        out = []
        for t in trs:
            g = t.guess
            ok = True
            m = self.model(t)
            for f in facts:
                if maybe_infinite(f):
                    continue
                r = self.holds(t, f, m)
                if r is False:
                    ok = False
                    break
                if r is None:
                    g = True
            if ok:
                t.guess = g
                out.append(t)
        return out

    def dedupe(self, trs):
        seen, out, bad = set(), [], {}
        for t in trs:
            if t.bad is not None:
                # one witness is enough, a few are kept in case some turn out to be impossible
                b = (t.bad.rule, t.guess)
                if bad.get(b, 0) >= 200:
                    continue
            k = t.key()
            if k not in seen:
                seen.add(k)
                out.append(t)
                if t.bad is not None:
                    bad[b] = bad.get(b, 0) + 1
        if len(out) > self.maxstates:
            self.overflow = True
            out = out[:self.maxstates]
        return out

    def run(self, trace, trs):
        for e in trace:
            if not trs:
                break
            if time.time() > self.deadline:
                self.overflow = True
                return []
            if e.kind == 'loop':
                trs = self.loop(e, trs)
            elif e.get('paths'):
                trs = self.alternatives(e, trs)
            else:
                trs = self.event(e, trs)
        return trs

    def event(self, e, trs):
        out = []
        for t in trs:
            self.steps += 1
            for b in (self.choices(e, t) or ({},)):
                env = t.env
                if b:
                    env = dict(env)
                    env.update(b)
                n = Tr(env, t.gs, t.bad, t.guess)
                r = self.on(e, n, self)
                if isinstance(r, Bad):
                    n.bad = n.bad or r
                elif r is not None:
                    n.gs = r
                if b and self.used is not None and not self.used.issuperset(b):
                    # never looked at again
                    n.env = {k: v for k, v in env.items() if k not in b or k in self.used}
                out.append(n)
        return self.dedupe(out)

    def alternatives(self, e, trs):
        out = []
        for p in e.a['paths']:
            r = self.run(p.trace, [Tr(dict(t.env), t.gs, t.bad, t.guess) for t in trs])
            out.extend(self.filter(r, p.facts))
        return self.dedupe(out)

    def relevant(self, trace, terms, facts=()):
        """loop variables that decide conditions, trip counts or the terms of interest of an event"""
        need, sig, seen = set(), [], list(facts)

        def look(t):
            for x in subterms(t):
                if x.op == 'phi':
                    need.add(x)

        def go(tr):
            for e in tr:
                for t in terms(e):
                    look(t)
                    seen.append(t)
                if e.get('paths'):
                    if e.kind == 'loop' and is_term(e.n):
                        look(e.n)
                        seen.append(e.n)
                    for ph, init in (e.a.get('phis') or {}).items():
                        if init is not None:
                            sig.append((ph, init))
                    for p in e.a['paths']:
                        for f in p.facts:
                            look(f)
                            seen.append(f)
                        for ph, s in (p.sigma or {}).items():
                            sig.append((ph, s))
                        go(p.trace)
        go(trace)
        n = -1
        while n != len(need):
            n = len(need)
            for ph, s in sig:
                if ph in need:
                    look(s)
        self.conds = set(x for t in seen + [s for _, s in sig] for x in subterms(t) if x.op in ('lt', 'le', 'eq'))
        self.used = set()
        for t in seen:
            self.used.update(subterms(t))
        for ph, s in sig:
            if ph in need:
                self.used.update(subterms(s))
        return need

    def later(self, e, phis):
        """pass numbers at which a condition on the number of passes turns, and whether everything else is then as in the first pass"""
        cs = set()
        for x in self.conds:
            if e.uid in set(subterms(x)):
                cs.update(abs(float(c)) for y in subterms(x) for c in ([y.args[0]] if y.op == 'num' else [i[1] for i in y.args if i[0] == ()] if y.op == 'poly' else []))
        same = all(p.sigma.get(x) in (None, x) for p in e.a['paths'] if p.sigma for x in phis)
        return sorted(c for c in cs if self.maxiter - 2 < c < 1e9)[:3], same

    def loop(self, e, trs):
        phis = {p: i for p, i in (e.a.get('phis') or {}).items() if self.rel is None or p in self.rel}
        heads = []
        for t in trs:
            env = dict(t.env)
            for p, init in phis.items():
                if init is None:
                    continue
                v = self.value(t, init)
                if v is Undef or self.vague(init, t.env):
                    env.pop(p, None)
                else:
                    env[p] = v
            heads.append(Tr(env, t.gs, t.bad, t.guess))
        done = []
        self.passes(e, phis, heads, 0, done)
        if self.far and e.n is e.uid:
            starts, same = self.later(e, phis)
            for c in starts:
                self.passes(e, phis, [Tr(dict(t.env), t.gs, t.bad, t.guess or not same) for t in heads], int(c) - 1, done)
        if self.used is not None and e.uid not in self.used:
            for t in done:
                t.env = {k: v for k, v in t.env.items() if k is not e.uid}
        return self.dedupe(done)

    def passes(self, e, phis, heads, first, done):
        counted = is_term(e.n) and e.n is not e.uid
        cur = heads
        i = first
        while cur:
            go = []
            for t in cur:
                t.env = dict(t.env)
                t.env[e.uid] = i
                if counted:
                    n = self.value(t, e.n)
                    if n is not Undef and not isinstance(n, (int, float)):
                        n = Undef
                    if n is Undef or self.vague(e.n, t.env):
                        # unknown number of passes: stop here or go on
                        done.append(Tr(dict(t.env), t.gs, t.bad, True))
                        go.append(Tr(t.env, t.gs, t.bad, True))
                    elif i < n - 1e-9:
                        go.append(t)
                    else:
                        done.append(t)
                else:
                    done.append(Tr(dict(t.env), t.gs, t.bad, t.guess))
                    go.append(t)
            if i - first >= self.maxiter:
                if counted and go:
                    self.overflow = True
                break
            nxt = []
            # what one pass learns reaches the next one through the loop variables only
            keep = set(phis)
            for t in go:
                keep.update(t.env)
            for p in e.a['paths']:
                r = self.run(p.trace, [Tr(dict(t.env), t.gs, t.bad, t.guess) for t in go])
                r = self.filter(r, p.facts)
                for t in r:
                    env = dict(t.env)
                    for ph in phis:
                        s = p.sigma.get(ph) if p.sigma else None
                        if s is None:
                            continue
                        v = self.value(t, s)
                        if v is Undef or self.vague(s, t.env):
                            env.pop(ph, None)
                        else:
                            env[ph] = v
                    nxt.append(Tr({k: v for k, v in env.items() if k in keep}, t.gs, t.bad, t.guess))
            cur = self.dedupe(nxt)
            i += 1
