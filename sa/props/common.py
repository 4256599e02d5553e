"""Helpers shared by the property checks."""
import itertools
import math

from ..terms import *
from ..seqs import *
from .. import terms as T
from ..world import World, flat
from ..engine import decide, LP
from ..randeval import Model, Obj, Undef, same, same_value
from ..frontend import AnchorMissing

NS = 'NestedSampling.NestedSampler'
SAMPLERS = ('MetropolisHastingsSampler', 'HamiltonianMonteCarloSampler', 'SliceSampler')


def concrete_samplers(P):
    """the sampler classes of the package that produce samples"""
    base = P.cls('sampler.Sampler')
    out = []
    for c in P.subclasses(base):
        if c is not base and c.find('yield_sample'):
            out.append(c)
    if not out:
        raise AnchorMissing('no sampler class with yield_sample')
    return sorted(out, key=lambda c: c.qual)


def returns(outs):
    return [o for o in outs if o.kind == 'return']


def walk(trace, loops=()):
    """(event, enclosing ((loop event, path), ...)) for every event"""
    for e in trace:
        yield e, loops
        if e.get('paths'):
            for p in e.a['paths']:
                for x in walk(p.trace, loops + ((e, p),)):
                    yield x


def events(trace, *kinds):
    return [(e, l) for e, l in walk(trace) if e.kind in kinds]


# ------------------------------------------------------------- facts as orderings
def mentions(t, pivot):
    return contains(t, pivot)


def bool_atoms(t, out):
    if t.op in ('and', 'or', 'not'):
        for x in t.args:
            bool_atoms(x, out)
    elif t.op == 'ite' and all(x.op in T.BOOLOPS or x.op == 'ite' for x in t.args[1:]):
        for x in t.args:
            bool_atoms(x, out)
    elif t.op == 'bool':
        pass
    else:
        out.append(t)
    return out


def bool_eval(t, val):
    if t.op == 'and':
        return all(bool_eval(x, val) for x in t.args)
    if t.op == 'or':
        return any(bool_eval(x, val) for x in t.args)
    if t.op == 'not':
        return not bool_eval(t.args[0], val)
    if t.op == 'bool':
        return t.args[0]
    if t.op == 'ite' and t not in val:
        return bool_eval(t.args[1] if bool_eval(t.args[0], val) else t.args[2], val)
    return val[t]


def satisfiable(facts, pivot, model, always=()):
    """can the facts that mention the pivot all hold in the model?  Comparisons with
    the pivot are evaluated, every other condition may go either way unless the
    facts settle it.  None if a comparison cannot be interpreted."""
    rel = [f for f in facts if mentions(f, pivot)]
    others = [f for f in facts if f not in rel] + list(always)
    atoms = []
    for f in rel:
        for a in bool_atoms(f, []):
            if a not in atoms:
                atoms.append(a)
    fixed, free = {}, []
    for a in atoms:
        if mentions(a, pivot):
            try:
                fixed[a] = bool(model.ev(a))
            except Undef:
                return None
            except ValueError:
                return None
        else:
            d = decide(a, tuple(others))
            if d is None:
                free.append(a)
            else:
                fixed[a] = d
    if len(free) > 10:
        return None
    for bits in itertools.product((False, True), repeat=len(free)):
        val = dict(fixed)
        val.update(zip(free, bits))
        if all(bool_eval(f, val) for f in rel):
            return True
    return False


# ------------------------------------------------------------- sequence effects
def seq_effects(trace, ident):
    """net operations on one sequence along a path, in order:
    list of (op, multiplicity term, event); op None when not understood"""
    out = []
    for e in trace:
        if e.kind == 'mut' and e.obj is ident:
            out.append((mut_op(e), ONE, e))
        elif e.get('paths'):
            effs = [seq_effects(p.trace, ident) for p in e.a['paths']]
            sig = [[(o, m) for o, m, _ in x] for x in effs]
            if not any(sig):
                continue
            if all(s_ == sig[0] for s_ in sig):
                for o, m, ev in effs[0]:
                    out.append((o, mul(m, e.n) if m is not None and is_term(e.n) else None, ev))
            else:
                for x in effs:
                    for o, m, ev in x:
                        out.append((None, None, ev))
    return out


def mut_op(e):
    """classify a mutation: ('ins', value) ('app', value) ('ext', seq) ('delfront', k) ('delback', k)"""
    b, a = e.before, e.after
    # a map that grew: map(f, n) -> map(f, n + k)
    bl = b.args[-1] if b.op == 'cat' else b
    if bl.op == 'map':
        i = len(b.args) - 1 if b.op == 'cat' else 0
        ap = a.args if a.op == 'cat' else (a,)
        if len(ap) > i and ap[i].op == 'map' and ap[i] is not bl and ap[:i] == (b.args[:i] if b.op == 'cat' else ()) \
                and subst(ap[i].args[1], {ap[i].args[2]: bl.args[2]}) is bl.args[1]:
            k = numval(sub(ap[i].args[0], bl.args[0]))
            if k and 0 < k < 9:
                rest = cat(mk('list', *[subst(bl.args[1], {bl.args[2]: add(bl.args[0], num(j))}) for j in range(int(k))]), *ap[i + 1:])
                return ('app', rest.args[0]) if rest.op == 'list' and len(rest.args) == 1 else ('ext', rest)
    if a.op == 'ins' and a.args[0] is b:
        return ('ins', a.args[2])
    if a.op == 'cat' and b is not a:
        n = len(b.args) if b.op == 'cat' else 1
        base = b.args if b.op == 'cat' else (b,)
        if b is EMPTY:
            return ('ext', a)
        if a.args[:n] == base:
            rest = cat(*a.args[n:])
            if rest.op == 'list' and len(rest.args) == 1:
                return ('app', rest.args[0])
            return ('ext', rest)
        # the last literal part grew
        if a.args[:n - 1] == base[:-1] and base[-1].op == 'list' and a.args[n - 1].op == 'list' \
                and a.args[n - 1].args[:len(base[-1].args)] == base[-1].args:
            rest = cat(mk('list', *a.args[n - 1].args[len(base[-1].args):]), *a.args[n:])
            if rest.op == 'list' and len(rest.args) == 1:
                return ('app', rest.args[0])
            return ('ext', rest)
    if b is EMPTY and a.op == 'list' and len(a.args) == 1:
        return ('app', a.args[0])
    if b.op == 'list' and a.op == 'list' and a.args[:len(b.args)] == b.args and len(a.args) == len(b.args) + 1:
        return ('app', a.args[-1])
    if a.op == 'slice' and a.args[0] is b and a.args[3] is NONE:
        lo, hi = a.args[1], a.args[2]
        if hi is NONE and lo is not NONE:
            return ('delfront', lo)
        if lo is NONE and hi is not NONE:
            return ('keepfront', hi)
    if a.op == 'slice' and b.op == 'slice' and a.args[0] is b.args[0] and a.args[2] is NONE and b.args[2] is NONE \
            and b.args[1] is not NONE and a.args[1] is not NONE:
        return ('delfront', sub(a.args[1], b.args[1]))
    if e.a['name'] in ('popleft',) or (e.a['name'] == 'pop' and e.args and e.args[0] is ZERO):
        return ('delfront', ONE)
    if e.a['name'] == 'pop' and not e.args:
        return ('delback', ONE)
    if a.op == 'sorted' and a.args[0] is b:
        return ('sort', a.args[1])
    return None


def sites(P):
    return len(list(P.all_functions()))


def evt(e):
    return e.loc


# ------------------------------------------------------------- one nested-sampling step
LOW = -5.0 - 1 / 3.0 - 1 / 7.0e6       # not a number with few digits


class Step(object):
    """consume_sample analysed once, with the models used to compare terms"""

    def __init__(self, P, stubs=None):
        self.P = P
        self.W = W = World(P, volatile=('logLmax',), stubs=stubs, hooks={'purecalls': True})
        self.me = W.instance(NS)
        st = self.st0 = W.eng.run.__self__ and None
        from ..engine import State
        st = State()
        self.params = W.field(st, self.me, 'params')
        self.manager = W.field(st, self.me, 'manager')
        self.pipes = W.field(st, self.manager, 'consumer_pipes')
        self.nested = W.field(st, self.me, 'nested_samples')
        self.indices = W.field(st, self.me, 'insertion_indices')
        self.state = W.field(st, self.me, 'state')
        self.nlive = W.field(st, self.me, 'Nlive')
        self.snlive = W.field(st, self.state, 'nlive')
        self.nthreads = W.field(st, self.manager, 'nthreads')
        self.logLmin = W.field(st, self.me, 'logLmin')
        self.contour0 = W.eng.val(st, W.field(st, self.logLmin, 'value'))      # the contour of the step before, below every live point
        self.outs = W.run(NS, 'consume_sample', self.me)
        self.rets = returns(self.outs)

    def model(self, k, n=None, nlive=None, bind=None, extra=None, ties=False):
        """random model of a state at a step boundary: live points sorted, one pipe per thread; ties: the first two and the last discarded and the next are equal"""
        n = n or (2 + k % 3)
        L = nlive or (n + 3 + (k % 2))
        b = {self.nlive: L, self.snlive: L, self.nthreads: n, self.contour0: LOW - 1.0}
        b.update(bind or {})
        lens = {self.pipes: n, self.params: L}
        inv = mk('fld', self.params, '_keys')
        lens[inv] = L
        pk = None

        def number(m, key):
            # log-likelihood of the i-th live point grows with i
            if isinstance(key, tuple) and key[0] == 'fld' and key[2] == 'logL' and isinstance(key[1], tuple) and key[1][0] == 'elem':
                if key[1][1] == m.pkey:
                    return LOW + tied(key[1][2]) * 0.75 + 0.3 * (m.seed % 3)
            if isinstance(key, tuple) and key[0] == 'elem' and key[1] == m.kkey:
                return LOW + tied(key[2]) * 0.75 + 0.3 * (m.seed % 3)
            return None

        def tied(i):
            return i if not ties or i not in (1, n) else i - 1
        m = Model(k, bind=b, lens=lens, number=number, ints=lambda t: ('int', t) in self.W.eng.types)
        m.pkey = ('c0', m.key(m.ev(self.params)))
        m.kkey = ('c0', m.key(m.ev(inv)))
        m.n, m.L = n, L
        return m

    def replies(self):
        """points received from the workers: term -> recv event"""
        out = {}
        for o in self.outs:
            for e, l in walk(o.trace):
                if e.kind == 'recv' and e.value.op == 'tuple':
                    for x in e.value.args:
                        if x.op == 'sym' and x.args[0] == 'reply_point':
                            out[x] = e
        return out

    def admissions(self, o):
        """events that put a received point into the live points"""
        out = []
        for e, l in walk(o.trace):
            if e.kind == 'mut' and e.obj is self.params:
                ps = set(x for x in subterms(e.after) if x.op == 'sym' and x.args[0] == 'reply_point') - \
                    set(x for x in subterms(e.before) if x.op == 'sym' and x.args[0] == 'reply_point')
                for p in ps:
                    out.append((e, l, p))
        return out

    def removed(self, o):
        """term of the points a step takes out of the live points (from the low end), or None"""
        k = ZERO
        for op, m, e in seq_effects(o.trace, self.params):
            if op is None:
                return None
            if op[0] == 'delfront':
                if m is None:
                    return None
                k = add(k, mul(m, op[1]))
            elif op[0] not in ('ins', 'app', 'sort'):
                return None
        return slc(mk('c0', self.params), NONE, k) if k is not ZERO else EMPTY

    def discarded(self, o):
        r = self.removed(o)
        return r if r is not None else self.recorded(o)

    def recorded(self, o):
        """term of what this step added to the nested samples, or None"""
        effs = seq_effects(o.trace, self.nested)
        parts = []
        for op, m, e in effs:
            if op is None or m is None:
                return None
            if op[0] == 'ext' and m is ONE:
                parts.append(op[1])
            elif op[0] == 'app' and m is ONE:
                parts.append(mk('list', op[1]))
            elif op[0] in ('app',):
                lp = [l for ev, l in walk(o.trace) if ev is e]
                if lp and lp[0] and len(lp[0]) == 1:
                    le = lp[0][0][0]
                    parts.append(mapterm(le.n, op[1], le.uid) if le.uid is not None else None)
                else:
                    return None
            else:
                return None
        if any(p is None for p in parts):
            return None
        return cat(*parts) if parts else EMPTY


# ------------------------------------------------------------- comparing terms
OPAQUE_SYMS = ('opaque', 'const', 'unresolved', 'ctorarg', 'excattr', 'getattr', 'nofield', 'formatarg', 'import', 'rawvalue',
               'attrgetter', 'reduce_empty', 'heap', 'heapitem', 'repeat', 'localclass', 'classattr', 'unpickled', 'recv')
OPAQUE_PREFIX = ('noattr_', 'global_', 'havoc_', 'dict_', 'seq_', 'ext_', 'last_', 'maybe_', 'unbound_', 'missing_', 'file_', 'super_')


def unresolved_terms(t):
    """parts of a term the analysis could not give a meaning to: term -> name"""
    out = {}
    for x in subterms(t):
        if x.op == 'sym' and isinstance(x.args[0], str) and (x.args[0] in OPAQUE_SYMS or x.args[0].startswith(OPAQUE_PREFIX)):
            out[x] = x.args[0]
        elif x.op == 'phi':
            out[x] = 'phi ' + str(x.args[0])
        elif x.op == 'call' and isinstance(x.args[0], str):
            f = x.args[0]
            if f.startswith('.') or f.split('.')[0] in ('numpy', 'scipy', 'math', 'operator', 'itertools', 'corner', 'apply', 'heap'):
                out[x] = f
        elif x.op in ('havoc', 'unset', 'gen'):
            out[x] = x.op
    return out


def unresolved(t):
    """names of the parts of a term the analysis could not give a meaning to"""
    return set(unresolved_terms(t).values())


def cmp(a, b, **kw):
    """same(), but only claims a difference between terms whose parts are all understood"""
    r = same(a, b, **kw)
    if r is False and (unresolved(a) ^ unresolved(b)):
        return None
    return r


def allof(rs):
    rs = list(rs)
    if any(r is False for r in rs):
        return False
    return True if rs and all(r is True for r in rs) else None


# ------------------------------------------------------------- stubs
def marker(kind, retval=NONE, effect=None):
    """a stub that stands for a callee analysed elsewhere: leaves an event in the trace"""
    def h(eng, st, fi, args, kwargs, node):
        eng.event(st, 'mark', node, name=kind, args=tuple(eng.val(st, a) for a in args[1:]), kwargs=dict(kwargs))
        if effect:
            effect(eng, st, args)
        return [(st, retval(eng) if callable(retval) else retval)]
    return h


def marks(trace, name):
    return [(e, l) for e, l in walk(trace) if e.kind == 'mark' and e.a['name'] == name]


STEP_FIELDS = ('condition', 'iteration', 'accepted', 'rejected', 'queue_counter', 'acceptance')
STEP_STATE = ('logZ', 'oldZ', 'logw', 'info', 'iteration')


def step_effect(eng, st, args):
    """what a step may change, havocked"""
    me = args[0]
    for f in STEP_FIELDS:
        t = fresh('after_step_' + f)
        eng.settype(t, 'number')
        st.heap[(me, f)] = t
    for f in ('params', 'nested_samples', 'insertion_indices'):
        o = eng.getfield(st, me, f)
        t = fresh('after_step_' + f)
        eng.settype(t, 'seq')
        eng.setelem(t, eng.elemtype(o) or LP)
        st.heap[(o, '$c')] = t
    so = eng.getfield(st, me, 'state')
    for f in STEP_STATE:
        t = fresh('after_step_state_' + f)
        eng.settype(t, 'number')
        st.heap[(so, f)] = t
    for f in ('logLs', 'log_vols'):
        o = eng.getfield(st, so, f)
        t = fresh('after_step_' + f)
        eng.settype(t, 'seq')
        st.heap[(o, '$c')] = t


class Main(object):
    """nested_sampling_loop with the callees decided by other properties replaced by markers"""
    NAMES = dict(reset='reset', consume_sample='step', check_insertion_indices='indices',
                 write_chain_to_file='write_chain', write_evidence_to_file='write_evidence', checkpoint='checkpoint')

    def __init__(self, P, inline=(), stubs=None):
        from ..engine import State
        self.P = P
        stt = {}
        for meth, nm in self.NAMES.items():
            if meth in inline:
                continue
            P.method(NS, meth)
            stt['NestedSampler.' + meth] = marker(nm, effect=step_effect if nm in ('step', 'reset') else None)
        if 'finalise' not in inline:
            stt['_NSintegralState.finalise'] = self.finalise(P)
        if 'increment' not in inline:
            stt['_NSintegralState.increment'] = marker('increment')
        stt['_NSintegralState.plot'] = marker('plot')
        if 'NestedSampler.consume_sample' in stt:
            def hstep(eng, st, fi, args, kwargs, node):
                eng.event(st, 'mark', node, name='step', args=(), kwargs={}, condition=eng.getfield(st, args[0], 'condition'))
                step_effect(eng, st, args)
                return [(st, NONE)]
            stt['NestedSampler.consume_sample'] = hstep
        stt.update(stubs or {})
        self.W = W = World(P, volatile=('logLmax',), stubs=stt, hooks={'purecalls': True})
        self.me = W.instance(NS)
        st = State()
        self.st = st
        self.params = W.field(st, self.me, 'params')
        self.manager = W.field(st, self.me, 'manager')
        self.pipes = W.field(st, self.manager, 'consumer_pipes')
        self.nested = W.field(st, self.me, 'nested_samples')
        self.indices = W.field(st, self.me, 'insertion_indices')
        self.state = W.field(st, self.me, 'state')
        self.nlive = W.field(st, self.me, 'Nlive')
        self.condition = W.field(st, self.me, 'condition')
        self.tolerance = W.field(st, self.me, 'tolerance')
        self.prior = W.field(st, self.me, 'prior_sampling')
        self.initialised = W.field(st, self.me, 'initialised')
        self.outs = W.run(NS, 'nested_sampling_loop', self.me)
        self.rets = returns(self.outs)

    def finalise(self, P):
        """stub of finalise: a new evidence, returned too when finalise returns the one it stores"""
        W = World(P, hooks={'purecalls': True})
        ci = P.cls('NestedSampling._NSintegralState')
        me = W.instance(ci)
        kind = 'none'
        try:
            rets = [(o.value, W.eng.getfield(o.state, me, 'logZ')) for o in W.run(ci, 'finalise', me) if o.kind == 'return']
            if rets and all(v is z for v, z in rets):
                kind = 'logZ'
            elif not rets or any(v is not NONE for v, z in rets):
                kind = 'other'
        except Exception:
            kind = 'other'

        def h(eng, st, fi, args, kwargs, node):
            eng.event(st, 'mark', node, name='finalise', args=tuple(eng.val(st, a) for a in args[1:]), kwargs=dict(kwargs))
            self.final_effect(eng, st, args)
            return [(st, {'none': NONE, 'logZ': st.heap[(args[0], 'logZ')]}.get(kind) or fresh('finalise_value'))]
        return h

    @staticmethod
    def final_effect(eng, st, args):
        t = fresh('final_logZ')
        eng.settype(t, 'number')
        st.heap[(args[0], 'logZ')] = t

    def prior_mode(self, o):
        """True: outcome belongs to prior sampling, False: to an evidence run, None: both"""
        from ..engine import decide as dec
        return dec(mk('truthy', self.prior) if False else truth(self.prior), o.facts)


def appended(trace, ident):
    """term of what a path adds at the end of a sequence, or None when it does something else too"""
    parts = []
    for e in trace:
        if e.kind == 'mut' and e.obj is ident:
            op = mut_op(e)
            if op is None or op[0] not in ('app', 'ext'):
                return None
            parts.append(mk('list', op[1]) if op[0] == 'app' else op[1])
        elif e.get('paths'):
            effs = [appended(p.trace, ident) for p in e.a['paths']]
            if any(x is None for x in effs):
                return None
            if all(x is EMPTY for x in effs):
                continue
            if e.kind != 'loop' or not is_term(e.n):
                return None
            x = effs[0]
            if any(y is not x for y in effs):
                x = gated(e, effs)
            if x.op == 'list' and len(x.args) == 1:
                parts.append(mapterm(e.n, x.args[0], e.uid))
            else:
                # a block of several elements per pass
                parts.append(mk('call', 'concat', mapterm(e.n, x, e.uid)))
    return cat(*parts) if parts else EMPTY


def gated(e, vals):
    """one term for the alternatives of a loop body, chosen by the path conditions"""
    r = vals[-1]
    for p, v in zip(reversed(e.a['paths'][:-1]), reversed(vals[:-1])):
        if v is not r:
            r = ite(and_(*p.facts), v, r)
    return r


def total(trace, pick):
    """number of events chosen by pick along a path, as a term (None: depends on the path taken)"""
    n = ZERO
    for e in trace:
        if pick(e):
            n = add(n, ONE)
        if e.get('paths') and e.kind == 'loop':
            ts = [total(p.trace, pick) for p in e.a['paths']]
            if any(t is None for t in ts):
                return None
            if all(t is ZERO for t in ts):
                continue
            if not is_term(e.n):
                return None
            x = ts[0]
            if any(t is not x for t in ts):
                x = gated(e, ts)
            if contains(x, e.uid):
                n = add(n, sumterm(e.n, x, e.uid))
            else:
                n = add(n, mul(e.n, x))
        elif e.get('paths'):
            ts = [total(p.trace, pick) for p in e.a['paths']]
            if any(t is not ZERO for t in ts):
                return None
    return n


def has_kind(e, f):
    return any(f(x) for x, _ in walk((e,)))


def first_index(trace, f):
    for i, e in enumerate(trace):
        if has_kind(e, f):
            return i
    return None


def last_index(trace, f):
    r = None
    for i, e in enumerate(trace):
        if has_kind(e, f):
            r = i
    return r


def sorted_model(k, contents, L, bind=None, ints=None, lens=None, lowest=None, ties=False):
    """model in which the points of the given content terms have increasing log-likelihood; ties: the first two are equal, so are the last two,
    and points of other collections tie with the first"""
    keys = []

    def number(m, key):
        if isinstance(key, tuple) and key[0] == 'fld' and key[2] == 'logL' and isinstance(key[1], tuple) and key[1][0] == 'elem' and key[1][1] in m.skeys:
            if lowest is not None and key[1][2] == 0:
                return lowest
            i = key[1][2]
            if ties and isinstance(i, int):
                i = 1 if i == 0 else i - 1 if i == L - 1 else i
            return -4.0 + 0.8 * i + 0.2 * (k % 3)
        if ties and isinstance(key, tuple) and key[0] == 'fld' and key[2] == 'logL':
            return -4.0 + 0.8 + 0.2 * (k % 3)
        return None
    ln = {c: L for c in contents}
    ln.update(lens or {})
    m = Model(k, bind=dict(bind or {}), lens=ln, number=number, ints=ints)
    m.skeys = ()
    m.skeys = tuple(x for c in contents for x in contkeys(m, c))
    m.memo = {}
    for c in contents:
        for x in contkeys(m, c):
            m.lens[x] = L
    return m


def contkeys(m, c):
    v = m.ev(c)
    if isinstance(v, Obj):
        return [v.key]
    if v and isinstance(v[0], Obj) and v[0].key[0] == 'elem':
        return [v[0].key[1]]
    return []


def branches(terms, facts=(), limit=4):
    """ways in which the conditional expressions inside the terms can go: list of mappings for subst"""
    conds = []
    ites = set(x for t in terms for x in subterms(t) if x.op == 'ite')
    for x in sorted(ites):
        if x.args[0] not in conds:
            conds.append(x.args[0])
    free = [c for c in conds if decide(c, tuple(facts)) is None]
    if len(free) > limit:
        raise Undef('too many conditional expressions')
    out = []
    for bits in itertools.product((True, False), repeat=len(free)):
        val = dict(zip(free, bits))
        m = {}
        for x in ites:
            d = val[x.args[0]] if x.args[0] in val else decide(x.args[0], tuple(facts))
            m[x] = x.args[1] if d else x.args[2]
        for _ in range(len(ites)):
            m = {k: subst(v, m) for k, v in m.items()}
        out.append(m)
    return out


def feasible(m, facts):
    """False when the model contradicts a comparison among the facts of a path"""
    for f in facts:
        if not any(x.op in ('lt', 'le', 'eqz', 'eq', 'is') for x in bool_atoms(f, [])):
            continue
        if not grounded(m, f):
            continue
        try:
            if not m.truth(m.ev(f)):
                return False
        except (Undef, ValueError, RecursionError):
            continue
    return True


def grounded(m, t):
    """every leaf of the term has a value chosen for the model"""
    if t in m.bind or t in m.lens:
        return True
    if t.op in ('fld', 'sym', 'c0', 'draw', 'draws', 'phi', 'iota', 'unset'):
        return False
    return all(grounded(m, x) for x in subargs(t))


def subargs(t):
    out = []

    def go(a):
        if is_term(a):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                go(x)
    for a in t.args:
        go(a)
    return out


RANGE = (0, 1, 2, 3, 7, 10, 64, 100, 1000, 1024, 5000, 10 ** 6, 10 ** 9)


def passthrough(t, param, values=RANGE + (1e-9, 1e-3, 0.1, 0.5, 2.5, -1.0)):
    """does the term have the value of the parameter, whatever it is?"""
    if t is param:
        return True
    res = []
    for k, v in enumerate(values):
        m = Model(k + 1, bind={param: v})
        try:
            res.append(m.num(m.ev(t)) == v)
        except (Undef, ValueError, OverflowError):
            res.append(None)
    v = allof(res)
    return None if v is False and (unresolved(t)) else v


def bodies(trace, chain=()):
    """every straight-line event sequence with the loops around it"""
    yield trace, chain
    for e in trace:
        if e.get('paths'):
            for p in e.a['paths']:
                for x in bodies(p.trace, chain + ((e, p),)):
                    yield x


# ------------------------------------------------------------- one worker
class Worker(object):
    """produce_sample of one sampler class; the moves, the initial pool, checkpoint writing and
    the chain-length estimate are decided by other properties and replaced by markers"""

    def __init__(self, P, cls, inline=(), stubs=None, entry='produce_sample'):
        from ..engine import State
        self.P = P
        self.cls = cls
        stt = {}
        for c in [x for x in cls.mro() if not isinstance(x, str)]:
            for meth, nm in (('reset', 'reset'), ('checkpoint', 'checkpoint'), ('estimate_nmcmc', 'estimate'), ('estimate_nmcmc_on_the_fly', 'estimate')):
                if meth not in inline:
                    stt[c.name + '.' + meth] = marker(nm, effect=self.reset_effect if nm == 'reset' else None)
            stt['next:' + c.name + '.yield_sample'] = self.move
        stt.update(stubs or {})
        self.W = W = World(P, volatile=('logLmin', 'logLmax', 'checkpoint_flag'), stubs=stt, hooks={'purecalls': True, 'lpevents': True})
        st = State()
        self.me = W.instance(cls)
        self.pipe = W.field(st, self.me, 'producer_pipe')
        self.pool = W.field(st, self.me, 'evolution_points')
        self.bind = {W.field(st, self.me, 'poolsize'): 8, W.field(st, self.me, 'maxmcmc'): 50}
        self.points = []
        self.counts = []
        self.after = {}
        self.outs = W.run(cls, entry, self.me)

    def reset_effect(self, eng, st, args):
        st.heap[(args[0], 'initialised')] = TRUE

    def move(self, eng, st, fi, args, kwargs, node):
        names = [a.arg for a in fi.node.args.args][1:]
        lim = args[1] if len(args) > 1 else kwargs.get(names[0] if names else 'logLmin')
        n = fresh('move_count')
        eng.settype(n, 'number')
        eng.types[('int', n)] = True
        p = fresh('move_point')
        eng.settype(p, LP)
        eng.event(st, 'mark', node, name='move', args=(lim,), kwargs={}, count=n, point=p)
        self.points.append(p)
        self.counts.append(n)
        for f in ('acceptance', 'sub_acceptance', 'mcmc_accepted', 'mcmc_counter'):
            t = fresh('move_' + f)
            eng.settype(t, 'number')
            st.heap[(args[0], f)] = t
            self.after[t] = f
        return [(st, mk('tuple', n, p))]


class Reset(object):
    """the drawing of the initial pool of one sampler class, moves replaced by markers"""

    def __init__(self, P, cls, hooks=None, stubs=None):
        from ..engine import State
        ci = P.cls(cls) if isinstance(cls, str) else cls
        stt = {}
        for c in [x for x in ci.mro() if not isinstance(x, str)]:
            stt['next:' + c.name + '.yield_sample'] = self.move
            stt[c.name + '.estimate_nmcmc'] = marker('estimate')
            stt[c.name + '.estimate_nmcmc_on_the_fly'] = marker('estimate')
        stt.update(stubs or {})
        hk = {'lpevents': True, 'purecalls': True}
        hk.update(hooks or {})
        self.W = W = World(P, hooks=hk, stubs=stt)
        self.me = me = W.instance(ci)
        st = State()
        self.pool = W.field(st, me, 'evolution_points')
        self.proposal = W.field(st, me, 'proposal')
        self.moved = []
        self.outs = W.run(ci, 'reset', me, ())

    def move(self, eng, st, fi, args, kwargs, node):
        n, p = fresh('move_count'), fresh('move_point')
        eng.settype(n, 'number')
        eng.settype(p, LP)
        self.moved.append(p)
        eng.event(st, 'mark', node, name='move', args=tuple(args[1:]), kwargs=dict(kwargs), point=p)
        return [(st, mk('tuple', n, p))]


def is_request(t):
    return t.op == 'sym' and t.args[0] == 'request'


# ------------------------------------------------------------- the run
class Run(object):
    """CPNest.run with the parts decided elsewhere replaced by markers"""
    GETTERS = ('get_nested_samples', 'get_posterior_samples', 'get_prior_samples', 'get_mcmc_samples')

    def __init__(self, P, inline=(), stubs=None):
        from ..engine import State
        self.P = P
        stt = {}

        def add_(cls, meth, mark_, **kw):
            if meth not in inline and P.cls(cls).find(meth):
                stt['%s.%s' % (cls.split('.')[-1], meth)] = marker(mark_, **kw)
        add_(NS, 'nested_sampling_loop', 'sampling')
        add_(NS, 'check_insertion_indices', 'indices')
        for g in self.GETTERS:
            add_('cpnest.CPNest', g, g, retval=lambda eng, g=g: fresh('got_' + g))
        add_('cpnest.CPNest', 'plot', 'plot')
        stt.update(stubs or {})
        self.W = W = World(P, volatile=('logLmax',), stubs=stt, hooks={'purecalls': True})
        st = self.st = State()
        self.me = W.instance('cpnest.CPNest')
        self.pool = W.field(st, self.me, 'process_pool')
        self.verbose = W.field(st, self.me, 'verbose')
        self.resume = W.field(st, self.me, 'resume')
        self.ns = W.field(st, self.me, 'NS')
        self.prior = W.field(st, self.ns, 'prior_sampling')
        self.manager = W.field(st, self.me, 'manager')
        self.outs = W.run('cpnest.CPNest', 'run', self.me)
        self.rets = returns(self.outs)


def raised(o):
    """(exception class name, arguments) of an outcome that ends with an exception"""
    if o.kind != 'raise':
        return None
    return o.value


# ------------------------------------------------------------- moves of the samplers
HMC, SLICE, MH = 'HamiltonianMonteCarloSampler', 'SliceSampler', 'MetropolisHastingsSampler'


class View(object):
    """a point as seen by the analysis: coordinates, likelihood and prior it carries"""
    def __init__(self, ident, coords, logL, logP):
        self.ident, self.coords, self.logL, self.logP = ident, coords, logL, logP

    def fields(self):
        return (self.coords, self.logL, self.logP)

    def __repr__(self):
        return 'View(%s, %s, %s)' % tuple(show(x)[:50] for x in self.fields())


class Transition(object):
    def __init__(self, pre, post, facts, trace, where, loop, W, entry):
        self.pre, self.post, self.facts, self.trace, self.where, self.loop, self.W, self.entry = pre, post, facts, trace, where, loop, W, entry


class Move(object):
    """one yield_sample request of a sampler class, for every kind of direction a slice jump can return"""

    def __init__(self, P, cls, hooks=None, stubs=None):
        from ..engine import State
        self.P, self.cls = P, cls
        ci = P.cls(cls)
        fi = P.method(ci, 'yield_sample')
        self.parts = []
        for mode in (('vec', 'lp') if any(c.name == SLICE for c in ci.mro() if not isinstance(c, str)) else ('',)):
            hk = {'lpevents': True}
            if mode:
                def direction(eng, st, p, v, node, mode=mode):
                    eng.settype(v, LP if mode == 'lp' else 'array')
                    return [(st, v)]
                hk['direction'] = direction
            if any(c.name == HMC for c in ci.mro() if not isinstance(c, str)):
                def proposed(eng, st, p, r, args, kwargs):
                    c = eng.val(st, eng.getfield(st, r, '$coords'))
                    for f, fn in (('logL', 'LL'), ('logP', 'LP')):
                        st.heap[(r, f)] = eng.settype(mk('call', fn, c), 'number')
                hk['proposed'] = proposed
            hk.update(hooks or {})
            W = World(P, volatile=('logLmin', 'logLmax'), hooks=hk, stubs=stubs or {})
            me = W.instance(ci)
            lim = W.param('logLmin')
            st = State()
            W.mode = mode
            W.me, W.lim = me, lim
            W.pool = W.field(st, me, 'evolution_points')
            W.samples = W.field(st, me, 'samples')
            W.outs = W.eng.run_generator(fi, me, (lim,), {})
            self.parts.append(W)
        self.eng = self.parts[0].eng

    def returns(self):
        for W in self.parts:
            for o in W.outs:
                if o.kind == 'return':
                    yield W, o

    def point(self, W, o):
        """the point a path delivers"""
        v = o.value
        pts = [a for a in (v.args if v.op == 'tuple' else (v,)) if is_term(a) and W.eng.is_lp(a)]
        return pts[0] if len(pts) == 1 else None

    def view(self, W, st, p):
        g = W.eng.getfield
        return View(p, W.eng.val(st, g(st, p, '$coords')), g(st, p, 'logL'), g(st, p, 'logP'))

    def transitions(self):
        """every change of the chain's current point: one per loop path and one per way out"""
        out = []
        done = set()
        for W, o in self.returns():
            p = self.point(W, o)
            if p is None:
                out.append(None)
                continue
            post = self.view(W, o.state, p)
            self.chain(W, o.trace, o.facts, post, out, done, o.trace[-1].loc if o.trace else '', None)
        return out

    def lpphis(self, W, le):
        """live-point variables carried by a loop that keep their value on some path, with their start"""
        res = []
        for p, init in (le.a.get('phis') or {}).items():
            if p.op == 'phi' and W.eng.is_lp(p):
                res.append((p, init))
        return res

    def chain(self, W, trace, facts, post, out, done, where, default, prefix=()):
        """transitions that lead to `post` at the end of a trace"""
        loops = [e for e in trace if e.kind == 'loop']
        src = None
        for le in reversed(loops):
            for p, init in self.lpphis(W, le):
                if post.ident is p or post.coords is mk('fld', p, '$coords'):
                    src = (le, p, init)
                    break
            if src:
                break
        if src is None:
            # a new point: the current one is the variable of the innermost enclosing or preceding loop that can stay
            for le in reversed(loops):
                cands = [(p, init) for p, init in self.lpphis(W, le)
                         if any(path.sigma.get(p) is p or path.sigma.get(mk('fld', p, '$coords')) is mk('fld', p, '$coords') for path in le.a['paths'])]
                # a variable that starts as a point of the pool is the chain, others are scratch
                best = [c for c in cands if c[1] is not None and contains_pool(c[1], W)] or cands
                if best:
                    src = (le,) + best[0]
                    break
        if src is None:
            pre = default
            if pre is None:
                pre = self.start(W, trace, post)
            out.append(Transition(pre, post, facts, prefix + tuple(trace), where, None, W, True))
            return
        le, p, init = src
        pre = View(p, mk('fld', p, '$coords'), mk('fld', p, 'logL'), mk('fld', p, 'logP'))
        k = list(trace).index(le)
        out.append(Transition(pre, post, facts, prefix + tuple(trace[k + 1:]), where, le, W, False))
        prefix = prefix + tuple(trace[:k])
        if (id(le), p) in done:
            return
        done.add((id(le), p))
        for path in le.a['paths']:
            q = path.sigma.get(p, p)
            v = View(q, path.sigma.get(pre.coords, mk('fld', q, '$coords')), path.sigma.get(pre.logL, mk('fld', q, 'logL')), path.sigma.get(pre.logP, mk('fld', q, 'logP')))
            inner = [e for e in path.trace if e.kind == 'loop' and any(v.ident is x or v.coords is mk('fld', x, '$coords') for x, _ in self.lpphis(W, e))]
            loc = path.trace[-1].loc if path.trace else le.loc
            if inner:
                self.chain(W, path.trace, path.facts, v, out, done, loc, pre, prefix)
            else:
                out.append(Transition(pre, v, path.facts, prefix + tuple(path.trace) if default is not None else tuple(path.trace), loc, le, W, False))

    def start(self, W, trace, post):
        """the pool point a path started from"""
        for e, l in events(trace, 'mut'):
            if e.obj is W.pool and e.a['name'] in ('popleft', 'pop'):
                op = mut_op(e)
                b = e.before
                x = mk('idx', b, ZERO if op and op[0] == 'delfront' else MINUS_ONE)
                return View(x, mk('fld', x, '$coords'), mk('fld', x, 'logL'), mk('fld', x, 'logP'))
        return None


def contains_pool(t, W):
    c = W.eng.seqcontent
    return any(x is W.pool or x.op in ('c0',) or (x.op == 'phi' and x.args[0] == '$c') for x in subterms(t))


# ------------------------------------------------------------- building a run
INIT_TYPES = {'usermodel': 'usermodel', 'output': 'str', 'nlive': 'number', 'poolsize': 'number', 'verbose': 'number', 'seed': 'number', 'maxmcmc': 'number',
              'nthreads': 'number', 'nhamiltonian': 'number', 'nslice': 'number', 'periodic_checkpoint_interval': 'number', 'n_periodic_checkpoint': 'number'}


class Init(object):
    """CPNest.__init__, with the construction and the resuming of the nested sampler and the samplers as markers"""

    def __init__(self, P, stubs=None, hooks=None):
        from ..engine import State
        self.P = P
        self.samplers = list(concrete_samplers(P))
        self.roots = [P.cls(NS)] + self.samplers
        stt = {}
        for c in self.roots:
            for d in c.mro():
                if not isinstance(d, str) and 'resume' in d.methods:
                    stt[d.name + '.resume'] = self.resumed
        stt.update(stubs or {})
        hk = {'instantiate': self.constructed, 'purecalls': True}
        hk.update(hooks or {})
        self.W = W = World(P, hooks=hk, stubs=stt)
        self.ci = P.cls('cpnest.CPNest')
        self.fi = P.method(self.ci, '__init__')
        self.me = W.instance(self.ci)
        self.args = {}
        for a in self.fi.node.args.args[1:] + self.fi.node.args.kwonlyargs:
            self.args[a.arg] = W.param(a.arg, INIT_TYPES.get(a.arg))
        self.outs = W.run(self.ci, '__init__', self.me, [], kwargs=dict(self.args))

    def constructed(self, eng, st, ci, args, kwargs, node):
        if ci not in self.roots:
            return None
        u = eng.new(ci.qual)
        eng.event(st, 'mark', node, name='construct', cls=ci, obj=u, given=bound(self.P, ci.find('__init__')[1], [eng.val(st, a) for a in args], {k: eng.val(st, v) for k, v in kwargs.items()}))
        return [(st, u)]

    def resumed(self, eng, st, fi, args, kwargs, node):
        u = fresh('resumed')
        cls = args[0]
        ci = eng.classof.get(cls) if hasattr(eng, 'classof') else None
        eng.event(st, 'mark', node, name='resume', cls=ci or fi.cls, obj=u, given=bound(self.P, fi, [eng.val(st, a) for a in args[1:]], {k: eng.val(st, v) for k, v in kwargs.items()}))
        return [(st, u)]

    def model(self, _k=0, exists=(), **values):
        """an interpretation of the arguments; exists: paths that exist, or True for all"""
        bind = {self.args[k]: v for k, v in values.items() if k in self.args}
        return Model(_k, bind=bind, leaf=pathleaf(exists))

    def runs(self, m):
        return [o for o in self.outs if all(m.truth(m.ev(f)) for f in o.facts)]


def bound(P, fi, args, kwargs):
    """arguments by parameter name; missing ones by their default"""
    a = fi.node.args
    names = [x.arg for x in a.args][1:]
    out = dict(zip(names, args))
    out.update(kwargs)
    for x, d in list(zip(names[::-1], a.defaults[::-1])) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if x not in out:
            out[x] = default(d)
    return out


def default(d):
    import ast
    if isinstance(d, ast.Constant):
        if d.value is None:
            return NONE
        if isinstance(d.value, bool):
            return TRUE if d.value else FALSE
        if isinstance(d.value, (int, float)):
            return num(d.value)
        if isinstance(d.value, str):
            return s(d.value)
    return fresh('default')


def pathleaf(exists=(), more=None):
    """interpretation of file names as strings"""
    def text(m, v, spec=''):
        if isinstance(v, str):
            return v
        if isinstance(v, bool) or v is None:
            return str(v)
        if isinstance(v, float) and abs(v) != math.inf and v == round(v) and spec.endswith('d'):
            v = int(v)
        if isinstance(v, Obj) and spec[-1:] in ('d', 'f', 'e', 'g') and not isinstance(v, str):
            x = m.num(v)
            v = int(round(x)) if spec[-1] == 'd' else x
        if isinstance(v, (int, float)):
            if spec == 'format' or spec == '%':
                return str(v)
            try:
                return format(v, spec)
            except ValueError:
                return str(v)
        return '<%s>' % (m.key(v),)

    def leaf(m, t):
        env = m.env
        if more:
            r = more(m, t)
            if r is not None:
                return r
            m.env = env
        if t.op == 'path':
            parts = [text(m, m.ev(x, env)) for x in t.args]
            out = parts[0]
            for p in parts[1:]:
                out = p if p.startswith('/') else (out if out.endswith('/') or out == '' else out + '/') + p
            return out
        if t.op == 'fmt':
            return ''.join(text(m, m.ev(x, env)) for x in t.args)
        if t.op == 'tostr':
            v = m.ev(t.args[0], env)
            if isinstance(v, list):
                tm, rest = v[0], v[1:]
                if not isinstance(tm, str):
                    return None
                if t.args[1] == '%':
                    rest = rest[0] if len(rest) == 1 and isinstance(rest[0], list) else rest
                    try:
                        return tm % tuple(x if isinstance(x, (int, float, str)) else text(m, x) for x in rest)
                    except (TypeError, ValueError):
                        raise Undef('format')
                for conv in (lambda x: text(m, x), lambda x: m.num(x), lambda x: int(round(m.num(x)))):
                    try:
                        return tm.format(*[x if isinstance(x, (int, float, str)) else conv(x) for x in rest])
                    except (TypeError, ValueError, IndexError, KeyError):
                        pass
                raise Undef('format')
            return text(m, v, t.args[1] if isinstance(t.args[1], str) else '')
        if t.op == 'pred' and t.args[0] == 'exists':
            p = m.ev(t.args[1], env)
            return True if exists is True else p in exists
        return None
    return leaf


def unroll(trace, m, budget=None):
    """the events of a trace in order, its loops executed in a model: (event, model)"""
    budget = budget if budget is not None else [4000]
    for e in trace:
        budget[0] -= 1
        if budget[0] < 0:
            raise Undef('too many events')
        if e.kind != 'loop' or e.a.get('n') is None or e.a['n'] is e.a['uid']:
            if e.kind == 'loop':
                raise Undef('open loop')
            yield e, m
            continue
        n = int(round(m.num(m.ev(e.a['n']))))
        vals = {}
        for phi, init in (e.a.get('phis') or {}).items():
            try:
                vals[phi] = m.ev(init)
            except Undef:
                pass
        for i in range(n):
            m2 = Model(m.seed, bind=dict(m.bind, **{}), lens=m.lens, leaf=m.leaf, ints=m.ints, default_len=m.default_len, number=m.numhook)
            m2.bind.update(vals)
            m2.bind[e.a['uid']] = i
            hit = None
            for p in e.a['paths']:
                if all(m2.truth(m2.ev(f)) for f in p.facts):
                    hit = p
                    break
            if hit is None:
                raise Undef('no path of the loop')
            for x in unroll(hit.trace, m2, budget):
                yield x
            new = {}
            for phi, nxt in (hit.sigma or {}).items():
                try:
                    new[phi] = m2.ev(nxt)
                except Undef:
                    pass
            vals = new
            if hit.end in ('break', 'return', 'raise'):
                break
        m.bind.update(vals)         # the values after the loop
        m.memo.clear()
