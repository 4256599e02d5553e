"""Typed symbolic instances of the package's classes for the analyses."""
import ast
from .terms import *
from .seqs import *
from . import terms as T
from .engine import Engine, State, LP
from .engine import Outcome as EOutcome
from . import library

# attribute names that belong to the package's public vocabulary
FIELD_TYPES = {
    'logLmin': 'mpvalue', 'logLmax': 'mpvalue', 'checkpoint_flag': 'mpvalue', 'nconnected': 'mpvalue',
    'manager': 'cpnest.RunManager', 'model': 'usermodel', 'user': 'usermodel',
    'logger': 'logger', '_logger': 'logger',
    'producer_pipe': 'pipe',
    'consumer_pipes': ('list', 'pipe'), 'producer_pipes': ('list', 'pipe'), 'process_pool': ('list', 'process'),
    'params': ('NestedSampling.OrderedLivePoints', LP), 'nested_samples': ('list', LP),
    'state': 'NestedSampling._NSintegralState', 'NS': 'NestedSampling.NestedSampler',
    'evolution_points': ('deque', LP), 'samples': ('list', LP), 'ensemble': ('deque', LP),
    'log_file': 'utils.LogFile',
    'insertion_indices': ('list', 'number'), 'rolling_p': ('list', 'number'),
    'logLs': ('list', 'number'), 'log_vols': ('list', 'number'), '_keys': ('list', 'number'),
    'output': 'str', 'output_folder': 'str', 'output_file': 'str', 'evidence_file': 'str', 'resume_file': 'str', '_filename': 'str',
}
NUMBERS = set('Nlive iteration condition tolerance acceptance sub_acceptance accepted rejected queue_counter nthreads seed poolsize '
              'maxmcmc Nmcmc Nmcmc_exact mcmc_accepted mcmc_counter counter verbose logZ oldZ logw info nlive log_J idx N mu L R Ne Nc '
              'max_steps_out max_slices tuning_steps initial_mcmc last_checkpoint_time periodic_checkpoint_interval thread_id '
              'cyclelength'.split())
INTS = set('Nlive iteration accepted rejected queue_counter nthreads poolsize maxmcmc Nmcmc mcmc_accepted mcmc_counter counter verbose '
           'max_steps_out max_slices thread_id idx N nlive cyclelength'.split())


class World(object):
    def __init__(self, program, volatile=(), native_lp=True, hooks=None, stubs=None, proposal_opaque=True, async_exc=('CheckPoint',), fieldtypes=None):
        self.p = program
        self.proposal_opaque = proposal_opaque
        self.fieldtypes = dict(FIELD_TYPES)
        self.fieldtypes.update(fieldtypes or {})
        self.inferred = {}
        hk = {'fieldtype': self.fieldtype, 'recv': self.recv}
        hk.update(hooks or {})
        self.eng = Engine(program, volatile=volatile, native_lp=native_lp, hooks=hk, stubs=stubs, async_exc=async_exc)
        self.kinds = {}

    # ---------------------------------------------------------- types
    def fieldtype(self, eng, obj, name):
        if name == 'samples' and eng.typ(obj) in ('cpnest.CPNest',):
            return None
        if name in self.fieldtypes:
            if name == 'nested_samples' and eng.typ(obj) == 'cpnest.CPNest':
                return None
            if name in ('params',) and eng.typ(obj) != 'NestedSampling.NestedSampler':
                return None
            t = self.fieldtypes[name]
            if name == 'model' or name == 'user':
                return 'usermodel'
            return t
        if name == 'proposal':
            return 'proposal' if self.proposal_opaque else None
        if name in NUMBERS:
            if name in INTS:
                eng.types[('int', mk('fld', obj, name))] = True
            return 'number'
        ci = eng.classinfo(obj)
        if ci is not None:
            return self.infer(ci, name)
        return None

    def infer(self, ci, name):
        """type of an attribute from what the class stores in it"""
        key = (ci.qual, name)
        if key in self.inferred:
            return self.inferred[key]
        got = set()
        for c in [x for x in ci.mro() if not isinstance(x, str)]:
            for fi in c.methods.values():
                a = fi.node.args.args
                if not a:
                    continue
                for n in ast.walk(fi.node):
                    tg = []
                    if isinstance(n, ast.Assign):
                        tg = n.targets
                    elif isinstance(n, ast.AnnAssign) and n.value is not None:
                        tg = [n.target]
                    for t in tg:
                        if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == a[0].arg:
                            got.add(self.exprtype(n.value, ci))
        r = got.pop() if len(got) == 1 else None
        self.inferred[key] = r
        return r

    def exprtype(self, n, ci):
        if isinstance(n, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(n, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            return 'number'
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            if n.func.id in ('list', 'sorted'):
                return 'list'
            if n.func.id in ('int', 'float', 'len'):
                return 'number'
            r = self.p.resolve_global(ci.module, n.func.id)
            if r and r[0] == 'class':
                return r[1].qual
            if r and r[0] == 'ext' and r[1].endswith('deque'):
                return 'deque'
        return None

    def recv(self, eng, st, pipe, node):
        """a message: for the master a reply, for a worker a request"""
        if eng.typ(pipe) == 'pipe' and pipe.op == 'fld':     # a worker's own end
            return mk('sym', 'request', next(T._uid))
        u = next(T._uid)
        pt = mk('sym', 'reply_point', u)
        eng.settype(pt, LP)
        xs = []
        for nm in ('acceptance', 'sub_acceptance', 'jumps'):
            x = mk('sym', 'reply_' + nm, u)
            eng.settype(x, 'number')
            xs.append(x)
        return mk('tuple', xs[0], xs[1], xs[2], pt)

    # ---------------------------------------------------------- values
    def instance(self, cls, k=1):
        ci = self.p.cls(cls) if isinstance(cls, str) else cls
        return mk('inst', ci.qual, k)

    def sym(self, name, ty=None, elem=None, integer=False):
        t = mk('sym', name, next(T._uid))
        if ty:
            self.eng.settype(t, ty)
        if elem:
            self.eng.setelem(t, elem)
        if integer:
            self.eng.types[('int', t)] = True
        return t

    def param(self, name, ty='number', integer=False):
        return self.sym(name, ty, integer=integer)

    def field(self, st, obj, name):
        return self.eng.getfield(st, obj, name)

    def content(self, st, obj):
        return self.eng.val(st, self.eng.seqcontent(st, obj))

    def run(self, cls, meth, self_=None, args=(), kwargs=None, st=None):
        fi = self.p.method(cls, meth)
        if fi.is_class and self_ is None:
            self_ = self.eng.classterm(cls if hasattr(cls, 'qual') else self.p.cls(cls))
        return self.eng.run(fi, self_, list(args), kwargs or {}, st)

    def call(self, f, args=(), kwargs=None, st=None, node=None):
        """analyse a call of a function value"""
        eng = self.eng
        st = st or State()
        node = node or ast.parse('0').body[0]
        eng.sinks.append([])
        outs = []
        try:
            for s2, v in eng.call_value(st, f, list(args), kwargs or {}, node):
                outs.append(EOutcome('return', v, s2))
        finally:
            raised = eng.sinks.pop()
        return outs + [EOutcome('raise', exc, s2) for exc, s2 in raised]


def flat(trace, depth=0, path=()):
    """(event, enclosing loop events) in order"""
    for e in trace:
        yield e, path
        if e.get('paths'):
            for p in e.a['paths']:
                for x in flat(p.trace, depth + 1, path + ((e, p),)):
                    yield x


def dump(outs, maxev=60, facts=True):
    for i, o in enumerate(outs):
        print('--- outcome %d: %s %s' % (i, o.kind, show(o.value)[:100]))
        if facts:
            for f in o.facts:
                print('      fact', show(f)[:160])
        _dumptrace(o.trace, 4)


def _dumptrace(tr, ind):
    for e in tr:
        print(' ' * ind + '%s@%s %s' % (e.kind, e.line, ', '.join('%s=%s' % (k, show(v)[:110] if is_term(v) else (str(v)[:60])) for k, v in e.a.items() if k not in ('paths', 'phis', 'before'))))
        if e.get('paths'):
            for p in e.a['paths']:
                print(' ' * ind + '  [path %s | %s]' % (p.end, '; '.join(show(f)[:100] for f in p.facts)))
                _dumptrace(p.trace, ind + 6)
