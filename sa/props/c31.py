"""C31: diagnostic histograms always have at least one bin."""
import ast
from .common import *
from ..engine import State

EXPLANATION = ('Every function of the plot module and the methods that call it are executed symbolically; the number of bins of every histogram on every path is an expression over the lengths of its arguments. '
               'It is bounded from below by interval arithmetic over all lengths from zero on; where the interval does not settle it, the expression and the conditions of its path are evaluated for every length up to a bound that covers all constants in it.')
TECHNIQUE = 'static analysis: interval analysis of the bin counts over all lengths, on every path to a histogram'
L = 'cpnest/plot.py'
MUTANTS = [
    (L, "bins=max(1, len(x)//50), label = 'posterior')", "bins=len(x)//50, label = 'posterior')"),
    (L, "bins=max(1, len(x)//50), label = 'posterior')", "bins=max(0, len(x)//50), label = 'posterior')"),
    (L, "bins=max(1, len(x)//50), label = 'prior')", "bins=len(prior_samples)//50, label = 'prior')"),
    (L, "bins=max(1, len(x)//50), label = 'mcmc')", "bins=min(50, len(mcmc_samples)), label = 'mcmc')"),
    (L, "bins=max(1, len(x)//50), label = 'mcmc')", "bins=int(len(x)**0.5), label = 'mcmc')"),
    (L, "bins=max(1, len(x)//50), label = 'posterior')", "bins=max(1, len(x)/50), label = 'posterior')"),
    (L, "bins=max(1, len(x)//50), label = 'posterior')", "bins=len(x)//50 if len(x) > 40 else 1, label = 'posterior')"),
    (L, "bins=max(1, min(len(indices) // 100, max_bins))", "bins=min(len(indices) // 100, max_bins)"),
    (L, "bins=max(1, min(len(indices) // 100, max_bins))", "bins=min(max(1, len(indices) // 100), max_bins - 1)"),
    (L, "bins=max(1, min(len(indices) // 100, max_bins))", "bins=min(-(-(len(indices) - 1) // 100), max_bins)"),
    (L, "    ax  = fig.add_subplot(111)\n\n    ax.hist(indices", "    ax  = fig.add_subplot(111)\n    max_bins = len(indices) // 100 if len(indices) < 3000 else max_bins\n    ax.hist(indices"),
]
MUTANTS[-1] = (L, "max(1, min(len(indices) // 100, max_bins))", "max_bins if len(indices) > 3000 else len(indices) // 100")
HIST = ('hist', 'histogram', 'hist2d', 'histogram2d', 'hexbin')
INFTY = math.inf


def interval(t, atoms):
    """bounds of a term over all values of the atoms"""
    if t.op == 'num':
        v = float(t.args[0])
        return v, v
    if t in atoms:
        return atoms[t]
    if t.op == 'len':
        return 0, INFTY
    if t.op == 'poly':
        lo = hi = 0.0
        for mono, c in t.args:
            a, b = 1.0, 1.0
            for base, k in mono:
                x, y = interval(base, atoms)
                if not isinstance(k, int) or k < 1:
                    return -INFTY, INFTY
                for _ in range(k):
                    ps = [mulv(a, x), mulv(a, y), mulv(b, x), mulv(b, y)]
                    a, b = min(ps), max(ps)
            c = float(c)
            p, q = mulv(a, c), mulv(b, c)
            lo, hi = lo + min(p, q), hi + max(p, q)
            if lo != lo or hi != hi:
                return -INFTY, INFTY
        return lo, hi
    if t.op == 'call':
        f = t.args[0]
        if f in ('max', 'min'):
            xs = [interval(x, atoms) for x in t.args[1:]]
            g = max if f == 'max' else min
            return g(x[0] for x in xs), g(x[1] for x in xs)
        if f == 'floordiv':
            a, b = interval(t.args[1], atoms)
            c, d = interval(t.args[2], atoms)
            if c == d and c > 0:
                return (math.floor(a / c) if abs(a) != INFTY else a), (math.floor(b / c) if abs(b) != INFTY else b)
        if f in ('int', 'floor', 'ceil', 'round', 'trunc'):
            a, b = interval(t.args[1], atoms)
            g = math.ceil if f == 'ceil' else math.floor
            return (g(a) if abs(a) != INFTY else a), (g(b) + (f in ('round',)) if abs(b) != INFTY else b)
        if f in ('sqrt', 'log1p'):
            a, b = interval(t.args[1], atoms)
            if a >= 0:
                g = math.sqrt if f == 'sqrt' else math.log1p
                return g(a) if a != INFTY else a, g(b) if b != INFTY else b
    if t.op == 'ite':
        a, b = interval(t.args[1], atoms), interval(t.args[2], atoms)
        return min(a[0], b[0]), max(a[1], b[1])
    return -INFTY, INFTY


def mulv(a, b):
    return 0.0 if a == 0 or b == 0 else a * b


def lengths(ts):
    return sorted({x.args[0] for t in ts for x in subterms(t) if x.op == 'len'}, key=lambda x: x.key)


def settle(t, facts, numbers):
    """(verdict, witness) of 'the term is a positive whole number' over all lengths"""
    atoms = {n: (1, INFTY) for n in numbers}
    if t is NONE or t.op == 'str':
        return True, 'chosen by the library'
    if t.op in ('bool',):
        return None, 'not a number'
    whole = all_int(t, numbers)
    lo, hi = interval(t, atoms)
    if lo >= 1 and whole:
        return True, 'at least %g for any length' % lo
    ls = lengths([t])
    ns = [n for n in numbers if contains(t, n) or any(contains(f, n) for f in facts)]
    fs = [f for f in facts if any(contains(f, mk('len', l)) for l in ls) or any(contains(f, n) for n in ns)]
    extra = [l for l in lengths(fs) if l not in ls]
    consts = [abs(float(x.args[0])) for y in [t] + fs for x in subterms(y) if x.op == 'num'] + [abs(float(c)) for y in [t] + fs for x in subterms(y) if x.op == 'poly' for m_, c in x.args]
    top = int(min(max([200.0] + [4 * c for c in consts if c < 1e5]), 40000))
    vals = list(range(0, min(top, 1200))) + list(range(1200, top, 97))
    others = (0, 1, 7, 60, 5000)
    bad = None
    tried = 0
    try:
        for nv in (1, 2, 30, 1000):
            for e in (others if len(ls) + len(extra) > 1 else (0,)):
                for k in range(max(len(ls), 1)):
                    for n in vals:
                        lens = {}
                        bind = {x: nv for x in ns}
                        for j, l in enumerate(ls):
                            bind[mk('len', l)] = n if j == k else e
                        for l in extra:
                            bind[mk('len', l)] = e
                        m = Model(0, bind=bind)
                        if not all(m.truth(m.ev(f)) for f in fs):
                            continue
                        v = m.ev(t)
                        if isinstance(v, list):
                            tried += 1
                            if len(v) < 2:
                                bad = 'edges %s for %s' % (v, n)
                                break
                            continue
                        v = m.num(v)
                        tried += 1
                        if v < 1 or abs(v - round(v)) > 1e-9:
                            bad = '%g bins for %d samples' % (v, n)
                            break
                    if bad:
                        break
                if bad:
                    break
            if bad:
                break
    except Undef as u:
        return None, 'bins %s: %s' % (show(t)[:60], u)
    if bad:
        opaque = [x for x in subterms(t) if x.op in ('sym', 'fld', 'atom', 'phi') and x not in numbers and not any(contains(l, x) or x is l for l in ls)]
        return (None, 'bins depend on %s' % show(opaque[0])[:40]) if opaque else (False, bad)
    if not tried:
        return None, 'path not understood'
    return True, 'for every length up to %d' % top


def all_int(t, numbers):
    if t.op == 'num':
        return float(t.args[0]) == int(t.args[0])
    if t.op == 'len' or t in numbers:
        return True
    if t.op == 'poly':
        return all(float(c) == int(c) and all(isinstance(k, int) and k >= 1 and all_int(b, numbers) for b, k in mono) for mono, c in t.args)
    if t.op == 'call':
        if t.args[0] in ('int', 'floordiv', 'len'):
            return True
        return t.args[0] in ('max', 'min', 'abs') and all(all_int(x, numbers) for x in t.args[1:])
    if t.op == 'ite':
        return all_int(t.args[1], numbers) and all_int(t.args[2], numbers)
    return False


def check(P, R, tier):
    sites = {}
    for mod in P.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in HIST:
                sites['%s:%d' % (mod.relpath, n.lineno)] = None
    visited = set()
    mod = P.modules.get('plot') or P.modules.get('cpnest.plot')
    if mod is None:
        R.anchor_missing.append('module plot')
        return
    for name, fi in sorted(mod.functions.items()):
        with R.guard('bins', name):
            W = World(P, hooks={'purecalls': True})
            args, numbers = {}, []
            for a in fi.node.args.args + fi.node.args.kwonlyargs:
                ty = 'number' if 'bins' in a.arg else 'str' if 'name' in a.arg else 'array'
                args[a.arg] = W.param(a.arg, ty)
                if ty == 'number':
                    numbers.append(args[a.arg])
            scan(R, W.eng.run(fi, None, [], args, None), 'plot.' + name, numbers, visited)
            R.covers(W.eng)
    for cls, meth in (('cpnest.CPNest', 'plot'), (NS, 'check_insertion_indices')):
        with R.guard('bins', meth):
            ci = P.cls(cls)
            W = World(P, hooks={'purecalls': True})
            fi = P.method(ci, meth)
            args = {a.arg: W.param(a.arg, 'str' if a.arg == 'filename' else None) for a in fi.node.args.args[1:]}
            scan(R, W.run(ci, meth, W.instance(ci), [], kwargs=args), '%s.%s' % (ci.name, meth), [], visited)
            R.covers(W.eng)
    for loc in sorted(sites):
        if loc in visited:
            R.ok('site', loc, 'on an analysed path')
        else:
            R.undet('site', loc, 'a histogram on no analysed path')
    R.count('histograms', len(sites))
    if not sites:
        R.ok('site', 'package', 'no histogram is made')


def scan(R, outs, G, numbers, visited):
    seen = set()
    for o in outs:
        for e, l in walk(o.trace):
            if e.kind not in ('plot', 'extcall') or str(e.a['name']).split('.')[-1] not in HIST:
                continue
            visited.add(e.loc.split(' ')[0])
            b = e.a['kwargs'].get('bins')
            if b is None and len(e.a['args']) > 1:
                b = e.a['args'][1]
            if b is None:
                b = NONE
            facts = list(o.facts) + [f for le, p in l for f in p.facts]
            key = (e.loc, b, tuple(f for f in facts if any(x.op == 'len' for x in subterms(f))))
            if key in seen:
                continue
            seen.add(key)
            R.count('paths to a histogram')
            v, why = settle(b, facts, numbers)
            R.verdict(v, 'bins', G, why, 'a histogram may be requested with %s' % why, e.loc)
