"""C30: the pool of a sampler keeps its size; acceptance statistics follow the move."""
from .common import *

EXPLANATION = ('On every path of yield_sample of every sampler class up to the delivery of a sample, the insertions into and removals from the pool are counted, loops included (every pass that is '
               'followed by another one must be balanced). The updates of the acceptance statistics are compared, as terms, with the accepted and attempted steps counted along the same path.')
S = 'cpnest/sampler.py'
MUTANTS = [
    (S, '''            # Put sample back in the stack, unless that sample led to zero accepted points
            self.evolution_points.append(oldparam)
''', '''            # Put sample back in the stack, unless that sample led to zero accepted points
            if sub_accepted > 0: self.evolution_points.append(oldparam)
'''),
    (S, '            self.evolution_points.append(oldparam)\n            self.samples.append(oldparam)\n            self.sub_acc', '            self.samples.append(oldparam)\n            self.sub_acc'),
    (S, '''            self.samples.append(oldparam)
            self.evolution_points.append(oldparam)
''', '''            self.samples.append(oldparam)
            if len(self.evolution_points) < self.poolsize - 1: self.evolution_points.append(oldparam)
'''),
    (S, '''                if oldparam.logL > logLmin:
                    break
                self.evolution_points.append(oldparam)
''', '''                if oldparam.logL > logLmin:
                    break
'''),
    (S, '''                        sub_accepted+=1
                # append the sample''', '''                        sub_accepted+=1
                        self.evolution_points.append(oldparam)
                # append the sample'''),
    (S, '            self.mcmc_accepted += sub_accepted\n            self.mcmc_counter += sub_counter\n            self.acceptance    =', '            self.mcmc_accepted += sub_accepted\n            self.mcmc_counter += self.Nmcmc\n            self.acceptance    ='),
    (S, '            self.sub_acceptance = float(sub_accepted)/float(sub_counter)\n            self.mcmc_accepted += sub_accepted\n            self.mcmc_counter += sub_counter\n', '            self.mcmc_accepted += sub_accepted\n            self.mcmc_counter += sub_counter\n            self.sub_acceptance = float(sub_accepted)/float(self.mcmc_counter)\n'),
    (S, '                            oldparam     = newparam.copy()\n                            sub_accepted += 1\n', '                            oldparam     = newparam.copy()\n                            sub_accepted = 1\n'),
    (S, '''                        logp_old = newparam.logP
                        sub_accepted+=1
''', '''                        logp_old = newparam.logP
                    sub_accepted+=1
'''),
    (S, '            oldparam        = self.evolution_points.pop()\n', '            oldparam        = self.evolution_points.popleft() if len(self.evolution_points) > 1 else self.evolution_points[0]\n'),
    (S, '            self.mcmc_accepted += sub_accepted\n            self.mcmc_counter  += sub_counter\n            self.acceptance     = float(self.mcmc_accepted)/float(self.mcmc_counter)\n\n            if self', '            self.mcmc_accepted += sub_accepted\n            self.acceptance     = float(self.mcmc_accepted)/float(self.mcmc_counter)\n            self.mcmc_counter  += sub_counter\n\n            if self'),
]
NEUTRAL = ('rotate', 'reverse', 'shuffle', 'setitem', 'sort')


def net(trace, pool):
    """(change of the number of points along a path, balanced loops that touch the pool, problem)"""
    d, touched = 0, 0
    for e in trace:
        if e.kind == 'mut' and e.obj is pool:
            if e.a['name'] in NEUTRAL:
                continue
            op = mut_op(e)
            if op is None:
                return None, 0, 'a change of the pool was not understood'
            if op[0] in ('app', 'ins'):
                d += 1
            elif op[0] in ('delfront', 'delback') and op[1] is ONE:
                d -= 1
            elif op[0] == 'keepfront' and op[1] is MINUS_ONE:
                d -= 1
            elif op[0] == 'ext' and op[1].op == 'list':
                d += len(op[1].args)
            else:
                return None, 0, 'a change of the pool was not understood'
        elif e.get('paths'):
            for p in e.a['paths']:
                x, t, why = net(p.trace, pool)
                if x is None:
                    return None, 0, why
                if any(ev.kind == 'mut' and ev.obj is pool for ev, _ in walk(p.trace)):
                    touched += 1
                if x != 0:
                    return (False, x, e)
    return d, touched, ''


def check(P, R, tier):
    for ci in concrete_samplers(P):
        G = ci.name + '.yield_sample'
        with R.guard('pool', G):
            M = Move(P, ci.name)
            for W in M.parts:
                R.covers(W.eng)
            n = 0
            for W, o in M.returns():
                n += 1
                where = o.trace[-1].loc if o.trace else ''
                d, t, why = net(o.trace, W.pool)
                now = W.field(o.state, W.me, 'evolution_points')
                if now is not W.pool:
                    R.undet('pool', G, 'the pool is replaced by another object', where)
                elif d is None:
                    R.undet('pool', G, why, where)
                elif d is False and t is not False:
                    R.violation('pool', G, 'every pass of a loop changes the number of points in the pool by %+d' % t, why.loc)
                elif d < 0:
                    R.violation('pool', G, 'a point taken from the pool is not put back on some path', where)
                elif d > 0 and not t:
                    R.violation('pool', G, 'more points are put into the pool than were taken', where)
                else:
                    R.ok('pool', G, 'one point back for the one taken', where)
                stranger(R, G, M, W, o, where)
                stats(R, G, M, W, o, where)
            for t in M.transitions():
                if t is None or t.pre is None or t.loop is None:
                    continue
                count_moves(R, G, M, t)
            R.count('paths of %s' % ci.name, n)
            if not n:
                R.undet('pool', G, 'no path delivers a sample', '')


def stranger(R, G, M, W, o, where):
    """what is put back is the point that was taken, evolved or not, not a second copy of another member of the pool"""
    p = M.point(W, o)
    if p is None:
        return
    mine = {x for x in (p, W.eng.val(o.state, W.eng.getfield(o.state, p, '$coords')))}
    back = [(e, mut_op(e)) for e in o.trace if e.kind == 'mut' and e.obj is W.pool and e.a['name'] not in NEUTRAL]
    back = [(e, op[1]) for e, op in back if op is not None and op[0] == 'app']
    if len(back) != 1:
        return
    e, x = back[0]
    if x in mine or any(c in mine for q, c, a, b in e.a.get('lps') or ()):
        return R.ok('same point', G, 'the point the chain ended on is put back', where)
    took = [y for y in o.trace if y.kind == 'mut' and y.obj is W.pool and y is not e]
    if x.op == 'idx' and took and member(x, took[-1].after) and not any(contains(z, x) for z in mine):
        R.violation('same point', G, 'the point taken from the pool is lost: %s is put back, a point that is still in the pool' % show(x)[:80], e.loc)


def member(x, left):
    """x is one of the points left in the pool"""
    if x.args[0] is left:
        return True
    if left.op == 'slice' and x.args[0] is left.args[0] and x.args[1].op == 'num':
        lo, hi = numval(left.args[1]), numval(left.args[2])
        k = x.args[1].args[0]
        if left.args[2] is NONE and lo is not None and lo >= 0:
            return k >= lo or k < 0
        if left.args[1] is NONE and hi is not None and hi < 0:
            return k >= 0 or k < hi
    return False


def diff(W, o, f):
    return sub(W.field(o.state, W.me, f), mk('fld', W.me, f))


def stats(R, G, M, W, o, where):
    p = M.point(W, o)
    cnt = [a for a in o.value.args if a is not p] if o.value.op == 'tuple' else []
    if len(cnt) != 1:
        return R.undet('statistics', G, 'the delivered step count was not recognised', where)
    cnt = cnt[0]
    acc = diff(W, o, 'mcmc_accepted')
    steps = diff(W, o, 'mcmc_counter')
    R.verdict(True if steps is cnt else cmpn(steps, cnt), 'attempted', G, 'attempted steps of this move are added', 'the attempted steps are increased by %s, the move took %s' % (show(steps)[:80], show(cnt)[:80]), where)
    fin_a, fin_c = W.field(o.state, W.me, 'mcmc_accepted'), W.field(o.state, W.me, 'mcmc_counter')
    for f, want in (('sub_acceptance', div(acc, steps)), ('acceptance', div(fin_a, fin_c))):
        have = W.field(o.state, W.me, f)
        R.verdict(True if have is want else cmpn(have, want), f, G, 'it is the ratio of the updated counts', '%s is %s, not %s' % (f, show(have)[:120], show(want)[:120]), where)
    o_acc = acc
    # accepted steps: the variable of the walk plus what the last pass accepted
    base = [x for x in subterms(o_acc) if x.op == 'phi']
    M.__dict__.setdefault('accepted', []).append((W, o, o_acc, base))


def cmpn(a, b):
    known = {}
    for x in list(subterms(a)) + list(subterms(b)):
        if x.op == 'phi':
            known.setdefault(x, mk('sym', 'known', x.args[1]))
    return cmp(subst(a, known), subst(b, known))


def count_moves(R, G, M, t):
    """in a pass of the walk the accepted counter grows exactly if the chain moves"""
    moved = t.post.coords is not t.pre.coords
    mine = [x for W, o, acc, base in M.__dict__.get('accepted', ()) if W is t.W for x in base if x in (t.loop.a.get('phis') or {})]
    if not mine:
        return
    r = mine[0]
    for W, o, acc, base in M.accepted:
        if W is t.W and r in base:
            if sub(acc, r) not in (ZERO, ONE):
                R.verdict(cmpn(acc, r) if False else None, 'accepted', G, '', 'accepted steps: %s' % show(acc)[:100], t.where)
    paths = [p for p in t.loop.a['paths'] if p.facts == t.facts]
    for p in paths:
        d = sub(p.sigma.get(r, r), r)
        want = ONE if moved else ZERO
        R.verdict(True if d is want else (False if numval(d) is not None or not unresolved(subst(d, {r: ZERO})) else None), 'accepted', G, 'accepted steps count the moves',
                  'the accepted counter changes by %s in a pass where the chain %s' % (show(d)[:80], 'moves' if moved else 'stays'), t.where)
