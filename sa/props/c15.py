"""C15: a crash while checkpointing never destroys the previous checkpoint."""
from .common import *
from ..engine import State
from ..library import pathof

EXPLANATION = ('checkpoint() of the nested sampler and of every sampler is executed symbolically with fault injection at every file operation and at serialisation. A typestate automaton over the file events of each path (open, dump, write, close, '
               'replace, remove, copy) decides: the checkpoint file itself is never opened for writing, removed, moved away or copied onto; it is only ever the target of one atomic rename whose source is a file in the same folder, private to the '
               'object, that holds the complete serialised object and is closed - on every path, including those on which an operation failed.')
TECHNIQUE = 'static analysis: typestate over the file events of all paths of checkpoint(), with a failure edge at every operation'
S, N = 'cpnest/sampler.py', 'cpnest/NestedSampling.py'
SV = '        with open(tmp_file, "wb") as f:\n            pickle.dump(self, f)\n        os.replace(tmp_file, self.resume_file)\n'
NV = '        with open(tmp_file,"wb") as f:\n            pickle.dump(self, f)\n        os.replace(tmp_file, self.resume_file)\n'
MUTANTS = [
    (N, NV, '        with open(self.resume_file,"wb") as f:\n            pickle.dump(self, f)\n'),
    (S, SV, '        with open(self.resume_file,"wb") as f:\n            pickle.dump(self, f)\n'),
    (N, NV, '        with open(tmp_file,"wb") as f:\n            pickle.dump(self, f)\n            os.replace(tmp_file, self.resume_file)\n'),
    (N, NV, '        try:\n            with open(tmp_file,"wb") as f:\n                pickle.dump(self, f)\n        finally:\n            os.replace(tmp_file, self.resume_file)\n'),
    (S, SV, '        try:\n            with open(tmp_file,"wb") as f:\n                pickle.dump(self, f)\n        except Exception as e:\n            self.logger.critical(str(e))\n        os.replace(tmp_file, self.resume_file)\n'),
    (S, SV, '        with open(tmp_file,"wb") as f:\n            pickle.dump(self, f)\n        if os.path.exists(self.resume_file):\n            os.remove(self.resume_file)\n        os.rename(tmp_file, self.resume_file)\n'),
    (S, SV, '        if os.path.exists(self.resume_file):\n            os.replace(self.resume_file, self.resume_file + ".bak")\n' + SV),
    (N, NV, '        import shutil\n        with open(tmp_file,"wb") as f:\n            pickle.dump(self, f)\n        shutil.copyfile(tmp_file, self.resume_file)\n'),
    (S, "        tmp_file = self.resume_file + '.tmp'\n", "        tmp_file = os.path.join(self.output, 'sampler.tmp')\n"),
    (N, "        tmp_file = self.resume_file + '.tmp'\n", "        tmp_file = os.path.join('/tmp', 'nested_sampler.tmp')\n"),
    (N, "        tmp_file = self.resume_file + '.tmp'\n", "        tmp_file = self.resume_file\n"),
    (S, SV, '        os.replace(tmp_file, self.resume_file)\n        with open(tmp_file, "wb") as f:\n            pickle.dump(self, f)\n'),
    (S, SV, '        f = open(tmp_file, "wb")\n        pickle.dump(self, f)\n        os.replace(tmp_file, self.resume_file)\n        f.close()\n'),
    (S, SV, '        with open(tmp_file, "wb") as f:\n            pickle.dump(self.__dict__.copy(), f)\n        os.replace(tmp_file, self.resume_file)\n'),
    (N, NV, '        with open(tmp_file,"wb") as f:\n            for i in range(3):\n                pickle.dump(self, f)\n        open(self.resume_file, "w").close()\n        os.replace(tmp_file, self.resume_file)\n'),
    (N, NV, '        with open(tmp_file,"wb") as f:\n            pickle.dump(self, f)\n        with open(self.resume_file,"wb") as g:\n            g.write(open(tmp_file,"rb").read())\n'),
]
FAULTS = ('open', 'dump', 'dumps', 'write', 'replace')


def writes(mode):
    return mode.op == 'str' and any(c in mode.args[0] for c in 'wax+')


class Run15(object):
    def __init__(self, P, ci):
        self.W = World(P, hooks={'purecalls': True, 'faults': FAULTS})
        self.me = self.W.instance(ci)
        self.outs = self.W.run(ci, 'checkpoint', self.me, [])
        self.target = pathof(self.W.eng.val(State(), self.W.field(State(), self.me, 'resume_file')))


def nearby(p, target, me):
    """True: certainly in the folder of the checkpoint; False: certainly not tied to it; None: not known"""
    if p.op == 'fmt' and p.args and p.args[0] is target:
        return '/' not in ''.join(x.args[0] for x in p.args[1:] if x.op == 'str')
    if p.op == 'fmt' and contains(p, target):
        return True if is_prefix(p, target) else None
    if p.op == 'path':
        if any(contains(x, target) for x in p.args[:-1]) or contains(p, mk('fld', me, 'output')) or contains(p, mk('fld', me, 'output_folder')):
            return True
        if all(x.op == 'str' for x in p.args[:-1]):
            return False
    if contains(p, target):
        return True
    return None


def is_prefix(p, target):
    x = p.args[0]
    return x is target or (x.op == 'tostr' and x.args[0] is target)


def own(p, target, me, master):
    """no other process writes a file of that name"""
    if contains(p, target) or any(x.op == 'atom' and x.args[0] == 'pid' for x in subterms(p)) or any(x.op == 'sym' and str(x.args[0]).startswith('tmp') for x in subterms(p)):
        return True
    for nm in ('thread_id', 'seed'):
        if contains(p, mk('fld', me, nm)):
            return True
    if contains(p, me):
        fields = [x.args[1] for x in subterms(p) if x.op == 'fld' and x.args[0] is me]
        if any(f not in ('output', 'output_folder') for f in fields):
            return None
    return True if master else False


def check(P, R, tier):
    roots = [P.cls(NS)] + list(concrete_samplers(P))
    for ci in roots:
        G = ci.name + '.checkpoint'
        master = ci is roots[0]
        with R.guard('save', G):
            X = Run15(P, ci)
            R.covers(X.W.eng)
            done = 0
            for o in X.outs:
                names = [x for e, l in events(o.trace, 'open', 'dump', 'write', 'close', 'replace', 'remove', 'copyfile') for k, x in e.a.items() if k in NAMES and is_term(x)]
                for choice in branches(names, o.facts):
                    done += path(R, G, X, o, master, choice)
            R.count('paths of ' + G, len(X.outs))
            R.verdict(True if done else None, 'save', G, 'the new checkpoint replaces the old one', 'no path replaces the checkpoint file', '')


NAMES = ('path', 'src', 'dst')


def path(R, G, X, o, master, choice):
    me, target = X.me, X.target
    files = {}        # path -> dict(open, content, whole)
    done = 0
    faulted = any(e.kind == 'fault' for e, l in events(o.trace, 'fault'))
    how = ' when an operation fails' if faulted else ''
    for e, l in events(o.trace, 'open', 'dump', 'write', 'writelines', 'close', 'replace', 'remove', 'copyfile', 'shell', 'fault', 'extcall', 'dumps', 'savetxt'):
        k, a = e.kind, e.a
        if choice:
            a = dict(a, **{x: pathof(subst(a[x], choice)) for x in NAMES if is_term(a.get(x))})
        if k == 'open':
            if not writes(a['mode']):
                if a['mode'].op != 'str' and a['path'] is target:
                    R.undet('save', G, 'mode of opening %s' % show(a['path'])[:60], e.loc)
                continue
            if a['path'] is target:
                R.violation('in place', G, 'the checkpoint file itself is opened for writing, its content is gone until the new one is complete', e.loc)
            else:
                R.ok('in place', G, 'writes to another file first', e.loc)
            files[a['path']] = {'open': True, 'content': None, 'broken': False}
        elif k == 'dump':
            f = files.setdefault(a['path'], {'open': True, 'content': None, 'broken': False})
            f['content'] = a['obj'] if f['content'] is None else mk('tuple', f['content'], a['obj'])
        elif k == 'write':
            f = files.setdefault(a['path'], {'open': True, 'content': None, 'broken': False})
            d = a['data']
            if d.op == 'call' and d.args[0] == 'pickled':
                d = d.args[1]
            f['content'] = d if f['content'] is None else mk('tuple', f['content'], d)
        elif k == 'fault' and a['what'] in ('dump', 'write'):
            f = files.setdefault(a['path'], {'open': True, 'content': None, 'broken': False})
            f['broken'] = True
        elif k == 'close':
            if a['path'] in files:
                files[a['path']]['open'] = False
        elif k == 'remove':
            if a['path'] is target:
                R.violation('removed', G, 'the checkpoint file is deleted before the new one is in its place', e.loc)
        elif k == 'copyfile':
            if a['path'] is target:
                R.violation('in place', G, 'the checkpoint file is copied onto, which is not atomic', e.loc)
        elif k == 'replace':
            if a['src'] is target:
                R.violation('removed', G, 'the checkpoint file is moved away before the new one is in its place', e.loc)
                continue
            if a['dst'] is not target:
                continue
            done += 1
            src = a['src']
            f = files.get(src)
            if f is None:
                R.verdict(False if not files else None, 'whole', G, '', 'the file put in place of the checkpoint was not written before%s' % how, e.loc)
                continue
            if f['broken'] or f['content'] is None:
                R.violation('whole', G, 'a file that was not completely written replaces the checkpoint%s' % how, e.loc)
                continue
            R.verdict(True if f['content'] is me else False if f['content'].op in ('objdict', 'ref', 'fld', 'tuple') else None, 'whole', G, 'the new file holds the complete object', 'the new file holds %s, not the object' % show(f['content'])[:60], e.loc)
            R.verdict(not f['open'], 'closed', G, 'the new file is closed before it replaces the old one', 'the new file is still open, its content may be in the buffer, when it replaces the checkpoint%s' % how, e.loc)
            R.verdict(nearby(src, target, me), 'atomic', G, 'the new file is written in the same folder', 'the new file %s is written to a folder that may be on another file system' % show(src)[:60], e.loc)
            R.verdict(own(src, target, me, master), 'private', G, 'no other process writes to the temporary file', 'all workers write their new checkpoint to the same temporary file %s' % show(src)[:60], e.loc)
        elif k in ('shell', 'extcall', 'savetxt'):
            if any(is_term(x) and contains(x, target) for x in list(a.values()) + [y for z in a.values() if isinstance(z, (list, tuple)) for y in z]):
                R.undet('save', G, '%s on the checkpoint file' % k, e.loc)
    return done
