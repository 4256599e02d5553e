#!/usr/bin/env python3-vt
"""Static check of one property:  check.py C01  (tier from VERIF_TIER)"""
import importlib
import json
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.frontend import Program, AnchorMissing      # noqa: E402
from sa.report import Report, known_findings        # noqa: E402
from sa import terms                                # noqa: E402

ROOT = os.environ.get('VERIF_ROOT', '/repo')
LIMIT = 600


class TimeUp(BaseException):
    pass


def time_up(signum, frame):
    raise TimeUp()


def analyse(pid, program, tier, debug=False):
    mod = importlib.import_module('sa.props.' + pid.lower())
    R = Report(pid, debug)
    try:
        mod.check(program, R, tier)
    except TimeUp:
        R.undet('time-limit', 'analysis', 'the analysis was cut off after %d s; what was decided until then stands' % LIMIT)
        R.cut = True
    return mod, R


def uniq(obs):
    seen, out = set(), []
    for o in obs:
        if o.key not in seen:
            seen.add(o.key)
            out.append(o)
    return out


def _variant(job):
    pid, m, base = job
    rel, old, new = m[:3]
    mod = importlib.import_module('sa.props.' + pid.lower())
    change = '%s -> %s' % (old.strip()[:90], new.strip()[:90])
    with open(os.path.join(ROOT, rel)) as f:
        src = f.read()
    if src.count(old) < 1:
        return {'file': rel, 'change': change, 'result': 'not applicable to this source'}
    try:
        prog = Program(ROOT, overrides={rel: src.replace(old, new)})
        _, R = analyse(pid, prog, 'quick')
        hits = sorted(set(o.key for o in R.of('violation')) - base)
        return {'file': rel, 'change': change, 'result': ('reported: ' + '; '.join(hits)) if hits else 'not reported'}
    except Exception as e:
        return {'file': rel, 'change': change, 'result': 'error %r' % (e,)}


def sensitivity(pid, mod, base_violations):
    """analyse seeded variants of the current source, held in memory only"""
    import multiprocessing
    jobs = [(pid, m, base_violations) for m in getattr(mod, 'MUTANTS', ())]
    if not jobs:
        return []
    with multiprocessing.get_context('fork').Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        return pool.map(_variant, jobs, chunksize=1)


def selftest():
    """setup: everything the checks need is importable and the source can be read"""
    n = 0
    for f in sorted(os.listdir(os.path.join(HERE, 'sa', 'props'))):
        if f.startswith(('c', 'n')) and f[1:3].isdigit():
            importlib.import_module('sa.props.' + f[:-3])
            n += 1
    p = Program(ROOT)
    print('%d property modules, %d functions of the package' % (n, len(list(p.all_functions()))))
    return 0


def main():
    if sys.argv[1:] == ['--selftest']:
        return selftest()
    pid = sys.argv[1].upper()
    debug = '-d' in sys.argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        program = Program(ROOT)
    except (SyntaxError, AnchorMissing, OSError) as e:
        print('ERROR property=%s cannot read the source: %r' % (pid, e))
        return 2
    signal.signal(signal.SIGALRM, time_up)
    signal.alarm(LIMIT)
    mod, R = analyse(pid, program, tier, debug)
    signal.alarm(0)
    known = known_findings()
    viol, kn = [], []
    for o in uniq(R.of('violation')):
        if (pid, o.key) in known:
            kn.append(o)
        else:
            viol.append(o)
    und = uniq(R.of('undetermined'))
    okn = len(R.of('ok'))
    ev_dir = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    replay = os.path.join(ev_dir, '%s.report.txt' % pid)
    with open(replay, 'w') as f:
        for title, obs in (('VIOLATION', viol), ('KNOWN FINDING', kn), ('UNDETERMINED', und), ('holds', R.of('ok'))):
            for o in obs:
                f.write('%s: rule=%s construct=%s\n    at %s\n    %s\n' % (title, o.rule, o.construct, o.where, o.detail))
    coverage = {
        'explanation': mod.EXPLANATION,
        'rules': sorted(set(o.rule for o in R.obs)),
        'obligations': len(R.obs),
        'discharged': okn,
        'undetermined': [{'rule': o.rule, 'construct': o.construct, 'why': o.detail} for o in und],
        'violations': [{'rule': o.rule, 'construct': o.construct, 'where': o.where, 'why': o.detail} for o in viol],
        'known_findings': [{'rule': o.rule, 'construct': o.construct, 'where': o.where} for o in kn],
        'analysed': R.analysed,
        'functions_analysed': sorted(R.functions),
        'abstractions': R.notes[:20],
        'samples': [{'rule': o.rule, 'construct': o.construct, 'verdict': o.verdict, 'detail': o.detail[:300], 'where': o.where}
                    for o in R.obs[:12]],
    }
    if tier == 'thorough':
        coverage['seeded_variants'] = sensitivity(pid, mod, set(o.key for o in R.of('violation')))
    evidence = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other',
                'coverage': coverage, 'wall_s': round(time.time() - t0, 3)}
    with open(os.path.join(ev_dir, '%s.json' % pid), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s: %d obligations, %d discharged, %d undetermined, %d functions, %.1fs'
          % (pid, len(R.obs), okn, len(und), len(R.functions), time.time() - t0))
    for o in und:
        print('UNDETERMINED: property=%s rule=%s construct=%s: %s' % (pid, o.rule, o.construct, o.detail))
    for o in kn:
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (pid, known[(pid, o.key)], o.key, o.where))
    for a in R.anchor_missing:
        print('ERROR property=%s anchor vanished: %s' % (pid, a))
    for o in viol:
        print('  %s at %s: %s' % (o.key, o.where, o.detail))
    if tier == 'thorough':
        for m in coverage['seeded_variants']:
            print('  variant %s: %s => %s' % (m['file'], m['change'].replace('\n', ' '), m['result']))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if R.anchor_missing or not (okn or getattr(R, 'cut', False)):
        print('ERROR property=%s nothing could be decided' % pid if not okn else 'ERROR property=%s analysis broken' % pid)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
