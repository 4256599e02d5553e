#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules present in sa/props."""
import json, os, importlib, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'static analysis: path-partitioned abstract interpretation with value numbering of the Python/Cython source'
TECHS = {}
NOTES = {}
NA = {
 'N01': 'convergence of the evidence to the true marginal likelihood is a statistical statement about random runs of arbitrary models; no static argument in reach bounds it',
 'N02': 'the distribution of the posterior samples is a statistical property of random runs; the code facts it rests on are decided as C01, C04, C11, C12, C24',
 'N03': 'how many steps a chain needs to decorrelate depends on the user likelihood and on random draws; not a property of the source text',
 'N04': 'how well the leapfrog integrator conserves energy, and so how often its proposals are accepted, depends on the curvature of a user-defined potential; the equations of motion themselves are decided as C40',
 'N06': 'whether scipy can fit its smoothing filter and spline (window length, Schoenberg-Whitney conditions of the knots) depends on the numeric positions and likelihoods of the pool, which no static argument in reach bounds; pools of about twenty points are seen to fail now and then',
 'N05': 'not provided by the design: the master has no liveness detection (Pipe.recv without timeout), so there is no mechanism to verify; as a liveness property over process failures it is outside what a static rule can decide here',
}
sys.path.insert(0, HERE)
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if pid in NA:
        na.append({'property': pid, 'reason': NA[pid]})
        continue
    p = os.path.join(HERE, 'sa', 'props', pid.lower() + '.py')
    if not os.path.exists(p):
        na.append({'property': pid, 'reason': 'check not built yet'})
        continue
    src = open(p).read()
    ns = {}
    for l in src.splitlines():
        if l.startswith('TECHNIQUE = '):
            exec(l, ns)
    checks.append({'property': pid, 'quick_cmd': 'python3-vt check.py ' + pid,
                   'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + pid,
                   'evidence_file': 'evidence/%s.json' % pid,
                   'technique': ns.get('TECHNIQUE', TECH), 'level': 'other',
                   'level_note': 'Static decision over every path of the current source; sound up to the library models of DESIGN.md, three-valued: a violation is reported only for a construct resolved to break the rule.'})
m = {'version': 1, 'setup_cmd': 'python3-vt check.py --selftest', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
