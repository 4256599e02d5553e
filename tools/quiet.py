"""python3-vt tools/quiet.py FILE.py [names…]: apply behaviour-preserving edits to scratch copies and run every check on each.
Any VIOLATION, exit code or new undetermined obligation is printed."""
import os, sys, shutil, subprocess, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor
CHECKS = sorted(f[:3].upper() for f in os.listdir('/verif/sa/props') if f.startswith('c') and f[1:3].isdigit())
if os.environ.get('ONLY'):
    CHECKS = os.environ['ONLY'].split(',')
Q = runpy.run_path(sys.argv[1])['QUIET']
want = sys.argv[2:]
base = tempfile.mkdtemp(prefix='quiet')
# a snapshot of the checker, so that it can be edited meanwhile
os.makedirs(base + '/verif')
shutil.copy('/verif/check.py', base + '/verif')
shutil.copy('/verif/KNOWN_FINDINGS.txt', base + '/verif')
shutil.copy('/verif/properties.jsonl', base + '/verif')
shutil.copytree('/verif/sa', base + '/verif/sa', ignore=shutil.ignore_patterns('__pycache__'))


def prepare(name, edits):
    d = os.path.join(base, name)
    shutil.copytree('/repo/cpnest', d + '/cpnest', ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__'))
    for f, a, b in edits:
        p = d + '/cpnest/' + f
        s = open(p).read()
        if a not in s:
            return 'text not found in %s: %r' % (f, a[:60])
        s = s.replace(a, b, 1)
        open(p, 'w').write(s)
        if p.endswith('.py'):
            try:
                compile(s, p, 'exec')
            except SyntaxError as e:
                return 'syntax: %s' % e
    return d


def one(a):
    name, d, c = a
    env = dict(os.environ, VERIF_ROOT=d, VERIF_TIER='quick', VERIF_EVIDENCE=d + '/ev')
    try:
        p = subprocess.run(['python3-vt', base + '/verif/check.py', c], capture_output=True, text=True, env=env, timeout=900)
    except subprocess.TimeoutExpired:
        return '%s %s TIMEOUT' % (name, c)
    out = p.stdout + p.stderr
    bad = [l for l in out.splitlines() if not l.startswith('KNOWN') and ('@' in l or l.startswith('UNDETERMINED') or 'Error' in l)]
    if p.returncode == 0 and not bad:
        return None
    tag = {0: 'undetermined', 1: 'ALARM'}.get(p.returncode, 'EXIT %d' % p.returncode)
    return '%s %s %s\n%s' % (name, c, tag, '\n'.join('      ' + l[:260] for l in bad[:6]))


with ThreadPoolExecutor(int(os.environ.get('J', '8'))) as ex:
    jobs = []
    for name, edits in Q:
        if want and name not in want:
            continue
        d = prepare(name, edits)
        if not os.path.isdir(d):
            print(name, d)
            continue
        jobs += [(name, d, c) for c in CHECKS]
    n = 0
    for r in ex.map(one, jobs):
        if r:
            print(r)
            sys.stdout.flush()
            n += 'ALARM' in r or 'EXIT' in r or 'TIMEOUT' in r
print('%d runs, %d bad' % (len(jobs), n))
shutil.rmtree(base)
