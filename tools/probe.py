"""python3-vt tools/probe.py FILE.py [names…]: apply independently written breaking edits to scratch copies and run the check of the property (ALL=1: every check).
Prints those that are missed."""
import os, sys, shutil, subprocess, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor
P = runpy.run_path(sys.argv[1])['PROBES']
want = sys.argv[2:]
base = tempfile.mkdtemp(prefix='probe')
os.makedirs(base + '/verif')
for f in ('check.py', 'KNOWN_FINDINGS.txt', 'properties.jsonl'):
    shutil.copy('/verif/' + f, base + '/verif')
shutil.copytree('/verif/sa', base + '/verif/sa', ignore=shutil.ignore_patterns('__pycache__'))


def run(a):
    pid, name, edits = a
    d = os.path.join(base, name)
    shutil.copytree('/repo/cpnest', d + '/cpnest', ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__'))
    for f, x, y in edits:
        p = d + '/cpnest/' + f
        s = open(p).read()
        if x not in s:
            return name, None, 'TEXT NOT FOUND %r' % x[:60]
        s = s.replace(x, y, 1)
        open(p, 'w').write(s)
        if p.endswith('.py'):
            compile(s, p, 'exec')
    out = []
    first = None
    for c in ([pid] if not os.environ.get('ALL') else ['C%02d' % i for i in range(1, 100) if os.path.exists('/verif/sa/props/c%02d.py' % i)]):
        env = dict(os.environ, VERIF_ROOT=d, VERIF_TIER='quick', VERIF_EVIDENCE=d + '/ev')
        try:
            p = subprocess.run(['python3-vt', base + '/verif/check.py', c], capture_output=True, text=True, env=env, timeout=300)
        except subprocess.TimeoutExpired:
            out.append((c, 99, ['TIMEOUT']))
            first = 99 if c == pid else first
            continue
        bad = [l for l in (p.stdout + p.stderr).splitlines() if not l.startswith('KNOWN') and ('@' in l or l.startswith('UNDETERMINED') or 'Error' in l)]
        if c == pid:
            first = p.returncode
        out.append((c, p.returncode, bad[:3]))
    return name, first, out


with ThreadPoolExecutor(int(os.environ.get('J', '8'))) as ex:
    res = list(ex.map(run, [p for p in P if not want or p[1] in want or p[0] in want]))
n = 0
for name, rc, out in res:
    if rc == 1 and not os.environ.get('SHOW'):
        n += 1
        continue
    if rc == 1:
        n += 1
    if isinstance(out, str):
        print(name, out)
        continue
    others = [c for c, r, b in out if r == 1]
    print(name, 'MISSED' if rc != 1 else 'caught', 'exit %s' % rc, 'others: %s' % others if others else '')
    for c, r, b in out:
        if not os.environ.get('ALL') or r:
            for l in b:
                print('      %s' % l.strip()[:240])
print('%d of %d caught' % (n, len(res)))
shutil.rmtree(base)
