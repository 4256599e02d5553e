"""python3-vt tools/one.py ID K: apply in-memory variant K of check ID to a scratch copy and run the check on it"""
import sys, os, shutil, subprocess, importlib
sys.path.insert(0, '/verif')
pid, k = sys.argv[1], int(sys.argv[2])
m = importlib.import_module('sa.props.' + pid.lower()).MUTANTS[k]
d = '/tmp/mutA'
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
shutil.copytree('/repo/cpnest', d + '/cpnest', ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__'))
f, a, b = m[:3]
s = open(d + '/' + f).read()
assert a in s
open(d + '/' + f, 'w').write(s.replace(a, b, 1))
if len(sys.argv) <= 3:
    subprocess.run(['python3-vt', '/verif/check.py', pid, '-d'], env=dict(os.environ, VERIF_ROOT=d))
