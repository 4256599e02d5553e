"""Makes /verif/seeded/<id>/ from a description: tools/plant.py FILE.py, FILE defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
Every bug is applied to a scratch copy of /repo, its demo is run with and without it, then the property check is run on it."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# cwd: the repository
here=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OMP_NUM_THREADS=1
exec timeout -k 5 %d /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    head = sh('git rev-parse HEAD', '/repo').stdout.strip()
    base = sh('git rev-list --max-parents=0 HEAD', '/repo').stdout.split()[0]
    scratch = '/tmp/plant.%d' % os.getpid()
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        d = os.path.join(HERE, 'seeded', b['id'])
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.copytree('/repo', scratch, symlinks=True)
        os.makedirs(d, exist_ok=True)
        pyx = False
        for f, old, new in b['edits']:
            p = os.path.join(scratch, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                print('%s: text found %d times in %s: %r' % (b['id'], n, f, old[:60]))
                break
            open(p, 'w').write(s.replace(old, new))
            pyx |= f.endswith(('.pyx', '.pxd'))
        else:
            # removed lines must be original ones
            diff = sh('git diff', scratch).stdout
            added_by_us = set(l[1:].strip() for l in sh('git log -p --reverse --format= %s' % (os.environ.get('BASE', '71e3b19~19..71e3b19')), '/repo').stdout.splitlines() if l.startswith('+') and not l.startswith('+++'))
            mine = [l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---') and len(l) > 6 and l[1:].strip() in added_by_us]
            if mine:
                print('%s: WARNING removes lines of fix commits: %s' % (b['id'], mine[:3]))
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.sh'), 'w').write(SH % b.get('timeout', 120))
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            open(os.path.join(d, 'demo.py'), 'w').write(ns.get('PRELUDE', '') + b['demo'] if b.get('prelude', True) else b['demo'])
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            if pyx:
                r = sh('/opt/venv/bin/python setup.py build_ext --inplace --force', scratch, env=dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='0.11.0'))
                if r.returncode:
                    print(b['id'], 'DOES NOT BUILD', r.stderr[-300:])
            good = sh('bash %s/demo.sh' % d, '/repo')
            bad = sh('bash %s/demo.sh' % d, scratch)
            chk = []
            props = [b['property']] + b.get('also', [])
            for p in props:
                if os.path.exists(os.path.join(HERE, 'sa', 'props', p.lower() + '.py')):
                    r = sh('python3-vt check.py %s' % p, HERE, env=dict(os.environ, VERIF_ROOT=scratch))
                    chk.append('%s=%d %s' % (p, r.returncode, [l.strip()[:170] for l in r.stdout.splitlines() if '@' in l][:2]))
            print('%s: demo %s/%s  checks %s' % (b['id'], good.returncode, bad.returncode, chk))
            if good.returncode:
                print('   good:', (good.stdout + good.stderr)[-500:])
            if not bad.returncode:
                print('   bad passes:', (bad.stdout + bad.stderr)[-300:])
            elif '-v' in os.environ.get('PLANT', ''):
                print('   bad:', (bad.stdout + bad.stderr)[-500:])
            if os.environ.get('TESTS') and not pyx:
                # the two stable tests, on the scratch copy
                r = sh('for t in test_gaussian test_verbosity; do mkdir -p w/$t; (cd w/$t && PYTHONPATH=%s MPLBACKEND=Agg timeout 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --rootdir=%s %s/tests/$t.py) & done; wait' % (scratch, scratch, scratch), scratch)
                print('   tests:', [l for l in r.stdout.splitlines() if 'passed' in l or 'failed' in l])
    shutil.rmtree(scratch, ignore_errors=True)


main()
