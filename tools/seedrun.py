"""Every planted bug against every check: tools/seedrun.py [ids]. Writes tools/caught.json {bug: [checks that report it]}."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, 'tools', 'caught.json')


def checks():
    return [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]


def one(a):
    root, cid = a
    r = subprocess.run(['python3-vt', 'check.py', cid], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, VERIF_ROOT=root, VERIF_EVIDENCE=os.path.join(root, 'ev'), OMP_NUM_THREADS='1'))
    return cid, r.returncode, 'VIOLATION property=%s ' % cid in r.stdout


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    caught = json.load(open(OUT)) if os.path.exists(OUT) else {}
    for b in ids:
        d = os.path.join(HERE, 'seeded', b)
        root = '/tmp/seedrun.%d' % os.getpid()
        shutil.rmtree(root, ignore_errors=True)
        shutil.copytree('/repo', root, symlinks=True)
        r = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=root, capture_output=True, text=True)
        if r.returncode:
            print(b, 'DOES NOT APPLY', r.stderr[:200], flush=True)
            continue
        with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
            res = list(ex.map(one, [(root, c) for c in checks()]))
        caught[b] = [c for c, rc, v in res if rc == 1 and v]
        odd = [(c, rc) for c, rc, v in res if rc not in (0, 1)]
        own = json.load(open(os.path.join(d, 'meta.json')))['property']
        print(b, own, 'caught by', caught[b], '' if own in caught[b] else '*** MISSED BY ITS OWN CHECK', odd or '', flush=True)
        json.dump(caught, open(OUT, 'w'), indent=1, sort_keys=True)
        shutil.rmtree(root, ignore_errors=True)
    json.dump({k: v for k, v in caught.items() if os.path.isdir(os.path.join(HERE, 'seeded', k))}, open(OUT, 'w'), indent=1, sort_keys=True)


main()
