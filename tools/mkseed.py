"""Builds /verif/seeded/<id>/ from a seed description: tools/mkseed.py FILE.py [id ...]
(FILE defines SEEDS = [dict(id, property, file, old, new, needs, breaks, demo)]).  Every seed is checked in a scratch
copy: builds, passes the existing tests, demo passes without and fails with the change."""
import json, os, subprocess, sys, shutil, runpy, tempfile, concurrent.futures as cf
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pycache', PYTHONHASHSEED='0',
           OPENBLAS_NUM_THREADS='1')
ENV.pop('PYTHONPATH', None)
PY = '/opt/pypyenv/bin/python'
OUT = '/verif/seeded'
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True, timeout=timeout)


def one(s):
    d = tempfile.mkdtemp(prefix='seed_')
    try:
        subprocess.run(['cp', '-a', '/repo', d + '/r'], check=True)
        r = d + '/r'
        p = r + '/products/ellipy/' + s['file']
        src = open(p).read()
        edits = s.get('edits') or [(s['old'], s['new'])]
        for old, new in edits:
            if src.count(old) != s.get('count', 1):
                return s['id'], 'old text occurs %d times' % src.count(old)
            src = src.replace(old, new)
        dd = os.path.join(d, s['id'])
        os.makedirs(dd)
        open(dd + '/demo.py', 'w').write(
            "import os, sys, warnings\nwarnings.simplefilter('ignore')\n"
            "sys.path.insert(0, os.path.join(os.getcwd(), 'products'))\nimport numpy as np\n" + s['demo'].strip() + '\n')
        open(dd + '/demo.sh', 'w').write(
            '#!/bin/bash\n# exit 0 when the property holds on the demonstrated input\n'
            'export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONHASHSEED=0 '
            'OPENBLAS_NUM_THREADS=1\nexec /opt/pypyenv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(dd + '/demo.sh', 0o755)
        q = sh('bash %s/demo.sh' % dd, r)
        if q.returncode != 0:
            return s['id'], 'demo fails on the unchanged tree: ' + q.stdout[-500:] + q.stderr[-800:]
        open(p, 'w').write(src)
        q = sh('bash %s/demo.sh' % dd, r)
        if q.returncode == 0:
            return s['id'], 'demo passes with the change'
        msg = (q.stdout + q.stderr).strip().split('\n')[-1]
        diff = sh('git diff', r).stdout
        q = sh(PY + ' -m pytest -q -p no:cacheprovider -x --disable-warnings --tb=line', r + '/products')
        tail = q.stdout.strip().split('\n')[-3:]
        if q.returncode != 0:
            return s['id'], 'existing tests notice: ' + ' '.join(tail)
        open(dd + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(dd + '/meta.json', 'w'), indent=1)
        dst = os.path.join(OUT, s['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(dd, dst)
        return s['id'], 'KEPT (' + msg[:150] + ') ' + tail[-1]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    if len(sys.argv) > 2:
        seeds = [s for s in seeds if s['id'] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(7) as ex:
        for f in cf.as_completed([ex.submit(one, s) for s in seeds]):
            print(*f.result(), flush=True)
