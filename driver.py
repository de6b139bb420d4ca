"""Check driver:  driver.py PROP [quick|thorough]

Runs the deductive verifier (ded/) on the functions of /repo the property depends on, and, next to it,
the run-time contracts of the same property (conc/, the bounded stand-in and the replay side).
Exit 0: nothing broken.  Exit 1: a VIOLATION line.  Exit 3: the check itself could not run.
"""
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = '/opt/pypyenv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')
CONFIG = {
    'quick': dict(workers=6, budget=20, cases=9000, ded_timeout=240),
    'thorough': dict(workers=7, budget=420, cases=60000, ded_timeout=780),
}


def conc_env():
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pycache', PYTHONHASHSEED='0',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', VERIF_REPO=REPO)
    env.pop('PYTHONPATH', None)
    return env


def known_findings():
    p = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('{'):
                out.append(json.loads(ln))
    return out


def finding_for(fail, findings):
    for k in findings:
        if k.get('status') != 'open' or k.get('property') != fail['property']:
            continue
        m = k.get('match', {})
        if m.get('clause') and m['clause'] != fail.get('clause'):
            continue
        if m.get('obligation') and m['obligation'] != fail.get('obligation'):
            continue
        if m.get('message') and not re.search(m['message'], fail.get('message', '')):
            continue
        if m.get('input') and not re.search(m['input'], json.dumps(fail.get('inputs', ''))):
            continue
        return k
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in CONFIG:
        tier = 'quick'
    cfg = CONFIG[tier]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    tmp = os.path.join(evdir, '.run-%s-%d' % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    procs = []
    nw = cfg['workers']
    for w in range(nw):
        out = os.path.join(tmp, 'w%d.json' % w)
        err = open(os.path.join(tmp, 'w%d.err' % w), 'w')
        procs.append((out, subprocess.Popen(
            [PYPY, '-W', 'ignore', os.path.join(HERE, 'conc', 'run.py'), prop, '--seed', str(seed * 1000 + w),
             '--shard', '%d/%d' % (w, nw), '--budget', str(cfg['budget']), '--cases', str(cfg['cases'] // nw),
             '--out', out], env=conc_env(), stdout=err, stderr=err, cwd=HERE)))
    dout = os.path.join(tmp, 'ded.json')
    ded = None
    if os.path.exists(os.path.join(HERE, 'ded', 'verify.py')):
        derr = open(os.path.join(tmp, 'ded.err'), 'w')
        ded = subprocess.Popen(['/opt/veriftools/pyvenv/bin/python', os.path.join(HERE, 'ded', 'verify.py'), prop,
                                '--tier', tier, '--out', dout], stdout=derr, stderr=derr, cwd=HERE,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO, PYTHONHASHSEED='0'))
    results, worker_err = [], []
    for out, p in procs:
        try:
            p.wait(timeout=max(1, t0 + cfg['budget'] * 2 + 240 - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if os.path.exists(out) and os.path.getsize(out):
            results.append(json.load(open(out)))
        else:
            worker_err.append(open(out.replace('.json', '.err')).read()[-2000:])
    dres = None
    ded_note = 'no deductive obligations for this property'
    if ded is not None:
        try:
            ded.wait(timeout=max(1, t0 + cfg['ded_timeout'] - time.time()))
        except subprocess.TimeoutExpired:
            ded.kill()
            ded.wait()
            ded_note = 'verifier stopped after its time limit'
        if os.path.exists(dout) and os.path.getsize(dout):
            dres = json.load(open(dout))
        else:
            ded_note = 'verifier gave no result: ' + open(os.path.join(tmp, 'ded.err')).read()[-800:]

    fails = [f for r in results for f in r['failures']]
    # a failure counts only when it happens again in a process of its own
    confirmed = []
    for f in fails[:4]:
        rp = os.path.join(tmp, 'cand.json')
        json.dump(f, open(rp, 'w'))
        try:
            q = subprocess.run([PYPY, '-W', 'ignore', os.path.join(HERE, 'conc', 'run.py'), '--replay', rp],
                               env=conc_env(), cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
            if q.returncode == 1 and q.stdout.startswith(b'fail'):
                confirmed.append(f)
                if len(confirmed) >= 2:
                    break
        except subprocess.TimeoutExpired:
            pass
    findings = known_findings()
    viol, known = [], []
    for f in confirmed:
        k = finding_for(f, findings)
        (known if k else viol).append((f, k))
    lines = []
    for f, k in known:
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    rc = 0
    nviol = 0
    if viol:
        f = viol[0][0]
        rp = os.path.join(evdir, 'replay-%s.json' % prop)
        if dres:
            f = dict(f, failed_obligations=[o for o in dres['obligations'] if o['status'] == 'refuted'][:5])
        f['how_to_replay'] = '/verif/runc.sh --replay <this file>'
        json.dump(f, open(rp, 'w'), indent=1)
        lines.append('violated contract %s (seed %d, case %d): %s' % (f['clause'], f['seed'], f['index'],
                                                                       f['message'].strip().splitlines()[0][:300]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
        rc, nviol = 1, len(viol)
    elif dres:
        ref = [o for o in dres['obligations'] if o['status'] == 'refuted']
        keep = []
        for o in ref:
            k = finding_for(dict(property=prop, obligation=o['name'], message=o.get('detail', '')), findings)
            if k:
                lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            else:
                keep.append(o)
        if keep:
            rp = os.path.join(evdir, 'replay-%s.json' % prop)
            json.dump(dict(property=prop, failed_obligation=keep[0]['name'], function=keep[0].get('function'),
                           verifier_output=keep[0].get('detail'), all_failed=keep[:10],
                           checker_cmd='python3-vt /verif/ded/verify.py %s' % prop), open(rp, 'w'), indent=1)
            lines.append('failed obligation %s' % keep[0]['name'])
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
            rc, nviol = 1, len(keep)
    evals = sum(r['evaluations'] for r in results)
    if rc == 0 and (not results or evals == 0):
        print('check could not run: ' + '\n'.join(worker_err)[-1500:])
        cleanup(tmp)
        return 3
    write_evidence(evdir, prop, tier, seed, results, dres, ded_note, worker_err, time.time() - t0, nviol, known)
    cleanup(tmp)
    clauses = {}
    for r in results:
        for k, v in r['clauses'].items():
            clauses[k] = clauses.get(k, 0) + v['evaluated']
    print('%s %s: %d run-time contract evaluations in %d clauses, %s, %.1f s' % (
        prop, tier, evals, len(clauses),
        ('%d of %d obligations discharged' % (dres['discharged'], dres['generated'])) if dres else ded_note,
        time.time() - t0))
    for ln in lines:
        print(ln)
    return rc


def cleanup(tmp):
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)


def level_of(prop):
    try:
        m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop:
                return c['level']
    except Exception:
        pass
    return 'exploration'


def write_evidence(evdir, prop, tier, seed, results, dres, ded_note, worker_err, wall, nviol, known):
    clauses = {}
    exhaustive = {}
    for r in results:
        for k, v in r['clauses'].items():
            c = clauses.setdefault(k, dict(evaluated=0, skipped=0, failed=0))
            for kk in c:
                c[kk] += v[kk]
            if v.get('exhaustive'):
                exhaustive[k] = v['exhaustive']
    level = level_of(prop)
    cov = dict(
        evaluations=sum(r['evaluations'] for r in results),
        distinct_nontrivial=sum(r['distinct'] for r in results),
        rule='run-time contracts (bounded stand-in, never counted as proved): one evaluation = inputs generated inside '
             'the precondition, the real function called, its postcondition compared with an independent oracle; '
             'distinct = different clause and input data (per worker, seeds differ), inputs recorded and non-empty',
        samples=[s for r in results[:2] for s in r['samples'][:4]],
        bounded_clauses=clauses, enumerated_clauses=exhaustive, skipped=sum(r['skipped'] for r in results))
    assumptions = ['run-time contracts sample inputs (dimensions 1..6, conditioning bounded); they bound, not prove']
    if dres:
        cov.update(obligations=dres['generated'], discharged=dres['discharged'],
                   checker_cmd='python3-vt /verif/ded/verify.py %s --tier %s' % (prop, tier),
                   trusted_base=dres['trusted'], functions_under_contract=dres['functions'],
                   back_ends=dres['back_ends'], solver_s=dres['solver_s'],
                   undecided=[dict(name=o['name'], why=o.get('detail', '')[:300]) for o in dres['obligations']
                              if o['status'] == 'undecided'][:60],
                   vacuity=dres.get('vacuity'), bounded_obligations=dres.get('bounded'))
        assumptions += dres['assumptions']
    else:
        cov['explanation'] = ded_note
        cov.setdefault('obligations', 0)
        cov.setdefault('discharged', 0)
    if level == 'proof' and not dres:
        level = 'exploration'
    if worker_err:
        cov['workers_without_result'] = len(worker_err)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(wall, 2), violations=nviol)
    if known:
        cov['known_findings'] = [k['what'] for _, k in known]
    p = os.path.join(evdir, prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    sys.exit(main())
