#!/opt/veriftools/pyvenv/bin/python
"""check.py Cxx quick|thorough: the verifier on the contracts of one property, and the run-time contract check on the real code"""
import importlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = os.environ.get('VP_REPO', '/repo')
T0 = time.time()


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) id=(\S+) match=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def start_replay(pid, tag, seed, secs, cases, hints=None):
    ev = os.path.join(VERIF, 'evidence')
    out = os.path.join(ev, '.run-%s-%s.json' % (pid, tag))
    if os.path.exists(out):
        os.remove(out)
    hf = None
    if hints:
        hf = os.path.join(ev, '.hints-%s.json' % pid)
        json.dump(hints, open(hf, 'w'))
    env = dict(os.environ)
    env.update(HOME='/root', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=REPO, MPLBACKEND='Agg',
               MKL_THREADING_LAYER='SEQUENTIAL', MKL_NUM_THREADS='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VP_REPO=REPO)
    env.pop('VERIF_TIER', None)
    cmd = ['/opt/venv/bin/python', '-W', 'ignore', os.path.join(VERIF, 'replay', 'run.py'), pid, '--seed', str(seed), '--time', str(secs),
           '--cases', str(cases), '--out', out] + (['--hints', hf] if hf else [])
    err = open(os.path.join(ev, '.run-%s-%s.err' % (pid, tag)), 'w')
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=err, cwd=ev)
    return p, out, err.name, cmd


def end_replay(h, limit):
    p, out, err, cmd = h
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return {'cases': 0, 'failures': [], 'kinds': {}, 'error': 'time limit', 'seconds': limit}
    if not os.path.exists(out):
        return {'cases': 0, 'failures': [], 'kinds': {}, 'error': 'ended with %s: %s' % (p.returncode, open(err).read()[-1500:]), 'seconds': 0}
    r = json.load(open(out))
    for f in (out, err):
        os.remove(f)
    return r


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ev, 'replays'), exist_ok=True)
    quick = tier != 'thorough'
    replay_s, cases = (45, 400) if quick else (300, 20000)
    has_replay = os.path.exists(os.path.join(VERIF, 'replay', pid + '.py'))
    h = start_replay(pid, 'a', seed if quick else seed + 1000, replay_s, cases) if has_replay else None
    # the verifier
    from engine import contract
    import engine.smt as smt
    err = None
    try:
        mod = importlib.import_module('contracts.' + pid)
        res = contract.run_all('contracts.' + pid, budget=260 if quick else 600, jobs=6)
    except Exception as e:
        import traceback
        res, mod = [], None
        err = traceback.format_exc()[-2000:]
    obs = [o for r in res for o in r['obligations']]
    proved = [o for o in obs if o['status'] == 'proved']
    refuted = [o for o in obs if o['status'] == 'refuted']
    unknown = [o for o in obs if o['status'] == 'unknown']
    beyond = [r for r in res if r['status'] != 'ok']
    rr = end_replay(h, replay_s + 200) if h else None
    # a failed obligation: replay its counter-model on the real code
    hints = [x for r in res for x in r['hints']]
    replays = [rr] if rr else []
    known = known_findings(pid)
    new = [f for f in (rr['failures'] if rr else []) if not any(re.search(x[1], f['message']) for x in known)]
    if has_replay and rr and not new and (refuted or unknown or beyond):
        base = getattr(mod, 'BOUNDED', ())
        expected = all(r['function'] in base for r in beyond) and not refuted and not unknown
        if not expected:
            for tag, sd, hi in (('b', seed, hints), ('c', seed + 77, None)):
                r2 = end_replay(start_replay(pid, tag, sd, 90 if quick else 200, 2000, hi), 300)
                replays.append(r2)
                if [f for f in r2['failures'] if not any(re.search(x[1], f['message']) for x in known)]:
                    break
    fails = [(r, f) for r in replays for f in r['failures']]
    rerr = [r['error'] for r in replays if r.get('error')]
    viol = []
    shown = set()
    for r, f in fails:
        k = [x for x in known if re.search(x[1], f['message'])]
        if k:
            shown.add(k[0])
        else:
            viol.append(('input', r, f))
    refuted_new = []
    for o in refuted:
        k = [x for x in known if re.search(x[1], o['function'] + ': ' + o['obligation'])]
        if k:
            shown.add(k[0])
        else:
            refuted_new.append(o)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    status = 0
    path = os.path.join(ev, 'replays', pid + '.json')
    if os.path.exists(path):
        os.remove(path)
    line = None
    if viol:
        _, r, f = viol[0]
        doc = {'property': pid, 'kind': 'failing input on the real code', 'failure': f, 'all_failures': [x[2] for x in viol],
               'failed_obligations': refuted[:10], 'undischarged_obligations': unknown[:10],
               'rerun': 'cd %s/replay && PYTHONPATH=%s /opt/venv/bin/python -W ignore run.py %s --seed %s --cases %d --only %d' %
               (VERIF, REPO, pid, r.get('seed', seed), f['index'] + 1, f['index'])}
        json.dump(doc, open(path, 'w'), indent=1)
        line = 'VIOLATION property=%s replay=%s' % (pid, path)
        status = 1
    elif refuted_new:
        doc = {'property': pid, 'kind': 'failed obligation, no failing input found', 'failed_obligations': refuted_new[:20],
               'undischarged_obligations': unknown[:10], 'verifier_output': [r for r in res if any(o['status'] == 'refuted' for o in r['obligations'])],
               'rerun': 'cd %s && VP_REPO=%s %s bin/check.py %s %s' % (VERIF, REPO, sys.executable, pid, tier)}
        json.dump(doc, open(path, 'w'), indent=1)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path)
        status = 1
    # nothing was decided at all: that is a broken check, not a pass
    broken = None
    if status == 0:
        if err or not res:
            broken = 'the contracts could not be run: %s' % (err or 'none')
        elif not obs and not (rr and rr['cases']):
            broken = 'no obligation and no case'
        elif [r for r in beyond if r['status'] == 'vacuous']:
            v = [r for r in beyond if r['status'] == 'vacuous']
            if not (rr and rr['cases']):
                broken = 'vacuous contracts: %s' % v
    write_evidence(pid, tier, seed, mod, res, obs, proved, refuted, unknown, beyond, replays, rerr, viol, refuted_new, status, broken)
    for o in refuted + unknown:
        print('%s: %s: %s: %s' % (o['status'], o['function'], o['obligation'], o['detail'][:300]))
    for r in beyond:
        print('%s: %s: %s' % (r['status'], r['function'], r['why'][:300]))
    for e in rerr:
        print('run-time check: %s' % e)
    for _, r, f in viol:
        print('failing input: %s #%d: %s' % (f['kind'], f['index'], f['message']))
    print('%s %s: %d functions/lemmas under contract, %d/%d obligations discharged, %d cases at run time, %.1f s' % (
        pid, tier, len(res), len(proved), len(obs), sum(r['cases'] for r in replays), time.time() - T0))
    if line:
        print(line)
    if broken:
        print('BROKEN: %s' % broken)
        sys.exit(2)
    sys.exit(status)


def write_evidence(pid, tier, seed, mod, res, obs, proved, refuted, unknown, beyond, replays, rerr, viol, refuted_new, status, broken):
    man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    level = next((c['level'] for c in man['checks'] if c['property'] == pid), 'proof')
    from engine import assumptions
    trusted = assumptions.TRUSTED + list(getattr(mod, 'TRUSTED', ()))
    q = sum(r['solver'].get('queries', 0) for r in res if r['solver'])
    st = sum(r['solver'].get('time', 0) for r in res if r['solver'])
    cov = {
        'obligations': len(obs), 'discharged': len(proved),
        'checker_cmd': 'cd /verif && python3-vt bin/check.py %s %s' % (pid, tier),
        'trusted_base': trusted,
        'functions_under_contract': [{'contract': r['function'], 'status': r['status'], 'why': r['why'], 'paths': r['paths'],
                                      'obligations': len(r['obligations']),
                                      'discharged': sum(o['status'] == 'proved' for o in r['obligations']), 'seconds': r['seconds']} for r in res],
        'code_under_contract': list(getattr(mod, 'FUNCTIONS', ())),
        'back_end': 'normal forms of the term algebra (engine/terms.py, prove.py), side conditions by z3 4 (python z3-solver)',
        'solver_queries': q, 'solver_seconds': round(st, 2),
        'failed_obligations': refuted[:20], 'undischarged_obligations': unknown[:20],
        'beyond_reach': [{'contract': r['function'], 'why': r['why'], 'stand_in': 'bounded run-time contract check'} for r in beyond],
        'bounded': {'what': 'run-time contract check of the same clauses on the real code (never counted as proved)',
                    'bound': getattr(mod, 'BOUND', 'grids up to about 12 x 12 cells, seeded random inputs and fixed corner cases'),
                    'evaluations': sum(r['cases'] for r in replays), 'kinds': replays[0]['kinds'] if replays else {},
                    'failures': [f['message'] for r in replays for f in r['failures']][:5], 'errors': rerr},
        'evaluations': sum(r['cases'] for r in replays),
    }
    cov['violation_messages'] = [f['message'] for _, r, f in viol][:10] + [o['function'] + ': ' + o['obligation'] for o in refuted_new][:10]
    viols = len(viol) + len(refuted_new)
    doc = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
           'assumptions': assumptions.ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', ())), 'wall_s': round(time.time() - T0, 2),
           'violations': viols}
    json.dump(doc, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)


main()
