"""runner.py PID quick|thorough      run the check of one property
runner.py PID --replay FILE         re-run one saved case
"""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
         signal.SIGILL}


def die(msg):
    print('ERROR: ' + msg)
    sys.stdout.flush()
    os._exit(2)


def build_ext(scratch):
    out = os.path.join(scratch, '_namemapper.so')
    import sysconfig
    cmd = ['gcc', '-shared', '-fPIC', '-O1', '-g', '-w',
           '-I' + sysconfig.get_paths()['include'],
           os.path.join(REPO, 'Cheetah/c/_namemapper.c'), '-o', out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        die('the C extension does not build:\n' + p.stderr)
    return out


def env_for(mode, scratch, ext):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               LC_ALL='C.UTF-8', TMPDIR=os.path.join(scratch, 'tmp'),
               VERIF_EXT=ext if mode == 'c' else '',
               VERIF_EXT_C=ext, VERIF_SCRATCH=scratch,
               VERIF_REPO=REPO, HOME=os.path.join(scratch, 'home'))
    env.pop('PYTHONPATH', None)
    return env


def load_props(pid):
    """Names, counts and modes of the props, read in a child process."""
    code = ('import sys,json;sys.path.insert(0,%r);sys.dont_write_bytecode=1\n'
            'from vlib import boot,core\nboot.boot()\nm=core.load_check(%r)\n'
            'print("@@"+json.dumps([dict(name=p.name,quick=p.quick,'
            'thorough=p.thorough,shards=p.shards,modes=p.modes,rule=p.rule)'
            ' for p in m.PROPS]))\n'
            'print("@@"+json.dumps(getattr(m,"ASSUMPTIONS",[])))'
            % (HERE, pid))
    return code


def known(pid):
    path = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) prop=(\S+) mode=(\S+) '
                         r'case=(.*?) -- (.*)$', line.rstrip('\n'))
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        rc = run(pid, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(pid, tier, seed, scratch, t0):
    os.mkdir(os.path.join(scratch, 'tmp'))
    os.mkdir(os.path.join(scratch, 'home'))
    cwd = os.path.join(scratch, 'cwd')
    os.mkdir(cwd)
    ext = build_ext(scratch)
    p = subprocess.run([PY, '-c', load_props(pid)], capture_output=True,
                       text=True, cwd=cwd, env=env_for('c', scratch, ext))
    if p.returncode:
        die('cannot load the check:\n' + p.stdout + p.stderr)
    lines = [x for x in p.stdout.splitlines() if x.startswith('@@')]
    props = json.loads(lines[0][2:])
    assumptions = json.loads(lines[1][2:])
    if tier == '--replay':
        return replay(pid, sys.argv[3], scratch, ext, cwd)
    only = os.environ.get('VERIF_ONLY')
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    jobs = []
    for pi, pr in enumerate(props):
        if only and pr['name'] not in only.split(','):
            continue
        total = int(pr['quick' if tier == 'quick' else 'thorough'] * scale)
        shards = pr['shards'] if tier == 'quick' else max(8, pr['shards'])
        shards = max(1, min(shards, total))
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            h = hashlib.sha256(('%d/%s/%s/%d' % (
                seed, pid, pr['name'], s)).encode()).digest()
            jobs.append(dict(prop=pr['name'], shard=s, n=n,
                             seed=int.from_bytes(h[:6], 'big'),
                             mode=pr['modes'][s % len(pr['modes'])]))
    jobs.sort(key=lambda j: j['shard'])
    budget = 240 if tier == 'quick' else 700
    deadline = t0 + (520 if tier == 'quick' else 860)
    ncpu = min(8, os.cpu_count() or 1)
    pending, running, results, failure = list(jobs), [], [], None
    error = None
    while (pending or running) and failure is None and error is None:
        while pending and len(running) < ncpu:
            j = pending.pop(0)
            j['out'] = os.path.join(scratch, 'r-%s-%d.json' % (
                j['prop'], j['shard']))
            j['wcwd'] = tempfile.mkdtemp(dir=cwd)
            left = max(5, int(min(budget, deadline - 60 - time.monotonic())))
            j['log'] = open(j['out'] + '.log', 'w+')
            j['proc'] = subprocess.Popen(
                [PY, '-X', 'utf8', os.path.join(HERE, 'vlib/worker.py'), pid,
                 j['prop'], str(j['shard']), str(j['n']), str(j['seed']),
                 str(left), j['out']], stdin=subprocess.DEVNULL,
                stdout=j['log'], stderr=subprocess.STDOUT, cwd=j['wcwd'],
                env=env_for(j['mode'], scratch, ext), start_new_session=True)
            running.append(j)
        time.sleep(0.02)
        for j in list(running):
            rc = j['proc'].poll()
            if rc is None:
                if time.monotonic() > deadline:
                    error = 'worker %s/%d gave no answer in time' % (
                        j['prop'], j['shard'])
                    break
                continue
            running.remove(j)
            shutil.rmtree(j['wcwd'], ignore_errors=True)
            if rc == 0 and os.path.exists(j['out']):
                r = json.load(open(j['out']))
                r['job'] = j
                results.append(r)
                if r['failure']:
                    failure = (j, r['failure'][0], r['failure'][1])
                    break
            elif rc < 0 and -rc in CRASH and os.path.exists(j['out'] + '.cur'):
                case = open(j['out'] + '.cur', encoding='utf-8',
                            errors='surrogatepass').read()
                failure = (j, case, 'the interpreter died with signal %d'
                           % -rc)
                break
            else:
                j['log'].seek(0)
                error = 'worker %s/%d ended with %s\n%s' % (
                    j['prop'], j['shard'], rc, j['log'].read()[-6000:])
                break
    for j in running:
        try:
            os.killpg(j['proc'].pid, signal.SIGKILL)
        except OSError:
            pass
        j['proc'].wait()
    if error:
        die(error)
    # ---- known findings
    kf = []
    if failure is None:
        for (pname, mode, case, what) in known(pid):
            msg = replay_one(pid, pname, mode, case, scratch, ext, cwd)
            if msg is not None:
                kf.append(what)
                print('KNOWN-FINDING: property=%s %s' % (pid, what))
    # ---- evidence
    evals = sum(r['evaluations'] for r in results)
    nontriv, labels, samples, perprop = {}, {}, [], {}
    hit = False
    for r in results:
        pn = r['job']['prop']
        nontriv.setdefault(pn, set()).update(r['hashes'])
        d = perprop.setdefault(pn, {'evaluations': 0, 'labels': {}})
        d['evaluations'] += r['evaluations']
        for k, v in r['labels'].items():
            d['labels'][k] = d['labels'].get(k, 0) + v
        hit = hit or r['budget_hit']
    for pn in perprop:
        perprop[pn]['distinct_nontrivial'] = len(nontriv[pn])
        got = [s for r in results if r['job']['prop'] == pn
               for s in r['samples']]
        samples.extend('%s: %s' % (pn, s) for s in got[-3:])
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough')
        else 'quick', 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': sum(len(v) for v in nontriv.values()),
            'rule': 'Cases are generated from VERIF_SEED (Hypothesis '
                    'strategies or choice-sequence generators). ' + ' | '.join(
                        '%s: %s' % (p['name'], p['rule']) for p in props),
            'samples': samples, 'per_prop': perprop,
            'time_budget_hit': hit, 'known_findings_seen': kf,
        },
        'assumptions': assumptions,
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': 1 if failure else 0,
    }
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    if failure:
        j, case, msg = failure
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s-%s.json' % (pid, j['prop']))
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'prop': j['prop'], 'mode': j['mode'],
                       'case': case, 'message': msg}, f, indent=1)
        ev['coverage']['failing_case'] = {'prop': j['prop'], 'case': case,
                                          'message': msg[:4000]}
        ev['coverage'].setdefault('samples', []).append(case[:700])
    tmp = os.path.join(evdir, '.%s.%d' % (pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(evdir, pid + '.json'))
    if failure:
        print('%s/%s (%s mode) fails for the case\n   %s\n%s' % (
            pid, j['prop'], j['mode'], case[:3000], msg[:4000]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s: held on %d cases (%d distinct non-trivial) in %.1f s' % (
        pid, evals, ev['coverage']['distinct_nontrivial'],
        time.monotonic() - t0))
    return 0


def replay_one(pid, pname, mode, case, scratch, ext, cwd):
    cf = os.path.join(scratch, 'case')
    of = os.path.join(scratch, 'caseout')
    with open(cf, 'w', encoding='utf-8', errors='surrogatepass') as f:
        f.write(case)
    if os.path.exists(of):
        os.remove(of)
    wcwd = tempfile.mkdtemp(dir=cwd)
    p = subprocess.run([PY, '-X', 'utf8', os.path.join(HERE, 'vlib/worker.py'),
                        pid, pname, '--replay', cf, of], capture_output=True,
                       text=True, cwd=wcwd, env=env_for(mode, scratch, ext),
                       timeout=120, stdin=subprocess.DEVNULL)
    if p.returncode < 0 and -p.returncode in CRASH:
        return 'the interpreter died with signal %d' % -p.returncode
    if p.returncode or not os.path.exists(of):
        die('replay failed:\n' + p.stdout + p.stderr)
    return json.load(open(of))['msg']


def replay(pid, path, scratch, ext, cwd):
    d = json.load(open(path))
    msg = replay_one(pid, d['prop'], d['mode'], d['case'], scratch, ext, cwd)
    if msg is None:
        print('%s: the saved case passes' % pid)
        return 0
    print(msg)
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


main()
