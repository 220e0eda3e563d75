#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]

Rebuilds /repo's working tree, runs the monitored workload of one property on all cores
and writes evidence/ID.json.  Exit 0: held on everything observed.  Exit 1 with a VIOLATION
line: broken.  Exit 2: no verdict (build failure, harness failure, monitors not reached).
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib import build as vb    # noqa: E402
from vlib import plan           # noqa: E402

HANG_CPU = 150.0


def cpu_of(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            s = f.read().rsplit(')', 1)[1].split()
        return (int(s[11]) + int(s[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.0


def run_pool(prop, flavour, dest, tier, seed, ncases, nproc, work, only=None):
    env = vb.env_for(dest, flavour)
    env['VERIF_HOME'] = HERE
    procs = []
    for s in range(nproc if only is None else 1):
        out = os.path.join(work, '%s-%d.json' % (flavour, s))
        err = open(out + '.err', 'w')
        cmd = [vb.PY, '-m', 'vlib.worker', prop, tier, str(seed), str(s), str(nproc),
               str(ncases), out] + ([str(only)] if only is not None else [])
        p = subprocess.Popen(cmd, cwd=HERE, env=env, stdout=err, stderr=err,
                             start_new_session=True)
        procs.append([p, out, err, None, 0.0, False])
    pending = list(procs)
    while pending:
        time.sleep(0.05)
        for r in list(pending):
            p, out = r[0], r[1]
            if p.poll() is not None:
                pending.remove(r)
                continue
            try:
                prog = open(out + '.progress').read()
            except OSError:
                prog = None
            cpu = cpu_of(p.pid)
            if prog != r[3]:
                r[3], r[4] = prog, cpu
            elif prog and cpu - r[4] > HANG_CPU:
                r[5] = True
                os.killpg(p.pid, signal.SIGKILL)
    results, crashes, errors = [], [], []
    for p, out, err, prog, _c, hung in procs:
        err.close()
        text = open(out + '.err', errors='replace').read()
        if os.path.exists(out):
            results.append(json.load(open(out)))
        if p.returncode != 0:
            case = None
            try:
                case = int(open(out + '.progress').read())
            except (OSError, ValueError):
                pass
            if hung:
                crashes.append((case, 'no progress: one call used %d s of processor time'
                                % HANG_CPU))
            elif p.returncode == 77 or 'AddressSanitizer' in text:
                crashes.append((case, 'AddressSanitizer: ' + sanitizer_text(text)))
            elif p.returncode == 78 or 'runtime error:' in text:
                crashes.append((case, 'UndefinedBehaviorSanitizer: ' + sanitizer_text(text)))
            elif p.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS,
                                  -signal.SIGFPE, -signal.SIGILL) and case is not None:
                crashes.append((case, 'the process was killed by signal %d' % -p.returncode))
            else:
                errors.append('worker ended with %s: %s' % (p.returncode, text[-1500:]))
    return results, crashes, errors


def sanitizer_text(text):
    lines = [l for l in text.splitlines() if 'ERROR: AddressSanitizer' in l or
             'runtime error:' in l or l.strip().startswith('#')]
    return ' | '.join(l.strip()[:160] for l in lines[:9])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--case', type=int)
    ap.add_argument('--nproc', type=int, default=max(1, min(8, os.cpu_count() or 1)))
    ap.add_argument('--replay')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop.upper()
    spec = plan.PLAN[prop]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed, only = a.seed, a.case
    if a.replay:
        r = json.load(open(a.replay))
        prop, tier, seed, only = r['property'], r['tier'], r['seed'], r['case']
        spec = plan.PLAN[prop]
    findings = load_findings(prop)
    evdir = os.path.join(HERE, 'evidence')
    rpdir = os.path.join(evdir, 'replays')
    os.makedirs(rpdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix='run-', dir=ensure(os.path.join(HERE, '.build')))
    results, crashes, errors, ncases = [], [], [], 0
    try:
        for flavour, counts in spec['flavours'].items():
            n = a.cases or counts[tier]
            if a.replay and r.get('flavour', flavour) != flavour:
                continue
            ncases += n
            try:
                dest = vb.build(flavour)
            except vb.BuildError as e:
                if flavour == 'bounds':     # an extra that not every source allows
                    print('note: no build with bounds checks: %s' % str(e)[-500:])
                    continue
                print('BUILD FAILED: %s' % str(e)[-3000:])
                return 2
            rs, cr, er = run_pool(prop, flavour, dest, tier, seed, n, a.nproc, work, only)
            for x in rs:
                x['flavour'] = flavour
            results += rs
            crashes += [(c, m, flavour) for c, m in cr]
            errors += er
    finally:
        shutil.rmtree(work, ignore_errors=True)
    counters, foreign, known, states, sigs, samples, viol = {}, {}, {}, set(), set(), [], []
    fmsg = []
    cases = 0
    for x in results:
        cases += x['cases']
        for k, n in x['counters'].items():
            counters[k] = max(counters.get(k, 0), n) if k.startswith('max_') else \
                counters.get(k, 0) + n
        for k, n in x['foreign'].items():
            foreign[k] = foreign.get(k, 0) + n
        for k, n in x['known'].items():
            known[k] = known.get(k, 0) + n
        fmsg += x['foreign_msg']
        states.update(x['states'])
        sigs.update(x['sigs'])
        samples += x['samples']
        for v in x['viol']:
            v['flavour'] = x['flavour']
            viol.append(v)
        errors += x['errors']
    for c, m, fl in crashes:
        viol.append({'case': c, 'messages': [m], 'what': '', 'flavour': fl})
    viol.sort(key=lambda v: (v['case'] is None, v['case']))
    missing = [] if only is not None or a.cases else [
        '%s=%d<%d' % (k, counters.get(k, 0), n) for k, n in spec['require'].items()
        if counters.get(k, 0) < n]
    unlisted = [k for k in known if k not in findings]
    for k in unlisted:
        viol.append({'case': None, 'messages': ['known finding %s is not listed' % k],
                     'what': k, 'flavour': 'plain'})
    cov = {'evaluations': cases, 'distinct_nontrivial': len(sigs), 'rule': spec['rule'],
           'samples': samples[:6] or [{'case': None, 'what': 'none'}],
           'states': len(states), 'observed': dict(sorted(counters.items())),
           'other_properties': foreign}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': cov, 'assumptions': spec.get('assume', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if only is None:
        with open(os.path.join(evdir, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for k in sorted(findings):
        if k in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, findings[k]))
    if foreign:
        print('note: monitors of other properties also fired: %r' % foreign)
        for m in fmsg[:3]:
            print('   %s' % m[:300])
    for v in viol[:5]:
        path = os.path.join(rpdir, '%s-%s-%s.json' % (prop, seed, v['case']))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'case': v['case'],
                       'flavour': v['flavour'], 'messages': v['messages'],
                       'what': v['what']}, f, indent=1)
        for m in v['messages'][:3]:
            print('  case %s: %s' % (v['case'], m[:500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    print('%s %s: %d cases, %d distinct, %d states, %.1f s; %s' % (
        prop, tier, cases, len(sigs), len(states), time.time() - t0,
        ', '.join('%s=%d' % kv for kv in sorted(counters.items()))[:900]))
    if viol:
        return 1
    if errors:
        print('HARNESS ERROR: ' + errors[0][-2500:])
        return 2
    if missing or cases == 0:
        print('INCONCLUSIVE: monitors not reached: %s' % ', '.join(missing))
        return 2
    return 0


def ensure(d):
    os.makedirs(d, exist_ok=True)
    return d


def load_findings(prop):
    """key -> text of the findings that are recorded and not repaired; lines like
    open: property=C11 key=some-key what fails"""
    out = {}
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            w = line.strip().split(' ', 3)
            if len(w) == 4 and w[0] == 'open:' and w[1] == 'property=' + prop:
                out[w[2].split('=', 1)[1]] = w[3]
    return out


if __name__ == '__main__':
    sys.exit(main())
