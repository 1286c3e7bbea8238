#!/usr/bin/env python3
"""check.py ID [--thorough]: decide one property of /repo by static analysis.
exit 0: held; exit 1 with a VIOLATION line: broken; exit 2: the analysis gave no answer."""
import sys, os, json, time, importlib, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))


def known(pid):
    r = []
    f = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                r.append(l.split(' ', 2)[2])
    return r


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    from front import AnalysisError
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        res = mod.run(tier)
    except AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % pid)
        return 2
    kn = known(pid)
    viol = []
    for v in res.violations:
        if any(k == v.key for k in kn):
            print('KNOWN-FINDING: property=%s %s' % (pid, v.key))
        else:
            viol.append(v)
    cov = dict(res.coverage)
    cov['explanation'] = res.explanation
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
              assumptions=res.assumptions, wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %s' % (pid, '; '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, (int, float, str)) and k != 'explanation')))
    if viol:
        os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
        path = os.path.join(ROOT, 'replay', pid + '.txt')
        with open(path, 'w') as f:
            for v in viol:
                f.write(v.text() + '\n\n')
        for v in viol[:20]:
            print(v.text())
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
