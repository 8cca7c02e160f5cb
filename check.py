#!/usr/bin/env python3
"""Decide one property of /repo's current working tree:  python3 check.py C01 [--thorough]

exit 0: every obligation examined holds (or is a listed known finding); exit 1: a VIOLATION line names the property and a
file describing the construct; any other exit: the analysis itself failed."""
import json, os, signal, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import registry
from sa.report import Report, VERIF, DEADLINE, OutOfTime, alarm
from sa.lab import Lab
from sa import extract

KNOWN = os.path.join(VERIF, 'known-findings.txt')


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith('KNOWN-FINDING: property=%s ' % pid):
                rest = line.split(' ', 2)[2].strip()
                key, what = rest.split(' ', 1)
                out[key.split('=', 1)[1]] = what
    return out


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv[2:] or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rule = registry.RULES[pid]
    t0 = time.time()
    R = Report(pid, tier, seed)
    try:
        labs = {}
        for cfg in ('par', 'seq'):
            labs[cfg] = Lab(cfg)
            R.cfgs[cfg] = len(labs[cfg].prog.bodies)
    except extract.ExtractError as e:
        print('analysis failed: %s' % e)
        return 3
    R.t_extract = time.time() - t0
    deep = tier == 'thorough'
    DEADLINE[0] = t0 + float(os.environ.get('SA_BUDGET', '7000' if deep and os.environ.get('VERIF_TIER') != 'quick' else '640'))
    for f in rule:
        if getattr(f, 'whole', False):      # compares the configurations, or divides the work itself
            alarm(DEADLINE[0] + 40 - time.time())
            try:
                f(R, labs, deep)
            except Exception:
                R.undecided('analysis', 'analysis', 'analysis error: %s' % traceback.format_exc(limit=-4)[-400:])
            except OutOfTime:
                R.undecided('time', 'analysis', 'the time set aside for the analysis is used up')
            signal.setitimer(signal.ITIMER_REAL, 0)
        else:
            R.spread([(cfg, (lambda r, cfg=cfg: f(r, {cfg: labs[cfg]}, deep))) for cfg in labs])
    kf = known(pid)
    seen = {}
    real = []
    for v in R.violations:
        if v.get('key') in kf:
            seen[v['key']] = kf[v['key']]
        else:
            real.append(v)
    for k, w in seen.items():
        print('KNOWN-FINDING: property=%s key=%s %s' % (pid, k, w))
    R.write(real, seen, registry.TEXT.get(pid, ''))
    tot = R.totals()
    print('%s %s: %d rule/function obligations, %d instances held, %d undecided, %d violations, %.1fs' %
          (pid, tier, tot['obligations'], tot['held'], tot['undecided'], len(real), time.time() - t0))
    for u in R.undecided_why[:6]:
        print('  undecided: %s' % u[:300])
    if real:
        p = os.path.join(VERIF, 'evidence', '%s.violation.txt' % pid)
        with open(p, 'w') as f:
            for v in real[:40]:
                f.write(json.dumps(v, indent=1, default=str) + '\n')
        for v in real[:5]:
            print('  %s [%s] at %s: %s' % (v['function'], v['config'], v['where'], v['what'][:300]))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
