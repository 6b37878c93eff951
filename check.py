#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough : decides one property (see DESIGN.md).
Exit 0: held on everything explored.  Exit 1 with VIOLATION lines: broken.
Exit 2: the check itself could not run."""
import sys, os, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import vlib, props

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    t0 = time.time()
    run = props.Run(prop, tier)
    try:
        props.CHECKS[prop](run)
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s: the check could not run' % prop)
        return 2
    run.write(time.time() - t0)
    for line in run.messages:
        print(line)
    for v in run.violations:
        print('VIOLATION property=%s replay=%s' % (prop, v))
    print('%s %s: %s, %.1f s, %s' % (prop, tier, 'violated' if run.violations else 'held', time.time() - t0, {k: v for k, v in run.coverage.items() if isinstance(v, int)}))
    return 1 if run.violations else 0

if __name__ == '__main__':
    sys.exit(main())
