#!/usr/bin/env python3
"""check.py <property>            runs the check of a property on /repo's working tree (exit 0 held, 1 violated, 2 machinery failed)
   check.py --replay <file>      executes a recorded violating behaviour again and validates it
   check.py --list"""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vf, checks


def main():
    a = sys.argv[1:]
    if a == ['--list']:
        print(' '.join(sorted(checks.CHECKS)))
        return 0
    if a and a[0] == '--replay':
        r = json.load(open(a[1]))
        c = vf.Check(r['property'])
        c.conform(r['trace_spec'], [r['behaviour']], 'replay of ' + r['what'], props=r['props'])
        return 1 if c.viol else 0
    c = vf.Check(a[0])
    try:
        checks.CHECKS[a[0]](c)
    except BaseException:
        c.finish() if c.viol else None
        raise
    return c.finish()


if __name__ == '__main__':
    try:
        rc = main()
    except vf.Problem as e:
        print('PROBLEM', e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
