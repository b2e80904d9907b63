#!/usr/bin/env python3-vt
"""check.py <property>   decide one property against /repo's current tree"""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)


def main():
    if sys.argv[1] == '--replay':
        from vp import runner
        return runner.replay(sys.argv[2])
    from vp import props, runner
    pid = sys.argv[1]
    if pid in props.PROPS:
        ents, ass = props.PROPS[pid]
        if len(sys.argv) > 2:
            ents = [e for e in ents if e.name in sys.argv[2:]]
        return runner.Check(pid, ents, ass).run()
    from vp import pyprops
    return pyprops.run(pid, sys.argv[2:])


if __name__ == '__main__':
    sys.exit(main())
