#!/usr/bin/env python3-vt
"""python3-vt checks/run.py <property id>: decide one property on /repo's current tree."""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, d) for d in ('engine', 'contracts', 'oracle', 'checks')]
sys.setrecursionlimit(20000)
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True

if __name__ == '__main__':
    import props
    pid = sys.argv[1]
    sys.exit(props.run(pid))
