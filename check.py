#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current source by static analysis."""
import os
import resource
import signal
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rules'))
sys.dont_write_bytecode = True
import base
import registry


class OutOfTime(Exception):
    pass


def limit():
    '''No source may keep a check from answering: past these bounds what is not decided is inconclusive.'''
    def late(*_):
        raise OutOfTime('the analysis ran out of time')
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 600, 5)
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))


def main():
    pid = sys.argv[1]
    t0 = time.time()
    facts = sys.argv[2] if len(sys.argv) > 2 else None
    tmp = None
    if facts is None:
        facts = tmp = base.extract()
    try:
        C = base.Ctx(facts)
    finally:
        if tmp:
            os.unlink(tmp)
            if os.path.exists(tmp + '.uses'):
                os.unlink(tmp + '.uses')
    rule = registry.RULES[pid]
    R = base.Result(pid)
    limit()
    base.guard(R, 'rule ' + pid, rule.fn, C, R)
    signal.setitimer(signal.ITIMER_REAL, 0)
    return base.emit(R, C, t0, registry.LEVEL.get(pid, 'other'), rule.explanation)


if __name__ == '__main__':
    sys.exit(main())
