# -*- coding: utf-8 -*-
"""One process: imports the modules of utg in the order given, then runs cases of the checks; used by checks/c24.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.environ['UTG_REPO'], HERE, os.path.join(os.path.dirname(HERE), 'checks')]
sys.path.append('/opt/venv/lib/python3.12/site-packages')

import warnings                         # noqa: E402
warnings.simplefilter('ignore')


def cases(job):
    for pid, case in job['cases']:
        yield pid, case
    for pid, step, offset in job.get('every', ()):              # every n-th of the enumerated cases of a check
        for i, case in enumerate(__import__(pid.lower()).enumerate_cases('quick')):
            if i % step == offset:
                yield pid, case


def main():
    job = json.loads(sys.stdin.buffer.read().decode('ascii'))
    for name in job['modules']:
        __import__('utg.' + name)
    from harness import describe
    for pid, case in cases(job):
        try:
            __import__(pid.lower()).run_case(case)
        except Exception as e:
            sys.stdout.write(json.dumps([pid, describe(e), case]))
            return 3
    sys.stdout.write('"ok"')
    return 0


if __name__ == '__main__':
    sys.exit(main())
