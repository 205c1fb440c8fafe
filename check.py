#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""check.py ID                 run the check of a property (VERIF_SEED, VERIF_TIER)
   check.py ID --replay FILE   run one saved case against the current tree: exit 1 if it still violates"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'lib'))
import harness  # noqa: E402


def main(argv):
    pid = argv[0]
    if len(argv) > 1 and argv[1] == '--shard':
        harness.shard_main(pid, int(argv[2]), int(argv[3]), argv[4], int(argv[5]), argv[6])
        return 0
    if len(argv) > 1 and argv[1] == '--fuzz':
        harness.fuzz_main(pid, int(argv[2]), int(argv[3]), argv[4], int(argv[5]), argv[6])
        return 0
    if len(argv) > 1 and argv[1] == '--replay':
        if harness.PYTHON != sys.executable and not os.environ.get('VERIF_REEXEC'):
            os.execve(harness.PYTHON, [harness.PYTHON] + sys.argv, dict(harness.env(), VERIF_REEXEC='1'))
        if harness.replay_file(pid, argv[2]):
            print('VIOLATION property=%s replay=%s' % (pid, argv[2]))
            return 1
        print('OK property=%s replay=%s' % (pid, argv[2]))
        return 0
    return harness.main(pid)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
