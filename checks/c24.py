# -*- coding: utf-8 -*-
"""The same results in every process."""
import json
import os
import subprocess
import sys
import tempfile

import fast as st

import harness
from api import REPO, Violation

ID = 'C24'
EXAMPLES = (40, 320)
RULE = ('New processes with generated hash seed, level of optimisation (none, -O, -OO), order of importing the modules of utg, locale and '
        'development mode; in each, cases of the other checks are run against the reference model. '
        'Non-trivial: the process is optimised or its modules are imported in an unusual order, and it ran at least 3 cases.')
ASSUMPTIONS = ['one version of the interpreter']

WORKER = os.path.join(harness.HERE, 'worker.py')
MODULES = ['words', 'templates', 'dictionary', 'transformators', 'constructors', 'lexicon', 'exceptions', 'utils', 'data', 'logic',
           'restrictions', 'relations']
PIDS = ['C%02d' % i for i in range(1, 21)] + ['C22', 'C23']
COSTLY = {'C17': 11, 'C23': 7, 'C08': 3}
LOCALES = ['C.UTF-8', 'C', 'POSIX']


def enumerate_cases(tier):
    """Processes of every kind, each with the enumerated cases of all checks (the expensive ones in part)."""
    kinds = [(0, 0), (1, 3), (2, 5), (1, 8), (2, 10), (0, 4), (1, 6), (2, 1)]
    for k, (opt, rot) in enumerate(kinds if tier == 'quick' else kinds * 6):
        every = []
        for pid in PIDS:
            if hasattr(__import__(pid.lower()), 'enumerate_cases'):
                step = COSTLY.get(pid, 1)
                every.append([pid, step, (k * 3 + 1) % step])
        at = k * 7 % len(every)
        yield {'hash': 11 * k, 'opt': opt, 'modules': MODULES[rot:] + MODULES[:rot], 'locale': LOCALES[k % 3], 'dev': k % 8 == 5,
               'cases': [], 'every': every[at:] + every[:at]}


@st.composite
def strategy_(draw):
    case = {'hash': draw(st.integers(0, 1000)), 'opt': draw(st.sampled_from([1, 0, 2])), 'locale': draw(st.sampled_from(LOCALES)),
            'dev': draw(st.integers(0, 5)) == 5,
            'utf8': draw(st.sampled_from(['', '0', '1'])), 'modules': draw(st.lists(st.sampled_from(MODULES), max_size=4, unique=True)), 'cases': []}
    for _ in range(draw(st.integers(3, 8))):
        pid = draw(st.sampled_from(PIDS))
        strategy = __import__(pid.lower()).strategy('quick')
        if strategy is not None:
            case['cases'].append([pid, draw(strategy)])
    return case


def strategy(tier):
    return strategy_()


def run_case(case):
    flags = ['-B'] + [[], ['-O'], ['-OO']][case['opt']] + (['-X', 'dev'] if case['dev'] else [])
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'LC_', 'LANG'))}
    env.update(PYTHONHASHSEED=str(case['hash']), UTG_REPO=REPO, LC_ALL=case['locale'], PYTHONPATH='', PYTHONWARNINGS='ignore')
    if case.get('utf8'):
        env['PYTHONUTF8'] = case['utf8']
    job = json.dumps({'modules': case['modules'], 'cases': case['cases'], 'every': case.get('every', [])}).encode('ascii')
    with tempfile.TemporaryDirectory(prefix='verif-c24-') as folder:
        env['HYPOTHESIS_STORAGE_DIRECTORY'] = folder
        p = subprocess.run([sys.executable] + flags + [WORKER], input=job, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                           cwd=folder, timeout=400)
    if p.returncode == 3:
        pid, message, inner = json.loads(p.stdout.decode('ascii'))
        raise Violation('in a process with hash seed %d, %s, modules %s, locale %s: %s case %s: %s' % (
            case['hash'], ['no -O', '-O', '-OO'][case['opt']], case['modules'], case['locale'], pid, json.dumps(inner, ensure_ascii=False)[:600], message))
    if p.returncode != 0:
        raise Violation('a process with hash seed %d, %s, modules %s failed: %s' % (
            case['hash'], ['no -O', '-O', '-OO'][case['opt']], case['modules'], p.stderr.decode('utf-8', 'replace')[-800:]))
    labels = ['optimisation %d' % case['opt'], 'locale %s' % case['locale']] + ['cases of %s' % pid for pid in sorted({c[0] for c in case['cases'] + case.get('every', [])})]
    if case['modules']:
        labels.append('first import %s' % case['modules'][0])
    return (bool(case['opt']) or case['modules'] != MODULES) and len(case['cases'] + case.get('every', [])) >= 3, labels
