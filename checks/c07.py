# -*- coding: utf-8 -*-
"""Numbers: text and grammatical class of every integer."""
import fast as st

import gen
import model as M
from api import constructors, check, readP, same

ID = 'C07'
EXAMPLES = (15000, 120000)
RULE = ('Every integer from -12000 to 25000 in blocks of 100, and generated integers of any size and sign (ends 0-130 of powers of '
        'ten, neighbours of the literals of the sources, up to 10^24), each asked for twice and interleaved with others. '
        'Non-trivial: the numbers of the case are not all within 0..20.')


def enumerate_cases(tier):
    low, high = (-12000, 25000) if tier == 'quick' else (-120000, 1200000)
    for n in range(low, high, 100):
        yield {'from': n, 'to': n + 100}


def strategy(tier):
    return st.lists(gen.numbers(), min_size=1, max_size=4).map(lambda ns: {'ns': ns})


def one(n):
    wf = constructors.construct_integer(n)
    same(wf.form, str(n), 'text of %d' % n)
    same(wf.word.type.name, 'INTEGER', 'type of %d' % n)
    expected = M.integer_props(n)
    same(readP(wf.properties), expected, 'properties of %d' % n)
    same(readP(wf.word.properties), expected, 'properties of the word for %d' % n)
    same(list(wf.word.forms), [str(n)], 'forms of %d' % n)
    return wf, expected


def run_case(case):
    if 'from' in case:
        for n in range(case['from'], case['to']):
            one(n)
        return True, ['block']
    made = [one(n) for n in case['ns']]
    for n in reversed(case['ns']):
        one(n)
    for (wf, expected), n in zip(made, case['ns']):
        same((wf.form, readP(wf.properties)), (str(n), expected), 'kept number %d' % n)
        check(wf == constructors.construct_integer(n), 'two constructions of %d are not equal', n)
    labels = ['class ' + e['INTEGER_FORM'] for _, e in made] + ['negative'] * any(n < 0 for n in case['ns'])
    return any(n not in range(21) for n in case['ns']), labels
