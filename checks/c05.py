# -*- coding: utf-8 -*-
"""Filling of unspecified forms."""
import fast as st

import gen
import model as M
from api import P, build, check, expand, same

ID = 'C05'
EXAMPLES = (5000, 40000)
RULE = ('A word of any type with distinct texts and any pattern of unspecified slots: a few holes, a few filled slots, a run of '
        'slots, all slots with a given property; own properties any. Forms may coincide. Every single hole and every single filled slot of '
        'every type is enumerated. Non-trivial: some slot is unspecified and some slot is filled.')


def enumerate_cases(tier):
    for t in M.TYPES:
        n = M.COUNT[t]
        yield {'w': {'t': t, 'k': 'к', 'h': list(range(n))}}
        yield {'w': {'t': t, 'k': 'к'}}
        for i in range(n):
            yield {'w': {'t': t, 'k': 'к', 'h': [i]}}
            yield {'w': {'t': t, 'k': 'к', 'h': [j for j in range(n) if j != i]}}


@st.composite
def strategy_(draw):
    t = draw(st.sampled_from(['NOUN', 'NOUN', 'ADJECTIVE', 'PRONOUN', 'VERB', 'PARTICIPLE', 'PREPOSITION']))
    n = M.COUNT[t]
    mode = draw(st.integers(0, 4))
    everything = list(range(n))
    if mode == 0:
        holes = draw(st.lists(st.integers(0, n - 1), max_size=8))
    elif mode == 1:
        keep = set(draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=6)))
        holes = [i for i in everything if i not in keep]
    elif mode == 2:
        k = draw(st.integers(1, n))
        holes = everything[k:] if draw(st.booleans()) else everything[:-k]
    elif mode == 3:
        v = draw(st.sampled_from([v for rel in M.SCHEMAS[t] for v in M.VALUES[rel]]))
        keep = draw(st.booleans())
        holes = [i for i in everything if (v in M.SLOTS[t][i]) != keep]
        extra = draw(st.lists(st.integers(0, n - 1), max_size=3))
        holes = sorted(set(holes) ^ set(extra))
    else:
        bits = draw(st.lists(st.booleans(), min_size=n, max_size=n))
        holes = [i for i in everything if bits[i]]
    spec = {'t': t, 'k': draw(st.sampled_from(['к', '', 'слово'])), 'h': sorted(set(holes)), 'p': draw(gen.own_props(t))}
    if M.COUNT[t] > 3 and draw(st.integers(0, 2)) == 0:
        spec['y'] = draw(gen.equal_slots(t))
    if draw(st.integers(0, 2)) == 0:            # specified, however strange
        spec['o'] = {str(draw(st.integers(0, n - 1))): draw(st.sampled_from([' ', '-', '0', '—', '\n', 'None', '?', 'w-']))
                     for _ in range(draw(st.integers(1, 2)))}
    return {'w': spec}


def strategy(tier):
    return strategy_()


def run_case(case):
    m = expand(case['w'])
    word = build(m)
    options = M.autofill_options(m['t'], m['f'])
    word.autofill_missed_forms()
    got = list(word.forms)
    same(len(got), len(m['f']), 'number of forms')
    for i, (text, ok) in enumerate(zip(got, options)):
        check(text in ok, 'slot %d %s after filling: %r, expected %s', i, M.SLOTS[m['t']][i], text, sorted(ok))
    for i, v in enumerate(M.SLOTS[m['t']]):
        if not m['p']:
            same(word.form(P([x for x in v if x])), got[i], 'lookup of slot %d after filling' % i)
    word.autofill_missed_forms()
    same(list(word.forms), got, 'filling twice')
    holes = m['f'].count('')
    labels = ['type ' + m['t'], 'holes %s' % ('none' if not holes else 'all' if holes == len(m['f']) else 'some')]
    if any(len(o) > 1 for o in options):
        labels.append('tie left open')
    return 0 < holes < len(m['f']), labels
