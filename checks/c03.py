# -*- coding: utf-8 -*-
"""Algebra of property sets."""
import fast as st

import gen
import model as M
from api import P, R, check, data, readP, rec, same, unrec, words

ID = 'C03'
EXAMPLES = (6000, 48000)
RULE = ('A program building property sets: each step makes a new set from any mixture of single properties, nothing (None) and '
        'earlier sets, by the constructor or by clone; after every step all sets made so far are re-read. Non-trivial: '
        'some relation is given at least twice with different values.')


@st.composite
def strategy_(draw):
    steps = []
    for i in range(draw(st.integers(1, 6))):
        args = draw(st.lists(st.one_of(gen.prop(), gen.prop(), st.none(),
                                       st.integers(0, i - 1) if i else st.none()), max_size=6 if draw(st.integers(0, 7)) else 26))
        steps.append({'base': draw(st.integers(0, i - 1)) if i and draw(st.booleans()) else None, 'args': args})
    return steps


def strategy(tier):
    return strategy_()


def enumerate_cases(tier):
    for v in gen.ALL_VERBOSE:
        for w in gen.ALL_VERBOSE:
            yield [{'base': None, 'args': [v, w]}]
    everything = gen.ALL_VERBOSE
    yield [{'base': None, 'args': everything}, {'base': 0, 'args': everything[::-1]}, {'base': None, 'args': [0, 1]}, {'base': None, 'args': [1, None, 0]}]


def run_case(case):
    made, models, overridden = [], [], False
    for step in case:
        real, plain = [], []
        for a in step['args']:
            if isinstance(a, int):
                real.append(made[a])
                plain.append(models[a])
            else:
                real.append(None if a is None else rec(a))
                plain.append(a)
        if step['base'] is None:
            made.append(words.Properties(*real))
            model = M.pset(*plain)
        else:
            made.append(made[step['base']].clone(*real))
            model = M.pset(models[step['base']], *plain)
        flat = [M.pset(p) for p in ([models[step['base']]] if step['base'] is not None else []) + plain]
        for rel in model:
            if len({f[rel] for f in flat if rel in f}) > 1:
                overridden = True
        models.append(model)
        for i, (p, m) in enumerate(zip(made, models)):
            same(readP(p), m, 'contents of set %d after step %d' % (i, len(made) - 1))
            for rel in M.RELATIONS:
                same(unrec(p.get(R(rel)), rel), M.get(m, rel), 'get(%s) of set %d' % (rel, i))
                same(bool(p.is_specified(R(rel))), rel in m, 'is_specified(%s) of set %d' % (rel, i))
            for q, n in zip(made, models):
                same(p == q, m == n, 'equality of sets')
    return overridden, ['steps %d' % len(case)] + (['overridden'] if overridden else [])
