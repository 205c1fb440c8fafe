# -*- coding: utf-8 -*-
"""Tables of forms follow from the restrictions, whatever these are."""
import itertools

import fast as st

import gen
import model as M
from api import R, T, check, logic, rec, same, verbose

ID = 'C27'
EXAMPLES = (900, 7200)
RULE = ('Generated restrictions (which value makes which categories vanish) and excluded combinations for every word type: tables are made from them and '
        'compared with the definition, all full combinations are looked up; nearest combinations are asked for among generated ones. '
        'Non-trivial: restrictions that make at least one category of a type vanish together with an excluded combination, or at least 3 combinations '
        'to choose the nearest from.')
ASSUMPTIONS = ['no restrictions exclude all the forms of a type']

VARIED = ['NOUN', 'ADJECTIVE', 'PRONOUN', 'VERB', 'PARTICIPLE', 'PREPOSITION']


@st.composite
def strategy_(draw):
    case = {'vanish': {}, 'excluded': {}, 'nearest': []}
    for t in draw(st.lists(st.sampled_from(VARIED), max_size=3, unique=True)):
        schema = M.SCHEMAS[t]
        values = [v for rel in schema for v in M.VALUES[rel]]
        case['vanish'][t] = {v: draw(st.lists(st.sampled_from(schema + ['ASPECT']), min_size=1, max_size=3, unique=True))
                             for v in draw(st.lists(st.sampled_from(values), max_size=4, unique=True))}
        case['excluded'][t] = draw(st.lists(st.lists(st.sampled_from(values), min_size=1, max_size=3, unique=True), max_size=2))
    for _ in range(draw(st.integers(0, 3))):
        t = draw(st.sampled_from(VARIED))
        key = st.tuples(*[st.sampled_from(M.VALUES[rel] + [None]) for rel in M.SCHEMAS[t]]).map(list)
        case['nearest'].append([draw(key), draw(st.lists(key, max_size=draw(st.sampled_from([1, 3, 12]))))])
    return case


def strategy(tier):
    return strategy_()


def enumerate_cases(tier):
    yield {'vanish': {}, 'excluded': {}, 'nearest': [[['ед', 'им'], []]]}
    yield {'vanish': {t: M.VANISH[t] for t in VARIED}, 'excluded': {t: [sorted(x) for x in M.IMPOSSIBLE.get(t, [])] for t in VARIED}, 'nearest': []}
    for t in VARIED:
        for rel in M.SCHEMAS[t]:
            for v in M.VALUES[rel]:
                yield {'vanish': {t: {v: M.SCHEMAS[t]}}, 'excluded': {t: [[v, M.VALUES[M.SCHEMAS[t][0]][0]]]}, 'nearest': []}


def table(t, vanish, excluded):
    """-> combinations in order, full combination -> combination"""
    schema = M.SCHEMAS[t]
    out, where = {}, {}
    for raw in itertools.product(*[M.VALUES[rel] for rel in schema]):
        key = []
        for rel, v in zip(schema, raw):
            key.append(None if any(rel in vanish.get(u, ()) for u in key if u is not None) else v)
        key = tuple(key)
        if not any(set(part) <= set(key) for part in excluded):
            out[key] = None
            where[raw] = key
    return list(out), where


def records(key):
    return tuple(None if v is None else rec(v) for v in key)


def run_case(case):
    labels, hard = [], False
    tables = {t: table(t, case['vanish'].get(t, {}), case['excluded'].get(t, [])) for t in M.TYPES}
    for t in list(tables):
        if not tables[t][0]:
            return False, ['nothing is left']
    restrictions = {T(t): {rec(v): [R(rel) for rel in rels] for v, rels in case['vanish'].get(t, {}).items()} for t in M.TYPES}
    parts = {T(t): tuple(frozenset(rec(v) for v in part) for part in parts) for t, parts in case['excluded'].items()}
    caches, inverted = logic.get_caches(restrictions=restrictions, restricted_key_parts=parts)
    raw = logic.get_raw_caches(inverted)
    for t, (keys, where) in tables.items():
        if t not in case['vanish'] and len(case['vanish']) > 1:
            continue
        w = T(t)
        same([tuple(map(verbose, key)) for key in inverted[w]], keys, 'forms of %s' % t)
        same({tuple(map(verbose, key)): i for key, i in caches[w].items()}, {key: i for i, key in enumerate(keys)}, 'lookup of %s' % t)
        full = list(itertools.product(*[M.VALUES[rel] for rel in M.SCHEMAS[t]]))
        same({tuple(map(verbose, key)) for key in raw[w]}, set(full), 'full combinations of %s' % t)
        for key in full:
            slot = raw[w][records(key)]
            if key in where:
                same(keys[slot], where[key], 'form of %s for %s' % (t, key))
            else:
                check(0 <= slot < len(keys), 'form of %s for %s is %r of %d', t, key, slot, len(keys))
        if t in case['vanish']:
            labels.append('table of ' + t)
            hard = hard or len(where) < len(full) and len(set(where.values())) < len(where)
    for key, among in case['nearest']:
        got = logic.get_nearest_key(records(key), [records(x) for x in among])
        if not among:
            same(got, None, 'the nearest of nothing')
            continue

        def weight(x):
            equal = [i for i, (a, b) in enumerate(zip(key, x)) if a == b]
            return len(equal), sum(equal)
        best = max(weight(x) for x in among)
        ok = [tuple(x) for x in among if weight(x) == best]
        check(tuple(map(verbose, got)) in ok, 'nearest of %s to %s: %s, expected %s', among, key, tuple(map(verbose, got)), ok)
        hard = hard or len(among) >= 3
        labels.append('nearest of %d' % min(len(among), 5))
    return hard, labels or ['no restrictions']
