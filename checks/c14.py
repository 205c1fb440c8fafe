# -*- coding: utf-8 -*-
"""Saved data of any age: stable codes, unknown ones are dropped."""
import json

import fast as st

import gen
import model as M
from api import P, T, build, expand, r, readP, rec, same, templates, words

ID = 'C14'
EXAMPLES = (7000, 56000)
RULE = ('Saved property sets with known and unknown property codes (keys as numbers or as text, the way JSON makes them) and known and '
        'unknown values, alone, inside of words and inside of templates; all 21 property codes x values -2..12 are enumerated. '
        'Non-trivial: a mixture of known and unknown codes, or an enumerated pair.')


def enumerate_cases(tier):
    for code in range(-2, 40):
        for value in range(-2, 13):
            for text in (True, False):
                yield {'saved': [[code, value]], 'text': text}
    everything = [[code, M.VERBOSE[M.VALUES[rel][-1]][2]] for code, rel in sorted(M.PROPERTY_CODES.items())]
    for n in range(2, len(everything) + 1):     # many at once
        for text in (True, False):
            for inside in ('', 'word', 'template'):
                yield {'saved': everything[:n], 'text': text, 'inside': inside, 't': 'NOUN'}
                yield {'saved': everything[::-1][:n] + [[77, 0]], 'text': text, 'inside': inside, 't': 'VERB'}
    for v in gen.ALL_VERBOSE:
        yield {'code': v}
    for t in M.TYPES:
        yield {'type': t}


@st.composite
def strategy_(draw):
    code = st.one_of(st.sampled_from(sorted(M.PROPERTY_CODES)), st.sampled_from(sorted(M.PROPERTY_CODES)), st.integers(0, 30),
                     st.sampled_from([8, 21, 22, 100, -1, 10 ** 6]))
    value = st.one_of(st.integers(0, 5), st.integers(-1, 12), st.sampled_from([99, 1000, -5]))
    saved = draw(st.lists(st.tuples(code, value).map(list), max_size=draw(st.sampled_from([7, 7, 25])), unique_by=lambda x: x[0]))
    if draw(st.integers(0, 5)) == 0:            # nearly every category there is
        saved = [[c, draw(value)] for c in draw(st.permutations(sorted(M.PROPERTY_CODES) + [8, 22]))[draw(st.integers(0, 5)):]]
    return {'saved': saved, 'text': draw(st.booleans()), 'inside': draw(st.sampled_from(['', '', 'word', 'template'])),
            't': draw(st.sampled_from(M.TYPES))}


def strategy(tier):
    return strategy_()


def run_case(case):
    if 'code' in case:
        v = case['code']
        rel, name, code = M.VERBOSE[v]
        saved = json.loads(json.dumps(words.Properties(rec(v)).serialize()))
        same(saved, {str(M.CODE_OF_RELATION[rel]): code}, 'saved %s.%s' % (rel, name))
        return True, ['code']
    if 'type' in case:
        t = case['type']
        m = expand({'t': t, 'k': 'к'})
        saved = json.loads(json.dumps(build(m).serialize()))
        same(saved, {'type': M.TYPE_CODE[t], 'forms': m['f'], 'properties': {}}, 'saved %s' % t)
        w = words.Word.deserialize(saved)
        same(w.type.name, t, 'loaded type')
        same(len(w.forms), M.COUNT[t], 'loaded forms')
        return True, ['type']
    saved = {(str(c) if case['text'] else c): v for c, v in case['saved']}
    expected = {}
    for c, v in case['saved']:
        rel = M.PROPERTY_CODES.get(c)
        if rel is not None and (rel, v) in M.BY_CODE:
            expected[rel] = M.BY_CODE[(rel, v)]
    inside = case.get('inside')
    if inside == 'word':
        t = case['t']
        w = words.Word.deserialize({'type': M.TYPE_CODE[t], 'forms': ['ф'] * M.COUNT[t], 'properties': saved})
        same(w.type.name, t, 'loaded type')
        got = w.properties
    elif inside == 'template':
        t = templates.Template.deserialize({'template': '%s', 'substitutions': [{'id': 'x', 'dependencies': ['y', saved]}]})
        back = t.serialize()['substitutions'][0]
        same((back['id'], back['dependencies'][0], len(back['dependencies'])), ('x', 'y', 2), 'loaded template')
        same({int(k): v for k, v in back['dependencies'][1].items()},
             {M.CODE_OF_RELATION[rel]: M.VERBOSE[v][2] for rel, v in expected.items()}, 'properties kept by a template')
        got = words.Properties.deserialize(saved)
    else:
        got = words.Properties.deserialize(saved)
    same(readP(got), expected, 'loaded properties')
    same({int(k): v for k, v in got.serialize().items()},
         {M.CODE_OF_RELATION[rel]: M.VERBOSE[v][2] for rel, v in expected.items()}, 'saved again')
    mixed = bool(expected) and len(expected) < len(saved)
    return mixed or len(case['saved']) == 1, ['mixed'] if mixed else ['all known' if len(expected) == len(saved) else 'all unknown']
