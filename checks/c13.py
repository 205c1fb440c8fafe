# -*- coding: utf-8 -*-
"""Saving to JSON and loading back."""
import json

import fast as st

import gen
import model as M
from api import P, build, check, expand, readP, read_word, same, templates, words
from c11 import scene as make_scene
from scene import Scene

ID = 'C13'
EXAMPLES = (5000, 40000)
RULE = ('Property sets with any properties (parts of speech too), words of any type with any forms and properties, and the templates of '
        'C11, taken through serialize -> JSON text -> deserialize, twice; the loaded objects are compared with the originals and '
        'used for lookups and rendering. Non-trivial: the object has at least one property or dependency.')


@st.composite
def strategy_(draw):
    kind = draw(st.integers(0, 2))
    if kind == 0:
        return {'props': draw(gen.props(8))}
    if kind == 1:
        w = draw(gen.word_spec())
        if draw(st.booleans()):
            n = M.COUNT[w['t']]
            w['o'] = {str(draw(st.integers(0, n - 1))): draw(gen.any_text()) for _ in range(draw(st.integers(1, 3)))}
        return {'word': w, 'req': draw(gen.props(3))}
    case = draw(make_scene())
    around = st.one_of(st.just(''), st.sampled_from(['\n', ' ', '\t', '%', '\r\n', ']', '\u00a0', '"', '\\n', 'Ё']), gen.any_text(6))
    case['text'] = draw(around) + case['text'] + draw(around)
    return case


def strategy(tier):
    return strategy_()


def enumerate_cases(tier):
    yield {'props': []}
    for v in gen.ALL_VERBOSE:
        yield {'props': [v]}
    for t in M.TYPES:
        yield {'word': {'t': t, 'k': 'к', 'p': []}, 'req': []}
        for v in gen.ALL_VERBOSE:
            yield {'word': {'t': t, 'k': 'к', 'p': [v]}, 'req': []}


def through(value):
    return json.loads(json.dumps(value))


def run_case(case):
    if 'props' in case:
        p = P(case['props'])
        saved = through(p.serialize())
        q = words.Properties.deserialize(saved)
        same(readP(q), M.pset(case['props']), 'loaded properties')
        check(p == q and q == p and not (p != q), 'loaded properties are not equal to the saved')
        same(hash(p), hash(q), 'hash of loaded properties')
        same(through(q.serialize()), saved, 'saved again')
        same(readP(words.Properties.deserialize(p.serialize())), M.pset(case['props']), 'loaded without JSON')
        return bool(case['props']), ['properties']
    if 'word' in case:
        m = expand(case['word'])
        w = build(m)
        saved = through(w.serialize())
        v = words.Word.deserialize(saved)
        same(read_word(v), m, 'loaded word')
        check(w == v and v == w and not (w != v), 'loaded word is not equal to the saved')
        same(hash(w), hash(v), 'hash of the loaded word')
        same(v.form(P(case['req'])), w.form(P(case['req'])), 'form of the loaded word')
        same(v.normal_form(), w.normal_form(), 'normal form of the loaded word')
        same(through(v.serialize()), saved, 'saved again')
        same(read_word(w), m, 'the original word')
        v.autofill_missed_forms()
        return bool(m['p']), ['word', 'type ' + m['t']]
    s = Scene(case)
    t, parsed = s.parse(case['text'])
    if t is None:
        return False, ['parse error']
    saved = through(t.serialize())
    u = templates.Template.deserialize(saved)
    check(t == u and u == t, 'loaded template is not equal to the saved')
    same(through(u.serialize()), saved, 'saved again')
    got, loaded = s.render(t, parsed, case['text']), s.render(u, parsed, case['text'] + ' (loaded)')
    same(loaded, got, 'text of the loaded template')
    for w, m in zip(s.real_words, s.words):             # whole dictionary of loaded words
        same(read_word(words.Word.deserialize(through(w.serialize()))), m, 'loaded word')
    return any(d for _, d in parsed['subs']), ['template']
