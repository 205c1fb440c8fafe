# -*- coding: utf-8 -*-
"""Letter case of the first letter."""
import fast as st

import gen
import model as M
from api import (P, build, build_external, dictionary, expand, external, same, templates, words)

ID = 'C06'
EXAMPLES = (8000, 64000)
RULE = ('A word (any text: Cyrillic, Latin, digits, empty, already capitalised) used as a variable or found in the dictionary, '
        'with the marker id in any letter case, and properties for letter case coming from the marker, from a dependency, from '
        'the variable and from the word itself. Non-trivial: some capital letter is requested or present.')


@st.composite
def strategy_(draw):
    ident = draw(st.one_of(gen.word_text(5), st.sampled_from(['hero', 'герой', 'ёлка', '1x', 'x'])))
    mask = draw(st.one_of(st.sampled_from([[1], [0], [0, 1], [1, 1, 1, 1, 1, 1, 1, 1]]),
                          st.lists(st.integers(0, 1), max_size=5)))
    cases = st.sampled_from([[], [], ['загл'], ['строч'], ['загл', 'строч'], ['строч', 'загл'], ['мн'], ['загл', 'рд']])
    known = draw(st.sampled_from(['external', 'dictionary']))
    text = st.one_of(gen.word_text(), st.text(st.sampled_from('аЯёЁзЗxX1 -ß\u0149'), max_size=4), st.just(''))
    if known == 'external':
        t = draw(st.sampled_from(['TEXT', 'TEXT', 'NOUN', 'PREPOSITION']))
        w = {'t': t, 'f': [draw(text) for _ in range(M.COUNT[t])], 'p': draw(cases)}
    else:
        w = {'t': draw(st.sampled_from(['TEXT', 'NOUN', 'ADJECTIVE'])), 'k': ident, 'o': {'0': ident}, 'p': []}
        if w['t'] == 'TEXT':
            w = {'t': 'TEXT', 'f': [ident], 'p': []}
    return {'id': ident, 'mask': mask, 'known': known, 'w': w, 'wp': draw(cases), 'parts': draw(st.lists(cases, max_size=2)),
            'dep': draw(st.one_of(st.none(), cases)), 'pos': draw(st.integers(0, 2)),
            'lit': draw(st.sampled_from(['', ' ', 'А ', 'а. ']))}


def strategy(tier):
    return strategy_()


def run_case(case):
    ident = ''.join(c.upper() if (case['mask'] + [0] * len(case['id']))[i] else c for i, c in enumerate(case['id']))
    m = expand(case['w'])
    externals, real = {}, {}
    words_ = []
    if case['known'] == 'external':
        spec = {'w': case['w'], 'p': case['wp']}
        externals[case['id']] = external(spec)
        real[case['id']] = build_external(spec, externals[case['id']])
        same(real[case['id']].form, M.spell(m, M.pset(case['wp'])), 'WordForm.form')
    else:
        words_ = [m]
    slots = [','.join(p) for p in case['parts']]
    if case['dep'] is not None:
        spec = {'w': {'t': 'TEXT', 'f': ['д']}, 'p': case['dep']}
        externals['dep!'] = external(spec)
        real['dep!'] = build_external(spec, externals['dep!'])
        slots.insert(case['pos'], 'dep!')
    text = case['lit'] + '[' + '|'.join([ident] + slots) + ']'
    t = templates.Template()
    d = dictionary.Dictionary(words=[build(w) for w in words_])
    parsed = M.parse(text, set(externals))
    t.parse(text, externals=list(externals))
    try:
        expected = M.render(parsed, externals, M.dictionary_entries(words_), words_)
    except M.RenderError:                                   # str.lower() may not undo str.upper()
        return False, ['id not reversible']
    got = t.substitute(externals=real, dictionary=d)
    if got not in expected:
        same(got, expected[0], text)
    caps = ident[0].isupper() or 'загл' in str(case) or any(f != f.lower() for f in m['f'])
    labels = [case['known'], 'capital id' if ident[0].isupper() else 'lower id']
    if got[len(case['lit']):len(case['lit']) + 1].isupper():
        labels.append('capital result')
    return caps, labels
