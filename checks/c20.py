# -*- coding: utf-8 -*-
"""Phonetic traits of words."""
import fast as st

import gen
import model as M
from api import P, build, check, expand, same, words

ID = 'C20'
EXAMPLES = (6000, 48000)
RULE = ('Words of any type whose forms share a stem or not, with vowels dropped, added or changed, unspecified forms, capitals, Latin '
        'letters, digits; traits read in any order and twice. Non-trivial: the word has two different specified forms.')


@st.composite
def strategy_(draw):
    t = draw(st.sampled_from(['NOUN', 'NOUN', 'TEXT', 'PREPOSITION', 'VERB', 'PRONOUN', 'ADJECTIVE']))
    n = M.COUNT[t]
    text = st.one_of(gen.phonetic_text(), gen.phonetic_text(), gen.phonetic_text().map(lambda s: s.upper()),
                     st.text(st.sampled_from('аеёиоуыэюяАЕЁИОУЫЭЮЯбвйьъЙЬЪБx1 -i'), max_size=6))
    base = draw(st.one_of(text, text, text, st.just('')))
    if draw(st.integers(0, 7)) == 0:            # long ones
        base = draw(st.one_of(gen.odd(), text.map(lambda s: s * 6), st.lists(text, min_size=5, max_size=15).map(''.join)))
    over = {}
    for _ in range(draw(st.integers(0, 4))):
        mode = draw(st.integers(0, 4))
        i = draw(st.integers(0, n - 1))
        if mode == 0:
            over[str(i)] = draw(text)
        elif mode == 1:
            over[str(i)] = base + draw(text)
        elif mode == 2:
            k = draw(st.one_of(st.integers(0, 6), st.integers(0, max(6, len(base)))))
            over[str(i)] = base[:k] + base[k + 1:]
        elif mode == 3:
            k = draw(st.one_of(st.integers(0, 6), st.integers(0, max(6, len(base)))))
            over[str(i)] = base[:k] + draw(st.sampled_from(sorted(M.VOWELS))) + base[k:]
        else:
            over[str(i)] = ''
    case = {'w': {'t': t, 'f': [base] * n, 'o': over, 'p': draw(st.sampled_from([[], ['загл'], ['мн']]))},
            'order': draw(st.permutations([0, 1, 2])), 'req': draw(st.one_of(gen.props(3), st.integers(0, n - 1)))}
    if draw(st.integers(0, 2)) == 0:            # forms changed, remembered values deleted
        case['then'] = draw(st.lists(st.tuples(st.sampled_from([0, 0, n - 1, *range(n)]), st.one_of(text, st.just(''))).map(list), min_size=1, max_size=3))
        case['skip'] = draw(st.lists(st.integers(0, 2), max_size=2, unique=True))
    return case


def strategy(tier):
    return strategy_()


def enumerate_cases(tier):
    letters = sorted(set('абвгдеёжзийклмнопрстуфхцчшщъыьэюя' + 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя'.upper() + 'abeiouyx1-'))
    for a in letters:
        yield {'w': {'t': 'TEXT', 'f': [a], 'p': []}, 'order': [0, 1, 2], 'req': []}
        for n in (2, 5, 9, 10, 11, 16, 17, 33, 64, 100, 300):
            yield {'w': {'t': 'PREPOSITION', 'f': [a * n, a * n + 'о', a * (n - 1)], 'p': []}, 'order': [0, 1, 2], 'req': []}
        for b in letters:
            yield {'w': {'t': 'PREPOSITION', 'f': [a + b, b, a], 'p': []}, 'order': [2, 1, 0], 'req': []}


def run_case(case):
    m = expand(case['w'])
    word = build(m)
    req = case['req']
    if isinstance(req, int):
        req = [v for v in M.SLOTS[m['t']][req] if v]
    wf = words.WordForm(word, P(req))
    text = M.spell(m, M.pset(req))
    look(word, wf, m, text, [k for k in case['order'] if k not in case.get('skip', ())] * 2)
    same(list(word.forms), m['f'], 'forms')
    if 1 not in case.get('skip', ()):
        same(wf.form, text, 'form')
    labels = ['syllables %d' % min(M.syllables(m), 4)] + ['fluent'] * M.fluent_vowel(m) + ['cluster'] * M.consonant_cluster(text)
    if case.get('then'):
        for i, new in case['then']:
            word.forms[i % len(m['f'])] = m['f'][i % len(m['f'])] = new
        for _ in range(2):                      # those not remembered are left alone
            for x, name in ((word, 'number_of_syllables'), (word, 'has_fluent_vowel'), (wf, 'form'), (wf, 'starts_with_consonant_cluster')):
                try:
                    delattr(x, name)
                except AttributeError:          # computed each time, nothing to delete: the values tell
                    pass
        text = M.spell(m, M.pset(req))
        look(word, wf, m, text, list(case['order']) * 2)
        same(wf.form, text, 'form')
        labels.append('deleted and computed anew')
    return len({f for f in m['f'] if f}) > 1, labels


def look(word, wf, m, text, order):
    for k in order:
        if k == 0:
            same(word.number_of_syllables, M.syllables(m), 'syllables of %r' % m['f'][0])
        elif k == 1:
            same(bool(word.has_fluent_vowel), M.fluent_vowel(m), 'fluent vowel of %r' % sorted(set(m['f'])))
        else:
            same(bool(wf.starts_with_consonant_cluster), M.consonant_cluster(text), 'consonant cluster of %r' % text)
