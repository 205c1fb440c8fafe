# -*- coding: utf-8 -*-
"""Which word and form a dictionary text stands for."""
import unicodedata

import fast as st

import gen
import model as M
from api import (P, T, build, check, dictionary, exceptions, expand, expect_error, readP, read_word, same, word_key)

ID = 'C15'
EXAMPLES = (1800, 14000)
RULE = ('1-6 words of any types whose forms come from a small pool of texts, so that texts belong to many slots of many words; '
        'equal and nearly equal words; added at once or one by one, in every of several orders, duplicates included; texts that differ a little from known ones are asked for, too. '
        'Non-trivial: some text belongs to at least two different words.')


@st.composite
def strategy_(draw):
    pool = draw(st.lists(gen.form_text(4).filter(bool), min_size=1, max_size=5, unique=True))
    words = []
    for _ in range(draw(st.integers(1, 5))):
        if words and draw(st.integers(0, 3)) == 0:
            w = dict(draw(st.sampled_from(words)))                  # a near copy
            if draw(st.booleans()):
                w['o'] = dict(w.get('o', {}), **{str(draw(st.integers(0, 17))): draw(st.sampled_from(pool))})
            if draw(st.booleans()):
                w['p'] = draw(gen.own_props(w['t']))
            if draw(st.integers(0, 2)) == 0:
                w['t'] = draw(st.sampled_from([t for t in M.TYPES if M.COUNT[t] == M.COUNT[w['t']]]))
        else:
            t = draw(st.sampled_from(['NOUN', 'NOUN', 'VERB', 'VERB', 'PREPOSITION', 'TEXT', 'TEXT', 'PRONOUN', 'INTEGER', 'ADJECTIVE',
                                      'PARTICIPLE']))
            w = {'t': t, 'k': draw(st.sampled_from(pool)), 'p': draw(gen.own_props(t)), 'o': {}}
            n = M.COUNT[t]
            for _ in range(draw(st.integers(0, 5))):
                w['o'][str(draw(st.integers(0, n - 1)))] = draw(st.sampled_from(pool))
        words.append(w)
    orders = [draw(st.permutations(range(len(words)))) for _ in range(draw(st.integers(1, 2)))]
    return {'words': words, 'orders': [list(o) for o in orders], 'dup': draw(st.lists(st.integers(0, len(words) - 1), max_size=2)),
            'ask': draw(st.lists(gen.form_text(), max_size=3))}


def strategy(tier):
    return strategy_()


def enumerate_cases(tier):
    for n in (20, 70):                          # many words
        words = [{'t': ['NOUN', 'VERB', 'TEXT', 'PREPOSITION'][i % 4], 'k': 'слово%d' % (i * 5 % n // 2), 'p': [], 'o': {'0': 'общее%d' % (i % 3)}}
                 for i in range(n)]
        yield {'words': words, 'orders': [list(range(n))[::-1]], 'dup': [0, n - 1, n // 2], 'ask': ['нет']}


NEAR = (lambda s: s + ' ', lambda s: ' ' + s, lambda s: s.upper(), lambda s: s[:1].upper() + s[1:], lambda s: s + '\n', lambda s: s[:-1],
        lambda s: s.replace('ё', 'е'), lambda s: s.replace('е', 'ё'), lambda s: s + s[-1:], lambda s: unicodedata.normalize('NFC', s),
        lambda s: unicodedata.normalize('NFD', s), lambda s: s.casefold(), lambda s: s.replace(' ', '-'))


def check_dictionary(d, mwords, ask, what):
    entries = M.dictionary_entries(mwords)
    owners = set()
    near = {change(text) for text in sorted(entries)[:3] for change in NEAR}
    for text in sorted(set(entries) | set(ask) | near):
        if text == '':
            continue
        same(bool(d.has_word(text)), text in entries, '%s: has_word(%r)' % (what, text))
        if text not in entries:
            expect_error({('NoWordsFoundError', text)}, lambda: d.get_word(text), '%s: get_word(%r)' % (what, text))
            continue
        wf = d.get_word(text)
        same(wf.form, text, '%s: text of get_word' % what)
        got = (word_key(read_word(wf.word)), tuple(sorted(readP(wf.properties).items())))
        ok = [(word_key(mwords[wi]), tuple(sorted(props.items()))) for wi, i, props in entries[text]]
        check(got in ok, '%s: %r stands for %r, expected %r', what, text, (got[0][0], got[1]), [(o[0][0], o[1]) for o in ok])
        owners.add(got[0])
    listed = [word_key(read_word(w)) for w in d.get_words()]
    same(len(listed), len(set(listed)), '%s: repeated words in get_words' % what)
    if '' in entries:
        check(owners <= set(listed) <= {word_key(w) for w in mwords}, '%s: get_words', what)
    else:
        same(set(listed), owners, '%s: get_words' % what)
    return entries


def run_case(case):
    mwords = [expand(w) for w in case['words']]
    entries = None
    for k, order in enumerate(case['orders'] + [list(range(len(mwords)))]):
        seq = [mwords[i] for i in order]
        real = [build(w) for w in seq]
        if k % 2:
            d = dictionary.Dictionary()
            for w in real:
                d.add_word(w)
            for i in case['dup']:
                d.add_word(build(mwords[i]))
        else:
            d = dictionary.Dictionary(words=(list, tuple, iter)[len(mwords) % 3](real))
        for w, m in zip(real, seq):
            same(read_word(w), m, 'word after it was added')
        check_dictionary(d, seq, case['ask'], 'order %s' % order)
    entries = M.dictionary_entries(mwords)
    owners = {}
    for wi, w in enumerate(mwords):
        for f in set(w['f']):
            owners.setdefault(f, set()).add(word_key(w))
    shared = any(len(o) > 1 for o in owners.values())
    labels = ['words %d' % len(mwords)] + ['shared text'] * shared
    if any(len(e) > 1 for e in entries.values()):
        labels.append('tie between different words')
    types = [{k[0] for k in o} for o in owners.values()]
    if any(len(x) > 1 for x in types):
        labels.append('text of several parts of speech')
    return shared, labels
