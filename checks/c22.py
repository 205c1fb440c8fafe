# -*- coding: utf-8 -*-
"""Words made for tests."""
import random

import fast as st

import gen
import model as M
from api import P, T, dictionary, readP, same, templates, words

ID = 'C22'
EXAMPLES = (5000, 40000)
RULE = ('Words made for any type with any prefix, suffix, own properties and mode, under any state of the random generator; every form is '
        'compared, looked up by its ids, found in a dictionary and rendered. Non-trivial: the type has several forms and the prefix, '
        'the suffix or the properties are given.')


def enumerate_cases(tier):
    for t in M.TYPES:
        for only in (False, True):
            for p in (None, []):
                yield {'t': t, 'only': only, 'props': p, 'seed': 0}
        for rel in M.RELATIONS:
            if rel != 'WORD_TYPE':
                yield {'t': t, 'only': False, 'props': [M.VALUES[rel][-1]], 'prefix': 'с', 'suffix': '!', 'seed': 1}


@st.composite
def strategy_(draw):
    t = draw(st.sampled_from(M.TYPES))
    case = {'t': t, 'only': draw(st.booleans()), 'seed': draw(st.integers(0, 10 ** 6)),
            'props': draw(st.one_of(st.none(), gen.own_props(t), gen.props(3))), 'again': draw(st.sampled_from(M.TYPES))}
    if draw(st.integers(0, 3)):
        case['prefix'] = draw(st.one_of(gen.word_text(), gen.any_text(), st.sampled_from(['', 'w-', 'тест '])))
    if draw(st.integers(0, 2)):
        case['suffix'] = draw(st.one_of(gen.word_text(), gen.any_text(), st.sampled_from(['', '-w'])))
    return case


def strategy(tier):
    return strategy_()


def make(case):
    kwargs = {'only_required': case['only']}
    for name in ('prefix', 'suffix'):
        if name in case:
            kwargs[name] = case[name]
    given = P(case['props']) if case['props'] is not None else None
    if given is not None:
        kwargs['properties'] = given
    return words.Word.create_test_word(T(case['t']), **kwargs), given


def run_case(case):
    t = case['t']
    random.seed(case['seed'])
    w, given = make(case)
    texts = [case.get('prefix', 'w-') + ','.join(v for v in key if v is not None) + case.get('suffix', '') for key in M.SLOTS[t]]
    same((w.type.name, list(w.forms)), (t, texts), 'forms of a test word')
    own = readP(w.properties)
    if given is not None:
        same({k: v for k, v in own.items() if k in M.pset(case['props'])}, M.pset(case['props']), 'properties of a test word')
    for key, text in zip(M.SLOTS[t], texts):
        ids = [v for v in key if v is not None]
        if not any(M.REL_OF[v] in own for v in ids):
            same(w.form(P(ids)), M.word_form({'t': t, 'f': texts, 'p': own}, M.pset(ids)), 'lookup of %s' % ids)
            if not own:
                same(w.form(P(ids)), text, 'lookup of %s' % ids)
    other = words.Word.create_test_word(T(case.get('again', 'NOUN')), prefix='другое')
    other.forms[0] = 'изменено'
    again, _ = make(case)
    same(list(again.forms), texts, 'a test word made again')
    same(list(w.forms), texts, 'forms of a test word after others were made')
    d = dictionary.Dictionary([w])
    entries = M.dictionary_entries([{'t': t, 'f': texts, 'p': own}])
    for i, text in list(enumerate(texts))[:: max(1, len(texts) // 7)]:
        same(bool(d.has_word(text)), text in entries, 'the dictionary knows %r' % text)
        if not own and text and gen.usable_id(text.replace(',', '')) and '|' not in text:
            tpl = templates.Template()
            tpl.parse('[%s]' % text, externals=())
            same(tpl.substitute({}, d), text, 'a template of a test word')
    return len(texts) > 1 and (case['props'] is not None or 'prefix' in case or 'suffix' in case), ['type ' + t]
