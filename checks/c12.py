# -*- coding: utf-8 -*-
"""Mistakes in templates are reported by the documented errors; everything else renders."""
import fast as st

import gen
import model as M
from api import expect_error, lexicon, same, templates
from c11 import scene as make_scene
from scene import Scene

ID = 'C12'
EXAMPLES = (5000, 40000)
RULE = ('As C11, plus blank and unknown ids, unknown properties, malformed lists, raw text from the marker alphabet, variables known when '
        'parsing but missing when rendering and the other way round, words with unspecified forms; the words reported as unknown are '
        'compared with what rendering does. Non-trivial: an error is due, or an unspecified form is rendered.')


@st.composite
def strategy_(draw):
    case = draw(make_scene(errors=True))
    names = sorted(case['ext'])
    if draw(st.integers(0, 3)) == 0:
        case['text'] += draw(st.text(st.sampled_from('[]|, %абвx'), max_size=10))
    mode = draw(st.integers(0, 3))
    if mode == 0:
        case['names'] = sorted(draw(st.sets(st.sampled_from(names))))
    elif mode == 1:
        case['given'] = sorted(draw(st.sets(st.sampled_from(names))))
    if draw(st.integers(0, 2)) == 0:
        for w in case['words']:
            n = M.COUNT[w['t']]
            w['h'] = draw(st.lists(st.integers(0, n - 1), max_size=n))
        for e in case['ext'].values():
            if 'w' in e:
                e['w']['h'] = draw(st.lists(st.integers(0, M.COUNT[e['w']['t']] - 1), max_size=6))
    return case


def strategy(tier):
    return strategy_()


def enumerate_cases(tier):
    word = {'t': 'NOUN', 'k': 'к', 'h': list(range(18)), 'p': []}
    prep = {'t': 'PREPOSITION', 'f': ['с', 'со', 'сосо'], 'p': []}
    prep2 = {'t': 'PREPOSITION', 'f': ['о', 'об', 'обо'], 'p': []}
    ext = {'a': {'w': {'t': 'TEXT', 'f': ['']}}, 'b': {'w': word}, 'n': {'n': 5}}
    for text in ['[]', '[ ]', '[|]', '[ |a]', '[|a]', '[||]', '[a|]', '[a||]', '[a| ]', '[a|,]', '[a|b|рд]', '[A]', '[B]', '[с|a]', '[о|a]', '[С|b]',
                 '[о|b|рд]', '[b|n]', '[нет]', '[нет|нету]', '[a|нету]', '[a|рд,нету]', '[a|рд;вн]', '[a|рд вн]', '[a|(рд)]', '[a', 'a]', '[[a]', '[a]]',
                 '[нет|a] [а]', '[|рд] [a|нету]', '[a|a|a|a|a|a]', '[n|n]', '[с|n]', '[с|a|b|n]', '[о|b|a]', '[\n]', '[a\n]', '[ a | рд , мн ]',
                 '[a|мр, вн]', '[A|РД]', '[a|Рд,ВН]', '[c]', '[с]', '[a|b,рд]', '[a|ed]']:
        yield {'words': [prep, prep2], 'ext': ext, 'text': text}
        yield {'words': [prep, prep2], 'ext': ext, 'text': 'начало ' + text + ' конец'}
        for missing in 'abn':
            yield {'words': [prep, prep2], 'ext': ext, 'text': text, 'given': [k for k in 'abn' if k != missing]}
            yield {'words': [prep, prep2], 'ext': ext, 'text': text, 'names': [k for k in 'abn' if k != missing]}


def run_case(case):
    s = Scene(case)
    text = case['text']
    names = case.get('names')
    t, parsed = s.parse(text, names=names)
    if t is None:
        # a failed attempt leaves the object usable
        again = templates.Template()
        _, ok = s.parse('а [%s] б' % sorted(s.ext)[0], names=names, template=again)
        before = s.render(again, ok, 'а [..] б')
        s.parse(text, names=names, template=again)
        same(s.render(again, ok, 'а [..] б'), before, 'template after a failed parse')
        return True, ['parse error']
    got = s.render(t, parsed, text, ext=case.get('given'))
    if got is None:
        return True, ['render error']
    labels = ['rendered']
    if '' in [f for w in s.words for f in w['f']]:
        labels.append('unspecified forms')
    return len(labels) > 1, labels
