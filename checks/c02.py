# -*- coding: utf-8 -*-
"""The number, meaning and order of a word's forms."""
import fast as st

import gen
import model as M
from api import (P, T, build, check, data, expand, expect_error, readP, same, verbose, words)

ID = 'C02'
EXAMPLES = (6000, 48000)
RULE = ('For all eight types: the whole layout (count, keys by slot, inverse map) against an independently enumerated '
        'one, every slot individually; words of any type with any own properties listed through all_forms; any wrong number '
        'of forms; several words listed in turns. Non-trivial: all enumerated cases, words with own properties, form counts within 200 of the right one.')


def enumerate_cases(tier):
    for t in M.TYPES:
        yield {'layout': t}
        for i in range(M.COUNT[t]):
            yield {'slot': i, 't': t}
        for n in range(0, M.COUNT[t] + 30):
            yield {'t': t, 'n': n}


@st.composite
def strategy_(draw):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        t = draw(st.sampled_from(M.TYPES))
        n = draw(st.one_of(st.integers(0, 200), st.sampled_from([18, 101, 48, 20, 148, 1, 3, 12, 23, 144, 72, 27])))
        return {'t': t, 'n': n, 'p': draw(gen.own_props(t))}
    case = {'w': draw(gen.word_spec())}
    if kind == 3:                               # listed together with another one, in turns
        t = draw(st.sampled_from([case['w']['t'], draw(gen.wtypes())]))
        case['also'] = draw(gen.word_spec(wtype=t))
        case['turns'] = draw(st.lists(st.integers(0, 3), min_size=1, max_size=12))
    return case


def strategy(tier):
    return strategy_()


def run_case(case):
    if 'layout' in case:
        t = case['layout']
        n = M.COUNT[t]
        same(words.Word.get_forms_number(T(t)), n, 'number of forms of %s' % t)
        keys = [tuple(verbose(x) for x in key) for key in words.Word.get_keys(T(t))]
        same(keys, [tuple(k) for k in M.SLOTS[t]], 'slots of %s' % t)
        cache = {tuple(verbose(x) for x in key): i for key, i in data.WORDS_CACHES[T(t)].items()}
        same(cache, {tuple(k): i for k, i in M.LAYOUT[t].items()}, 'data.WORDS_CACHES[%s]' % t)
        return True, ['layout']
    if 'slot' in case:
        t, i = case['t'], case['slot']
        m = expand({'t': t, 'k': 'к'})
        word = build(m)
        props = [v for v in M.SLOTS[t][i] if v is not None]
        same(word.form(P(props)), m['f'][i], 'form of slot %d of %s' % (i, t))
        wf = list(word.all_forms())[i]
        same(readP(wf.properties), M.pset(props), 'properties of slot %d of %s' % (i, t))
        same(wf.form, m['f'][i], 'all_forms()[%d] of %s' % (i, t))
        return True, ['slot']
    if 'n' in case:
        t, n = case['t'], case['n']
        forms = ['ф%d' % i for i in range(n)]
        kwargs = {'properties': P(case['p'])} if case.get('p') else {}
        make = lambda: words.Word(type=T(t), forms=forms, **kwargs)     # noqa: E731
        if n == M.COUNT[t]:
            same(list(make().forms), forms, 'forms')
        else:
            expect_error({('WrongFormsNumberError', n)}, make, '%d forms for %s' % (n, t))
            right = words.Word(type=T(t), forms=['ф'] * M.COUNT[t], **kwargs).serialize()
            expect_error({('WrongFormsNumberError', n)}, lambda: words.Word.deserialize(dict(right, forms=forms)),
                         'loading %d forms for %s' % (n, t))
        return abs(n - M.COUNT[t]) < 200, ['form count right' if n == M.COUNT[t] else 'form count wrong']
    m = expand(case['w'])
    word = build(m)
    if 'also' in case:
        together(m, word, case)
    listed = list(word.all_forms())
    same(len(listed), M.COUNT[m['t']], 'length of all_forms')
    for i, wf in enumerate(listed):
        props = M.pset(M.slot_props(m['t'], i), m['p'])
        same(readP(wf.properties), props, 'properties of all_forms()[%d]' % i)
        same(wf.form, M.spell(m, props), 'text of all_forms()[%d]' % i)
        check(wf.word == word, 'word of all_forms()[%d]', i)
    return bool(m['p']), ['all_forms', 'type ' + m['t']] + (['own properties'] if m['p'] else [])


def together(m, word, case):
    other = expand(case['also'])
    pairs = [(m, word), (other, build(other)), (m, word), (m, build(m))]
    running = [iter(w.all_forms()) for _, w in pairs]
    seen = [0] * len(pairs)
    for k in case['turns'] * 3:
        i = seen[k]
        m, wf = pairs[k][0], next(running[k], None)
        if i >= len(m['f']):
            same(wf, None, 'a form after the last one')
            continue
        seen[k] += 1
        props = M.pset(M.slot_props(m['t'], i), m['p'])
        check(wf is not None, 'no form %d of a word listed together with others', i)
        same((wf.form, readP(wf.properties)), (M.spell(m, props), props), 'form %d of a word listed together with others' % i)
