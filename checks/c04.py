# -*- coding: utf-8 -*-
"""Documented property ids: one id - one property, in markup and in printed property sets."""
import fast as st

import gen
import model as M
from api import P, check, dictionary, expect_error, readP, rec, same, templates, words

ID = 'C04'
EXAMPLES = (8000, 64000)
RULE = ('Lists of documented ids with any letter case, spaces around them, empty items, repeated and contradictory ones, and '
        'unknown ids (near misses of real ones included), split over several parts of a marker; all 68 ids are enumerated. '
        'Non-trivial: at least two ids, or an unknown id.')


def read_marker(text, ext=()):
    t = templates.Template()
    t.parse(text, externals=list(ext))
    return t


def deps(template):
    out = []
    for d in template.serialize()['substitutions'][0]['dependencies']:
        out.append(d if isinstance(d, str) else readP(words.Properties.deserialize(d)))
    return out


def enumerate_cases(tier):
    for v in gen.ALL_VERBOSE:
        yield {'parts': [[v]], 'styles': [0]}
        yield {'parts': [[v]], 'styles': [1]}
    for n in range(2, len(M.RELATIONS) + 1):    # sets of every size
        for k in range(3):
            some = [M.VALUES[rel][(k * 7 + i) % len(M.VALUES[rel])] for i, rel in enumerate(sorted(M.RELATIONS)[k * 5:] + sorted(M.RELATIONS)[:k * 5])]
            yield {'parts': [some[:n]], 'styles': [0]}
            yield {'parts': [[v] for v in some[:n]], 'styles': [0]}
    for v in gen.ALL_VERBOSE:
        for bad in (v + 'ъ', v[:-1], v[1:], v + v, v + '.', '-' + v):
            yield {'parts': [[bad]], 'styles': [0]}


@st.composite
def strategy_(draw):
    ident = st.one_of(gen.prop(), gen.prop(), gen.prop(), gen.prop(), st.just(''))
    if draw(st.integers(0, 3)) == 0:
        ident = st.one_of(gen.prop(), st.builds(lambda v, c, i: v[:i] + c + v[i:], gen.prop(),
                                                st.sampled_from('абвг1xлм '), st.integers(0, 4)), gen.word_text())
    size = draw(st.sampled_from([(5, 3)] * 9 + [(30, 3), (4, 16)]))
    parts = draw(st.lists(st.lists(ident, max_size=size[0]), min_size=1, max_size=size[1]))
    return {'parts': parts, 'styles': draw(st.lists(st.integers(0, 7), min_size=1, max_size=6))}


def strategy(tier):
    return strategy_()


def style(v, s):
    if s & 1:
        v = v.upper()
    if s & 2:
        v = ' ' + v
    if s & 4:
        v = v + ' \t'
    return v


def run_case(case):
    parts, styles = case['parts'], case['styles']
    text, k = '[слово', 0
    for part in parts:
        items = []
        for v in part:
            items.append(style(v, styles[k % len(styles)]))
            k += 1
        text += '|' + ','.join(items)
    text += ']'
    ids = [v for part in parts for v in part]
    try:
        expected = M.parse_marker(text, set())
    except M.ParseError as e:
        expect_error(e.kinds, lambda: read_marker(text), text)
        return True, ['unknown id']
    merged = M.pset(*[d for _, d in expected[1]])
    t = read_marker(text)
    same(M.pset(*deps(t)), merged, 'properties of %s' % text)
    props = P([v.lower().strip() for v in ids if v.strip()])
    same(readP(props), merged, 'property set')
    printed = str(props)
    check(isinstance(printed, str) and printed[:1] == '(' and printed[-1:] == ')', 'printed property set is %r', printed)
    same(sorted(v for v in printed[1:-1].split(',') if v), sorted(merged.values()), 'printed property set')
    back = read_marker('[слово|' + printed[1:-1] + ']')
    same(M.pset(*deps(back)), merged, 'printed property set read back')
    return len(ids) > 1, ['ids %d' % min(len(ids), 6)]
