# -*- coding: utf-8 -*-
"""Calls cut short in the middle."""
import importlib
import json
import os

import fast as st

import c21
import gen
import model as M
from api import (REPO, P, Violation, build, check, constructors, dictionary, expand, readP, read_word, same, templates, word_key, words)
from cut import Cut

ID = 'C23'
EXAMPLES = (1200, 9600)
RULE = ('A call (rendering, choosing phrases, lookups, enumerations, numbers, phonetics, saving, loading, parsing, adding to a dictionary, filling) on shared '
        'fresh words, variables, dictionary and templates gets KeyboardInterrupt at a line or call inside of utg, at places all over it; then '
        'it is made again, followed by 1-4 other calls on the same objects, all compared with the model. '
        'Non-trivial: the call was cut (in at least 3 places, where the same objects are made anew for every place).')
ASSUMPTIONS = ['an interrupted filling, parsing or loading leaves its own new object to be thrown away or parsed anew',
               'interrupts come between lines and at the entry of functions of utg, not inside of other libraries']


KINDS = ('render', 'traits', 'form', 'forms', 'wf', 'int', 'get', 'absent', 'save', 'str', 'equal', 'parse', 'load', 'new', 'words',
         'add', 'reparse', 'render', 'traits', 'add', 'fill', 'lex', 'lex')


@st.composite
def strategy_(draw, every):
    pool = draw(st.lists(gen.word_text(4), min_size=2, max_size=4, unique=True))
    salt, pool = draw(c21.salted(pool))
    specs = []
    for _ in range(draw(st.integers(1, 3))):
        t = draw(st.sampled_from(['NOUN', 'NOUN', 'VERB', 'PREPOSITION', 'TEXT', 'PRONOUN', 'ADJECTIVE']))
        n = M.COUNT[t]
        w = {'t': t, 'k': draw(st.sampled_from(pool)), 'p': draw(gen.own_props(t)),
             'o': {str(draw(st.integers(0, n - 1))): draw(st.sampled_from(pool)) for _ in range(draw(st.integers(0, 3)))}}
        if draw(st.integers(0, 4)) == 0:
            w['h'] = draw(st.lists(st.integers(0, n - 1), max_size=4))
        specs.append(w)
    names = draw(st.lists(st.sampled_from(['a', 'b', 'n', 'герой']), min_size=1, max_size=3, unique=True))
    ext = {name: draw(gen.integer_spec() if name == 'n' else gen.external_spec(text=st.sampled_from(pool))) for name in names}
    texts = []
    for _ in range(draw(st.integers(1, 2))):
        text = draw(st.sampled_from(['', 'это ']))
        for _ in range(draw(st.integers(1, 3))):
            ident = draw(st.one_of(st.sampled_from(names), st.sampled_from(pool)))
            deps = [draw(st.one_of(st.sampled_from(names), gen.props(2).map(','.join))) for _ in range(draw(st.integers(0, 2)))]
            text += '[' + '|'.join([ident] + deps) + ']' + draw(st.sampled_from(['', ' ', '%']))
        texts.append(text)
    one = c21.op(len(specs), names, len(texts), pool)
    kind = draw(st.sampled_from(KINDS))
    more = c21.op(len(specs), names, len(texts), pool, (kind,))
    case = {'words': specs, 'ext': ext, 'texts': texts, 'cut': draw(more), 'then': draw(st.lists(one, min_size=1, max_size=4))}
    return dict(case, place=draw(st.integers(1, 12)), every=every, salt=salt, lex=draw(c21.phrases))


def strategy(tier):
    return strategy_(12 if tier == 'quick' else 40)


def enumerate_cases(tier):
    base = {'words': [{'t': 'NOUN', 'k': 'сон', 'p': ['но']}, {'t': 'PREPOSITION', 'f': ['в', 'во', 'в'], 'p': []}],
            'ext': {'n': {'n': 10001}, 'герой': {'w': {'t': 'NOUN', 'k': 'рот', 'p': ['но']}}}, 'texts': ['[n] [сонбабуб|n] [в|герой]']}
    for place in (1, 2, 5, 30, 300, 3000, 30000, 100000):       # making the numbers kept ready
        for number in (0, 7, 10000):
            yield dict(base, cut=['int', number], then=[['int', 5], ['int', 10000], ['int', 21], ['render', 0]], place=place, reload=True)
    for op in (['render', 0], ['traits', 'герой'], ['forms', 0], ['words'], ['get', 'сонбабуб'], ['save', 0], ['load', 0], ['parse', 0],
               ['reparse', 0, 'new'], ['reparse', 0, 'other'], ['add', 0], ['add', 1], ['str', 0], ['equal', 0], ['fill', 0], ['new', 0], ['absent', 0], ['form', 0, ['мн', 'дт']]):
        yield dict(base, cut=op, then=[['render', 0], ['traits', 'герой'], ['get', 'сонбабуб'], ['words'], ['forms', 0]], place=1, every=200)
    ops = c21.rich_ops()
    then = [calls[-1] for kind, calls in sorted(ops.items()) if kind in ('render', 'get', 'lex', 'traits', 'forms', 'int')]
    for kind in sorted(ops):                    # every kind of call is cut, another one of this kind follows
        for i, op in enumerate(ops[kind]):
            if kind == 'lex' or i < 2 or tier != 'quick':
                yield dict(c21.RICH, cut=op, then=[ops[kind][i - 1]] + then, place=1 + i % 3, every=2000 if tier != 'quick' else 60)
    for i in range(4):
        yield dict(c21.RICH, cut=['add', i], then=then, place=1, every=2000 if tier != 'quick' else 60)
        yield dict(c21.RICH, cut=['reparse', i, ['new', 'other'][i % 2]], then=then, place=1, every=2000 if tier != 'quick' else 60)


class Shared(c21.Shared):
    def __init__(self, case):
        c21.Shared.__init__(self, case)
        self.late = None
        if case['cut'][0] == 'add':
            self.late = case['cut'][1]
            self.d = dictionary.Dictionary(words=[w for i, w in enumerate(self.w) if i != self.late])
        if case['cut'][0] == 'reparse':
            i = case['cut'][1]
            self.t[i] = templates.Template()
            if case['cut'][2:] != ['new']:
                self.t[i].parse('[%s] и так' % list(self.mext)[0], externals=list(self.mext))

    def call(self, op):
        if op[0] == 'add':
            def add():
                self.d.add_word(self.w[op[1]])
                return {text: self.d.get_word(text) for text in sorted(asked) if self.d.has_word(text)}
            order = [m for i, m in enumerate(self.m) if i != op[1]] + [self.m[op[1]]]
            entries = M.dictionary_entries(order)
            asked = set(entries) | {f for m in order for f in m['f']}
            return add, lambda x: self.judge_known(self.value(x), entries, order)
        if op[0] == 'reparse':
            def go():
                self.t[op[1]].parse(self.texts[op[1]], externals=list(self.mext))
                return self.t[op[1]].serialize()
            if self.parsed[op[1]] is None:
                return (lambda: None), (lambda x: None)
            return go, lambda x: same(json.dumps(self.value(x)), self.saved(op[1]), 'template parsed anew')
        return c21.Shared.call(self, op)

    def judge_known(self, got, entries, mwords):
        same(set(got), set(entries), 'texts of the dictionary')
        for text, wf in got.items():
            check((word_key(read_word(wf.word)), readP(wf.properties)) in [(word_key(mwords[wi]), p) for wi, i, p in entries[text]],
                  'word %r', text)


def attempt(go):
    try:
        return ('value', go())
    except Exception as e:
        return ('error', e)


def one_place(case, place):
    """-> (was it cut, steps)"""
    if case.get('reload'):                      # the first use of the numbers
        importlib.reload(constructors)
    shared = Shared(case)
    go, judge = shared.call(case['cut'])
    cut = Cut(os.path.join(REPO, 'utg'), place)
    result = cut.run(go)
    try:
        if result is not None:
            judge(result)
        judge(attempt(go))                      # again, and other calls
        for op in case['then']:
            go_, judge_ = shared.call(op)
            judge_(attempt(go_))
        judge(attempt(go))
        shared.check_words()
    except Violation as e:
        raise Violation('after %s was cut at step %d: %s' % (case['cut'][0], place, e))
    return result is None, cut.count


def run_case(case):
    labels = ['cut ' + case['cut'][0]] + ['then ' + op[0] for op in case['then']]
    if case.get('reload'):
        was, _ = one_place(case, case['place'])
        return was, labels + ['first use of the numbers']
    labels += ['new texts'] * bool(case.get('salt'))
    _, steps = one_place(c21.fresh(case, 0), 0)
    cuts, place, k = 0, case['place'], 0
    while place <= steps:
        k += 1
        was, _ = one_place(c21.fresh(case, k), place)
        cuts += was
        place += max(1, steps // case['every'])
    return cuts >= 3, labels
