# -*- coding: utf-8 -*-
"""Agreement of words with numerals."""
import fast as st

import gen
import model as M
from api import same
from scene import Scene

ID = 'C08'
EXAMPLES = (5000, 40000)
RULE = ('A template with a number and a word governed by it ([слово|n|...]): the word of any type with its own gender, animality and '
        'possibly fixed number, the number of every class and sign, any case, gender, animality, full or semantic dependency, asked '
        'before or after the number, directly or through another variable; all numerals classes x cases x animality x gender x '
        'dependency mode are enumerated for the five governed types. Non-trivial: the governed form differs from the one without the '
        'numeral.')
NUMS = [1, 2, 5, 22, 21, 11, 0, 10 ** 6, 10 ** 9, 102, 1000, -3]


def enumerate_cases(tier):
    for t in M.NOUNISH + M.ADJISH:
        for n in NUMS[:8]:
            for case in M.VALUES['CASE']:
                for anim in M.VALUES['ANIMALITY']:
                    for gender in M.VALUES['GENDER']:
                        for mode in M.VALUES['DEPENDENCY_MODE']:
                            own = t == 'NOUN'
                            yield {'words': [{'t': t, 'k': 'к', 'p': [anim, gender] if own else []}],
                                   'ext': {'n': {'n': n}},
                                   'deps': ['n', ','.join(([] if own else [anim, gender]) + [case, mode])], 's': 0}
    for n in NUMS:                      # nouns that have only one number
        for number in M.VALUES['NUMBER']:
            for case in M.VALUES['CASE']:
                for mode in M.VALUES['DEPENDENCY_MODE']:
                    yield {'words': [{'t': 'NOUN', 'k': 'к', 'p': [number, 'но', 'жр']}], 'ext': {'n': {'n': n}},
                           'deps': ['n', case + ',' + mode], 's': 0 if number == 'ед' else 6}


@st.composite
def strategy_(draw):
    t = draw(st.sampled_from(['NOUN', 'NOUN', 'PRONOUN', 'ADJECTIVE', 'VERB', 'PARTICIPLE', 'TEXT']))
    w = {'t': t, 'k': 'к', 'p': draw(gen.own_props(t, wild=draw(st.booleans())))}
    ext = {'n': {'n': draw(gen.small_numbers())}}
    agreement = st.lists(st.sampled_from(gen.AGREEMENT + M.VALUES['CASE'] + ['сзв', 'пзв', 'загл', 'счт', 'крприл', 'крприч',
                                                                            'сравн', 'изъяв', 'пов']), max_size=4)
    deps = [','.join(draw(agreement)) for _ in range(draw(st.integers(0, 2)))]
    if draw(st.integers(0, 2)) == 0:            # properties that are fixed by the word, asked for otherwise
        fixed = draw(st.lists(st.sampled_from(['ANIMALITY', 'GENDER', 'NUMBER', 'CASE', 'INTEGER_FORM', 'DEPENDENCY_MODE', 'WORD_CASE']),
                              min_size=1, max_size=2, unique=True))
        w['p'] = w['p'] + [draw(st.sampled_from(M.VALUES[rel])) for rel in fixed]
        deps.append(','.join([draw(st.sampled_from(M.VALUES[rel])) for rel in fixed] + [draw(st.sampled_from(['вн', 'им', 'дт', 'вн']))]))
    deps.insert(draw(st.integers(0, len(deps))), 'n')
    extra = draw(st.integers(0, 3))
    if extra == 0:
        ext['noun'] = {'w': {'t': 'NOUN', 'k': 'с', 'p': draw(gen.own_props('NOUN'))}, 'p': draw(gen.props(2))}
        deps.insert(draw(st.integers(0, len(deps))), 'noun')
    elif extra == 1:
        ext['m'] = {'n': draw(gen.small_numbers())}
        deps.insert(draw(st.integers(0, len(deps))), 'm')
    return {'words': [w], 'ext': ext, 'deps': [d for d in deps if d], 's': draw(st.integers(0, M.COUNT[t] - 1)),
            'var': draw(st.integers(0, 4)) == 0}


def strategy(tier):
    return strategy_()


def run_case(case):
    case = dict(case)
    w = case['words'][0]
    if case.get('var'):                 # the governed word is itself a variable
        case['ext'] = dict(case['ext'], слово={'w': w, 'p': []})
        case['words'] = []
    scene = Scene(case)
    if case.get('var'):
        ident = 'слово'
    else:
        ident = scene.words[0]['f'][case['s']]
        if case.get('caps'):
            ident = ident.capitalize()
    text = '[n] [%s|%s]' % (ident, '|'.join(case['deps']))
    t, parsed = scene.parse(text)
    got = scene.render(t, parsed, text)
    if got is None:                     # the form asked for is not reachable: the word fixes another property
        return False, ['form is not in the dictionary']
    plain, plain_parsed = scene.parse('[n] [%s|%s]' % (ident, '|'.join(d for d in case['deps'] if d not in ('n', 'm'))))
    base = plain.substitute(externals=scene.real_ext, dictionary=scene.dictionary) if plain else None
    n = case['ext']['n']['n']
    kind = M.integer_props(n)['INTEGER_FORM']
    # the same class of number governs in the same way
    if len(case['deps']) == 2 and abs(n) not in (1,) and kind != 'цмм':
        other = {'цо': 31, 'цсд': 43, 'цост': 17, 'цд': 3}[kind]
        twin = Scene(dict(case, ext=dict(case['ext'], n={'n': other})))
        tt, pp = twin.parse(text)
        same(twin.render(tt, pp, text).split(' ', 1)[1], got.split(' ', 1)[1], 'numbers %d and %d of one class' % (n, other))
    return got != base, ['class ' + kind, 'type ' + w['t']] + (['semantic'] if 'сзв' in str(case['deps']) else [])
