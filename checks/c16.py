# -*- coding: utf-8 -*-
"""Selection of phrases by key and restrictions."""
import random

import fast as st

import gen
from api import check, expect_error, lexicon, same, templates

ID = 'C16'
EXAMPLES = (3500, 28000)
RULE = ('A history of additions of phrases (keys, sets of restrictions up to 9 values, the same phrase more than once) and requests '
        'in any order, answers compared with a list of what was added; random choices are drawn 30 times for every candidate with recorded seeds, every '
        'admissible phrase has to come up. Non-trivial: a request for which some but not all phrases of the key are admissible.')
DRAWS = 30
PHRASES = 14


@st.composite
def strategy_(draw):
    keys = draw(st.lists(st.one_of(st.integers(0, 3), st.sampled_from(['k', 'key', '', '0', '1', 'K', -1, ' k', 'ё', 'е'])), min_size=1, max_size=3, unique=True))
    pool = draw(st.sampled_from([[1, 2, 3], ['a', 'b', 'c', 'd'], [0, 1, 2, 3, 4, 5], ['ab', 'bc', 'a', 'b', 'c']]))
    if draw(st.integers(0, 3)) == 0:
        pool = list(range(9))
    subset = st.lists(st.sampled_from(pool), max_size=4 if len(pool) < 9 else 9, unique=True)
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        if draw(st.integers(0, 2)):
            ops.append(['add', draw(st.sampled_from(keys)), draw(st.integers(0, 4)), draw(st.one_of(subset, st.none()))])
        else:
            ops.append(['ask', draw(st.sampled_from(keys + ['absent'])), draw(st.one_of(subset, st.none()))])
    for k in keys[:2]:
        ops.append(['ask', k, draw(subset)])
    if draw(st.integers(0, 4)) == 0:            # a key with many phrases
        common = draw(st.one_of(st.none(), subset))
        many = [['add', keys[0], i, common] for i in draw(st.permutations(range(PHRASES)))[:draw(st.integers(5, PHRASES))]]
        at = draw(st.integers(0, len(ops)))
        ops[at:at] = many
        ops.append(['ask', keys[0], draw(st.one_of(subset, st.just(common)))])
    return {'ops': ops, 'seed': draw(st.integers(0, 1000))}


def strategy(tier):
    return strategy_()


def enumerate_cases(tier):
    full = list(range(12))
    for n in range(1, 13):                      # phrases with many restrictions, all but one of them given
        ops = [['add', 'k', 0, None], ['add', 'k', 1, full[:n]], ['add', 'k', 2, full[:n - 1]], ['add', 'k', 3, full[1:n]]]
        asked = [full[:n], full, full[:n - 1], full[1:n], full[:n // 2] + full[n // 2 + 1:], []]
        yield {'ops': ops + [['ask', 'k', a] for a in asked], 'seed': n}
    for n in (50, 101, 257):                    # many phrases, many keys
        ops = [['add', 'k', i, [i % 5] if i % 3 else None] for i in range(n)] + [['add', i, 0, [i % 2]] for i in range(n)]
        yield {'ops': ops + [['ask', 'k', [1]], ['ask', 'k', []], ['ask', n - 1, [0, 1]], ['ask', n, [0]], ['ask', 'k', [0, 1, 2, 3, 4, 5]]],
               'seed': n}


def pick(fn, seeds):
    out = []
    state = random.getstate()
    try:
        for s in seeds:
            random.seed(s)
            out.append(fn())
    finally:
        random.setstate(state)
    return out


def run_case(case):
    lex = lexicon.Lexicon()
    phrases = []
    for i in range(max([PHRASES] + [op[2] + 1 for op in case['ops'] if op[0] == 'add'])):
        t = templates.Template()
        t.parse('фраза %d' % i, externals=[])
        phrases.append(t)
    number = {id(t): i for i, t in enumerate(phrases)}
    stored, partial, labels = [], False, set()
    for op in case['ops']:
        if op[0] == 'add':
            _, key, i, restr = op
            if restr is None:
                lex.add_template(key, phrases[i])
            else:
                lex.add_template(key, phrases[i], restrictions=(frozenset, set)[i % 2](restr))
            stored.append((key, i, frozenset(restr or ())))
            continue
        _, key, restr = op
        asked = (frozenset, set)[len(phrases) % 2 if restr is None else len(restr) % 2](restr or ())
        mine = [(i, r) for k, i, r in stored if k == key]
        fit = [(i, r) for i, r in mine if r <= asked]
        same(bool(lex.has_key(key)), bool(mine), 'has_key(%r)' % (key,))
        got = sorted(number[id(t)] for t in lex.get_templates(key, asked))
        same(got, sorted(i for i, r in fit), 'get_templates(%r, %r)' % (key, sorted(asked)))
        calls = [('get_random_template', {i for i, r in fit}),
                 ('get_random_nearest_template', {i for i, r in fit if len(r) == max(len(q) for _, q in fit)})]
        for name, ok in calls:
            fn = (lambda: getattr(lex, name)(key)) if restr is None else (lambda: getattr(lex, name)(key, restrictions=asked))
            if not mine:
                expect_error({('UnknownLexiconKeyError', key)}, fn, name)
                labels.add('unknown key')
            elif not fit:
                expect_error({('NoTemplatesWithSpecifiedRestrictions', None)}, fn, name)
                labels.add('nothing admissible')
            else:
                weight = [i for i, r in fit] if name == 'get_random_template' else [i for i, r in fit if i in ok]
                n = DRAWS * len(weight) if len(ok) > 1 else 4     # one of them is missed with probability e^-30
                seen = set(number[id(t)] for t in pick(fn, range(case['seed'], case['seed'] + n)))
                check(seen <= ok, '%s(%r, %r) gives %r, admissible are %r', name, key, sorted(asked), sorted(seen), sorted(ok))
                same(seen, ok, '%s(%r, %r): phrases that came up in %d draws' % (name, key, sorted(asked), n))
                labels.add('choice of %d' % len(ok))
        if fit and len(fit) < len(mine):
            partial = True
    return partial, sorted(labels)
