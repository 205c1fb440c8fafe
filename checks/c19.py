# -*- coding: utf-8 -*-
"""Equality and hashes."""
import fast as st

import gen
import model as M
from api import P, build, check, dictionary, expand, readP, same, templates, word_key, words

ID = 'C19'
EXAMPLES = (6000, 48000)
RULE = ('Groups of 2-5 nearly equal objects of one kind (property sets, words, word forms, templates): copies, copies with one property, one '
        'text, the type or one dependency changed, built in different orders; every pair is compared both ways, put into sets, '
        'and compared again after the objects were used. Non-trivial: the group has an equal pair of separate objects and an unequal pair.')


def parses(text):
    try:
        M.parse(text, {'x', 'y'})
    except M.ParseError:
        return False
    return True


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(['props', 'word', 'form', 'template']))
    n = draw(st.integers(2, 5))
    group = []
    for i in range(n):
        if kind == 'props':
            if group and draw(st.booleans()):
                p = list(draw(st.permutations(draw(st.sampled_from(group)))))
                if draw(st.integers(0, 2)) == 0:
                    p.append(draw(gen.prop()))
            else:
                p = draw(gen.props(4))
            group.append(p)
        elif kind in ('word', 'form'):
            if group and draw(st.integers(0, 3)):
                item = dict(draw(st.sampled_from(group)))
                w = dict(item['w'])
                change = draw(st.integers(0, 8))
                if change == 0:
                    w['p'] = draw(gen.own_props(w['t']))
                elif change == 1:
                    w['o'] = dict(w.get('o', {}), **{str(draw(st.integers(0, M.COUNT[w['t']] - 1))): draw(gen.word_text(3))})
                elif change == 2:
                    w['t'] = draw(st.sampled_from([t for t in M.TYPES if M.COUNT[t] == M.COUNT[w['t']]]))
                elif change in (5, 6):          # the same texts in other slots
                    forms = expand(w)['f']
                    i, j = draw(st.integers(0, len(forms) - 1)), draw(st.integers(0, len(forms) - 1))
                    w = {'t': w['t'], 'p': w['p'], 'o': dict(w.get('o', {}), **{str(i): forms[j], str(j): forms[i]}),
                         **{key: w[key] for key in ('f', 'k') if key in w}}
                elif change == 3:
                    item['p'] = draw(gen.props(3))
                elif change == 4:
                    item['fp'] = draw(st.one_of(st.none(), gen.props(2)))
                item['w'] = w
            else:
                item = {'w': draw(gen.word_spec()), 'p': draw(st.one_of(st.none(), gen.props(3))), 'fp': None}
            group.append(item)
        else:
            if group and draw(st.integers(0, 3)):
                t = draw(st.sampled_from(group))
                change = draw(st.integers(0, 4))
                if change == 0:
                    t = t + draw(st.sampled_from([' ', '%', 'а', '[y]']))
                elif change == 1:
                    t = t.replace('[x', draw(st.sampled_from(['[X', '[ x', '[y'])), 1)
                elif change == 2:
                    t = t.replace(']', draw(st.sampled_from(['|рд]', '|y]', '|]', '|рд,мн]', '|мн,рд]'])), 1)
                elif change == 3:
                    a = draw(st.sampled_from(['рд', 'мн', 'y', 'x', 'дт', 'им', 'ед']))
                    t = t.replace(a, draw(st.sampled_from(['дт', 'ед', 'им', 'рд', 'x', 'y', 'мн,жр'])), 1)
            else:
                t = draw(st.sampled_from(['[x] а', 'а [x|рд] б', '[x|y|мн] %', '[y][x]', 'а', '%s', '[x|рд,мн]', '[x|рд]', '[y|дт] %']))
            if group and not parses(t):         # the change made it a template nobody can parse
                t = group[0]
            group.append(t)
    return {'kind': kind, 'group': group, 'use': draw(st.integers(0, 1))}


def strategy(tier):
    return strategy_()


def make(kind, spec):
    if kind == 'props':
        return P(spec), M.pset(spec)
    if kind == 'template':
        t = templates.Template()
        t.parse(spec, externals=['x', 'y'])
        parsed = M.parse(spec, {'x', 'y'})
        return t, (parsed['lit'], parsed['subs'])
    m = expand(spec['w'])
    if kind == 'word':
        return build(m), word_key(m)
    kwargs = {}
    if spec.get('p') is not None:
        kwargs['properties'] = P(spec['p'])
    if spec.get('fp') is not None:
        kwargs['form_properties'] = P(spec['fp'])
    return words.WordForm(build(m), **kwargs), (word_key(m), M.pset(spec.get('p') or [], m['p']))


def use(kind, obj):
    if kind == 'props':
        str(obj), obj.serialize(), obj.clone(obj)
    elif kind == 'word':
        obj.number_of_syllables, obj.has_fluent_vowel, obj.normal_form(), list(obj.all_forms()), obj.serialize()
    elif kind == 'form':
        obj.form, obj.starts_with_consonant_cluster, obj.word.number_of_syllables
    else:
        obj.serialize(), obj.get_undictionaried_words(externals={}, dictionary=dictionary.Dictionary())


def compare(kind, made):
    equal = unequal = False
    for i, (a, ma) in enumerate(made):
        for j, (b, mb) in enumerate(made):
            is_equal = ma == mb
            same(bool(a == b), is_equal, '%s %d == %d' % (kind, i, j))
            same(bool(a != b), not is_equal, '%s %d != %d' % (kind, i, j))
            if kind != 'template':
                if is_equal:
                    same(hash(a), hash(b), 'hashes of equal %s %d and %d' % (kind, i, j))
            if i != j:
                equal |= is_equal
                unequal |= not is_equal
    if kind != 'template':
        distinct = []
        for _, m in made:
            if m not in distinct:
                distinct.append(m)
        same(len(set(a for a, _ in made)), len(distinct), 'size of a set of %s' % kind)
        table = {a: distinct.index(m) for a, m in made}
        for a, m in made:
            same(table[a], distinct.index(m), 'lookup by an equal %s' % kind)
    return equal, unequal


def run_case(case):
    kind = case['kind']
    made = [make(kind, spec) for spec in case['group']]
    if case['use']:
        use(kind, made[0][0])
    hashes = [hash(a) for a, _ in made] if kind != 'template' else []
    equal, unequal = compare(kind, made)
    for a, _ in made:
        use(kind, a)
    compare(kind, made)
    if kind != 'template':
        same([hash(a) for a, _ in made], hashes, 'hashes after use')
    for spec, (a, m) in zip(case['group'], made):
        if kind == 'word':
            check(a != 1 and not (a == 'x'), 'a word equals something else')
        if kind == 'props':
            check(a != 1 and not (a == 'x') and not (a == {}), 'a property set equals something else')
    return equal and unequal, ['kind ' + kind] + ['equal pair'] * equal + ['unequal pair'] * unequal
