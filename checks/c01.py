# -*- coding: utf-8 -*-
"""A requested combination of properties yields the word's form for exactly that combination."""
import fast as st

import gen
import model as M
from api import (P, build, build_external, check, dictionary, expand, external, readP, same, templates, words)

ID = 'C01'
EXAMPLES = (8000, 64000)
RULE = ('A word of any type (distinct text per slot, some slots unspecified or overridden, own properties any) and up to '
        '6 requested properties in any order; all 1127 full keys of all types are enumerated as well. Non-trivial: '
        'the request selects a slot other than 0, or the word overrides a requested property.')

WAYS = ['form', 'wordform', 'template', 'external', 'formprops']


def enumerate_cases(tier):
    for t in M.TYPES:
        for raw in M.raw_keys(t):
            yield {'w': {'t': t, 'k': 'к'}, 'req': list(raw), 'way': 'form'}
    for t in M.TYPES:                   # every slot through a template
        for key in M.SLOTS[t]:
            yield {'w': {'t': t, 'k': 'к'}, 'req': [v for v in key if v], 'way': 'external'}
            yield {'w': {'t': t, 'k': 'к'}, 'req': [v for v in key if v][::-1], 'way': 'template'}


@st.composite
def strategy_(draw):
    w = draw(gen.word_spec())
    if draw(st.booleans()) and M.SCHEMAS[w['t']]:
        req = [draw(st.sampled_from(M.VALUES[rel])) for rel in M.SCHEMAS[w['t']] if draw(st.integers(0, 3))]
        req = draw(st.permutations(req)) + draw(gen.props(2))
    else:
        req = draw(gen.props(6))
    return {'w': w, 'req': list(req), 'way': draw(st.sampled_from(WAYS)), 'base': draw(gen.props(3))}


def strategy(tier):
    return strategy_()


def run_case(case):
    m = expand(case['w'])
    word = build(m)
    req, way = case['req'], case['way']
    asked = M.pset(req)
    plain = M.word_form(m, asked)
    if way == 'form':
        same(word.form(P(req)), plain, 'Word.form')
        same(word.form(P(req)), plain, 'Word.form again')
    elif way == 'wordform':
        wf = words.WordForm(word, P(req))
        same(wf.form, M.spell(m, asked), 'WordForm.form')
        same(readP(wf.properties), M.pset(asked, m['p']), 'WordForm.properties')
    elif way == 'formprops':
        base = case.get('base', [])
        wf = words.WordForm(word, properties=P(base), form_properties=P(req))
        same(wf.form, M.spell(m, asked), 'WordForm.form with form_properties')
        same(readP(wf.properties), M.pset(base, m['p']), 'WordForm.properties with form_properties')
    elif way == 'external':
        wf = words.WordForm(word)
        t = templates.Template()
        t.parse('[x|%s]' % ','.join(req), externals=['x'])
        same(t.substitute(externals={'x': wf}, dictionary=dictionary.Dictionary()), M.spell(m, asked), 'template')
    else:
        wf = words.WordForm(word, P(case.get('base', [])))
        t = templates.Template()
        t.parse('[x' + ''.join('|' + v for v in req) + ']', externals=['x'])
        same(t.substitute(externals={'x': wf}, dictionary=dictionary.Dictionary()),
             M.spell(m, M.pset(case.get('base', []), asked)), 'template')
    same(word.normal_form(), M.word_form(m, m['p']), 'Word.normal_form')
    same(word.forms, m['f'], 'forms after lookups')
    s = M.slot(m['t'], M.pset(asked, m['p']))
    over = any(m['p'].get(rel, v) != v for rel, v in asked.items())
    key = tuple(M.get(M.pset(asked, m['p']), rel) for rel in M.SCHEMAS[m['t']])
    labels = ['way ' + way, 'type ' + m['t']]
    if over:
        labels.append('own property overrides a requested one')
    if key not in M.LAYOUT[m['t']] and None not in key and M._canonical(m['t'], key) not in M.LAYOUT[m['t']]:
        labels.append('combination without a slot')
    if plain == '':
        labels.append('unspecified form')
    return s > 0 or over, labels
