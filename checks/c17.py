# -*- coding: utf-8 -*-
"""Migrations of saved words."""
import copy
import glob
import hashlib
import importlib
import json
import os

import fast as st

import gen
import harness
import history_model as H
import model as M
from api import REPO, P, Violation, check, same, words

ID = 'C17'
EXAMPLES = (1000, 8000)
RULE = ('Saved words of every type in formats 6, 7 and 8 (with distinct and repeated texts, unspecified forms, any properties and other '
        'saved fields) taken through one step or the whole rest of the chain and loaded; nouns of format 1 with and without patches, '
        'prepositions of format 3, participles of format 4, and words each step must leave alone. Non-trivial: the step changes '
        'something, or the chain has at least two steps.')
ASSUMPTIONS = ['A participle of format 6 stored every form for both voices; either of the two is accepted in format 7.',
               'A comparative adjective form of format 7 may come from any comparative form of format 6 (they are equally near).']
KNOWN = harness.known_findings()


def step(k):
    paths = glob.glob(os.path.join(REPO, 'utg', 'migrations', 'm_%04d_*.py' % k))
    check(len(paths) == 1, 'migration %d is missing', k)
    return importlib.import_module('utg.migrations.' + os.path.basename(paths[0])[:-3])


def known(key, message):
    if (ID, key) in KNOWN:
        return (True, ['known finding'], [key])
    raise Violation('%s [%s]' % (message, key))


def enumerate_cases(tier):
    for start in (6, 7, 8):
        for t in M.TYPES:
            for end in range(start + 1, 10):
                yield {'t': t, 'start': start, 'end': end, 'base': 'ф', 'over': {}, 'props': []}
                yield {'t': t, 'start': start, 'end': end, 'base': '', 'over': {}, 'props': []}
                for i in range(0, 292, 7):      # a single form is there
                    yield {'t': t, 'start': start, 'end': end, 'base': '', 'over': {str(i): 'слово'}, 'props': []}
    for t in M.TYPES:
        for k in (2, 4, 5):
            for props in ([], ['прш', 'ед'], ['нст'], [M.VALUES[rel][-1] for rel in M.PROPERTY_CODES.values()]):
                yield {'t': t, 'only': k, 'base': 'ф', 'over': {}, 'props': props}
    for k in (3, 6):
        yield {'importable': k}
    for t in ('ADJECTIVE', 'PARTICIPLE', 'NOUN', 'VERB'):
        yield {'first': t}


@st.composite
def strategy_(draw):
    t = draw(st.sampled_from(['NOUN', 'ADJECTIVE', 'PRONOUN', 'VERB', 'PARTICIPLE', 'PREPOSITION', 'INTEGER', 'TEXT']))
    case = {'t': t, 'base': draw(st.sampled_from(['ф', 'ф', ''])), 'props': draw(gen.own_props(t)),
            'over': draw(st.dictionaries(st.integers(0, 291).map(str), st.one_of(gen.word_text(), st.just('')), max_size=6)),
            'extra': draw(st.dictionaries(st.sampled_from(['id', 'comment', 'used']), st.one_of(st.integers(0, 9), st.text(max_size=3)),
                                          max_size=2))}
    if draw(st.integers(0, 2)) == 0:
        case['only'] = draw(st.sampled_from([2, 4, 5]))
        if draw(st.integers(0, 2)):
            case['t'] = t = {2: 'NOUN', 4: 'PREPOSITION', 5: 'PARTICIPLE'}[case['only']]
            case['props'] = draw(st.one_of(gen.own_props(t), gen.props(4), st.just(['прш', 'взв'])))
        case['patches'] = draw(st.one_of(st.none(), st.lists(gen.word_text(), min_size=6, max_size=6)))
    else:
        case['start'] = draw(st.integers(6, 8))
        case['end'] = draw(st.integers(case['start'] + 1, 9))
    return case


def strategy(tier):
    return strategy_()


def saved_forms(case, n):
    forms = ['%s%d' % (case['base'], i) if case['base'] else '' for i in range(n)]
    for i, text in sorted(case['over'].items()):
        if n:
            forms[int(i) % n] = text
    return forms


def saved_word(case, n):
    out = dict(case.get('extra', {}))
    out.update(type=M.TYPE_CODE[case['t']], forms=saved_forms(case, n),
               properties={str(M.CODE_OF_RELATION[rel]): M.VERBOSE[v][2] for rel, v in M.pset(case['props']).items()})
    return out


def rest(word):
    return {k: v for k, v in word.items() if k != 'forms'}


def load(result, what):
    w = words.Word.deserialize(json.loads(json.dumps({k: result[k] for k in ('type', 'forms', 'properties')})))
    for i, key in enumerate(M.SLOTS[w.type.name]):
        if not result['properties']:
            same(w.form(P([v for v in key if v])), result['forms'][i], '%s: slot %d after loading' % (what, i))


def apart(one, another, what):
    """Two words have nothing in common that can be changed."""
    kept = json.dumps(another, sort_keys=True)
    one = copy.copy(one)
    forms = list(one['forms'])
    if isinstance(one['forms'], list):
        one['forms'][:] = ['другой'] * len(forms)
        one['forms'].append('ещё')
    one['properties']['99'] = 99
    same(json.dumps(another, sort_keys=True), kept, '%s: a word after an equal one was changed' % what)
    if isinstance(one['forms'], list):
        one['forms'][:] = forms
    del one['properties']['99']


def run_case(case):
    if 'importable' in case:
        k = case['importable']
        try:
            step(k)
        except AttributeError as e:
            if 'CONDITIONAL' not in str(e):
                raise
            return known('m_%04d-import-conditional' % k, 'migration %d cannot be imported: %s' % (k, e))
        return True, ['importable']
    if 'first' in case:
        return first_step(case['first'])
    t = case['t']
    if 'only' in case:
        return early_step(case)
    start, end = case['start'], case['end']
    n = len(H.FORMATS[start][t])
    word = saved_word(case, n)
    before = copy.deepcopy(word)
    other = copy.deepcopy(word)             # an equal word of its own
    options = [{f} for f in before['forms']]
    for k in range(start + 1, end + 1):
        word = step(k).migrate(word)
        if case.get('pair', True):
            other = step(k).migrate(other)
            same(other, word, 'step %d for an equal word' % k)
            apart(other, word, 'step %d' % k)
        options = [set().union(*[options[j] for j in rows]) for rows in H.donors(t, k, k - 1)]
    what = '%s from format %d to %d' % (t, start, end)
    same(len(word['forms']), len(options), '%s: number of forms' % what)
    for i, (text, ok) in enumerate(zip(word['forms'], options)):
        check(text in ok, '%s: form %d %s is %r, expected %s', what, i, H.FORMATS[end][t][i], text, sorted(ok))
    same(rest(word), rest(before), '%s: the rest of the saved word' % what)
    if end == 9:
        load(word, what)
    changed = len(options) != n or end - start > 1 or word['forms'] != before['forms']
    return changed, ['format %d to %d' % (start, end), 'type ' + t]


def early_step(case):
    k, t = case['only'], case['t']
    n = {2: {'NOUN': 12}, 4: {'PREPOSITION': 2}, 5: {}}[k].get(t, M.COUNT[t])
    word = saved_word(case, n)
    forms = list(word['forms'])
    properties = dict(word['properties'])
    if k == 2:
        word['patches'] = {} if not case.get('patches') else {7: {'forms': list(case['patches'])}}
        if t == 'NOUN':
            forms += case['patches'] if case.get('patches') else forms[6:]
    if k == 4 and t == 'PREPOSITION':
        forms += forms[-1:]
    if k == 5 and t == 'PARTICIPLE':
        properties.pop(str(M.CODE_OF_RELATION['TIME']), None)
    before = copy.deepcopy(word)
    other = step(k).migrate(copy.deepcopy(word))
    result = step(k).migrate(word)
    what = 'step %d for %s' % (k, t)
    same(other, result, what + ': an equal word')
    apart(other, result, what)
    same(list(result['forms']), forms, what + ': forms')
    same(dict(result['properties']), properties, what + ': properties')
    same(result['type'], before['type'], what + ': type')
    same({a: b for a, b in result.items() if a not in ('forms', 'properties')},
         {a: b for a, b in before.items() if a not in ('forms', 'properties')}, what + ': other fields')
    load(result, what)
    return forms != before['forms'] or properties != before['properties'], ['step %d' % k, 'type ' + t]


def first_step(t):
    """Short forms were added to the full ones: the result has to be a word of the next formats."""
    n = {'ADJECTIVE': 144, 'PARTICIPLE': 192}.get(t, 12 if t == 'NOUN' else 27)
    forms = ['ф%d' % i for i in range(n)]
    result = step(1).migrate({'type': M.TYPE_CODE[t], 'forms': list(forms), 'properties': {}})
    if t not in ('ADJECTIVE', 'PARTICIPLE'):
        same(list(result['forms']), forms, 'step 1 for %s' % t)
        return False, ['step 1']
    got = [forms.index(f) if f in forms else -1 for f in result['forms']]
    # the formats that followed had 148 and 196 forms, the first 144 and 192 of them are the ones that existed
    if len(got) == n + 4 and got[:n] == list(range(n)):
        return True, ['step 1']
    signature = hashlib.sha256(json.dumps(got).encode()).hexdigest()[:12]
    return known('m_0001-%s-%s' % (t, signature),
                 'step 1 for %s gives %d forms, the next formats need %d' % (t, len(got), n + 4))
