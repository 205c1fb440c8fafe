# -*- coding: utf-8 -*-
"""Choice of the preposition's form by the next word."""
import fast as st

import gen
import model as M
from scene import Scene

ID = 'C09'
EXAMPLES = (6000, 48000)
RULE = ('A preposition (real or invented, three distinct forms) followed by any word of any type, including numbers, short and long '
        'forms, forms with fluent vowels, capitalised and unspecified ones, with any properties in the marker and up to two governing '
        'words. All pairs of 14 prepositions with 45 typical next words, and of 46 prepositions with the words the rules name and near ones, and with '
        'words that mix every beginning, number of syllables and fluent vowel, are enumerated. Non-trivial: a form other than the main '
        'one is due.')
PREPS = [['в', 'во'], ['с', 'со'], ['к', 'ко'], ['о', 'об', 'обо'], ['над', 'надо'], ['из', 'изо'], ['у', 'ув'], ['от', 'ото'],
         ['под', 'подо'], ['перед', 'передо'], ['для', 'дляа'], ['за', 'заа'], ['по', 'поо'], ['без', 'безо']]
OTHERS = [['во'], ['со'], ['ко'], ['об'], ['обо'], ['про'], ['при'], ['до'], ['через'], ['сквозь'], ['пред'], ['между'], ['около'], ['среди'], ['вроде'],
          ['против'], ['на'], ['ради'], ['вокруг'], ['из-за'], ['из-под'], ['ё'], ['вв'], ['фс'], ['ос'], ['а'], ['х'], ['кроме'], ['и'], ['В'], ['О'], ['С']]


def stems():
    """Words with every mixture of what can matter: the beginning, the number of syllables, a fluent vowel."""
    for start in ('сн', 'вр', 'вс', 'см', 'кн', 'мн', 'в', 'с', 'т', 'а', 'о', 'э', 'и', 'у', 'ы', 'ё', 'я', 'е', 'ю', 'с-'):
        for middle in ('', 'о', 'ов', 'ово', 'овосо'):
            for fluent in (0, 1, 2):
                main = start + middle + 'н'
                if fluent == 2:                 # the vowel comes instead of going
                    yield main, start + middle + 'ен', main
                else:
                    yield main, (start + 'ну' if fluent else main + 'у'), main + 'ами'


def prep_forms(forms):
    return (forms + [forms[0] + 'ъалт', forms[0] + 'ъспц'])[:1] + (forms[1:2] or [forms[0] + 'алт']) + (
        forms[2:3] or [forms[0] + 'спц'])


def enumerate_cases(tier):
    masters = [w for w in gen.WORDS if w.strip()]
    for p in PREPS:
        for m in masters:
            for text in (m, m.capitalize()):
                yield {'preps': [prep_forms(p)], 'ext': {'a': {'w': {'t': 'TEXT', 'f': [text]}}}, 'deps': ['a']}
        for first, form in (('сон', 'сна'), ('рот', 'рту'), ('лёд', 'льду'), ('день', 'дни'), ('стол', 'столе'), ('я', 'мне'),
                            ('снег', 'снегу'), ('весь', 'всех'), ('что', 'чём'), ('лев', 'львам'), ('вал', 'валу'),
                            ('всадник', 'всаднику'), ('встреча', 'встреч'), ('зло', 'зол'), ('мгла', 'мгле')):
            f = [first] * 18
            f[1] = form
            for cap in ([], ['загл']):
                yield {'preps': [prep_forms(p)], 'ext': {'a': {'w': {'t': 'NOUN', 'f': f, 'p': []}, 'p': ['рд'] + cap}}, 'deps': ['a']}
    for p in PREPS + OTHERS:                    # the exact words of the rules, and near ones
        for m in ('мне', 'всех', 'всём', 'всей', 'что', 'всем', 'чему', 'все', 'всехх', 'мнен', 'что-то', 'мной', 'меня', 'всю', 'мна', 'тебе', 'чём'):
            yield {'preps': [prep_forms(p)], 'ext': {'a': {'w': {'t': 'TEXT', 'f': [m]}}}, 'deps': ['a']}
    for i, (main, other, third) in enumerate(stems()):
        for j, p in enumerate(PREPS + OTHERS):
            if tier == 'quick' and (i + j) % 3:
                continue
            f = [main] * 18
            f[1], f[2] = other, third
            yield {'preps': [prep_forms(p)], 'ext': {'a': {'w': {'t': 'NOUN', 'f': f, 'p': []}, 'p': [['рд'], ['им'], ['дт']][(i // 3 + j) % 3]}}, 'deps': ['a']}
    for a in M.TYPES:                           # two governed words of any types: the last one that asks for a form decides
        for b in M.TYPES:
            for x in ('мне', 'атом', 'нос'):
                for y in ('мне', 'атом', 'нос'):
                    if x != y:
                        yield {'preps': [prep_forms(['о', 'об', 'обо'])], 'deps': ['a', 'b'],
                               'ext': {name: {'w': {'t': t, 'f': [text] * M.COUNT[t], 'p': []}, 'p': []} for name, t, text in (('a', a, x), ('b', b, y))}}
    for n in (1, 2, 11, 100):
        for p in PREPS:
            yield {'preps': [prep_forms(p)], 'ext': {'a': {'n': n}}, 'deps': ['a']}


@st.composite
def master(draw):
    text = gen.phonetic_text()
    if draw(st.integers(0, 3)) == 0:
        text = st.one_of(text, text.map(lambda s: s.capitalize()), st.just(''))
    mode = draw(st.integers(0, 5))
    if mode == 0:
        return {'n': draw(gen.small_numbers())}
    if mode == 1:
        return {'w': {'t': draw(st.sampled_from(['TEXT', 'TEXT', 'TEXT', 'INTEGER'])), 'f': [draw(text)], 'p': []}, 'p': draw(st.sampled_from([[], ['загл']]))}
    t = draw(st.sampled_from(['NOUN', 'NOUN', 'PRONOUN', 'ADJECTIVE', 'PARTICIPLE', 'VERB', 'PREPOSITION']))
    n = M.COUNT[t]
    base, other = draw(text), draw(text)
    slot = draw(st.integers(0, n - 1))
    forms = {str(slot): other}
    if draw(st.booleans()):
        forms[str(draw(st.integers(0, n - 1)))] = draw(text)
    own = draw(gen.own_props(t, wild=False))
    kind = draw(st.integers(0, 4))
    if kind == 0:                               # all forms with some property are built from another stem
        mark = draw(st.sampled_from([v for v in M.SLOTS[t][slot] if v] or ['осн']))
        forms.update({str(i): other for i in range(n) if mark in M.SLOTS[t][i]})
        own = draw(st.sampled_from([own, own + [mark]]))
    elif kind == 1:                             # the word itself has only some of the forms
        own = own + [v for v in M.SLOTS[t][slot] if v and draw(st.booleans())]
    spec = {'w': {'t': t, 'f': [base] * n, 'o': forms, 'p': own},
            'p': [v for v in M.SLOTS[t][slot] if v] + draw(st.sampled_from([[], [], ['загл'], ['мн']]))}
    if draw(st.integers(0, 3)) == 0:
        spec['fp'] = [v for v in M.SLOTS[t][draw(st.integers(0, n - 1))] if v]
    return spec


@st.composite
def strategy_(draw):
    preps = []
    for _ in range(draw(st.integers(1, 2))):
        if draw(st.integers(0, 3)):
            preps.append(prep_forms(draw(st.sampled_from(PREPS + OTHERS))))
        else:
            preps.append([draw(gen.phonetic_text()) for _ in range(3)])
    ext = {'a': draw(master())}
    deps = ['a']
    if draw(st.integers(0, 3)) == 0:
        ext['b'] = draw(master())
        deps.insert(draw(st.integers(0, 1)), 'b')
    for _ in range(draw(st.integers(0, 2))):
        deps.insert(draw(st.integers(0, len(deps))), draw(st.sampled_from(['осн', 'алт', 'спц', 'дт', 'загл', 'мн'])))
    return {'preps': preps, 'ext': ext, 'deps': deps, 'own': draw(st.sampled_from([[], [], [], ['алт'], ['спц'], ['дт']])),
            'caps': draw(st.booleans())}


def strategy(tier):
    return strategy_()


def run_case(case):
    words = [{'t': 'PREPOSITION', 'f': f, 'p': case.get('own', []) if i == 0 else []} for i, f in enumerate(case['preps'])]
    scene = Scene({'words': words, 'ext': case['ext']})
    ident = case['preps'][0][0]
    if case.get('caps'):
        ident = ident.capitalize()
    text = '[%s|%s] [a]' % (ident, '|'.join(case['deps']))
    t, parsed = scene.parse(text)
    got = scene.render(t, parsed, text)
    labels = []
    if got is not None:
        head = got.split(' ')[0].lower()
        main = case['preps'][0]
        labels.append('form %s' % (main.index(head) if head in main else 'other'))
    masters = scene.ext.values()
    if any(M.syllables(m['word']) == 1 and M.fluent_vowel(m['word']) for m in masters):
        labels.append('fluent vowel in a one-syllable word')
    return got is not None and not got.lower().startswith(case['preps'][0][0] + ' '), labels
