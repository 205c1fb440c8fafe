# -*- coding: utf-8 -*-
"""Generators of JSON-able inputs."""
import ast
import functools
import json
import os
import warnings

import fast as st

import model as M

REPO = os.path.realpath(os.environ.get('UTG_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ------------------------------------------------------------------ literals of the code under test
# Numbers and short strings that appear in the sources steer the generators towards special values.  They
# only choose inputs, the verdict never depends on them.

def mine():
    ints, strs = set(), set()
    base = os.path.join(REPO, 'utg')
    for folder, dirs, names in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d not in ('tests', 'migrations', '__pycache__'))
        for name in sorted(names):
            if not name.endswith('.py'):
                continue
            try:
                with open(os.path.join(folder, name), encoding='utf-8') as f, warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tree = ast.parse(f.read())
            except (SyntaxError, ValueError):
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    if isinstance(node.value, bool):
                        continue
                    if isinstance(node.value, int):
                        ints.add(node.value)
                    elif isinstance(node.value, str) and 0 < len(node.value) <= 24:
                        strs.add(node.value)
    return ints, strs


def _load_seen():
    path = os.path.join(VERIF, 'lib', 'seen_literals.json')
    try:
        with open(path, encoding='utf-8') as f:
            d = json.load(f)
        return set(d['ints']), set(d['strs'])
    except OSError:
        return set(), set()


_ints, _strs = mine()
_seen_ints, _seen_strs = _load_seen()
NEW_INTS = sorted(_ints - _seen_ints)
NEW_STRS = sorted(_strs - _seen_strs)
MINED_INTS = sorted(_ints)
MINED_STRS = sorted(s for s in _strs if len(s) <= 12)


# ------------------------------------------------------------------ numbers

@functools.lru_cache(None)
def numbers():
    near = st.builds(lambda b, d: b + d, st.sampled_from(
        [0, 1, 10, 11, 20, 100, 110, 111, 120, 200, 1000, 9999, 10000, 10001, 10010, 10011, 100000, 10 ** 6, 10 ** 6 + 10,
         2 * 10 ** 6, 10 ** 7, 10 ** 9, 10 ** 9 + 10, 10 ** 12, 2 ** 31, 2 ** 63, 10 ** 18] + MINED_INTS + NEW_INTS * 3),
        st.integers(-12, 12))
    tail = st.builds(lambda h, t: h * 100 + t, st.integers(0, 10 ** 6), st.integers(0, 99))
    any_ = st.one_of(st.integers(0, 130), st.integers(0, 130), near, tail, st.integers(0, 10 ** 4 + 200),
                     st.integers(-10 ** 24, 10 ** 24))
    return st.one_of(any_, any_, any_, any_.map(lambda n: -n))


@functools.lru_cache(None)
def small_numbers():
    return st.one_of(st.integers(0, 30), st.sampled_from([0, 1, 2, 3, 4, 5, 11, 12, 21, 22, 25, 101, 111, 112, 122,
                                                          1000, 10 ** 6, 10 ** 9, 10 ** 6 + 1, 2 * 10 ** 6]), numbers())


# ------------------------------------------------------------------ texts

LOWER = 'абвгдежзийклмнопрстуфхцчшщъыьэюяё'
WORDS = ['монета', 'герой', 'сон', 'сна', 'рот', 'рта', 'лоб', 'лба', 'мне', 'всех', 'всём', 'всей', 'что', 'мной', 'власть',
         'взгляд', 'встреча', 'стол', 'стена', 'снег', 'слон', 'яблоко', 'ёж', 'елка', 'юг', 'огонь', 'игла', 'утро',
         'эхо', 'ыть', 'день', 'дня', 'пёс', 'пса', 'лев', 'льва', 'день', 'я', 'а', 'о', 'в', 'с', 'к', 'над', 'из', 'об',
         'обо', 'во', 'со', 'ко', 'ножницы', 'hero', 'npc', 'x1', '1x', 'тёмный лес', 'кто-то', 'mob', 'dr.', 'съезд',
         'вьюга', 'вторник', 'страх', 'сто', 'свой', 'в поле', 'ъ', 'ь', 'всехний', 'мнение', 'чтобы', 'вв', 'сс', 'в-с']


# letters with marks of their own, letters whose capital is several letters, unusual spaces, signs, long words
ODD = ['straße', 'и\u0306ва', 'е\u0308ж', 'ёж', 'йод', 'cafe\u0301', 'caf\xe9', 'x\xa0y', 'а\xadб', 'а\u200bб', 'о\u2028а', 'а\x85б', 'а\tб', 'а\nб', 'а\x1cб', '\ufeffа',
       '\u01c6аб', '\ufb01н', '\u0149а', '\U0001d4bdero', '\U0001f600', '\uff41\uff42', '\u03c3\u03c2', '\u0131i', "it's", 'а_б', 'а/б', 'а:б', 'а;б', 'c++', 'а=б', '(а)', '{а}',
       '<а>', 'а&б', '\u0456ва', '\u0463ра', '\u0491а', '№5', '1.5', '-1', '0', '00', '٣', '²', 'а\\б', '"а"', '«ёж»', '...', '—', '#', '$а', '@а', '~', '`', 'а\x00б',
       'о' * 30, 'кот' * 15, 'кооперация' * 3, 'стн' * 12, 'а' * 130, 'не оставляя без ответа', 'о' * 7 + 'т', 'none', 'null', 'true', '%'.replace('%', 'проц')]


@functools.lru_cache(None)
def odd():
    ok = [s for s in ODD if s == s.lower() and s == s.strip()]
    return st.one_of(st.sampled_from(ok), st.sampled_from(ok),
                     st.builds(lambda a, b: (a + b), st.sampled_from(LOWER), st.sampled_from(ok)),
                     st.builds(lambda a, n: a * n, st.sampled_from(WORDS), st.sampled_from([2, 3, 5, 9, 17])).map(lambda s: s.strip()))


@functools.lru_cache(None)
def word_text(max_size=7):
    """Something that can be a word: lower case, usable as an id in a template."""
    plain = st.text(st.sampled_from(LOWER), min_size=1, max_size=max_size)
    latin = st.text(st.sampled_from('abcxyz019-. '), min_size=1, max_size=4).map(lambda s: s.strip() or 'q')
    options = [st.sampled_from(WORDS), st.sampled_from(WORDS), plain, plain, latin, odd().map(lambda s: s)]
    mined = [s.lower().strip() for s in MINED_STRS if usable_id(s.lower().strip())]
    if mined:
        options.append(st.sampled_from(mined))
    new = [s.lower().strip() for s in NEW_STRS if usable_id(s.lower().strip())]
    if new:
        options += [st.one_of(st.sampled_from(new), st.builds(lambda a, b: a + b, st.sampled_from(new), plain),
                              st.builds(lambda a, b: a + b, plain, st.sampled_from(new)))] * 2
    return st.one_of(*options)


BLANK = [' ', '  ', '\t', '\n', '\xa0', '\u2003', ' .', 'о ', ' о', '-', '0', 'О', 'ОБ', 'Об', 'нет слова', 'None', '[a]', '%s', '|']


@functools.lru_cache(None)
def form_text(max_size=7):
    """Something that can be a form of a word; mostly usable as an id."""
    usual = word_text(max_size)
    return st.one_of(*[usual] * 12, st.sampled_from(BLANK), any_text(max_size), usual.map(lambda s: s.capitalize()))


def usable_id(s):
    return bool(s) and not any(c in s for c in '[]|,%') and s == s.strip() and s == s.lower() and len(s) <= 24


@functools.lru_cache(None)
def phonetic_text():
    """Word-like texts that meet the phonetic rules often."""
    cons = st.text(st.sampled_from('бвгджзйклмнпрстфхцчшщъьввсс'), min_size=1, max_size=3)
    vow = st.text(st.sampled_from('аеёиоуыэюя'), min_size=1, max_size=1)
    built = st.builds(lambda a, b, c: a + b + c, st.one_of(cons, st.just('')), st.one_of(vow, st.just('')),
                      st.one_of(cons, st.just(''), st.builds(lambda x, y: x + y, cons, vow)))
    return st.one_of(st.sampled_from(WORDS), built, built).filter(bool)


@functools.lru_cache(None)
def any_text(max_size=12):
    special = st.text(st.sampled_from('%s[]|,. \n\tаяЁЫabZ01{}()d"\'\\$'), max_size=max_size)
    return st.one_of(special, st.text(max_size=max_size).filter(lambda s: no_surrogate(s)), st.sampled_from(WORDS),
                     st.lists(st.sampled_from(ODD), min_size=1, max_size=2).map(''.join), *([st.sampled_from(NEW_STRS)] if NEW_STRS else []))


def no_surrogate(s):
    return not any(0xD800 <= ord(c) <= 0xDFFF for c in s)


# ------------------------------------------------------------------ properties

ALL_VERBOSE = sorted(M.VERBOSE)
AGREEMENT = [v for rel in ('CASE', 'NUMBER', 'GENDER', 'ANIMALITY', 'TIME', 'PERSON') for v in M.VALUES[rel]]


@functools.lru_cache(None)
def prop():
    return st.one_of(st.sampled_from(ALL_VERBOSE), st.sampled_from(AGREEMENT),
                     st.sampled_from(M.VALUES['CASE'] + ['загл', 'сзв', 'алт', 'спц']))


@functools.lru_cache(None)
def props(max_size=4):
    return st.one_of(*[st.lists(prop(), max_size=max_size)] * 15, st.lists(prop(), min_size=6, max_size=24))


@st.composite
def own_props(draw, wtype, wild=True):
    """Properties of a word itself: what its type asks for, sometimes partially, sometimes anything."""
    mode = draw(st.integers(0, 9))
    if mode == 0:
        return []
    if mode == 1 and wild:
        return draw(props(3))
    out = []
    for rel in M.OWN[wtype]:
        fixed_number = rel in ('NUMBER', 'PERSON') and wtype in ('NOUN', 'PRONOUN')
        if draw(st.integers(0, 3)) < (1 if fixed_number else 3):
            out.append(draw(st.sampled_from(M.VALUES[rel])))
    return out


@functools.lru_cache(None)
def wtypes():
    return st.sampled_from(['NOUN', 'NOUN', 'ADJECTIVE', 'PRONOUN', 'VERB', 'PARTICIPLE', 'TEXT', 'PREPOSITION'] * 2 + ['INTEGER'])


@functools.lru_cache(None)
def equal_slots(t):
    """Forms that coincide, as in real paradigms."""
    n = M.COUNT[t]
    slot = st.integers(0, n - 1)
    neighbours = st.lists(st.integers(1, n - 1).map(lambda i: [i, i - 1]), min_size=1, max_size=12)
    any_pairs = st.lists(st.tuples(slot, slot).map(list), min_size=1, max_size=8)
    return st.one_of(neighbours.map(lambda x: ['pairs', sorted(x)]), any_pairs.map(lambda x: ['pairs', x]),
                     st.integers(1, 9).map(lambda k: ['div', k]), st.integers(1, 13).map(lambda k: ['mod', k]))


@st.composite
def word_spec(draw, wtype=None, text=None, wild=True, holes=True):
    """See api.expand."""
    t = wtype or draw(wtypes())
    text = text if text is not None else form_text()
    n = M.COUNT[t]
    spec = {'t': t, 'p': draw(own_props(t, wild))}
    if n <= 3:
        spec['f'] = [draw(text) for _ in range(n)]
        if holes and draw(st.integers(0, 9)) == 0:
            spec['h'] = [draw(st.integers(0, n - 1))]
        return spec
    spec['k'] = draw(text)
    if draw(st.integers(0, 7)) == 0:
        spec['y'] = draw(equal_slots(t))
    over = draw(st.integers(0, 3))
    if over:
        spec['o'] = {str(draw(st.integers(0, n - 1))): draw(text) for _ in range(over)}
        if draw(st.booleans()):
            spec['o']['0'] = draw(text)
    if holes and draw(st.integers(0, 4)) == 0:
        spec['h'] = draw(st.lists(st.integers(0, n - 1), max_size=4))
    return spec


@functools.lru_cache(None)
def integer_spec():
    return small_numbers().map(lambda n: {'n': n})


@st.composite
def external_spec(draw, text=None, wild=True):
    if draw(st.integers(0, 3)) == 0:
        return draw(integer_spec())
    spec = {'w': draw(word_spec(text=text, wild=wild))}
    mode = draw(st.integers(0, 3))
    if mode == 1:
        spec['p'] = draw(props(3))
    elif mode == 2:
        spec['p'] = draw(props(2))
        spec['fp'] = draw(props(3))
    return spec
