# -*- coding: utf-8 -*-
"""Independent reference model of utg.

Nothing here imports utg.  Everything is written down from the README (names of the properties, the marker
syntax, precedence of properties), from the comments with grammar rules in the sources and from the documented
order of word forms.  A property is denoted by its verbose id ('им', 'мн', ...), a property set is a plain dict
{relation name: verbose id}, a word is {'t': type name, 'f': [forms], 'p': property set}.
"""
import functools
import itertools

# relation -> [(NAME, persisted code, verbose id), ...]; the first one is the default of the relation
RELATIONS = {
    'CASE': [('NOMINATIVE', 0, 'им'), ('GENITIVE', 1, 'рд'), ('DATIVE', 2, 'дт'), ('ACCUSATIVE', 3, 'вн'),
             ('INSTRUMENTAL', 4, 'тв'), ('PREPOSITIONAL', 5, 'пр')],
    'ANIMALITY': [('ANIMATE', 0, 'од'), ('INANIMATE', 1, 'но')],
    'NUMBER': [('SINGULAR', 0, 'ед'), ('PLURAL', 1, 'мн')],
    'GENDER': [('MASCULINE', 0, 'мр'), ('NEUTER', 1, 'ср'), ('FEMININE', 2, 'жр')],
    'VERB_FORM': [('INFINITIVE', 0, 'инф'), ('INDICATIVE', 1, 'изъяв'), ('IMPERATIVE', 3, 'пов')],
    'VOICE': [('DIRECT', 0, 'прям'), ('REVERSE', 1, 'взв')],
    'TIME': [('PAST', 1, 'прш'), ('PRESENT', 2, 'нст'), ('FUTURE', 3, 'буд')],
    'PERSON': [('FIRST', 0, '1л'), ('SECOND', 1, '2л'), ('THIRD', 2, '3л')],
    'ASPECT': [('IMPERFECTIVE', 0, 'несов'), ('PERFECTIVE', 1, 'сов')],
    'ADJECTIVE_CATEGORY': [('QUALITY', 0, 'кач'), ('RELATIVE', 1, 'отн'), ('POSSESSIVE', 2, 'прит')],
    'GRADE': [('POSITIVE', 0, 'пол'), ('COMPARATIVE', 1, 'сравн'), ('SUPERLATIVE', 2, 'прев')],
    'PRONOUN_CATEGORY': [('PERSONAL', 0, 'личн'), ('REFLEXIVE', 1, 'возвр'), ('POSSESSIVE', 2, 'притяж'),
                         ('INTERROGATIVE', 3, 'вопр'), ('RELATIVE', 4, 'относ'), ('DEMONSTRATIVE', 5, 'указат'),
                         ('ATTRIBUTIVE', 6, 'опред'), ('NEGATIVE', 7, 'отриц'), ('VAGUE', 8, 'неопр'),
                         ('MUTUAL', 9, 'взаимн')],
    'INTEGER_FORM': [('SINGULAR', 0, 'цо'), ('DUAL', 1, 'цд'), ('COMPOSITE_DUAL', 2, 'цсд'),
                     ('PLURAL', 3, 'цост'), ('MIL_BIL', 4, 'цмм')],
    'NOUN_FORM': [('NORMAL', 0, 'нс'), ('COUNTABLE', 1, 'счт')],
    'ADJECTIVE_FORM': [('FULL', 0, 'полнприл'), ('SHORT', 1, 'крприл')],
    'PARTICIPLE_FORM': [('FULL', 0, 'полнприч'), ('SHORT', 1, 'крприч')],
    'WORD_CASE': [('LOWER', 0, 'строч'), ('UPPER', 1, 'загл')],
    'DEPENDENCY_MODE': [('FULL', 0, 'пзв'), ('SEMANTIC', 1, 'сзв')],
    'PREPOSITION_FORM': [('NORMAL', 0, 'осн'), ('ALTERNATIVE', 1, 'алт'), ('SPECIAL', 2, 'спц')],
    'WORD_TYPE': [('NOUN', 0, 'сущ'), ('ADJECTIVE', 1, 'прил'), ('PRONOUN', 2, 'мест'), ('VERB', 3, 'гл'),
                  ('PARTICIPLE', 4, 'прич'), ('INTEGER', 5, 'целое'), ('TEXT', 6, 'текст'),
                  ('PREPOSITION', 10, 'предл')],
}

# persisted code of the relation itself
PROPERTY_CODES = {0: 'CASE', 1: 'ANIMALITY', 2: 'NUMBER', 3: 'GENDER', 4: 'VERB_FORM', 5: 'TIME', 6: 'PERSON',
                  7: 'ASPECT', 9: 'ADJECTIVE_CATEGORY', 10: 'GRADE', 11: 'PRONOUN_CATEGORY', 12: 'WORD_CASE',
                  13: 'WORD_TYPE', 14: 'INTEGER_FORM', 15: 'VOICE', 16: 'PREPOSITION_FORM', 17: 'ADJECTIVE_FORM',
                  18: 'PARTICIPLE_FORM', 19: 'NOUN_FORM', 20: 'DEPENDENCY_MODE'}
CODE_OF_RELATION = {v: k for k, v in PROPERTY_CODES.items()}

TYPES = ['NOUN', 'ADJECTIVE', 'PRONOUN', 'VERB', 'PARTICIPLE', 'INTEGER', 'TEXT', 'PREPOSITION']
TYPE_CODE = {name: code for name, code, _ in RELATIONS['WORD_TYPE']}

SCHEMAS = {
    'NOUN': ['NOUN_FORM', 'NUMBER', 'CASE'],
    'ADJECTIVE': ['ADJECTIVE_FORM', 'GRADE', 'ANIMALITY', 'NUMBER', 'CASE', 'GENDER'],
    'PRONOUN': ['ANIMALITY', 'NUMBER', 'CASE', 'GENDER'],
    'VERB': ['VERB_FORM', 'TIME', 'NUMBER', 'PERSON', 'GENDER'],
    'PARTICIPLE': ['PARTICIPLE_FORM', 'TIME', 'ANIMALITY', 'NUMBER', 'CASE', 'GENDER'],
    'INTEGER': [], 'TEXT': [],
    'PREPOSITION': ['PREPOSITION_FORM'],
}

# properties a word of the type owns itself (the ones callers are expected to specify)
OWN = {'NOUN': ['ANIMALITY', 'GENDER', 'NUMBER'], 'ADJECTIVE': ['ADJECTIVE_CATEGORY'],
       'PRONOUN': ['PRONOUN_CATEGORY', 'PERSON'], 'VERB': ['ASPECT', 'VOICE'], 'PARTICIPLE': ['ASPECT', 'VOICE'],
       'INTEGER': ['NUMBER', 'INTEGER_FORM'], 'TEXT': [], 'PREPOSITION': []}

# "a form with the property on the left has no such category": type -> {verbose id: relations that vanish}
VANISH = {
    'NOUN': {'мн': ['GENDER']},
    'ADJECTIVE': {'мн': ['GENDER'], 'крприл': ['CASE', 'ANIMALITY', 'GRADE'],
                  'сравн': ['NUMBER', 'CASE', 'GENDER', 'ANIMALITY']},
    'PRONOUN': {'мн': ['GENDER']},
    'VERB': {'инф': ['TIME', 'PERSON', 'NUMBER', 'GENDER'], 'пов': ['TIME', 'GENDER'], 'мн': ['GENDER'],
             'прш': ['PERSON'], 'нст': ['GENDER'], 'буд': ['GENDER']},
    'PARTICIPLE': {'мн': ['GENDER'], 'крприч': ['TIME', 'VOICE', 'CASE', 'ANIMALITY']},
    'INTEGER': {}, 'TEXT': {}, 'PREPOSITION': {},
}

# combinations that do not exist in the language
IMPOSSIBLE = {'NOUN': [{'счт', 'ед'}], 'VERB': [{'пов', '3л'}, {'пов', '1л', 'ед'}]}

VERBOSE = {}                # verbose id -> (relation, NAME, code)
for _rel, _records in RELATIONS.items():
    for _name, _code, _v in _records:
        assert _v not in VERBOSE
        VERBOSE[_v] = (_rel, _name, _code)
REL_OF = {v: rel for v, (rel, _, _) in VERBOSE.items()}
BY_NAME = {(rel, name): v for v, (rel, name, _) in VERBOSE.items()}
BY_CODE = {(rel, code): v for v, (rel, _, code) in VERBOSE.items()}
DEFAULT = {rel: records[0][2] for rel, records in RELATIONS.items()}
DEFAULT['WORD_TYPE'] = None
VALUES = {rel: [rec[2] for rec in records] for rel, records in RELATIONS.items()}


# ---------------------------------------------------------------- property sets

def pset(*args):
    """Later wins; None contributes nothing."""
    out = {}
    for a in args:
        if a is None:
            continue
        if isinstance(a, str):
            out[REL_OF[a]] = a
        elif isinstance(a, dict):
            out.update(a)
        else:
            for v in a:
                if v is not None:
                    out[REL_OF[v]] = v
    return out


def get(props, rel):
    return props.get(rel, DEFAULT[rel])


def distance(props):
    return len([1 for rel, v in props.items() if v != DEFAULT[rel]])


# ---------------------------------------------------------------- layout of forms

def _canonical(wtype, raw):
    """Full key (every category has a value) -> key with vanished categories replaced by None."""
    key = []
    for rel, v in zip(SCHEMAS[wtype], raw):
        dead = any(rel in VANISH[wtype].get(u, ()) for u in key if u is not None)
        key.append(None if dead else v)
    return tuple(key)


def _possible(wtype, key):
    return not any(part <= set(key) for part in IMPOSSIBLE.get(wtype, ()))


def _layout(wtype):
    seen = {}
    for raw in itertools.product(*[VALUES[rel] for rel in SCHEMAS[wtype]]):
        key = _canonical(wtype, raw)
        if _possible(wtype, key) and key not in seen:
            seen[key] = len(seen)
    return seen


LAYOUT = {t: _layout(t) for t in TYPES}                       # key -> slot
SLOTS = {t: list(LAYOUT[t]) for t in TYPES}                   # slot -> key
COUNT = {t: len(SLOTS[t]) for t in TYPES}
assert [COUNT[t] for t in TYPES] == [18, 101, 48, 20, 148, 1, 1, 3], COUNT


def raw_keys(wtype):
    return list(itertools.product(*[VALUES[rel] for rel in SCHEMAS[wtype]]))


@functools.lru_cache(None)
def slot_of_raw(wtype, raw):
    key = _canonical(wtype, raw)
    if _possible(wtype, key):
        return LAYOUT[wtype][key]
    # the language has no such form, the nearest one is taken
    if wtype == 'NOUN':                                   # countable form of the singular number
        return LAYOUT['NOUN'][('нс', 'ед', raw[2])]
    return LAYOUT['VERB'][('инф', None, None, None, None)]  # imperative of the 3rd person / 1st person singular


def slot(wtype, props):
    return slot_of_raw(wtype, tuple(get(props, rel) for rel in SCHEMAS[wtype]))


def slot_props(wtype, i):
    return pset([v for v in SLOTS[wtype][i] if v is not None])


# ---------------------------------------------------------------- words and forms

VOWELS = set('аеёиоуыэюя') | set('АЕЁИОУЫЭЮЯ')
CONSONANTS = set('бвгджзйклмнпрстфхцчшщъь') | set('БВГДЖЗЙКЛМНПРСТФХЦЧШЩЪЬ')
PLAIN_VOWELS = set('аиоуыэ') | set('АИОУЫЭ')


def word_form(word, props):
    """Text of the word's form for the requested properties; word's own properties always win."""
    return word['f'][slot(word['t'], pset(props, word['p']))]


def cap(text):
    return text[:1].upper() + text[1:]


def spell(word, props):
    """As word_form, plus letter case of the first letter."""
    props = pset(props, word['p'])
    text = word_form(word, props)
    return cap(text) if get(props, 'WORD_CASE') == 'загл' else text


def syllables(word):
    return max(1, len([c for c in word['f'][0] if c in VOWELS]))


def fluent_vowel(word):
    base = [c for c in word['f'][0] if c in VOWELS]
    for form in word['f'][1:]:
        if form and [c for c in form if c in VOWELS][:len(base)] != base:
            return True
    return False


def consonant_cluster(text):
    if not text or text[0] not in CONSONANTS:
        return False
    return len(text) == 1 or text[1] in CONSONANTS


def autofill_options(wtype, forms):
    """For each slot: the set of acceptable texts after autofill (several only if the rule itself leaves a tie)."""
    filled = [i for i, f in enumerate(forms) if f]
    out = []
    for i, f in enumerate(forms):
        if f:
            out.append({f})
            continue
        if not filled:
            out.append({f})
            continue
        best, groups = None, {}
        for j in filled:
            hits = tuple(k for k, (a, b) in enumerate(zip(SLOTS[wtype][i], SLOTS[wtype][j])) if a == b)
            score = (len(hits) * 100 + sum(hits))      # 1 point per category, +0.01 * its position
            if best is None or score > best:
                best, groups = score, {hits: j}
            elif score == best:
                groups.setdefault(hits, j)
        out.append({forms[j] for j in groups.values()})
    return out


# ---------------------------------------------------------------- numerals

def integer_props(n):
    m = abs(n)
    if m in (10 ** 6, 10 ** 9):
        return pset('мн', 'цмм')
    if m == 1:
        return pset('ед', 'цо')
    if m in (2, 3, 4):
        return pset('мн', 'цд')
    tens, ones = (m // 10) % 10, m % 10
    if tens == 1:
        return pset('мн', 'цост')
    if ones == 1:
        return pset('мн', 'цо')
    if ones in (2, 3, 4):
        return pset('мн', 'цсд')
    return pset('мн', 'цост')


def integer_word(n):
    p = integer_props(n)
    return {'t': 'INTEGER', 'f': [str(n)], 'p': p}


NOUNISH = ('NOUN', 'PRONOUN')
ADJISH = ('ADJECTIVE', 'VERB', 'PARTICIPLE')

# (numeral class, requested case) -> what the governed word gets on top of its properties
_NOUN_GOV = {'цо': lambda c, anim: ['нс', 'ед'],
             'цд': lambda c, anim: ['нс', 'ед', 'рд'] if c == 'им' or (c == 'вн' and anim == 'но') else ['счт', 'мн'],
             'цсд': lambda c, anim: ['нс', 'ед', 'рд'] if c in ('им', 'вн') else ['счт', 'мн'],
             'цост': lambda c, anim: ['счт', 'мн', 'рд'] if c in ('им', 'вн') else ['счт', 'мн'],
             'цмм': lambda c, anim: ['счт', 'мн', 'рд']}
_ADJ_GOV = {'цо': lambda c, g: ['ед'],
            'цд': lambda c, g: (['мн', 'им'] if g == 'жр' else ['мн', 'рд']) if c in ('им', 'вн') else ['мн'],
            'цсд': lambda c, g: ['ед', 'рд'] if c in ('им', 'вн') else ['мн'],
            'цост': lambda c, g: ['мн', 'рд'] if c in ('им', 'вн') else ['мн'],
            'цмм': lambda c, g: ['мн', 'рд']}


def govern(wtype, props):
    """A word governed by a numeral: its merged properties -> adjusted properties."""
    kind = get(props, 'INTEGER_FORM')
    if get(props, 'DEPENDENCY_MODE') == 'сзв':
        num = 'ед' if kind == 'цо' else 'мн'
        return pset(props, ['нс', num] if wtype in NOUNISH else [num])
    if wtype in NOUNISH:
        return pset(props, _NOUN_GOV[kind](get(props, 'CASE'), get(props, 'ANIMALITY')))
    return pset(props, _ADJ_GOV[kind](get(props, 'CASE'), get(props, 'GENDER')))


# ---------------------------------------------------------------- prepositions

def preposition(word, props, master):
    """master: {'word':…, 'props':…} as used in the sentence; returns adjusted properties of the preposition."""
    base = word_form(word, word['p'])
    text = spell(master['word'], master.get('fprops', master['props'])).lower()
    cluster = consonant_cluster(text)
    if base[-1:] in CONSONANTS:
        if cluster and syllables(master['word']) == 1 and fluent_vowel(master['word']):
            return pset(props, 'алт')
        if base in ('в', 'с') and text[:1] == base and cluster:
            return pset(props, 'алт')
        return props
    if base == 'о' and text in ('всех', 'мне', 'всём', 'что', 'всей'):
        return pset(props, 'спц')
    if text[:1] in PLAIN_VOWELS:
        return pset(props, 'алт')
    return props


def depend(word, props, master):
    if word['t'] == 'PREPOSITION':
        return preposition(word, props, master)
    if master['word']['t'] == 'INTEGER' and word['t'] in NOUNISH + ADJISH:
        return govern(word['t'], props)
    return props


# ---------------------------------------------------------------- dictionary

def dictionary_entries(words):
    """text -> list of candidates (word index, slot), best first by the documented ordering.

    Candidates that are tied up to the order of registration of *different* words share the leading rank."""
    table = {}
    for wi, w in enumerate(words):
        for i in range(len(w['f'])):
            props = pset(slot_props(w['t'], i), w['p'])
            text = spell(w, props)
            rank = (TYPE_CODE[w['t']], w['f'], distance(props))
            table.setdefault(text, []).append((rank, wi, i, props))
    out = {}
    for text, cands in table.items():
        best = min(c[0] for c in cands)
        firsts = {}
        for rank, wi, i, props in cands:
            if rank == best and wi not in firsts:
                firsts[wi] = (wi, i, props)
        out[text] = list(firsts.values())
    return out


# ---------------------------------------------------------------- templates

class ParseError(Exception):
    """kinds: set of (error name, culprit)"""
    def __init__(self, kinds):
        Exception.__init__(self, kinds)
        self.kinds = kinds


class RenderError(ParseError):
    pass


def scan(text):
    """-> (literals, markers), len(literals) == len(markers) + 1"""
    literals, markers, cur, i = [], [], '', 0
    while i < len(text):
        if text[i] == '[':
            j = text.find(']', i + 1)
            if j > i + 1:
                literals.append(cur)
                cur = ''
                markers.append(text[i:j + 1])
                i = j + 1
                continue
        cur += text[i]
        i += 1
    literals.append(cur)
    return literals, markers


def parse_marker(marker, ext_ids):
    """-> (id, deps) ; dep is ('ext', name) or ('props', pset)"""
    parts = marker[1:-1].split('|')
    ident = parts[0].strip()
    if not ident:
        raise ParseError({('WrongDependencyFormatError', marker)})
    deps, bad = [], set()
    for part in parts[1:]:
        part = part.lower().strip()
        if part in ext_ids:
            deps.append(('ext', part))
            continue
        vs = [v.strip() for v in part.split(',')]
        vs = [v for v in vs if v]
        for v in vs:
            if v not in VERBOSE:
                bad.add(('UnknownVerboseIdError', v))
        if not bad:
            deps.append(('props', pset(vs)))
    if bad:
        raise ParseError(bad)
    if ident[0].isupper():
        deps.append(('props', pset('загл')))
    return ident.lower(), deps


def parse(text, ext_ids):
    literals, markers = scan(text)
    subs, bad = [], set()
    for m in markers:
        try:
            subs.append(parse_marker(m, ext_ids))
        except ParseError as e:
            bad |= e.kinds
    if bad:
        raise ParseError(bad)
    return {'lit': literals, 'subs': subs}


def render_sub(sub, externals, entries, words):
    """externals: name -> {'word':…, 'props': …(already merged with word's own)}; -> list of acceptable texts"""
    ident, deps = sub
    bad = set()
    if ident in externals:
        bases = [externals[ident]]
    elif ident in entries:
        bases = [{'word': words[wi], 'props': props} for wi, i, props in entries[ident]]
    else:
        bases = []
        bad.add(('NoWordsFoundError', ident))
    masters, chain = [], []
    for kind, dep in deps:
        if kind == 'props':
            chain.append(dep)
        elif dep in externals:
            masters.append(externals[dep])
            chain.append(externals[dep]['props'])
        else:
            bad.add(('ExternalDependecyNotFoundError', dep))
    if bad:
        raise RenderError(bad)
    texts = []
    for base in bases:
        props = pset(base['props'], *chain)
        props = pset(props, base['word']['p'])
        for m in masters:
            props = depend(base['word'], props, m)
        texts.append(spell(base['word'], props))
    return texts


def render(parsed, externals, entries, words):
    """-> list of acceptable results (more than one only for tied dictionary words)"""
    bad, options = set(), []
    for sub in parsed['subs']:
        try:
            options.append(sorted(set(render_sub(sub, externals, entries, words))))
        except RenderError as e:
            bad |= e.kinds
    if bad:
        raise RenderError(bad)
    out = []
    for combo in itertools.islice(itertools.product(*options), 4096):
        text = parsed['lit'][0]
        for value, lit in zip(combo, parsed['lit'][1:]):
            text += value + lit
        out.append(text)
    return out


def undictionaried(parsed, externals, entries):
    return {ident for ident, _ in parsed['subs'] if ident not in externals and ident not in entries}
