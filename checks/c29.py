# -*- coding: utf-8 -*-
"""Classes derived from those of the library work as the originals, and what callers hand in is what they get back."""
import enum
import json
import random

import fast as st

import gen
import model as M
from api import (P, R, T, build, build_external, check, constructors, dictionary, expand, expect_error, external, lexicon, readP, read_word,
                 same, templates, words)

ID = 'C29'
EXAMPLES = (1500, 12000)
RULE = ('A scene (words, variables, property sets, markers, saved data) made of classes derived in several ways from those of the library (attributes, slots, '
        'a constructor of their own, mixed with the originals), texts and ids of classes derived from str; a lexicon with phrases and keys of any kind '
        '(unhashable, false, equal to everything). Non-trivial: an object of a derived class takes part.')


class Text(str):
    pass


class Number(int):
    pass


class Phrase(object):
    """Equal to everything, and false."""

    def __eq__(self, other):
        return True

    def __bool__(self):
        return False

    __hash__ = None


class Plain(object):
    class Word(words.Word):
        pass

    class WordForm(words.WordForm):
        pass

    class Properties(words.Properties):
        pass

    class Template(templates.Template):
        pass

    class Dictionary(dictionary.Dictionary):
        pass

    class Lexicon(lexicon.Lexicon):
        pass


class Slots(object):
    class Word(words.Word):
        __slots__ = ('id',)

    class WordForm(words.WordForm):
        __slots__ = ('id',)

    class Properties(words.Properties):
        __slots__ = ('id',)

    class Template(templates.Template):
        __slots__ = ('id',)

    class Dictionary(dictionary.Dictionary):
        __slots__ = ('id',)

    class Lexicon(lexicon.Lexicon):
        __slots__ = ()


class Made(object):
    """With constructors and methods of their own (those with class methods that make objects keep the constructor)."""

    class Word(words.Word):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self.id = 17
            self.tags = {'новый'}

        def __repr__(self):
            return 'слово'

    class WordForm(words.WordForm):
        def __init__(self, owner, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self.owner = owner

    class Properties(words.Properties):
        def __repr__(self):
            return 'свойства'

    class Template(templates.Template):
        def __init__(self):
            super().__init__()
            self.author = None

    class Dictionary(dictionary.Dictionary):
        def __init__(self, owner, words=()):
            super().__init__(words=words)
            self.owner = owner

    class Lexicon(lexicon.Lexicon):
        def __init__(self, name='нет'):
            super().__init__()
            self.name = name


class Usual(object):
    Word, WordForm, Properties, Template, Dictionary, Lexicon = words.Word, words.WordForm, words.Properties, templates.Template, dictionary.Dictionary, lexicon.Lexicon


FAMILIES = {'usual': Usual, 'plain': Plain, 'slots': Slots, 'made': Made}
PHRASES = ['text', 'none', 'empty', 'zero', 'list', 'dict', 'odd', 'template', 'false', 'nan', 'tuple']
KEYS = ['text', '', 'none', 'zero', 'one', 'tuple', 'record', 'type', 'frozenset', 'text object']


def phrase(kind, i):
    return {'text': lambda: Text('фраза'), 'none': lambda: None, 'empty': lambda: '', 'zero': lambda: 0, 'list': lambda: [], 'dict': lambda: {1: i}, 'odd': Phrase,
            'template': templates.Template, 'false': lambda: False, 'nan': lambda: float('nan'), 'tuple': lambda: ('a', i)}[kind]()


def key(kind):
    return {'text': 'ключ', '': '', 'none': None, 'zero': 0, 'one': 1, 'tuple': ('ключ', 1), 'record': R('CASE').records[1], 'type': int,
            'frozenset': frozenset([1]), 'text object': Text('ключ 2')}[kind]


@st.composite
def strategy_(draw):
    family = st.sampled_from(['usual', 'plain', 'plain', 'slots', 'made', 'made'])
    pool = draw(st.lists(gen.word_text(5), min_size=2, max_size=4, unique=True))
    specs = [draw(gen.word_spec(text=st.sampled_from(pool))) for _ in range(draw(st.integers(1, 4)))]
    names = draw(st.lists(st.sampled_from(['a', 'b', 'n', 'герой']), min_size=1, max_size=3, unique=True))
    ext = {name: draw(gen.integer_spec() if name == 'n' else gen.external_spec(text=st.sampled_from(pool))) for name in names}
    text = draw(st.sampled_from(['', '% ', '%s']))
    for _ in range(draw(st.integers(1, 4))):
        ident = draw(st.one_of(st.sampled_from(names), st.sampled_from(pool)))
        deps = [draw(st.one_of(st.sampled_from(names), gen.props(3).map(','.join))) for _ in range(draw(st.integers(0, 3)))]
        text += '[' + '|'.join([draw(st.sampled_from([ident, ident.capitalize()]))] + deps) + '] '
    adds = draw(st.lists(st.tuples(st.sampled_from(KEYS), st.sampled_from(PHRASES), st.one_of(st.none(), st.lists(st.integers(0, 2), max_size=2, unique=True))),
                         max_size=6))
    return {'families': [draw(family) for _ in range(6)], 'words': specs, 'of': [draw(family) for _ in specs], 'ext': ext, 'text': text,
            'props': [draw(gen.props(3)) for _ in range(3)], 'texts': draw(st.booleans()), 'adds': [list(a) for a in adds],
            'asked': draw(st.lists(st.integers(0, 2), max_size=3, unique=True)), 'number': draw(gen.numbers())}


def strategy(tier):
    return strategy_()


def enumerate_cases(tier):
    for f in ('plain', 'slots', 'made', 'usual'):
        for t in M.TYPES:
            for g in ('usual', 'plain'):
                yield {'families': [f] * 6, 'words': [{'t': t, 'k': 'сон', 'p': []}, {'t': t, 'k': 'сон', 'p': []}, {'t': 'NOUN', 'k': 'рот', 'p': ['од']}],
                       'of': [f, g, f], 'ext': {'a': {'w': {'t': t, 'k': 'рот', 'p': []}}, 'n': {'n': 5}}, 'text': '[a|n|мн] [A] [сон%s|n|a] [рот%s|дт]' % ('бабуб', 'бабуг'),
                       'props': [['мн'], ['дт', 'мн'], []], 'texts': True, 'asked': [0, 1], 'number': 20001,
                       'adds': [['text', 'none', None], ['text', 'odd', [0]], ['text', 'odd', [0]], ['none', 'zero', [1]], ['', 'list', []], ['zero', 'dict', None]]}


def made_properties(F, props):
    p = P(props)
    return p if F is Usual else F.Properties(p)


def made_word(F, m, texts, Q):
    forms = [Text(f) for f in m['f']] if texts else list(m['f'])
    if m['p'] or F is not Usual:
        return F.Word(type=T(m['t']), forms=forms, properties=made_properties(Q, m['p']))
    return F.Word(type=T(m['t']), forms=forms)


def made_external(case, spec, m, F, W, Q):
    if 'n' in spec:
        return constructors.construct_integer(Number(spec['n']) if case['texts'] else spec['n'])
    kwargs = {}
    if spec.get('p') is not None:
        kwargs['properties'] = made_properties(Q, spec['p'])
    if spec.get('fp') is not None:
        kwargs['form_properties'] = made_properties(Q, spec['fp'])
    word = made_word(W, m['word'], case['texts'], Q)
    wf = F.WordForm('чей-то', word, **kwargs) if F is Made else F.WordForm(word, **kwargs)
    check(wf.word is word, 'the word of a word form is another object')
    return wf


def run_case(case):
    F = [FAMILIES[f] for f in case['families']]         # of words, forms, property sets, templates, dictionaries, lexicons
    properties(case, F[2])
    numbers(case)
    phrases(case, F[5])
    scene(case, F)
    return set(case['families']) | set(case['of']) != {'usual'}, ['%s: %s' % x for x in zip(('word', 'form', 'properties', 'template', 'dictionary', 'lexicon'), case['families'])]


def properties(case, Q):
    sets = [made_properties(Q, p) for p in case['props']]
    models = [M.pset(p) for p in case['props']]
    a, b, c = sets
    merged = M.pset(*case['props'])
    for got, cls, what in ((Q.Properties(a, b, c), Q.Properties, 'made of three'), (a.clone(b, c), Q.Properties, 'a clone'),
                           (words.Properties(a, b, c), words.Properties, 'the usual set of three'), (words.Properties().clone(a, None, b, c), words.Properties, 'a usual clone')):
        check(type(got) is cls, '%s: is a %s instead of a %s', what, type(got).__name__, cls.__name__)
        same(readP(got), merged, what)
        usual = P(merged)
        check(got == usual and usual == got and not got != usual and hash(got) == hash(usual), '%s: equality with the usual one', what)
        check(str(got) == str(usual), '%s: printed %s instead of %s', what, got, usual)
        loaded = Q.Properties.deserialize(json.loads(json.dumps(got.serialize())))
        check(type(loaded) is Q.Properties and readP(loaded) == merged, '%s: loaded as %s', what, type(loaded).__name__)
    for p, m in zip(sets, models):
        same(readP(p), m, 'a set that was used')


def numbers(case):
    n = case['number']
    for x in (n, Number(n), enum.IntEnum('Count', {'SOME': n}).SOME):
        wf, usual = constructors.construct_integer(x), constructors.construct_integer(int(n))
        check(wf == usual and wf.form == usual.form == str(int(n)) and wf.word.forms == [str(int(n))], 'a %s number %d: %r', type(x).__name__, n, wf.form)


def phrases(case, L):
    lex, stored = L.Lexicon(), []
    for i, (k, kind, restr) in enumerate(case['adds']):
        x = phrase(kind, i)
        lex.add_template(key(k), x, **({} if restr is None else {'restrictions': frozenset(restr)}))
        stored.append((k, x, set(restr or ())))
    asked = frozenset(case['asked'])
    for k in KEYS:
        known = [(x, restr) for k2, x, restr in stored if k2 == k]
        same(bool(lex.has_key(key(k))), bool(known), 'key %r is known' % (key(k),))
        fit = [(x, restr) for x, restr in known if restr <= asked]
        got = list(lex.get_templates(key(k), asked))
        check(sorted(map(id, got)) == sorted(id(x) for x, _ in fit), 'phrases of %r: got %r, expected %r', key(k), got, [x for x, _ in fit])
        best = max([len(restr) for _, restr in fit], default=0)
        state = random.getstate()
        random.seed(len(stored))
        try:
            for call, admissible in ((lex.get_random_template, fit), (lex.get_random_nearest_template, [(x, r) for x, r in fit if len(r) == best])):
                if not fit:
                    kinds = [('NoTemplatesWithSpecifiedRestrictions' if known else 'UnknownLexiconKeyError', None)]
                    expect_error(kinds, lambda: call(key(k), asked), 'a random phrase of %r' % (key(k),))
                    continue
                for _ in range(3):
                    got = call(key(k), asked)
                    check(any(got is x for x, _ in admissible), 'a random phrase of %r: %r', key(k), got)
        finally:
            random.setstate(state)


def scene(case, F):
    m = [expand(w) for w in case['words']]
    of = [FAMILIES[f] for f in case['of']]
    made = [made_word(G, x, case['texts'], F[2]) for G, x in zip(of, m)]
    mext = {k: external(s) for k, s in case['ext'].items()}
    key_of = Text if case['texts'] else str
    ext = {key_of(k): made_external(case, s, mext[k], F[1], F[0], F[2]) for k, s in case['ext'].items()}
    entries = M.dictionary_entries(m)
    d = F[4].Dictionary('чей-то', words=made) if F[4] is Made else F[4].Dictionary(words=made)
    for G, x, w in zip(of, m, made):
        usual = build(x)
        same(read_word(w), x, 'a word')
        check(w == usual and usual == w and not w != usual and hash(w) == hash(usual), 'equality of a word with the usual one')
        same((w.number_of_syllables, bool(w.has_fluent_vowel)), (M.syllables(x), M.fluent_vowel(x)), 'phonetics')
        same([f.form for f in w.all_forms()], [f.form for f in usual.all_forms()], 'forms')
        check(all(f.word is w for f in w.all_forms()), 'the word of a form is another object')
        for p in case['props']:
            same(w.form(made_properties(F[2], p)), usual.form(P(p)), 'the form for %s' % p)
        loaded = G.Word.deserialize(json.loads(json.dumps(w.serialize())))
        check(type(loaded) is G.Word and loaded == w and w == loaded, 'loaded as %s', type(loaded).__name__)
        test = G.Word.create_test_word(T(x['t']))
        check(type(test) is G.Word, 'a test word is a %s', type(test).__name__)
        same(G.Word.get_forms_number(T(x['t'])), len(x['f']), 'number of forms')
    for text, options in entries.items():
        text = key_of(text)
        check(d.has_word(text), 'no word for %r', text)
        wf = d.get_word(text)
        check(any(wf.word is w for w in made), 'the word for %r is not one of those added', text)
        same(wf.form, str(text), 'the form found for %r' % text)
    check(all(any(w is x for x in made) for w in d.get_words()) and all(w in d.get_words() for w in made if any(f.word == w for f in map(d.get_word, entries))),
          'words of the dictionary')
    for k, wf in ext.items():
        mm = mext[k]
        same((wf.form, readP(wf.properties)), (M.spell(mm['word'], mm.get('fprops', mm['props'])), mm['props']), 'variable %s' % k)
        other = build_external(case['ext'][k], mm)
        check(wf == other and other == wf and not wf != other and hash(wf) == hash(other), 'equality of variable %s with the usual one', k)
    try:
        parsed = M.parse(case['text'], set(mext))
    except M.ParseError:
        return
    t = F[3].Template()
    t.parse(key_of(case['text']), externals=list(ext))
    loaded = F[3].Template.deserialize(json.loads(json.dumps(t.serialize())))
    check(type(loaded) is F[3].Template, 'a template loaded as %s', type(loaded).__name__)
    usual = templates.Template()
    usual.parse(case['text'], externals=list(mext))
    for x in (t, loaded):
        check(x == usual and usual == x and x == t, 'equality of a template with the usual one')
        same(set(x.get_undictionaried_words(externals=ext, dictionary=d)), M.undictionaried(parsed, mext, entries), 'words not known')
        try:
            expected = M.render(parsed, mext, entries, m)
        except M.RenderError as e:
            expect_error(e.kinds, lambda: x.substitute(externals=ext, dictionary=d), 'rendering')
            continue
        got = x.substitute(externals=ext, dictionary=d)
        check(got in expected, 'rendering gives %r, expected %r', got, expected[:3])
    for G, x, w in zip(of, m, made):
        same(read_word(w), x, 'a word that was used')
        options = M.autofill_options(x['t'], x['f'])
        w.autofill_missed_forms()
        check(all(f in o for f, o in zip(w.forms, options)), 'filling a word')
