# -*- coding: utf-8 -*-
"""Threads that share objects they do not change."""
import importlib
import json
import os

import fast as st

import gen
import model as M
from api import (REPO, P, Violation, build, build_external, check, constructors, dictionary, error_name, exceptions, expand, external, lexicon, readP,
                 read_word, same, templates, word_key, words)
from turns import Turns

ID = 'C21'
EXAMPLES = (700, 5600)
RULE = ('Two or three threads, each doing 1-4 calls on shared fresh words, variables, dictionary, lexicon and parsed templates: rendering, choosing phrases, forms, '
        'enumerations, lookups, numbers, phonetics, saving, printing, comparing, and parsing, loading, filling and adding to objects of '
        'their own; a generated schedule switches between the threads after so many bytecode instructions of utg, '
        'or one call runs as a whole inside of another one, at places all over it. '
        'Non-trivial: at least 5 switches, and two threads touch one object.')
ASSUMPTIONS = ['threads change at instructions of utg itself, calls into other libraries are atomic']


LETTERS = 'аеиокнрс'


@st.composite
def salted(draw, pool):
    salt = ''
    if draw(st.integers(0, 3)):                 # texts that every attempt replaces by ones not met before in this process
        salt = 'щ' + ''.join(draw(st.lists(st.sampled_from(LETTERS), min_size=4, max_size=4))) + LETTERS[0] * 2
        pool = [text + salt for text in pool]
    return salt, pool


def fresh(case, k):
    """The case with other texts of the same length."""
    salt = case.get('salt')
    if not salt:
        return case
    return json.loads(json.dumps(case, ensure_ascii=False).replace(salt, salt[:-2] + LETTERS[k // 8 % 8] + LETTERS[k % 8]))


@st.composite
def op(draw, k, names, ntexts, pool, kinds=None):
    kind = draw(st.sampled_from(kinds or ['render', 'render', 'render', 'form', 'forms', 'traits', 'int', 'int', 'get', 'absent', 'save', 'str', 'equal',
                                 'parse', 'load', 'fill', 'new', 'words', 'wf', 'lex', 'lex']))
    if kind in ('render', 'absent', 'save', 'parse', 'load'):
        return [kind, draw(st.integers(0, ntexts - 1))]
    if kind == 'reparse':                       # of C23
        return [kind, draw(st.integers(0, ntexts - 1)), draw(st.sampled_from(['new', 'other']))]
    if kind in ('forms', 'str', 'equal', 'fill', 'new', 'add'):
        return [kind, draw(st.integers(0, k - 1))]
    if kind in ('form', 'wf'):
        return [kind, draw(st.integers(0, k - 1)), draw(gen.props(3))]
    if kind == 'traits':
        return [kind, draw(st.sampled_from(names))]
    if kind == 'int':
        return [kind, draw(gen.small_numbers())]
    if kind == 'get':
        return [kind, draw(st.sampled_from(pool))]
    if kind == 'lex':
        return [kind, draw(st.integers(0, 2)), draw(st.sampled_from(['k', 'l', 'm'])), draw(st.lists(st.integers(0, 3), max_size=4, unique=True))]
    return [kind]


phrases = st.lists(st.tuples(st.sampled_from(['k', 'k', 'l']), st.lists(st.integers(0, 3), max_size=3, unique=True)).map(list), max_size=6)


@st.composite
def strategy_(draw, every):
    pool = draw(st.lists(gen.word_text(4), min_size=2, max_size=4, unique=True))
    salt, pool = draw(salted(pool))
    specs = []
    for _ in range(draw(st.integers(1, 3))):
        t = draw(st.sampled_from(['NOUN', 'NOUN', 'VERB', 'PREPOSITION', 'TEXT', 'PRONOUN', 'ADJECTIVE']))
        n = M.COUNT[t]
        w = {'t': t, 'k': draw(st.sampled_from(pool)), 'p': draw(gen.own_props(t)),
             'o': {str(draw(st.integers(0, n - 1))): draw(st.sampled_from(pool)) for _ in range(draw(st.integers(0, 3)))}}
        if draw(st.integers(0, 4)) == 0:
            w['h'] = draw(st.lists(st.integers(0, n - 1), max_size=4))
        specs.append(w)
    names = draw(st.lists(st.sampled_from(['a', 'b', 'n', 'герой']), min_size=1, max_size=3, unique=True))
    ext = {name: draw(gen.integer_spec() if name == 'n' else gen.external_spec(text=st.sampled_from(pool))) for name in names}
    texts = []
    for _ in range(draw(st.integers(1, 3))):
        text = ''
        for _ in range(draw(st.integers(1, 3))):
            ident = draw(st.one_of(st.sampled_from(names), st.sampled_from(pool)))
            deps = [draw(st.one_of(st.sampled_from(names), gen.props(2).map(','.join))) for _ in range(draw(st.integers(0, 2)))]
            text += '[' + '|'.join([ident] + deps) + ']' + draw(st.sampled_from(['', ' ', '%']))
        texts.append(text)
    one = op(len(specs), names, len(texts), pool)
    lex = draw(phrases)
    if draw(st.integers(0, 2)) == 0:            # one call in the middle of another one, at every place of it
        first = draw(one)
        second = draw(one)
        for _ in range(6):                      # preferably of the same kind, not the same
            if second[0] == first[0] and (second != first or len(first) == 1):
                break
            second = draw(one)
        return {'words': specs, 'ext': ext, 'texts': texts, 'threads': [[first], [second]], 'places': draw(st.integers(0, 19)),
                'every': every, 'salt': salt, 'lex': lex}
    threads = [draw(st.lists(one, min_size=1, max_size=4)) for _ in range(draw(st.integers(2, 3)))]
    if draw(st.booleans()):                     # the same calls at the same time
        threads[1] = list(threads[0])
    turn = draw(st.sampled_from([3, 12, 50, 200]))
    schedule = draw(st.lists(st.integers(1, turn), min_size=1, max_size=12))
    return {'words': specs, 'ext': ext, 'texts': texts, 'threads': threads, 'schedule': schedule, 'salt': salt, 'lex': lex}


RICH = {'words': [{'t': 'NOUN', 'k': 'сон', 'p': ['но']}, {'t': 'NOUN', 'k': 'рот', 'p': ['мн', 'од'], 'h': [1, 7]},
                  {'t': 'VERB', 'k': 'нес', 'p': []}, {'t': 'PREPOSITION', 'f': ['в', 'во', 'в'], 'p': []}],
        'ext': {'n': {'n': 10001}, 'герой': {'w': {'t': 'NOUN', 'k': 'вор', 'p': ['но']}, 'p': ['рд']},
                'кто': {'w': {'t': 'PRONOUN', 'k': 'он', 'p': []}, 'p': ['мн', '3л']}},
        'texts': ['[n] [сонбабуб|n] [в|герой]', '[Герой|мн] [ротбабуд|герой|дт]', '[кто|дт]%[несбабуб|кто][сонбабуг|n|мн]', '[чужой|кто] [чужак]'],
        'lex': [['k', []], ['k', [1]], ['k', [1, 2]], ['l', [2]], ['l', [1, 2, 3]], ['l', []], ['k', [3]]]}


def rich_ops(kinds=('render', 'absent', 'save', 'parse', 'load', 'forms', 'str', 'equal', 'fill', 'new', 'form', 'wf', 'traits', 'int', 'get', 'words', 'lex')):
    """kind -> calls with different answers in the rich world"""
    out = {}
    for kind in kinds:
        if kind in ('render', 'absent', 'save', 'parse', 'load'):
            out[kind] = [[kind, i] for i in range(4)]
        elif kind in ('forms', 'str', 'equal', 'fill', 'new'):
            out[kind] = [[kind, i] for i in range(4)]
        elif kind in ('form', 'wf'):
            out[kind] = [[kind, 0, ['мн', 'дт']], [kind, 1, ['рд']], [kind, 0, ['тв']], [kind, 2, ['прш', 'жр']]]
        elif kind == 'traits':
            out[kind] = [[kind, name] for name in sorted(RICH['ext'])]
        elif kind == 'int':
            out[kind] = [[kind, n] for n in (1, 10001, 10000022, 5)]
        elif kind == 'get':
            forms = [expand(w)['f'] for w in RICH['words']]
            out[kind] = [[kind, forms[0][1]], [kind, forms[1][3]], [kind, 'в'], [kind, 'нетслова']]
        elif kind == 'lex':
            out[kind] = [[kind, how, key, asked] for how in range(3) for key, asked in (('k', [1]), ('l', [1, 2, 3]), ('k', [1, 2]), ('m', []))]
        else:
            out[kind] = [[kind]]
    return out


def enumerate_cases(tier):
    ops = rich_ops()
    thorough = tier != 'quick'
    for kind in sorted(ops):                    # every kind of call in the middle of another one of this kind
        for i, first in enumerate(ops[kind]):
            for j, second in enumerate(ops[kind]):
                if (i != j or len(ops[kind]) == 1) and (thorough or (i + j) % 2 or kind == 'lex' and first[1] == second[1]):
                    yield dict(RICH, threads=[[first], [second]], places=(i + j) % 7, every=400 if thorough else 40)
    for a in sorted(ops):                       # and in the middle of one of every other kind
        for b in sorted(ops):
            if a != b:
                yield dict(RICH, threads=[[ops[a][0]], [ops[b][-1]]], places=3, every=100 if thorough else 8)
    yield from first_numbers(tier)


def first_numbers(tier):
    """The very first use of the numbers kept ready."""
    for turn in (1, 7, 23, 40, 67, 111, 211, 503):
        for later in range(2 if tier == 'quick' else 20):
            yield {'words': [{'t': 'NOUN', 'k': 'сон', 'p': ['но']}], 'ext': {'n': {'n': 10001}}, 'texts': ['[n] [сонбабуб|n]'],
                   'threads': [[['int', 5], ['int', 22 + later], ['render', 0]], [['int', 10000], ['int', 21], ['render', 0]], [['int', 0], ['words']]],
                   'schedule': [turn, turn + later, 3 * turn], 'first': True}


def strategy(tier):
    return strategy_(15 if tier == 'quick' else 120)


class Shared(object):
    def __init__(self, case):
        self.m = [expand(w) for w in case['words']]
        self.texts = case['texts']
        self.mext = {k: external(s) for k, s in case['ext'].items()}
        self.entries = M.dictionary_entries(self.m)
        self.parsed = []
        for text in self.texts:
            try:
                self.parsed.append(M.parse(text, set(self.mext)))
            except M.ParseError:
                self.parsed.append(None)
        self.t = []
        for text, parsed in zip(self.texts, self.parsed):
            t = templates.Template()
            if parsed is not None:
                t.parse(text, externals=list(self.mext))
            self.t.append(t)
        self.w = [build(m) for m in self.m]
        self.d = dictionary.Dictionary(words=self.w)
        self.fresh(case)
        self.phrases = case.get('lex', [])
        self.lex = lexicon.Lexicon()
        self.made = []
        for i, (key, restr) in enumerate(self.phrases):
            self.made.append(templates.Template())
            self.made[-1].parse('фраза %d' % i, externals=[])
            self.lex.add_template(key, self.made[-1], restrictions=frozenset(restr))

    def fresh(self, case):
        self.ext = {k: build_external(s, self.mext[k]) if 'w' in s else None for k, s in case['ext'].items()}
        for k, s in case['ext'].items():
            if self.ext[k] is None:             # a number of its own: the numbers made in advance are left for the threads
                m = M.integer_word(s['n'])
                self.ext[k] = words.WordForm(build(m))

    # every call: -> (function for the thread, function for its result)
    def call(self, op):
        kind = op[0]
        if kind in ('render', 'load', 'parse') and self.parsed[op[1]] is None:
            kind = 'words'
        if kind in ('render', 'load', 'parse'):
            i = op[1]

            def go():
                t = self.t[i]
                if kind == 'load':
                    t = templates.Template.deserialize(json.loads(json.dumps(t.serialize())))
                if kind == 'parse':
                    t = templates.Template()
                    t.parse(self.texts[i], externals=list(self.ext))
                return t.substitute(externals=self.ext, dictionary=self.d)

            def judge(result):
                try:
                    ok = M.render(self.parsed[i], self.mext, self.entries, self.m)
                except M.RenderError as e:
                    check(result[0] == 'error' and isinstance(result[1], exceptions.UtgError)
                          and any(error_name(result[1]) == name for name, _ in e.kinds), 'rendering %r: %r', self.texts[i], result)
                    return
                value = self.value(result)
                check(value in ok, 'rendering %r: got %r, expected %r', self.texts[i], value, ok[:3])
            return go, judge
        if kind == 'absent':
            return (lambda: sorted(set(self.t[op[1]].get_undictionaried_words(externals=self.ext, dictionary=self.d))),
                    lambda x: same(self.value(x), sorted(M.undictionaried(self.parsed[op[1]] or {'subs': []}, self.mext, self.entries)),
                                   'unknown words'))
        if kind == 'lex':
            return self.choose(*op[1:])
        if kind == 'save':
            return (lambda: json.dumps(self.t[op[1]].serialize()), lambda x: same(self.value(x), self.saved(op[1]), 'saved template'))
        if kind == 'form':
            return (lambda: self.w[op[1]].form(P(op[2])),
                    lambda x: same(self.value(x), M.word_form(self.m[op[1]], M.pset(op[2])), 'form by %s' % op[2]))
        if kind == 'wf':
            m = self.m[op[1]]
            return (lambda: words.WordForm(self.w[op[1]], P(op[2])).form,
                    lambda x: same(self.value(x), M.spell(m, M.pset(op[2], m['p'])), 'word form with %s' % op[2]))
        if kind == 'forms':
            m = self.m[op[1]]
            return (lambda: [wf.form for wf in self.w[op[1]].all_forms()],
                    lambda x: same(self.value(x), [M.spell(m, M.pset(M.slot_props(m['t'], i), m['p'])) for i in range(len(m['f']))], 'all forms'))
        if kind == 'traits':
            wf, m = self.ext[op[1]], self.mext[op[1]]
            text = M.spell(m['word'], m.get('fprops', m['props']))
            return (lambda: (wf.form, wf.word.number_of_syllables, bool(wf.word.has_fluent_vowel), bool(wf.starts_with_consonant_cluster)),
                    lambda x: same(self.value(x), (text, M.syllables(m['word']), M.fluent_vowel(m['word']), M.consonant_cluster(text)), 'traits'))
        if kind == 'int':
            def number():
                wf = constructors.construct_integer(op[1])
                return wf.form, wf.properties
            return number, lambda x: same((self.value(x)[0], readP(self.value(x)[1])), (str(op[1]), M.integer_props(op[1])), 'number')
        if kind == 'get':
            def get():
                return self.d.get_word(op[1]) if self.d.has_word(op[1]) else None

            def judge_get(x):
                wf = self.value(x)
                if op[1] not in self.entries:
                    same(wf, None, 'word %r' % op[1])
                    return
                check(wf is not None and (word_key(read_word(wf.word)), readP(wf.properties)) in
                      [(word_key(self.m[wi]), p) for wi, i, p in self.entries[op[1]]], 'word %r', op[1])
            return get, judge_get
        if kind == 'words':
            keys = {word_key(m) for m in self.m}
            return (lambda: list(self.d.get_words()), lambda x: check({word_key(read_word(w)) for w in self.value(x)} <= keys, 'words of the dictionary'))
        if kind == 'str':
            w = self.w[op[1]]
            return (lambda: str(w.properties), lambda x: same(sorted(v for v in self.value(x)[1:-1].split(',') if v),
                                                               sorted(self.m[op[1]]['p'].values()), 'printed properties'))
        if kind == 'equal':
            w = self.w[op[1]]
            return (lambda: (w == words.Word.deserialize(json.loads(json.dumps(w.serialize()))), len({w, w, self.w[0]})),
                    lambda x: same(self.value(x), (True, 1 if word_key(self.m[op[1]]) == word_key(self.m[0]) else 2), 'equality'))
        if kind == 'fill':
            def fill():
                w = build(self.m[op[1]])
                w.autofill_missed_forms()
                return w.forms
            options = M.autofill_options(self.m[op[1]]['t'], self.m[op[1]]['f'])
            return fill, lambda x: check(all(f in o for f, o in zip(self.value(x), options)), 'filled forms')
        m = self.m[op[1]]

        def new():
            d = dictionary.Dictionary()
            d.add_word(self.w[op[1]])
            return d
        entries = M.dictionary_entries([m])

        def judge_new(x):
            d = self.value(x)
            check(all(d.has_word(text) and readP(d.get_word(text).properties) in [p for _, _, p in e] for text, e in entries.items()),
                  'dictionary of one word')
        return new, judge_new

    def choose(self, how, key, asked):
        fit = [(i, len(restr)) for i, (k, restr) in enumerate(self.phrases) if k == key and set(restr) <= set(asked)]
        if how == 0:
            return (lambda: self.lex.get_templates(key, frozenset(asked)),
                    lambda x: same(sorted(self.which(t) for t in self.value(x)), [i for i, _ in fit], 'phrases for %s %s' % (key, asked)))
        ok = [i for i, n in fit if how == 1 or n == max(m for _, m in fit)]
        error = 'NoTemplatesWithSpecifiedRestrictions' if any(k == key for k, _ in self.phrases) else 'UnknownLexiconKeyError'

        def judge(x):
            if not ok:
                check(x[0] == 'error' and error_name(x[1]) == error, 'choosing %s %s: %r, %s is due', key, asked, x, error)
                return
            i = self.which(self.value(x))
            check(i in ok, 'choosing %s %s: phrase %r, admissible are %r', key, asked, i, ok)
        call = self.lex.get_random_template if how == 1 else self.lex.get_random_nearest_template
        return (lambda: call(key, restrictions=frozenset(asked))), judge

    def which(self, template):
        found = [i for i, t in enumerate(self.made) if t is template]
        check(len(found) == 1, 'what was chosen is not a phrase of the lexicon: %r', template)
        return found[0]

    def saved(self, i):
        t = templates.Template()
        if self.parsed[i] is not None:
            t.parse(self.texts[i], externals=list(self.mext))
        return json.dumps(t.serialize())

    def value(self, result):
        if result[0] == 'error':
            raise result[1]
        return result[1]

    def check_words(self):
        for m, w in zip(self.m, self.w):
            same(read_word(w), m, 'a word afterwards')
        for name, wf in self.ext.items():
            same(readP(wf.properties), self.mext[name]['props'], 'properties of %s afterwards' % name)


def run_case(case):
    if 'schedule' in case:
        return interleave(case)[:2]
    labels, place, count = set(), 1 + case['places'], 0
    while True:
        _, kinds, steps = interleave(dict(fresh(case, count), schedule=[place, 10 ** 9]))
        labels.update(kinds)
        count += 1
        place += max(1, steps // case['every'])
        if place > steps or count > 400:
            return count >= 5, sorted(labels) + ['one call inside of another']


def interleave(case):
    if case.get('first'):
        importlib.reload(constructors)
    shared = Shared(case)
    calls = [[shared.call(op) for op in ops] for ops in case['threads']]

    def job(todo):
        def run():
            out = []
            for go, _ in todo:
                try:
                    out.append(('value', go()))
                except Exception as e:
                    out.append(('error', e))
            return out
        return run
    turns = Turns(os.path.join(REPO, 'utg'), [job(todo) for todo in calls], case['schedule'])
    results = turns.run()
    for i, (todo, result) in enumerate(zip(calls, results)):
        if result is None:
            raise Violation('thread %d got no answer' % i)
        for (_, judge), value, op in zip(todo, shared.value(result), case['threads'][i]):
            judge(value)
    shared.check_words()
    for todo in calls:                          # and once more, one after another
        for go, judge in todo:
            try:
                value = ('value', go())
            except Exception as e:
                value = ('error', e)
            judge(value)
    kinds = sorted({'op ' + op[0] for ops in case['threads'] for op in ops})
    touched = [{(op[0] in ('render', 'load', 'absent', 'save', 'parse'), op[1]) for op in ops if len(op) > 1 and op[0] not in ('int', 'lex')} | {'d' for op in ops if op[0] in ('render', 'get', 'words')} | {'l' for op in ops if op[0] == 'lex'}
               for ops in case['threads']]
    common = any(a & b for i, a in enumerate(touched) for b in touched[:i])
    return turns.switches >= 5 and common, kinds, turns.count[0]
