# -*- coding: utf-8 -*-
"""Nothing is kept for ever: memory does not grow with the number of calls."""
import gc
import json
import sys
import warnings

import fast as st

import c21
import gen
import model as M
from api import (P, R, Violation, build, constructors, dictionary, exceptions, expand, external, lexicon, templates, words)

ID = 'C25'
EXAMPLES = (60, 480)
RULE = ('A generated round of calls (parsing, rendering, errors, lookups, numbers, saving, loading, phonetics, phrases, filling) is repeated with texts, '
        'words, variables and numbers never met before, the objects of a round being thrown away after it; some dictionary, templates, words and lexicon '
        'live throughout and are only read. The number of memory blocks the interpreter has in use is compared between rounds. '
        'Non-trivial: at least 3 kinds of calls in the round, on fresh texts.')
ASSUMPTIONS = ['CPython, whose count of allocated blocks is exact', 'something kept for less than one round of eight is not noticed',
               'remembering up to 12000 rounds, emptied at once or one by one, is taken for remembering a limited number']

ROUNDS = 160
LIMIT = 12000
CASE_CPU_S = 240
LETTERS = c21.LETTERS
KINDS = ('render', 'shared', 'errors', 'reparse', 'dictionary', 'number', 'save', 'load', 'props', 'traits', 'form', 'lex', 'fill', 'add', 'equal', 'own lex', 'test word')


@st.composite
def strategy_(draw):
    salt = 'щ' + ''.join(draw(st.lists(st.sampled_from(LETTERS), min_size=2, max_size=2))) + LETTERS[0] * 7
    pool = [text + salt for text in draw(st.lists(gen.word_text(4), min_size=2, max_size=4, unique=True))]
    if draw(st.integers(0, 3)) == 0:
        pool.append(pool[0] * draw(st.sampled_from([3, 9])))
    specs = []
    for _ in range(draw(st.integers(1, 3))):
        specs.append(draw(gen.word_spec(text=st.sampled_from(pool))))
    names = draw(st.lists(st.sampled_from(['a', 'b', 'n', 'герой', 'x' + salt]), min_size=1, max_size=3, unique=True))
    ext = {name: draw(gen.integer_spec() if name == 'n' else gen.external_spec(text=st.sampled_from(pool))) for name in names}
    texts = []
    for _ in range(draw(st.integers(1, 3))):
        text = draw(st.sampled_from(['', 'текст ', salt, '%']))
        for _ in range(draw(st.sampled_from([1, 1, 2, 3, 6]))):
            ident = draw(st.one_of(st.sampled_from(names), st.sampled_from(pool)))
            deps = [draw(st.one_of(st.sampled_from(names), gen.props(2).map(','.join))) for _ in range(draw(st.integers(0, 3)))]
            text += '[' + '|'.join([draw(st.sampled_from([ident, ident.capitalize()]))] + deps) + ']' + draw(st.sampled_from(['', ' ', '%']))
        texts.append(text)
    return {'words': specs, 'ext': ext, 'texts': texts, 'salt': salt, 'lex': draw(c21.phrases),
            'ops': draw(st.lists(st.sampled_from(KINDS), min_size=3, max_size=8, unique=True)),
            'props': draw(gen.props(4)), 'number': draw(gen.small_numbers())}


def strategy(tier):
    return strategy_()


def enumerate_cases(tier):
    salt = 'щббббббббб'
    base = {'words': [{'t': 'NOUN', 'k': 'сон' + salt, 'p': ['но']}, {'t': 'PREPOSITION', 'f': ['в', 'во', 'в'], 'p': []}], 'salt': salt,
            'ext': {'n': {'n': 10001}, 'герой': {'w': {'t': 'NOUN', 'k': 'рот' + salt, 'p': ['но']}}},
            'texts': ['[n] [сон' + salt + 'бабуб|n] [в|герой]', '[Герой|мн]' + salt], 'lex': [['k', [1]], ['k', []], ['l', [1, 2]]],
            'props': ['мн', 'дт'], 'number': 5}
    for kind in KINDS:
        yield dict(base, ops=[kind])
    yield dict(base, ops=list(KINDS))


def fresh(case, k):
    """The case with other texts of the same length and other numbers of the same class; -> parsed case."""
    tail = ''.join(LETTERS[k >> 3 * i & 7] for i in range(7))
    case = json.loads(case['json'].replace(case['salt'], case['salt'][:-7] + tail))
    for spec in case['ext'].values():
        if 'n' in spec:
            spec['n'] += 10 ** 8 * k
    case['number'] += 10 ** 8 * k
    return case


class Round(object):
    def __init__(self, case):
        self.case = case
        self.w = [build(expand(w)) for w in case['words']]
        self.ext = {name: constructors.construct_integer(s['n']) if 'n' in s else variable(s) for name, s in case['ext'].items()}
        self.d = dictionary.Dictionary(words=self.w)
        self.t = []
        for text in case['texts']:
            t = templates.Template()
            attempt(lambda: t.parse(text, externals=list(self.ext)))
            self.t.append(t)
        self.lex = lexicon.Lexicon()
        for key, restr in case['lex']:
            self.lex.add_template(key, self.t[0], restrictions=frozenset(restr))


def variable(spec):
    w = build(expand(spec['w']))
    kwargs = {}
    if spec.get('p') is not None:
        kwargs['properties'] = P(spec['p'])
    if spec.get('fp') is not None:
        kwargs['form_properties'] = P(spec['fp'])
    return words.WordForm(w, **kwargs)


def attempt(go):
    try:
        return go()
    except exceptions.UtgError:
        return None


def render(t, ext, d):
    t.get_undictionaried_words(externals=ext, dictionary=d)
    return attempt(lambda: t.substitute(externals=ext, dictionary=d))


def perform(kind, new, old):
    case = new.case
    salt = case['salt']
    if kind == 'render':
        for t in new.t:
            render(t, new.ext, new.d)
    elif kind == 'shared':                          # objects that live throughout, with new variables
        for t in old.t:
            if sorted(old.ext) == sorted(new.ext):
                render(t, new.ext, old.d)
            render(t, old.ext, new.d)
        for t in new.t:
            render(t, new.ext, old.d)
    elif kind == 'errors':
        for text in ('[%s|нет%s]' % (salt, salt), '[ |%s]' % salt):
            attempt(lambda: templates.Template().parse(text, externals=[]))
        attempt(lambda: old.d.get_word('нет' + salt))
        attempt(lambda: words.Word(type=new.w[0].type, forms=[salt] * 7))
        render(old.t[0], {}, new.d)
        t = templates.Template()
        attempt(lambda: t.parse('[%s|к%s]' % (new.w[0].forms[0], salt), externals=['к' + salt]))
        render(t, {}, new.d)
        attempt(lambda: old.lex.get_random_template('нет' + salt))
    elif kind == 'reparse':
        attempt(lambda: old.t[-1].parse(case['texts'][0] + salt, externals=list(new.ext)))
        attempt(lambda: old.t[-1].parse(old.case['texts'][-1], externals=list(old.ext)))
    elif kind == 'dictionary':
        for d in (old.d, new.d):
            for text in (salt, new.w[0].forms[0], old.w[0].forms[0]):
                if d.has_word(text):
                    d.get_word(text)
            len(d.get_words())
    elif kind == 'number':
        for n in (case['number'], -case['number'], case['number'] + 1):
            wf = constructors.construct_integer(n)
            wf.form, wf.word.number_of_syllables, wf.starts_with_consonant_cluster, hash(wf)
    elif kind == 'save':
        for x in new.t + new.w + old.t + old.w + [new.w[0].properties]:
            json.dumps(x.serialize())
    elif kind == 'load':
        for x in new.t + new.w + [new.w[0].properties]:
            data = json.loads(json.dumps(x.serialize()))
            type(x).deserialize(data)
        words.Properties.deserialize({salt[0] and str(1000 + case['number']): 1, '0': 10 ** 6 + case['number']})
    elif kind == 'props':
        p = P(case['props'])
        q = p.clone(P(case['props'][:1]))
        str(q), hash(q), p == q, q.get(R('CASE'))
    elif kind == 'traits':
        for wf in list(new.ext.values()) + [words.WordForm(w, P(case['props'])) for w in new.w + old.w]:
            wf.form, wf.word.number_of_syllables, wf.word.has_fluent_vowel, wf.starts_with_consonant_cluster
    elif kind == 'form':
        for w in new.w + old.w:
            w.form(P(case['props']))
            w.normal_form()
            for wf in w.all_forms():
                wf.form
    elif kind == 'lex':
        for asked in (frozenset([1, 2]), frozenset([1, salt]), frozenset([salt, case['number']])):
            old.lex.has_key(salt)
            old.lex.get_templates('k', asked)
            old.lex.get_templates(salt, asked)
            attempt(lambda: old.lex.get_random_template('k', restrictions=asked))
            attempt(lambda: old.lex.get_random_nearest_template('l', restrictions=asked))
    elif kind == 'own lex':
        lex = lexicon.Lexicon()
        lex.add_template(salt, new.t[0], restrictions=frozenset([salt]))
        lex.add_template(salt, new.t[0])
        attempt(lambda: lex.get_random_template(salt, restrictions=frozenset([salt])))
        attempt(lambda: lex.get_random_nearest_template(salt, restrictions=frozenset([salt])))
        attempt(lambda: lex.get_random_template('k'))
    elif kind == 'fill':
        w = build(expand(dict(case['words'][0], h=[0])))
        w.autofill_missed_forms()
    elif kind == 'add':                             # the same words once more
        for w in old.w:
            old.d.add_word(w)
            old.d.add_word(build(expand(old.case['words'][0])))
    elif kind == 'equal':
        for x, y in ((new.w[0], old.w[0]), (new.t[0], old.t[0]), (words.WordForm(new.w[0]), words.WordForm(old.w[0]))):
            x == y, x != y
        len({new.w[0], old.w[0], words.WordForm(new.w[0])})
    else:
        w = words.Word.create_test_word(new.w[0].type, prefix=salt, suffix=salt, properties=P(case['props']))
        w.form(P(case['props']))


def rounds(case, old, first, n):
    for k in range(first, first + n):
        new = Round(fresh(case, k))
        for kind in case['ops']:
            perform(kind, new, old)
    new = None
    gc.collect()
    return sys.getallocatedblocks()


LIMITED = set()         # kinds of calls found to keep a limited number of things, no need to wait for the limit again
MOST = 10               # searches for a limit in one process


class Life(object):
    """Rounds on a fresh set of long-lived objects."""
    first = 0               # the next round never seen in this process

    def __init__(self, case, ops):
        self.case = dict(case, ops=ops)
        self.old = Round(fresh(self.case, Life.first))
        Life.first += 1
        self.run(24)

    def run(self, n):
        Life.first += n
        return rounds(self.case, self.old, Life.first - n, n)

    def growth(self):
        before = self.run(1)
        return self.run(ROUNDS) - before

    def endless(self):
        peaks = []
        for half in range(2):
            peaks.append(0)
            for _ in range(LIMIT // ROUNDS):
                peaks[-1] = max(peaks[-1], self.run(ROUNDS))
        return max(0, peaks[1] - peaks[0] - LIMIT // 8)


def run_case(case):
    with warnings.catch_warnings():
        warnings.simplefilter('default')            # as in a program of a user; what is kept about them counts as well
        warnings.showwarning = lambda *args, **kwargs: None
        return live(case)


def live(case):
    case = dict(case, json=json.dumps(case, ensure_ascii=False))
    salted = case['salt'] in json.dumps([case['words'], case['ext'], case['texts']], ensure_ascii=False)
    labels = list(case['ops'])
    if Life(case, case['ops']).growth() > ROUNDS // 8:      # something is kept: by what calls, and is there a limit?
        least = Life(case, []).growth()
        causes = [[]] if least > ROUNDS // 8 else []
        causes += [[kind] for kind in case['ops'] if Life(case, [kind]).growth() - least > ROUNDS // 8]
        for ops in causes or [case['ops']]:
            if tuple(ops) in LIMITED or len(LIMITED) >= MOST:
                continue
            more = Life(case, ops).endless()
            if more:
                raise Violation('%d rounds of calls (%s) on objects that are thrown away leave over %d more blocks of memory in use, after as many rounds before'
                                % (LIMIT, ', '.join(ops) or 'only making the objects', more))
            LIMITED.add(tuple(ops))
        labels.append('a limited number of things is kept')
    return salted and len(case['ops']) >= 3, labels
