# -*- coding: utf-8 -*-
"""Copies behave as their originals, and deep ones live their own life."""
import copy

import fast as st

import gen
import model as M
from api import (P, R, build, build_external, check, constructors, dictionary, expand, expect_error, external, lexicon, readP, read_word, rec, same,
                 templates, words)
from c15 import check_dictionary

ID = 'C26'
EXAMPLES = (1200, 9600)
RULE = ('Property sets, words, variables, numbers, templates, a dictionary and a lexicon, some of them used before, are copied (copy.copy, copy.deepcopy, each '
        'alone or all together, copies of copies); copies are compared with the model in all ways, then originals or deep copies are changed (forms edited '
        'and filled, words added, templates parsed anew, phrases added) and both sides are compared again. '
        'Non-trivial: a deep copy is taken, and one of the two sides is changed afterwards.')


@st.composite
def strategy_(draw):
    pool = draw(st.lists(gen.word_text(5), min_size=2, max_size=4, unique=True))
    specs = [draw(gen.word_spec(text=st.sampled_from(pool))) for _ in range(draw(st.integers(1, 3)))]
    names = draw(st.lists(st.sampled_from(['a', 'b', 'n', 'герой']), min_size=1, max_size=3, unique=True))
    ext = {name: draw(gen.integer_spec() if name == 'n' else gen.external_spec(text=st.sampled_from(pool))) for name in names}
    texts = []
    for _ in range(2):
        text = draw(st.sampled_from(['', '% ']))
        for _ in range(draw(st.integers(0, 3))):
            ident = draw(st.one_of(st.sampled_from(names), st.sampled_from(pool)))
            deps = [draw(st.one_of(st.sampled_from(names), gen.props(2).map(','.join))) for _ in range(draw(st.integers(0, 3)))]
            text += '[' + '|'.join([draw(st.sampled_from([ident, ident.capitalize()]))] + deps) + '] '
        texts.append(text)
    side = st.integers(0, 1)
    ops = []
    for _ in range(draw(st.integers(0, 6))):
        kind = draw(st.sampled_from(['edit', 'fill', 'add', 'parse', 'phrase', 'look', 'look']))
        ops.append([kind, draw(side), draw(st.integers(0, 3)), draw(st.sampled_from(['', *pool]))])
    return {'words': specs, 'late': draw(gen.word_spec(text=st.sampled_from(pool))), 'ext': ext, 'texts': texts, 'props': draw(gen.props(4)),
            'lex': draw(st.lists(st.lists(st.integers(0, 2), max_size=2, unique=True), max_size=4)), 'used': draw(st.booleans()),
            'how': draw(st.sampled_from(['deep', 'deep', 'deep each', 'twice', 'deep of copy', 'copy', 'copy of deep'])), 'ops': ops}


def strategy(tier):
    return strategy_()


class State(object):
    """Objects together with what they should be."""

    def __init__(self, case):
        self.m = [expand(w) for w in case['words']]
        self.md = [expand(w) for w in case['words']]
        self.mext = {k: external(s) for k, s in case['ext'].items()}
        self.mt = [parsed(text, self.mext) for text in case['texts']]
        self.mp = M.pset(case['props'])
        self.ml = [sorted(x) for x in case['lex']]

    def create(self, case):
        made = [build(m) for m in self.m]
        d = dictionary.Dictionary(words=[build(m) for m in self.m])
        ext = {k: build_external(s, self.mext[k]) for k, s in case['ext'].items()}
        ts = []
        for text, mt in zip(case['texts'], self.mt):
            t = templates.Template()
            if mt is not None:
                t.parse(text, externals=list(ext))
            ts.append(t)
        lex = lexicon.Lexicon()
        for i, restr in enumerate(case['lex']):
            t = templates.Template()
            t.parse('фраза %d' % i, externals=[])
            lex.add_template('k', t, restrictions=frozenset(restr))
        self.o = [made, d, ext, ts, P(self.mp), lex]
        return self

    def like(self, o):
        other = copy.copy(self)
        other.m = [dict(m, f=list(m['f'])) for m in self.m]
        other.md, other.mt, other.ml, other.o = list(self.md), list(self.mt), list(self.ml), o
        return other

    def use(self, case):
        made, d, ext, ts, p, lex = self.o
        for w in made:
            w.number_of_syllables, w.has_fluent_vowel, w.normal_form(), hash(w)
        for wf in list(ext.values()) + [f for w in made for f in w.all_forms()][:5]:
            wf.form, wf.starts_with_consonant_cluster, hash(wf)
        str(p), hash(p), p.get_raw_key(made[0].type.schema)
        lex.get_templates('k', frozenset([1]))
        for t, mt in zip(ts, self.mt):
            self.render(t, mt, 'use')

    def render(self, t, mt, what):
        if mt is None:
            return
        made, d, ext = self.o[:3]
        entries = M.dictionary_entries(self.md)
        same(set(t.get_undictionaried_words(externals=ext, dictionary=d)), M.undictionaried(mt, self.mext, entries), '%s: unknown words' % what)
        try:
            expected = M.render(mt, self.mext, entries, self.md)
        except M.RenderError as e:
            expect_error(e.kinds, lambda: t.substitute(externals=ext, dictionary=d), '%s: rendering' % what)
            return
        got = t.substitute(externals=ext, dictionary=d)
        check(got in expected, '%s: rendering gives %r, expected %r', what, got, expected[:3])

    def verify(self, case, what):
        made, d, ext, ts, p, lex = self.o
        for m, w in zip(self.m, made):
            self.verify_word(w, m, '%s: a word' % what)
        for name, wf in ext.items():
            m = self.mext[name]
            self.verify_word(wf.word, m['word'], '%s: the word of %s' % (what, name))
            text = M.spell(m['word'], m.get('fprops', m['props']))
            same((wf.form, readP(wf.properties), bool(wf.starts_with_consonant_cluster)), (text, m['props'], M.consonant_cluster(text)), '%s: %s' % (what, name))
        check_dictionary(d, self.md, [case['late'].get('k', 'нет')], what)
        for t, mt in zip(ts, self.mt):
            self.render(t, mt, what)
        same(readP(p), self.mp, '%s: properties' % what)
        check(p == P(self.mp) and P(self.mp) == p and hash(p) == hash(P(self.mp)), '%s: equality of property sets', what)
        for v in self.mp.values():                                          # properties are the very same ones
            check(p.get(R(M.VERBOSE[v][0])) is rec(v), '%s: property %s is another object', what, v)
        for asked in ([], [0], [1, 2], [0, 1, 2]):
            fit = [t.substitute(externals={}, dictionary=d) for t in lex.get_templates('k', frozenset(asked))]
            same(sorted(fit), sorted('фраза %d' % i for i, restr in enumerate(self.ml) if set(restr) <= set(asked)), '%s: phrases for %s' % (what, asked))

    def verify_word(self, w, m, what):
        same(read_word(w), m, what)
        check(w == build(m) and build(m) == w and hash(w) == hash(build(m)) and not w != build(m), '%s: equality', what)
        same([f.form for f in w.all_forms()], [M.spell(m, M.pset(M.slot_props(m['t'], i), m['p'])) for i in range(len(m['f']))], '%s: forms' % what)
        fresh = build(m)
        for x in (w, fresh) if what.endswith('made') else (fresh,):
            same((x.number_of_syllables, bool(x.has_fluent_vowel)), (M.syllables(m), M.fluent_vowel(m)), '%s: phonetics' % what)

    def change(self, op, case):
        made, d, ext, ts, p, lex = self.o
        kind, _, i, text = op
        if kind == 'edit':
            w, m = made[i % len(made)], self.m[i % len(made)]
            at = (i * 7) % len(m['f'])
            w.forms[at] = m['f'][at] = text
        elif kind == 'fill':
            w, m = made[i % len(made)], self.m[i % len(made)]
            options = M.autofill_options(m['t'], m['f'])
            w.autofill_missed_forms()
            check(all(f in o for f, o in zip(w.forms, options)), 'filling a word')
            m['f'] = list(w.forms)
        elif kind == 'add':
            m = expand(case['late'])
            d.add_word(build(m))
            self.md.append(m)
        elif kind == 'parse':
            new = '%s [%s] и [герой|%s]' % (text, 'a', 'мн,дт')
            ts[i % 2].parse(new, externals=list(ext))
            self.mt[i % 2] = M.parse(new, set(self.mext))
        elif kind == 'phrase':
            t = templates.Template()
            t.parse('фраза %d' % len(self.ml), externals=[])
            lex.add_template('k', t, restrictions=frozenset([i % 3]))
            self.ml.append([i % 3])
        else:
            self.use(case)


def apart(case, first, second):
    """The words of variables and numbers of a deep copy are its own."""
    for name, wf in second.o[2].items():
        other, m = first.o[2][name], first.mext[name]['word']
        kept = list(wf.word.forms)
        try:
            wf.word.forms[:] = ['другой'] * len(kept)
            same(read_word(other.word), m, 'the word of %s after its copy was changed' % name)
            if 'n' in case['ext'][name]:
                same(constructors.construct_integer(case['ext'][name]['n']).word.forms, m['f'], 'forms of a number after a copy of it was changed')
        finally:
            wf.word.forms[:] = kept


def parsed(text, names):
    try:
        return M.parse(text, set(names))
    except M.ParseError:
        return None


def each(fn, o):
    made, d, ext, ts, p, lex = o
    return [[fn(w) for w in made], fn(d), {k: fn(wf) for k, wf in ext.items()}, [fn(t) for t in ts], fn(p), fn(lex)]


def run_case(case):
    first = State(case).create(case)
    if case['used']:
        first.use(case)
    how = case['how']
    if how == 'deep':
        o = copy.deepcopy(first.o)
    elif how == 'deep each':
        o = each(copy.deepcopy, first.o)
    elif how == 'twice':
        o = copy.deepcopy(copy.deepcopy(first.o))
    elif how == 'deep of copy':
        o = copy.deepcopy(each(copy.copy, first.o))
    elif how == 'copy':
        o = each(copy.copy, first.o)
    else:
        o = each(copy.copy, copy.deepcopy(first.o))
    second = first.like(o)
    second.verify(case, 'a copy')
    first.verify(case, 'the original')
    changed = set()
    if how != 'copy':                                   # simple copies share their parts
        apart(case, first, second)
        sides = [first, second]
        for k, op in enumerate(case['ops']):
            sides[op[1]].change(op, case)
            changed.add(op[0])
            sides[1 - op[1]].verify(case, 'after the other one was changed (%s)' % op[0])
        for side, what in zip(sides, ('the original at last', 'the copy at last')):
            side.verify(case, what)
    return how != 'copy' and bool(changed - {'look'}), ['copied: ' + how] + ['used before'] * case['used'] + ['changed: ' + k for k in sorted(changed)]


def enumerate_cases(tier):
    base = {'words': [{'t': 'NOUN', 'k': 'сон', 'p': ['но']}, {'t': 'VERB', 'k': 'быть', 'p': [], 'h': [3, 4]}], 'late': {'t': 'TEXT', 'f': ['нет'], 'p': []},
            'ext': {'a': {'n': 22}, 'герой': {'w': {'t': 'NOUN', 'k': 'рот', 'p': ['но']}, 'p': ['мн'], 'fp': ['дт']}}, 'props': ['мн', 'дт', 'загл'],
            'texts': ['[a] [сонбабуб|a] [Герой|тв]', '%'], 'lex': [[1], [], [1, 2]]}
    for how in ('deep', 'deep each', 'twice', 'deep of copy', 'copy', 'copy of deep'):
        for used in (False, True):
            for side in (0, 1):
                yield dict(base, how=how, used=used, ops=[[kind, side, i, 'мыс'] for i, kind in enumerate(('edit', 'fill', 'add', 'parse', 'phrase', 'look', 'edit'))])
