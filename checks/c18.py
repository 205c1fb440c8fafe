# -*- coding: utf-8 -*-
"""Histories: results depend on the arguments only, nothing else is changed."""
import json

import fast as st

import gen
import model as M
from api import (P, T, Violation, build, check, constructors, dictionary, expand, expect_error, external, readP, read_word, same, templates,
                 word_key, words)
from c15 import check_dictionary

ID = 'C18'
EXAMPLES = (4000, 32000)
RULE = ('Histories of up to 14 calls over two dictionaries, three template objects, words and variables that share words and property sets: '
        'adding words, parsing (also again), rendering, saving and loading, lookups, numbers, filling of forms; every answer is compared '
        'with the model, at the end everything made on the way is compared again, also with other values of the variables. Non-trivial: something is rendered '
        'or looked up again after a later change of a dictionary or a template.')


@st.composite
def variable(draw, k):
    if draw(st.integers(0, 2)) == 0:
        return {'n': draw(gen.small_numbers())}
    spec = {'i': draw(st.integers(0, k - 1)), 'p': draw(gen.props(2))}
    if draw(st.integers(0, 2)) == 0:
        spec['fp'] = draw(gen.props(2))
    return spec


@st.composite
def strategy_(draw):
    pool = draw(st.lists(gen.word_text(4), min_size=2, max_size=4, unique=True))
    some = draw(st.lists(gen.prop(), max_size=2))
    specs = []
    for _ in range(draw(st.integers(2, 4))):
        if specs and draw(st.integers(0, 3)) == 0:              # nearly the same word once more
            w = dict(draw(st.sampled_from(specs)))
            n = M.COUNT[w['t']]
            if draw(st.booleans()) or 'f' in w:
                w['p'] = draw(st.one_of(gen.own_props(w['t']), st.just([draw(st.sampled_from(M.VALUES[M.REL_OF[v]])) for v in w['p']])))
            else:
                w['o'] = dict(w['o'], **{str(draw(st.integers(0, n - 1))): draw(st.sampled_from(pool))})
            specs.append(w)
            continue
        if draw(st.integers(0, 4)) == 0:
            specs.append({'t': 'PREPOSITION', 'p': [], 'f': draw(st.sampled_from([['о', 'об', 'обо'], ['в', 'во', 'во'], ['над', 'надо', 'надо']]))})
            continue
        t = draw(st.sampled_from(['NOUN', 'NOUN', 'VERB', 'PREPOSITION', 'TEXT', 'PRONOUN', 'ADJECTIVE']))
        n = M.COUNT[t]
        w = {'t': t, 'k': draw(st.sampled_from(pool)), 'p': draw(st.one_of(gen.own_props(t), st.just(some))),
             'o': {str(draw(st.integers(0, n - 1))): draw(st.sampled_from(pool)) for _ in range(draw(st.integers(0, 3)))}}
        if draw(st.integers(0, 3)) == 0:
            w['h'] = draw(st.one_of(st.lists(st.integers(0, n - 1), max_size=5), st.just(list(range(n)))))
        specs.append(w)
    k = len(specs)
    ext = {}
    for name in draw(st.lists(st.sampled_from(['a', 'b', 'n', 'герой', 'рд', 'мн']), min_size=1, max_size=3, unique=True)):
        ext[name] = draw(variable(k))
    names = sorted(ext)
    texts, markers = [], []
    for _ in range(draw(st.integers(1, 4))):
        text = ''
        for _ in range(draw(st.integers(1, 3))):
            ident = draw(st.one_of(st.sampled_from(names), st.sampled_from(pool)))
            if draw(st.integers(0, 3)) == 0:
                ident = ident.capitalize()
            deps = [draw(st.one_of(st.sampled_from(names), gen.props(2).map(','.join), st.sampled_from(['рд', 'мн', 'a'])))
                    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4])))]
            if len(deps) > 1 and draw(st.integers(0, 2)) == 0:          # the same one again
                deps.append(draw(st.sampled_from(deps[:-1])))
            marker = '[' + '|'.join([ident] + deps) + ']'
            if markers and draw(st.integers(0, 3)) == 0:
                marker = draw(st.sampled_from(markers))
            markers.append(marker)
            text += marker + draw(st.sampled_from(['', ' ', '%']))
        texts.append(text)
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        kind = draw(st.sampled_from(['add', 'add', 'parse', 'render', 'render', 'reload', 'form', 'get', 'words', 'int', 'fill', 'str', 'has',
                                     'trait', 'new', 'forms', 'set', 'set', 'edit'] + ['flood'] * draw(st.sampled_from([0] * 19 + [1]))))
        if kind == 'add':
            ops.append([kind, draw(st.integers(0, 1)), draw(st.integers(0, k - 1))])
        elif kind == 'parse':
            ops.append([kind, draw(st.integers(0, 2)), draw(st.integers(0, len(texts) - 1)),
                        draw(st.one_of(st.just(names), st.lists(st.sampled_from(names), unique=True).map(sorted)))])
        elif kind == 'new':
            ops.append([kind, draw(st.integers(0, 1)), draw(st.lists(st.integers(0, k - 1), max_size=4))])
        elif kind == 'render':
            ops.append([kind, draw(st.integers(0, 2)), draw(st.integers(0, 1)), draw(st.integers(0, len(names)))])
        elif kind == 'reload':
            ops.append([kind, draw(st.integers(0, 2))])
        elif kind == 'form':
            ops.append([kind, draw(st.integers(0, k - 1)), draw(gen.props(3))])
        elif kind in ('get', 'has'):
            ops.append([kind, draw(st.integers(0, 1)), draw(st.sampled_from(pool))])
        elif kind == 'words':
            ops.append([kind, draw(st.integers(0, 1))])
        elif kind == 'set':
            ops.append([kind, draw(st.sampled_from(names)), draw(variable(k))])
        elif kind == 'flood':
            ops.append([kind, draw(st.sampled_from([40, 130, 300]))])
        elif kind == 'int':
            ops.append([kind, draw(gen.small_numbers())])
        elif kind == 'edit':
            ops.append([kind, draw(st.integers(0, k - 1)), draw(st.sampled_from(['', *pool]))])
        elif kind in ('fill', 'str', 'forms'):
            ops.append([kind, draw(st.integers(0, k - 1))])
        else:
            ops.append([kind, draw(st.sampled_from(names))])
    clash = [name for name in names if name in ('рд', 'мн')]
    if clash and draw(st.booleans()):           # one text parsed with and without a variable named as a property
        texts.append('[%s|%s]' % (draw(st.sampled_from(pool + names)), draw(st.sampled_from(clash))))
        rest = [name for name in names if name not in clash]
        i, j = draw(st.permutations(range(2)))
        pair = [['parse', i, len(texts) - 1, names], ['parse', j, len(texts) - 1, rest]]
        at = draw(st.integers(0, len(ops)))
        ops[at:at] = draw(st.permutations(pair)) + [['add', 0, draw(st.integers(0, k - 1))]]
    then = {name: draw(variable(k)) for name in draw(st.lists(st.sampled_from(names), unique=True))}
    return {'words': specs, 'ext': ext, 'texts': texts, 'ops': ops, 'then': then}


def strategy(tier):
    return strategy_()


class World(object):
    def __init__(self, case):
        self.m = [expand(w) for w in case['words']]
        shared = {}
        self.w = []
        for m in self.m:                                        # equal property sets are one object
            key = tuple(sorted(m['p'].items()))
            if key not in shared:
                shared[key] = P(m['p'])
            self.w.append(words.Word(type=build(m).type, forms=list(m['f']), properties=shared[key]))
        self.ext, self.rext = {}, {}
        self.left = []
        for name, spec in case['ext'].items():
            self.set(name, spec)
        self.texts = case['texts']
        self.d = [dictionary.Dictionary(), dictionary.Dictionary()]
        self.md = [[], []]
        self.t = [templates.Template() for _ in range(3)]
        self.mt = [None, None, None]
        self.origin = [None, None, None]
        self.kept = []
        self.seen = set()
        self.changed = self.again = False

    def set(self, name, spec):
        if name in self.ext:
            self.left.append((self.ext[name], self.rext[name]))
        if 'n' in spec:
            self.ext[name] = external(spec)
            self.rext[name] = constructors.construct_integer(spec['n'])
            return
        m, w = self.m[spec['i']], self.w[spec['i']]
        self.ext[name] = {'word': m, 'props': M.pset(spec['p'], m['p'])}
        if 'fp' in spec:
            self.ext[name]['fprops'] = M.pset(spec['fp'], m['p'])
            self.rext[name] = words.WordForm(w, properties=P(spec['p']), form_properties=P(spec['fp']))
        else:
            self.rext[name] = words.WordForm(w, P(spec['p']))

    def entries(self, d):
        return M.dictionary_entries(self.md[d])

    def options(self, t, d, names):
        ext = {k: self.ext[k] for k in names}
        return M.render(self.mt[t], ext, self.entries(d), self.md[d])

    def mark(self, what):
        if what in self.seen and self.changed:
            self.again = True
        self.seen.add(what)

    def render(self, t, d, drop):
        if self.mt[t] is None:
            return
        names = sorted(self.ext)
        if drop < len(names):
            names = [x for i, x in enumerate(names) if i != drop]
        rext = {k: self.rext[k] for k in names}
        same(set(self.t[t].get_undictionaried_words(externals=rext, dictionary=self.d[d])),
             M.undictionaried(self.mt[t], names, self.entries(d)), 'unknown words of template %d' % t)
        self.mark(('render', t))
        try:
            expected = self.options(t, d, names)
        except M.RenderError as e:
            expect_error(e.kinds, lambda: self.t[t].substitute(externals=rext, dictionary=self.d[d]), 'template %d' % t)
            return
        got = self.t[t].substitute(externals=rext, dictionary=self.d[d])
        check(got in expected, 'template %d with dictionary %d: %r, expected %r', t, d, got, expected[:3])
        same(sorted(rext), names, 'variables')

    def apply(self, op):
        kind = op[0]
        if kind == 'add':
            self.d[op[1]].add_word(self.w[op[2]])
            self.md[op[1]].append(self.m[op[2]])
            self.changed = True
        elif kind == 'new':
            given = [self.w[i] for i in op[2]]
            self.d[op[1]] = dictionary.Dictionary(words=given)
            self.md[op[1]] = [self.m[i] for i in op[2]]
            same(len(given), len(op[2]), 'the list of words given to a dictionary')
            self.changed = True
        elif kind == 'forms':
            m = self.m[op[1]]
            for i, wf in enumerate(self.w[op[1]].all_forms()):
                props = M.pset(M.slot_props(m['t'], i), m['p'])
                if i % 7 == len(self.kept) % 7:
                    self.kept.append((wf, M.spell(m, props), (word_key(m), props)))
        elif kind == 'parse':
            text, names = self.texts[op[2]], op[3]
            try:
                parsed = M.parse(text, set(names))
            except M.ParseError as e:
                expect_error(e.kinds, lambda: self.t[op[1]].parse(text, externals=list(names)), text)
                return
            self.t[op[1]].parse(text, externals=list(names))
            self.mt[op[1]] = parsed
            self.origin[op[1]] = (text, list(names))
            self.changed = True
        elif kind == 'render':
            self.render(op[1], op[2], op[3])
        elif kind == 'reload':
            if self.mt[op[1]] is not None:
                saved = json.loads(json.dumps(self.t[op[1]].serialize()))
                text = json.dumps(saved, sort_keys=True)
                templates.Template.deserialize(saved)           # saved data can be loaded many times
                self.t[op[1]] = templates.Template.deserialize(saved)
                same(json.dumps(saved, sort_keys=True, default=repr), text, 'saved template after loading it')
        elif kind == 'form':
            same(self.w[op[1]].form(P(op[2])), M.word_form(self.m[op[1]], M.pset(op[2])), 'form of word %d' % op[1])
            self.mark(('form', op[1]))
        elif kind == 'has':
            same(bool(self.d[op[1]].has_word(op[2])), op[2] in self.entries(op[1]), 'has_word(%r)' % op[2])
            self.mark((kind, op[1], op[2]))
        elif kind == 'get':
            entries = self.entries(op[1])
            self.mark((kind, op[1], op[2]))
            if op[2] not in entries:
                expect_error({('NoWordsFoundError', op[2])}, lambda: self.d[op[1]].get_word(op[2]), 'get_word')
                return
            wf = self.d[op[1]].get_word(op[2])
            got = (word_key(read_word(wf.word)), readP(wf.properties))
            check(got in [(word_key(self.md[op[1]][wi]), p) for wi, i, p in entries[op[2]]], 'get_word(%r) is %r', op[2], got[1])
            self.kept.append((wf, op[2], got))
        elif kind == 'words':
            check_dictionary(self.d[op[1]], self.md[op[1]], [], 'dictionary %d' % op[1])
        elif kind == 'int':
            wf = constructors.construct_integer(op[1])
            same((wf.form, readP(wf.properties)), (str(op[1]), M.integer_props(op[1])), 'number')
            self.kept.append((wf, str(op[1]), (word_key(M.integer_word(op[1])), M.integer_props(op[1]))))
        elif kind == 'flood':
            self.flood(op[1])
        elif kind == 'fill':
            other = words.Word.deserialize(json.loads(json.dumps(self.w[op[1]].serialize())))
            other.autofill_missed_forms()
            options = M.autofill_options(self.m[op[1]]['t'], self.m[op[1]]['f'])
            check(all(f in o for f, o in zip(other.forms, options)), 'filled forms %r', other.forms)
        elif kind == 'str':
            w = self.w[op[1]]
            printed = str(w.properties)
            same(sorted(v for v in printed[1:-1].split(',') if v), sorted(self.m[op[1]]['p'].values()), 'printed properties')
            w.properties.clone(P(['мн', 'рд', 'загл', 'сзв', 'жр']))
        elif kind == 'edit':
            self.edit(self.m[op[1]], op[2])
        elif kind == 'trait':
            self.traits(op[1], self.ext[op[1]], self.rext[op[1]])
        elif kind == 'set':
            self.set(op[1], op[2])
            self.changed = True

    def edit(self, m, text):
        """Words with the same data have lists of forms of their own."""
        saved = json.dumps(build(m).serialize())
        made = [build(m), build(m), words.Word.deserialize(json.loads(saved)), words.Word.deserialize(json.loads(saved))]
        for i in (0, 2):
            made[i].forms[len(text) % len(m['f'])] = text + 'я'
            made[i].forms[-1] = text
            made[i].autofill_missed_forms()
        for i in (1, 3):
            same(read_word(made[i]), m, 'word after an equal one was changed')

    def flood(self, n):
        """Many other objects; what is remembered about earlier ones has to stay right."""
        d = dictionary.Dictionary()
        for i in range(n):
            text = 'прочее%dж' % i
            w = words.Word(type=T('NOUN'), forms=[text + str(k) for k in range(18)])
            same(w.form(P(['рд', 'мн'])), text + '7', 'form of an other word')
            d.add_word(w)
            wf = constructors.construct_integer(20000 + i * 7)
            t = templates.Template()
            t.parse('[%s|n%d|%s]' % (text + '7', i, ['дт', 'пр', 'тв'][i % 3]), externals=['n%d' % i])
            expected = M.word_form({'t': 'NOUN', 'f': w.forms, 'p': {}},
                                   M.depend({'t': 'NOUN', 'f': w.forms, 'p': {}},
                                            M.pset(['рд', 'мн'], M.integer_props(20000 + i * 7), [['дт', 'пр', 'тв'][i % 3]]),
                                            {'word': M.integer_word(20000 + i * 7), 'props': M.integer_props(20000 + i * 7)}))
            same(t.substitute({'n%d' % i: wf}, d), expected, 'an other template')

    def traits(self, name, m, wf):
        text = M.spell(m['word'], m.get('fprops', m['props']))
        same(wf.form, text, 'form of %s' % name)
        same((wf.word.number_of_syllables, bool(wf.word.has_fluent_vowel), bool(wf.starts_with_consonant_cluster)),
             (M.syllables(m['word']), M.fluent_vowel(m['word']), M.consonant_cluster(text)), 'traits of %s' % name)

    def everything(self):
        for m, w in zip(self.m, self.w):
            same(read_word(w), m, 'a word')
        for name, m, wf in [(name, self.ext[name], self.rext[name]) for name in self.ext] + [('a former variable',) + pair for pair in self.left]:
            same(readP(wf.properties), m['props'], 'properties of %s' % name)
            same(readP(wf.form_properties), m.get('fprops', m['props']), 'form properties of %s' % name)
            same(word_key(read_word(wf.word)), word_key(m['word']), 'word of %s' % name)
            self.traits(name, m, wf)
        for wf, text, got in self.kept:
            same((wf.form, (word_key(read_word(wf.word)), readP(wf.properties))), (text, got), 'a form got before')
        for t in range(3):
            for d in range(2):
                self.render(t, d, 99)
            if self.mt[t] is not None:
                fresh = templates.Template()
                fresh.parse(self.origin[t][0], externals=list(self.origin[t][1]))
                expected = json.dumps(fresh.serialize(), sort_keys=True)
                once = self.t[t].serialize()
                check(self.t[t] == fresh, 'template %d is not equal to a fresh one', t)
                same(json.dumps(once, sort_keys=True), expected, 'saved template %d' % t)
                check(self.t[t] == templates.Template.deserialize(once), 'template %d after saving', t)
        for d in range(2):
            check_dictionary(self.d[d], self.md[d], [], 'dictionary %d' % d)


def run_case(case):
    world = World(case)
    for i, op in enumerate(case['ops']):
        world.apply(op)
    world.everything()
    for name, spec in sorted(case.get('then', {}).items()):     # other values of the same variables
        world.set(name, spec)
    world.everything()
    world.everything()
    return world.again or world.changed and any(op[0] == 'render' for op in case['ops']), sorted({'op ' + op[0] for op in case['ops']})
