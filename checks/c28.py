# -*- coding: utf-8 -*-
"""Calls cost in proportion to what they are given, whatever was done before."""
import gc
import json
import os
import select
import signal
import sys
import time

import fast as st

import c25
import gen
import model as M
from api import (P, R, Violation, build, build_external, constructors, dictionary, exceptions, expand, external, lexicon, templates, words)

ID = 'C28'
EXAMPLES = (60, 480)
RULE = ('A generated call (lookup, adding, rendering, parsing, phrases, numbers, property sets, saving and loading) is made with few and with thousands of '
        'words, keys, variables or earlier calls around it: it must not cost more; or with an input 16 times larger: it must not cost over 16 times '
        'more, with allowance. Cost: branches, jumps and calls executed by the interpreter (exact), and processor time for loops inside of the '
        'interpreter (the least of several measurements, far over the allowance). Non-trivial: the larger side takes at least 500 steps, or at '
        'least 1000 things are around.')
ASSUMPTIONS = ['CPython 3.12, which reports its branches, jumps and calls',
               'a factor of less than 2 in steps (4 in time) over the proportion is not noticed']
CASE_CPU_S = 15

TOOL = 4
FEW, MANY = 60, 960             # for counting steps: 16 times more
SHORT, LONG = 500, 8000         # for measuring time
PIECES = ['[a]', '[A|рд]', '[b|n|мн,дт]', '[кот|n]', '[нет такого]', 'текст ', '%', '%s', ']', '\n', ' ', 'ё', '[b|a|a]']
DEPS = ['рд', 'мн,дт', 'n', 'a', ' ', 'загл', 'b']


def steps(call):
    """Branches, jumps and calls executed."""
    mon = sys.monitoring
    events = mon.events.JUMP | mon.events.BRANCH | mon.events.PY_START | mon.events.PY_RESUME | mon.events.CALL
    n = [0]

    def count(*args):
        n[0] += 1

    mon.use_tool_id(TOOL, 'cost')
    try:
        for event in (mon.events.JUMP, mon.events.BRANCH, mon.events.PY_START, mon.events.PY_RESUME, mon.events.CALL):
            mon.register_callback(TOOL, event, count)
        mon.set_events(TOOL, events)
        try:
            call()
        finally:
            mon.set_events(TOOL, 0)
    finally:
        mon.free_tool_id(TOOL)
    return n[0]


def seconds(call):
    gc.disable()
    try:
        started = time.process_time()
        call()
        return time.process_time() - started
    finally:
        gc.enable()


def repeated(call, times):
    def go():
        for _ in range(times):
            call()
    return go


def attempt(go):
    try:
        return go()
    except exceptions.UtgError:
        return None


# ------------------------------------------------------------------ calls that must not depend on what is around

def filler(case, n):
    """Words that have nothing in common with those asked for."""
    t = case['filler']
    k = M.COUNT[t]
    for i in range(n // k):
        yield build({'t': t, 'f': ['%s%d.%d' % (case['salt'], i, j) for j in range(k)], 'p': {}})


class Around(object):
    count = 0

    def __init__(self, case, n):
        self.case, self.n = case, n
        self.words = [build(expand(w)) for w in case['words']]
        self.ext = {name: build_external(s, external(s)) for name, s in case['ext'].items()}
        self.ids = [f for w in self.words for f in w.forms if f][:3] + ['нет такого', 'кот']
        self.text = case['text']

    def template(self):
        t = templates.Template()
        attempt(lambda: t.parse(self.text, externals=list(self.ext)))
        return t

    def dictionary(self):
        return dictionary.Dictionary(words=list(filler(self.case, self.n)) + self.words)

    def lookup(self):
        d = self.dictionary()

        def call():
            for text in self.ids:
                d.has_word(text)
                attempt(lambda: d.get_word(text))
        return call

    def render(self):
        d, t = self.dictionary(), self.template()

        def call():
            t.get_undictionaried_words(externals=self.ext, dictionary=d)
            attempt(lambda: t.substitute(externals=self.ext, dictionary=d))
        return call

    def add(self):
        d = self.dictionary()
        d.add_word(build({'t': 'TEXT', 'f': ['первое'], 'p': {}}))
        rounds = iter(range(10 ** 9))

        def call():
            r = next(rounds)
            for w in self.case['words']:
                m = expand(w)
                d.add_word(build(dict(m, f=['%s%d-%d' % (f, r, i) for i, f in enumerate(m['f'])])))
            for w in self.words:
                d.add_word(w)
        return call

    def keys(self):
        lex = lexicon.Lexicon()
        for i in range(self.n):
            lex.add_template('%s%d' % (self.case['salt'], i), i, restrictions=frozenset([i % 5]))
        for i in range(4):
            lex.add_template('k', i, restrictions=frozenset(range(i)))

        def call():
            lex.has_key('k')
            lex.get_templates('k', frozenset([0, 1]))
            lex.add_template('новый', 1)
            attempt(lambda: lex.get_random_template('нет'))
            lex._data.pop('новый', None) if hasattr(lex, '_data') else None
        return call

    def collected(self):
        lex = lexicon.Lexicon()
        for i in range(4 * self.n):
            lex.add_template('k', i, restrictions=frozenset([i % 5]))

        def call():
            for i in range(10):
                lex.add_template('k', i)
                lex.has_key('k')
        return call

    def parsed(self):
        t = templates.Template()
        for i in range(self.n // 8):
            attempt(lambda: t.parse('%s%d [a|n] [%s|мн]' % (self.case['salt'], i, self.ids[0]), externals=list(self.ext)))

        def call():
            attempt(lambda: t.parse(self.text, externals=list(self.ext)))
            t.serialize()
        return call

    def chain(self):
        p, q = P(self.case['props']), P(['мн', 'дт'])
        for i in range(self.n):
            p = p.clone(q) if i & 1 else p.clone(R('CASE').records[i % 6], q)

        def call():
            p.get(R('CASE')), p.get(R('VOICE')), p.is_specified(R('TIME')), str(p), hash(p), p == p.clone(), p.serialize()
        return call

    def numbers(self):
        n = self.case['number']
        Around.count += 1
        fresh = n + 10 ** 9 * Around.count             # never asked for before
        for i in range(4 * self.n):
            constructors.construct_integer(10 ** 7 + i)

        def call():
            for x in (n, n + 1, -n, 10 ** 6 + n, 17, fresh, fresh + 1, fresh + 2):
                wf = constructors.construct_integer(x)
                wf.form, wf.word.number_of_syllables
        return call

    def forms(self):
        for i in range(self.n // 4):
            for w in self.words:
                wf = words.WordForm(w, P([[v for v in M.VALUES['CASE']][i % 6], M.VALUES['NUMBER'][i % 2]]))
                wf.form, wf.starts_with_consonant_cluster, str(wf)
                w.normal_form(), w.form(P(self.case['props'])), w == self.words[0], hash(wf)

        def call():
            for w in self.words:
                w.form(P(self.case['props'])), w.normal_form(), w.number_of_syllables, w.has_fluent_vowel
                for wf in w.all_forms():
                    wf.form
        return call


AROUND = ('lookup', 'render', 'add', 'keys', 'collected', 'parsed', 'chain', 'numbers', 'forms')


# ------------------------------------------------------------------ calls that may cost in proportion to their input

class Sized(object):
    count = 0

    def __init__(self, case, n):
        Sized.count += 1                        # texts never met before: whether some are remembered must not matter
        self.mark = Sized.count
        self.case, self.n = case, n
        self.around = Around(case, 0)
        self.ext = self.around.ext
        self.d = dictionary.Dictionary(words=self.around.words)

    def repeated(self, pieces):
        return [pieces[i % len(pieces)] for i in range(self.n)]

    def ident(self, i):
        return '%d.%d' % (self.mark, i if self.case['different'] else 0)

    def long_text(self):
        text = ''
        for i, piece in enumerate(self.repeated(self.case['pieces'])):
            text += piece.replace('нет такого', 'нет ' + self.ident(i)).replace('[кот', '[кот' + self.ident(i))
        return self.case['head'] + text + self.case['tail']

    def template(self, text):
        t = templates.Template()
        attempt(lambda: t.parse(text, externals=list(self.ext)))
        return t

    def parse(self):
        text = self.long_text()
        return lambda: self.template(text)

    def render(self):
        t = self.template(self.long_text())
        ext = dict(self.ext)
        d = dictionary.Dictionary(words=self.around.words + [build({'t': 'TEXT', 'f': [s], 'p': {}}) for s in
                                                             ['нет ' + self.ident(i) for i in range(self.n)] + ['кот' + self.ident(i) for i in range(self.n)]])
        return lambda: attempt(lambda: t.substitute(externals=ext, dictionary=d))

    def variables(self):
        """As many variables as markers: each may be looked at once in a call, not once for every marker."""
        text = self.long_text()
        ext = {'%s%d' % (self.case['salt'], i): wf for i, wf in enumerate([list(self.ext.values())[0]] * self.n)}
        ext.update(self.ext)
        t = self.template(text)

        def call():
            attempt(lambda: templates.Template().parse(text, externals=ext))
            t.get_undictionaried_words(externals=ext, dictionary=self.d)
            attempt(lambda: t.substitute(externals=ext, dictionary=self.d))
        return call

    def unknown(self):
        t = self.template(self.long_text())
        return lambda: t.get_undictionaried_words(externals={}, dictionary=self.d)

    def save(self):
        t = self.template(self.long_text())
        return lambda: t.serialize()

    def load(self):
        data = json.dumps(self.template(self.long_text()).serialize())
        data = json.loads(data)
        return lambda: templates.Template.deserialize(data)

    def equal(self):
        text = self.long_text()
        t, u = self.template(text), self.template(text)
        return lambda: (t == u, t != u)

    def marker(self):
        text = '[a|' + '|'.join(self.repeated(self.case['deps'])) + ']'
        return lambda: attempt(lambda: self.template(text).substitute(externals=self.ext, dictionary=self.d))

    def listed(self):
        text = '[a|' + ','.join(self.repeated([x for x in self.case['deps'] if x not in self.ext] or ['рд'])) + ']'
        return lambda: attempt(lambda: self.template(text).substitute(externals=self.ext, dictionary=self.d))

    def props(self):
        given = [R(rel).records[i % 2] for i, rel in enumerate(self.repeated(['CASE', 'NUMBER', 'GENDER', 'TIME']))]
        data = {str(100 + i): 1 for i in range(self.n)}

        def call():
            p = words.Properties(*given)
            p.clone(*given)
            words.Properties.deserialize(data)
        return call

    def letters(self):
        forms = [''.join(self.repeated(list('оснёвЯ'))) + x for x in 'аб']
        forms[0] += ' %d' % self.mark
        w = build({'t': 'PREPOSITION', 'f': forms + ['мы'], 'p': {}})

        def call():
            wf = words.WordForm(w, P(['загл']))
            w.number_of_syllables, w.has_fluent_vowel, wf.form, wf.starts_with_consonant_cluster
        return call

    def dictionary(self):
        made = list(filler(dict(self.case, salt='%s%d.' % (self.case['salt'], self.mark)), self.n * M.COUNT[self.case['filler']]))
        saved = [w.serialize() for w in made]
        return lambda: dictionary.Dictionary(words=[words.Word.deserialize(data) for data in saved])

    def phrases(self):
        def call():
            lex = lexicon.Lexicon()
            for i in range(self.n):
                lex.add_template('k', i, restrictions=frozenset([i % 7, i % 3]))
            asked = frozenset([0, 1, 2, 5])
            lex.get_templates('k', asked)
            lex.get_random_template('k', asked)
            lex.get_random_nearest_template('k', asked)
        return call

    def filled(self):
        def call():
            lex = lexicon.Lexicon()
            for i in range(self.n):
                lex.add_template('k', i)
        return call

    def numbers(self):
        def call():
            for i in range(self.n):
                constructors.construct_integer(self.case['number'] + i * 7 + 10 ** 6 * self.mark)
        return call


SIZED = ('parse', 'render', 'variables', 'unknown', 'save', 'load', 'equal', 'marker', 'listed', 'props', 'letters', 'dictionary', 'phrases', 'filled', 'numbers')
TIMES = {'dictionary': 0.25, 'render': 0.25, 'variables': 0.5, 'phrases': 0.25, 'filled': 5, 'letters': 12}       # other sizes for those that take long or too little


@st.composite
def strategy_(draw):
    case = {'words': [draw(gen.word_spec(text=gen.word_text(4))) for _ in range(draw(st.integers(1, 2)))],
            'ext': {'a': draw(gen.external_spec(text=gen.word_text(4))), 'b': draw(gen.external_spec(text=gen.word_text(4))),
                    'n': draw(gen.integer_spec())},
            'props': draw(gen.props(3)), 'number': abs(draw(gen.small_numbers())), 'salt': 'ж' + draw(st.sampled_from(c25.LETTERS)),
            'filler': draw(st.sampled_from(['TEXT', 'PREPOSITION', 'NOUN', 'VERB']))}
    if draw(st.booleans()):
        case['around'] = draw(st.sampled_from(AROUND))
        case['text'] = ''.join(draw(st.lists(st.sampled_from(PIECES), min_size=1, max_size=5)))
    else:
        case['sized'] = draw(st.sampled_from(SIZED))
        case['text'] = ''
        case['pieces'] = draw(st.lists(st.sampled_from(PIECES), min_size=1, max_size=4))
        case['deps'] = draw(st.lists(st.sampled_from(DEPS), min_size=1, max_size=4))
        case['head'], case['tail'] = draw(st.sampled_from(['', '', '[a', ' ', '%'])), draw(st.sampled_from(['', '[a', '[', '[a|', ' ']))
        case['different'] = draw(st.booleans())
    return case


def strategy(tier):
    return strategy_()


def enumerate_cases(tier):
    base = {'words': [{'t': 'NOUN', 'k': 'сон', 'p': ['но']}, {'t': 'PREPOSITION', 'f': ['в', 'во', 'в'], 'p': []}], 'salt': 'жб', 'props': ['мн', 'дт'],
            'ext': {'a': {'w': {'t': 'NOUN', 'k': 'рот', 'p': ['но']}}, 'b': {'w': {'t': 'ADJECTIVE', 'k': 'злой', 'p': []}}, 'n': {'n': 22}},
            'number': 5, 'text': '[сонбабуг|n] и [B|n|a]%'}
    for t in ('TEXT', 'NOUN'):
        for kind in AROUND:
            yield dict(base, around=kind, filler=t)
    shapes = [(['[b|n|мн,дт]'], '', ''), (['текст '], '', ''), (['текст '], '[a', ''), (['%', '[A|рд]'], '', '[a|'), (['[нет такого]', '[кот|n]'], ' ', ''), (['\n', ' ', ']'], '', '[')]
    for kind in SIZED:
        for i, (pieces, head, tail) in enumerate(shapes):
            if i < 2 or kind in ('parse', 'render', 'variables', 'unknown', 'save', 'load', 'equal'):
                for different in (False, True):
                    yield dict(base, sized=kind, pieces=pieces, deps=[['рд'], ['n', 'мн,дт'], ['a', ' '], ['b', 'n', 'рд']][i % 4], head=head, tail=tail,
                               different=different, filler=('TEXT', 'PREPOSITION')[i % 2])


def around(case, n):
    call = getattr(Around(case, n), case['around'])()
    call()                                              # what is made once is made
    return call


def sized(case, n):
    getattr(Sized(case, 3), case['sized'])()()
    return getattr(Sized(case, n), case['sized'])()


def apart(go):
    """What go returns in a copy of this process: whatever it does, no other measurement comes after it."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:                                            # no timer here: the clock would be rough
            os.close(r)
            try:
                answer = {'value': go()}
            except Violation as e:
                answer = {'violation': str(e)}
            except BaseException as e:
                answer = {'violation': 'unexpected %s: %s' % (type(e).__name__, str(e)[:200])}
            os.write(w, json.dumps(answer).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        while not select.select([f], [], [], 1)[0]:
            with open('/proc/%d/stat' % pid) as stat:
                if sum(map(int, stat.read().rsplit(')', 1)[1].split()[11:13])) > CASE_CPU_S * os.sysconf('SC_CLK_TCK'):
                    os.kill(pid, signal.SIGKILL)
        said = f.read()
    os.waitpid(pid, 0)
    if not said:
        raise Violation('no answer within %d s of processor time' % CASE_CPU_S)
    answer = json.loads(said)
    if 'violation' in answer:
        raise Violation(answer['violation'])
    return answer['value']


def measured(case, small, more):
    """Steps, and the least seconds of several measurements."""
    if 'around' in case:
        counted = steps(around(case, 20 if small else 2 * MANY))
        call = around(case, 20 if small else 6000)
        single = min(seconds(call), seconds(call))
        times = case['times'] if 'times' in case else 1 + min(300, int(0.003 / max(0.00001, single)))
        return counted, min(seconds(repeated(call, times)) for _ in range(more)), times
    counted = steps(sized(case, FEW if small else MANY))
    size = int((SHORT if small else LONG) * TIMES.get(case['sized'], 1))
    return counted, min(seconds(sized(case, size)) for _ in range(more)), 1


def run_case(case):
    kind = case.get('around') or case['sized']
    for more in (2, 5, 9):                              # the machine may be busy: asked again before it counts
        few, a, times = apart(lambda: measured(case, True, more))
        many, b, times = apart(lambda: measured(dict(case, times=times), False, more))
        if 'around' in case:
            allowed, limit, text = 2 * few + 300, 6 * max(a, 0.0005) + 0.001, 'with thousands of things around instead of 20'
        else:
            allowed, limit, text = 16 * 2 * few + 3000, 16 * 4 * max(a, 0.0005) + 0.02, 'for an input 16 times larger'
        if many > allowed:
            raise Violation('%s costs %d steps instead of %d %s' % (kind, many, few, text))
        if b <= limit:
            break
    else:
        raise Violation('%s takes %.4f s instead of %.4f s %s' % (kind, b, a, text))
    return many >= 500 or 'around' in case, [('around: ' if 'around' in case else 'sized: ') + kind]
