# -*- coding: utf-8 -*-
"""Text of a template around the markers, and inserted values, come through verbatim."""
import fast as st

import gen
import model as M
from api import same, templates
from scene import Scene

ID = 'C10'
EXAMPLES = (9000, 72000)
RULE = ('Templates made of arbitrary text (percent signs, brackets, bars, line ends, any Unicode) and markers with variables, whose '
        'values are arbitrary too (format directives, markers); the template object may be used for other texts before. '
        'Non-trivial: at least one marker together with % or a bracket outside of markers or inside of a value.')


@st.composite
def strategy_(draw):
    names = draw(st.lists(st.sampled_from(['a', 'hero', 'герой', 'a%', '%s', '100%', 'x y', 'a%d', '(a', '{}', 'b\\', '$1', "it's"]),
                          min_size=1, max_size=3, unique=True))
    ext = {k: {'w': {'t': 'TEXT', 'f': [draw(gen.any_text(8))]}} for k in names}

    def segment():
        mode = draw(st.integers(0, 4))
        if mode == 0:
            return draw(gen.any_text(10))
        if mode == 1:
            return draw(st.sampled_from(['%', '%s', '%%', '[', ']', '[]', '[[', '%(a)s', '|', '\n', '%d', '[ ', '{0}', '\\1', '\x00', 'и\u0306', 'e\u0301', '\r', '\x0b', '\u2028',
                                         'а' * 250 + '\n', '\n\n', 'б\n' * 40]))
        k = draw(st.sampled_from(names))
        pad = draw(st.sampled_from(['', '', '', ' ']))
        return '[' + pad + k + pad + draw(st.sampled_from(['', '', '|', '|рд', '|' + names[0]])) + ']'
    texts = [''.join(segment() for _ in range(draw(st.integers(0, 6)))) for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3])))]
    return {'ext': ext, 'texts': texts}


def strategy(tier):
    return strategy_()


def enumerate_cases(tier):
    for seg in ['%', '%s', '%%', '[', ']', '[]', '%(a)s', '\n', '\r\n', '{}', '\\', '%%s', '% ', ' %', '[[a]', '[a]]', 'a', '[]]', '[][a]']:
        for value in ['x', '%s', '%', '[a]', '', '\\1', '{}', 'а' * 300, '%%']:
            for text in (seg, seg + '[a]', '[a]' + seg, '[a]' + seg + '[a]', seg + '[a]' + seg + '[A]' + seg, seg * 40 + '[a]'):
                yield {'ext': {'a': {'w': {'t': 'TEXT', 'f': [value]}}}, 'texts': [text]}
    for odd in gen.ODD + ['\r', '\x0b', '\x0c', '\x1d', '\u2029', '\ufffe', 'I\u0307', 'İ', 'ẞ', 'Ǆ']:
        for text in (odd, odd + '[a]', '[a]' + odd, ('а' * 300) + odd + '[a]' + odd, odd * 60 + '[A]'):
            yield {'ext': {'a': {'w': {'t': 'TEXT', 'f': [odd]}}}, 'texts': [text]}
    for case in large_cases():
        yield case


def large_cases():
    ext = {'v%d' % i: {'w': {'t': 'TEXT', 'f': ['<%d>' % i]}} for i in range(30)}
    for n in (9, 10, 11, 26, 27, 50, 99, 100, 101, 127, 128, 129, 255, 256, 257, 600, 1100):
        yield {'ext': ext, 'texts': [''.join('[%s%d]%s' % ('Vv'[i % 2], i * 7 % 30, '-%d' % (i % 13) if i % 3 else '') for i in range(n)), 'a']}
    for n in (255, 256, 1023, 1024, 4096, 65536, 70000):
        yield {'ext': {'v1': {'w': {'t': 'TEXT', 'f': ['б' * n]}}}, 'texts': ['а' * n, 'а' * n + '[v1]' + 'в%' * n + '[V1]', '[%s]' % ('v1|' * 200)]}


def run_case(case):
    scene = Scene(case)
    shared = templates.Template()
    hard = False
    for text in case['texts']:
        t, parsed = scene.parse(text, template=shared)
        if t is None:
            continue
        got = scene.render(t, parsed, text)
        if got is not None and scene.render(t, parsed, text) != got:
            same(None, got, 'second rendering of %r' % text)
        lits, marks = M.scan(text)
        if marks and (any(c in ''.join(lits) for c in '%[]') or any(c in str(case['ext']) for c in '%[')):
            hard = True
        if not marks:
            same(got, text, 'text without markers')
    return hard, ['texts %d' % len(case['texts'])] + (['percent outside'] if '%' in ''.join(case['texts']) else [])
