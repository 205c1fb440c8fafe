# -*- coding: utf-8 -*-
"""Rendering follows the documented precedence of properties."""
import fast as st

import gen
import model as M
from api import expand
from scene import Scene

ID = 'C11'
EXAMPLES = (6000, 48000)
RULE = ('Dictionary of 1-4 words of any types, 1-4 variables (words of any type with properties of their own, and numbers), a template of '
        '1-4 markers naming variables or any forms of the dictionary words, each with 0-4 (sometimes up to 18) dependencies in any order: variables, '
        'lists of property ids. Non-trivial: a marker with at least two dependencies, one of them a variable.')


@st.composite
def varied(draw, deps, names):
    """Dependencies that differ a little from the given ones."""
    deps = list(deps)
    if not deps:
        return [draw(gen.prop())]
    at = draw(st.integers(0, len(deps) - 1))
    kind = draw(st.integers(0, 5))
    if kind == 0:
        del deps[at]
    elif kind == 1:
        deps = draw(st.permutations(deps))
    elif kind == 2:
        deps.insert(at, draw(st.one_of(st.sampled_from(names), gen.prop())))
    elif kind == 3 or deps[at] in names:
        deps[at] = draw(st.one_of(st.sampled_from(names), gen.prop()))
    else:
        values = [v.strip() for v in deps[at].split(',')]
        i = draw(st.integers(0, len(values) - 1))
        if values[i] in M.VERBOSE and draw(st.booleans()):
            values[i] = draw(st.sampled_from(M.VALUES[M.REL_OF[values[i]]]))
        else:
            values.insert(i + draw(st.integers(0, 1)), draw(gen.prop()))
        deps[at] = ','.join(values)
    return deps


@st.composite
def scene(draw, errors=False):
    many = draw(st.sampled_from([''] * 19 + ['words', 'names', 'markers', 'deps', 'deps', 'deps']))
    words = [draw(gen.word_spec(text=draw(st.sampled_from([gen.form_text(4), gen.phonetic_text()]))))
             for _ in range(draw(st.integers(1, 12 if many == 'words' else 4)))]
    forms = []
    for w in words:
        f = [x for x in expand(w)['f'] if gen.usable_id(x)]
        if f:
            forms.append(f)
    names = draw(st.lists(st.one_of(st.sampled_from(['hero', 'npc', 'n', 'mob', 'coins', 'герой']), st.sampled_from(sum(forms, []) or ['npc']), gen.word_text(4)),
                          min_size=1, max_size=12 if many == 'names' else 4, unique=True))
    ext = {k: draw(gen.integer_spec() if k in ('n', 'coins') else gen.external_spec(text=gen.word_text(4))) for k in names}
    fixed = sorted({M.REL_OF[v] for w in words + [e['w'] for e in ext.values() if 'w' in e] for v in w['p']})
    numbers = [k for k in names if 'n' in ext[k]]
    markers, made = [], []
    for _ in range(draw(st.integers(1, 20 if many == 'markers' else 4))):
        if made and draw(st.integers(0, 3)) == 0:              # nearly the same marker once more
            ident, deps = draw(st.sampled_from(made))
            markers.append('[' + '|'.join([draw(st.sampled_from([ident, ident, ident.capitalize()]))] + draw(varied(deps, names))) + ']')
            continue
        which = draw(st.integers(0, 9 if errors else 7))
        if which <= 2 or not forms:
            ident = draw(st.sampled_from(names))
        elif which <= 7:
            ident = draw(st.sampled_from(draw(st.sampled_from(forms))))
        else:
            ident = draw(st.one_of(gen.word_text(), st.sampled_from(['', ' ', '\t', 'нетслова'])))
        if draw(st.integers(0, 3)) == 0:
            ident = ident[:1].upper() + ident[1:]
        deps = []
        if fixed and numbers and draw(st.integers(0, 4)) == 0:  # a number governs a word asked for against its own properties
            against = draw(st.lists(st.sampled_from([v for rel in fixed for v in M.VALUES[rel]]), min_size=1, max_size=2))
            deps = draw(st.permutations([draw(st.sampled_from(numbers)), ','.join(against + [draw(st.sampled_from(['вн', 'вн', 'им', 'рд', 'дт']))])]))
        for _ in range(draw(st.integers(5, 18)) if many == 'deps' else draw(st.integers(0, 2 if deps else 4))):
            kind = draw(st.integers(0, 9 if errors else 7))
            if fixed and draw(st.integers(0, 4)) == 0:         # other values of what words fix themselves
                deps.append(','.join(draw(st.lists(st.sampled_from([v for rel in fixed for v in M.VALUES[rel]] + M.VALUES['CASE']),
                                                   min_size=1, max_size=3))))
            elif kind <= 3:
                deps.append(draw(st.sampled_from(names)))
            elif kind <= 7:
                deps.append(','.join(draw(gen.props(4))))
            else:
                deps.append(draw(st.one_of(gen.word_text(), st.sampled_from(['', ' ', ',', 'рд,,вн', ' мн , вн ', 'херо', 'рд вн']))))
        made.append((ident, deps))
        if draw(st.integers(0, 4)) == 0:                       # letter case and spaces around do not matter
            pads = st.sampled_from(['', '', ' ', '  ', '\t', '\n', '\u00a0'])
            markers.append('[' + '|'.join(draw(pads) + draw(st.sampled_from([d, d, d.upper(), d.capitalize()])) + draw(pads) if j else draw(pads) + d + draw(pads)
                                          for j, d in enumerate([ident] + deps)) + ']')
            continue
        markers.append('[' + '|'.join([ident] + deps) + ']')
    sep = draw(st.sampled_from([' ', ', ', '', '. ']))
    return {'words': words, 'ext': ext, 'text': sep.join(markers)}


def strategy(tier):
    return scene()


def run_case(case):
    s = Scene(case)
    t, parsed = s.parse(case['text'])
    if t is None:
        return False, ['parse error']
    got = s.render(t, parsed, case['text'])
    rich, labels = False, []
    for ident, deps in parsed['subs']:
        if len(deps) > 1 and any(k == 'ext' for k, _ in deps):
            rich = True
        for k, d in deps:
            labels.append('dependency ' + (k if k == 'props' else s.ext[d]['word']['t'] if d in s.ext else 'absent'))
        if ident in s.ext:
            labels.append('variable ' + s.ext[ident]['word']['t'])
        elif ident in s.entries:
            labels.append('word ' + s.words[s.entries[ident][0][0]]['t'])
    if got is None:
        labels.append('render error')
    return rich and got is not None, sorted(set(labels))
