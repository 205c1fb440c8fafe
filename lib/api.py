# -*- coding: utf-8 -*-
"""The only place that touches the code under test.  Uses its public API only."""
import os
import sys
import warnings

REPO = os.path.realpath(os.environ.get('UTG_REPO', '/repo'))
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
for _site in ('/opt/venv/lib/python3.12/site-packages',):
    if _site not in sys.path:
        sys.path.append(_site)          # the 'rels' dependency of utg
warnings.simplefilter('ignore')

from utg import relations as r          # noqa: E402
from utg import words                   # noqa: E402
from utg import data                    # noqa: E402
from utg import dictionary              # noqa: E402
from utg import templates               # noqa: E402
from utg import constructors            # noqa: E402
from utg import lexicon                 # noqa: E402
from utg import logic                   # noqa: E402
from utg import exceptions              # noqa: E402

import utg as _utg                      # noqa: E402
assert os.path.realpath(_utg.__file__).startswith(REPO + os.sep), _utg.__file__

import model as M                       # noqa: E402


class Violation(Exception):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, expected, what):
    if got != expected:
        raise Violation('%s: got %r, expected %r' % (what, got, expected))


# ---------------------------------------------------------------- verbose ids <-> utg records

def R(rel):
    return getattr(r, sys.intern(rel))           # not one more name in the cache of attributes


def T(name):
    return getattr(r.WORD_TYPE, sys.intern(name))


def rec(v):
    rel, name, _ = M.VERBOSE[v]
    return getattr(getattr(r, rel), name)


def unrec(record, rel):
    return None if record is None else M.BY_NAME[(rel, record.name)]


_VERBOSE_OF = {id(rec(v)): v for v in M.VERBOSE}


def verbose(record):
    """Any record -> verbose id."""
    return None if record is None else _VERBOSE_OF.get(id(record), repr(record))


def P(props):
    if isinstance(props, dict):
        props = list(props.values())
    return words.Properties(*[rec(v) for v in props])


def readP(p):
    return {rel: unrec(p.get(R(rel)), rel) for rel in M.RELATIONS if p.is_specified(R(rel))}


# ---------------------------------------------------------------- words

_LETTERS = 'бгджзклнпт'


def slot_code(i):
    return _LETTERS[i // 100] + 'а' + _LETTERS[i // 10 % 10] + 'у' + _LETTERS[i % 10]


def expand(spec):
    """JSON spec of a word -> model word.

    {'t': type, 'p': [verbose ids]} plus either 'f': [all forms] or 'k': prefix (distinct form per slot),
    optional 'h': slots left unspecified, 'o': {slot: text}, 'y': slots with equal texts - ['mod', k], ['div', k] or
    ['pairs', [[slot, the slot it repeats], ...]]."""
    t = spec['t']
    n = M.COUNT[t]
    if 'f' in spec:
        forms = list(spec['f'])
    else:
        k = spec.get('k', '')
        same_as = list(range(n))
        if spec.get('y') is not None:
            how, arg = spec['y']
            same_as = [i % arg if how == 'mod' else i // arg for i in range(n)] if how != 'pairs' else same_as
            for i, j in (arg if how == 'pairs' else ()):
                same_as[i % n] = same_as[j % n]
        forms = [k if n == 1 else k + slot_code(same_as[i]) for i in range(n)]
    for i in spec.get('h', ()):
        forms[i % n] = ''
    for i, text in sorted(spec.get('o', {}).items()):
        forms[int(i) % n] = text
    return {'t': t, 'f': forms, 'p': M.pset(spec.get('p', []))}


def build(mword):
    if mword['p']:
        return words.Word(type=T(mword['t']), forms=list(mword['f']), properties=P(mword['p']))
    return words.Word(type=T(mword['t']), forms=list(mword['f']))


def read_word(word):
    return {'t': word.type.name, 'f': list(word.forms), 'p': readP(word.properties)}


def word_key(mword):
    return (mword['t'], tuple(mword['f']), tuple(sorted(mword['p'].items())))


def external(spec):
    """{'n': int} | {'w': word spec, 'p': [..] or absent, 'fp': [..] or absent} -> model external"""
    if 'n' in spec:
        w = M.integer_word(spec['n'])
        return {'word': w, 'props': dict(w['p']), 'n': spec['n']}
    w = expand(spec['w'])
    out = {'word': w, 'props': M.pset(spec.get('p') or [], w['p'])}
    if spec.get('fp') is not None:
        out['fprops'] = M.pset(spec['fp'], w['p'])
    return out


def build_external(spec, mext):
    if 'n' in spec:
        return constructors.construct_integer(spec['n'])
    kwargs = {}
    if spec.get('p') is not None:
        kwargs['properties'] = P(spec['p'])
    if spec.get('fp') is not None:
        kwargs['form_properties'] = P(spec['fp'])
    return words.WordForm(build(mext['word']), **kwargs)


def error_name(exc):
    return type(exc).__name__


DOCUMENTED = ('UnknownVerboseIdError', 'WrongDependencyFormatError', 'ExternalDependecyNotFoundError',
              'NoWordsFoundError', 'UnknownLexiconKeyError', 'NoTemplatesWithSpecifiedRestrictions',
              'WrongFormsNumberError')


FAMILY = {name: 'LexiconError' for name in ('UnknownLexiconKeyError', 'NoTemplatesWithSpecifiedRestrictions')}


def names(error, culprit):
    """The error names the culprit, and not something larger that contains it."""
    told = getattr(error, 'arguments', None)
    if isinstance(told, dict) and told:
        return culprit in str(error) and any(str(value).strip() == culprit.strip() for value in told.values())
    return culprit in str(error)


def expect_error(kinds, fn, what):
    """kinds: acceptable (error name, culprit); fn must raise one of them, naming the culprit."""
    try:
        value = fn()
    except exceptions.UtgError as e:
        name = error_name(e)
        ok = any(name == k and (c is None or names(e, str(c))) for k, c in kinds)
        check(ok, '%s: raised %s(%s), expected one of %r', what, name, e, sorted(kinds, key=repr))
        check(isinstance(e, getattr(exceptions, FAMILY.get(name, 'WordsError'))) and isinstance(e, Exception),
              '%s: %s is not one of the errors of its family', what, name)
        return e
    raise Violation('%s: no error, returned %r, expected one of %r' % (what, value, sorted(kinds, key=repr)))


def entries_of(mwords):
    return M.dictionary_entries(mwords)
