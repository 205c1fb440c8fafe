# -*- coding: utf-8 -*-
"""Layouts of saved words in older formats, enumerated independently of the tables in utg.migrations."""
import itertools

import model as M

MOODS_6 = ['инф', 'изъяв', 'согл', 'пов']                                    # the conditional mood existed once


def enumerate_layout(schema, vanish, impossible=(), values=M.VALUES):
    seen = {}
    for raw in itertools.product(*[values[rel] for rel in schema]):
        key = []
        for rel, v in zip(schema, raw):
            key.append(None if any(rel in vanish.get(u, ()) for u in key if u) else v)
        key = tuple(key)
        if key not in seen and not any(part <= set(key) for part in impossible):
            seen[key] = len(seen)
    return [dict(zip(schema, key)) for key in seen]


def without(vanish, *drop):
    return {k: v for k, v in vanish.items() if k not in drop}


def _format(**changes):
    out = {}
    for t in M.TYPES:
        schema, vanish = M.SCHEMAS[t], M.VANISH[t]
        if t in changes:
            schema, vanish = changes[t]
        out[t] = enumerate_layout(schema, vanish, M.IMPOSSIBLE.get(t, ()))
    return out


ADJ_6 = ['ADJECTIVE_FORM', 'NUMBER', 'CASE', 'GENDER', 'ANIMALITY', 'GRADE']
ADJ_OLD = ['ADJECTIVE_FORM', 'GRADE', 'NUMBER', 'CASE', 'GENDER', 'ANIMALITY']
PART_OLD = ['PARTICIPLE_FORM', 'TIME', 'NUMBER', 'CASE', 'GENDER', 'ANIMALITY']
PART_VOICE = ['PARTICIPLE_FORM', 'TIME', 'VOICE', 'NUMBER', 'CASE', 'GENDER', 'ANIMALITY']
PRON_OLD = ['NUMBER', 'CASE', 'PERSON', 'GENDER']
VERB_CONDITIONAL = dict(M.VANISH['VERB'], согл=['TIME', 'PERSON'])

FORMATS = {9: _format(),
           8: _format(PRONOUN=(PRON_OLD, M.VANISH['PRONOUN'])),
           7: _format(PRONOUN=(PRON_OLD, M.VANISH['PRONOUN']), ADJECTIVE=(ADJ_OLD, M.VANISH['ADJECTIVE']),
                      PARTICIPLE=(PART_OLD, M.VANISH['PARTICIPLE'])),
           6: _format(PRONOUN=(PRON_OLD, M.VANISH['PRONOUN']),
                      ADJECTIVE=(ADJ_6, without(M.VANISH['ADJECTIVE'], 'сравн')),
                      PARTICIPLE=(PART_VOICE, M.VANISH['PARTICIPLE']),
                      )}
FORMATS[6]['VERB'] = enumerate_layout(M.SCHEMAS['VERB'], VERB_CONDITIONAL, (), dict(M.VALUES, VERB_FORM=MOODS_6))


def donors(t, new, old):
    """For every slot of format `new`: the slots of format `old` that agree with it the most."""
    out = []
    for key in FORMATS[new][t]:
        best, rows = -1, []
        for j, other in enumerate(FORMATS[old][t]):
            score = 0
            for rel, v in key.items():
                if t == 'PRONOUN' and 'PERSON' in other and other['PERSON'] != '3л' and 'PERSON' not in key:
                    score = -2                  # only the forms of the 3rd person survive
                    break
                if other.get(rel) == v:
                    score += 1
            if score > best:
                best, rows = score, [j]
            elif score == best:
                rows.append(j)
        out.append(rows)
    return out
