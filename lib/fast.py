# -*- coding: utf-8 -*-
"""hypothesis.strategies with the small strategies made once (making them anew for every draw costs more than drawing)."""
import functools

from hypothesis.strategies import *     # noqa: F401,F403
from hypothesis import strategies as _st

integers = functools.lru_cache(None)(_st.integers)
booleans = functools.lru_cache(None)(_st.booleans)
_choices = {}


def sampled_from(values):
    try:
        key = (type(values), tuple(values), tuple(type(v) for v in values))
        hash(key)
    except TypeError:
        return _st.sampled_from(values)
    if len(key[1]) > 120:
        return _st.sampled_from(values)
    if key not in _choices:
        if len(_choices) > 5000:
            _choices.clear()
        _choices[key] = _st.sampled_from(list(values))
    return _choices[key]
