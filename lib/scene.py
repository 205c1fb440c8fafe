# -*- coding: utf-8 -*-
"""A scene: dictionary words + variables + one template text; rendered by utg and by the model."""
import collections
import types

import model as M
from api import (Violation, build, build_external, check, dictionary, expand, expect_error, external, same, templates)


CONTAINERS = (list, tuple, set, frozenset, dict.fromkeys, lambda names: dict.fromkeys(names).keys())
MAPPINGS = (dict, dict, types.MappingProxyType, collections.OrderedDict, collections.ChainMap, collections.UserDict,
            lambda d: collections.ChainMap({}, d))


class Scene(object):
    def __init__(self, case):
        self.words = [expand(w) for w in case.get('words', [])]
        self.real_words = [build(w) for w in self.words]
        self.ext = {k: external(s) for k, s in case.get('ext', {}).items()}
        self.real_ext = {k: build_external(s, self.ext[k]) for k, s in case.get('ext', {}).items()}
        self.entries = M.dictionary_entries(self.words)
        self.dictionary = dictionary.Dictionary(words=self.real_words)

    def parse(self, text, names=None, template=None):
        """-> (template or None, parsed or None); checks errors"""
        names = list(self.ext) if names is None else names
        t = templates.Template() if template is None else template
        try:
            parsed = M.parse(text, set(names))
        except M.ParseError as e:
            expect_error(e.kinds, lambda: t.parse(text, externals=CONTAINERS[len(text) % len(CONTAINERS)](names)), 'parsing %r' % text)
            return None, None
        t.parse(text, externals=CONTAINERS[len(text) % len(CONTAINERS)](names))
        return t, parsed

    def render(self, t, parsed, what, ext=None):
        """-> text or None when a documented error is due"""
        mext = self.ext if ext is None else {k: self.ext[k] for k in ext}
        rext = self.real_ext if ext is None else {k: self.real_ext[k] for k in ext}
        rext = MAPPINGS[len(str(what)) % len(MAPPINGS)](rext)
        absent = set(t.get_undictionaried_words(externals=rext, dictionary=self.dictionary))
        same(absent, M.undictionaried(parsed, mext, self.entries), 'words of %r that are not known' % what)
        try:
            expected = M.render(parsed, mext, self.entries, self.words)
        except M.RenderError as e:
            expect_error(e.kinds, lambda: t.substitute(externals=rext, dictionary=self.dictionary),
                         'rendering %r' % what)
            return None
        got = t.substitute(externals=rext, dictionary=self.dictionary)
        if got not in expected:
            raise Violation('rendering %r: got %r, expected %r' % (what, got, expected[:3]))
        return got
