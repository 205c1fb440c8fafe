# -*- coding: utf-8 -*-
"""Cuts a call short: KeyboardInterrupt comes up at the k-th line or call inside of utg, as a signal would make it."""
import dis
import os
import sys

_WITH = {}


def _with_lines(code):
    """Lines of 'with' statements: the interpreter itself keeps interrupts away between taking and guarding."""
    if code not in _WITH:
        lines = set()
        line = code.co_firstlineno
        for ins in dis.get_instructions(code):
            if ins.starts_line is not None:
                line = ins.starts_line if not isinstance(ins.starts_line, bool) else ins.line_number
            if ins.opname in ('BEFORE_WITH', 'BEFORE_ASYNC_WITH', 'SETUP_WITH'):
                lines.add(line)
        _WITH[code] = lines
    return _WITH[code]


class Cut(object):
    def __init__(self, folder, place):
        self.folder = folder + os.sep
        self.place = place              # 0: never
        self.count = 0
        self.done = False

    def step(self, frame):
        self.count += 1
        if self.place and self.count >= self.place and not self.done and frame.f_lineno not in _with_lines(frame.f_code):
            self.done = True
            raise KeyboardInterrupt()

    def local(self, frame, event, arg):
        if event == 'line':
            self.step(frame)
        return self.local

    def enter(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.folder):
            return None
        self.step(frame)
        return self.local

    def run(self, fn):
        """-> ('value', x), ('error', e) or None when cut"""
        old = sys.gettrace()
        try:
            sys.settrace(self.enter)
            try:
                return ('value', fn())
            finally:
                sys.settrace(old)
        except KeyboardInterrupt:
            return None
        except Exception as e:
            return ('error', e)
