# -*- coding: utf-8 -*-
"""Runs functions in threads of which one at a time goes on, under a given schedule.

A thread is traced inside of the files of utg; after every so many of its bytecode instructions, as the schedule says,
the next thread goes on.  The same schedule gives the same interleaving.  A thread that waits for something another
one holds (a lock) is noticed by the lack of progress, then the next one goes on."""
import os
import sys
import threading
import time

STALL_S = 0.25          # no step for so long: the thread is taken to wait for another one (or is just slow, which is fine)
DEADLOCK_S = 90         # nobody makes a step


class Stopped(BaseException):
    pass


class Turns(object):
    def __init__(self, folder, jobs, schedule, limit=400):
        self.folder = folder + os.sep
        self.jobs = jobs
        self.schedule = schedule or [1000]
        self.limit = limit              # after so many switches, long turns
        self.cond = threading.Condition()
        self.turn = 0
        self.alive = set(range(len(jobs)))
        self.stalled = set()            # threads that seem to wait for another one: no turns till they make a step
        self.left = self.schedule[0]
        self.switches = 0
        self.steps = 0
        self.count = [0] * len(jobs)
        self.moved = time.monotonic()
        self.stop = False
        self.results = [None] * len(jobs)

    # -- called with self.cond held
    def give(self):
        self.switches += 1
        self.left = self.schedule[self.switches % len(self.schedule)] if self.switches < self.limit else 5000
        self.moved = time.monotonic()
        ready = self.alive - self.stalled or self.alive
        for k in range(1, len(self.jobs) + 1):
            i = (self.turn + k) % len(self.jobs)
            if i in ready:
                self.turn = i
                break
        self.cond.notify_all()

    def wait(self, me):
        while self.turn != me:
            if self.stop:
                raise Stopped()
            before = self.steps
            if not self.cond.wait(STALL_S) and self.turn != me and self.steps == before \
                    and time.monotonic() - self.moved > STALL_S:
                self.stalled.add(self.turn)
                self.give()

    def tick(self, me):
        if self.stop:
            raise Stopped()
        self.steps += 1
        self.count[me] += 1
        self.stalled.discard(me)
        if self.turn == me:
            self.left -= 1
            if self.left > 0:
                return
        with self.cond:
            if self.turn == me:
                self.give()
            self.wait(me)
            self.moved = time.monotonic()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == 'opcode':
                self.tick(me)
            return local

        def enter(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.folder):
                frame.f_trace_opcodes = True
                return local
            return None
        return enter

    def work(self, me):
        try:
            with self.cond:
                self.wait(me)
            sys.settrace(self.tracer(me))
            try:
                self.results[me] = ('value', self.jobs[me]())
            except Exception as e:
                self.results[me] = ('error', e)
            finally:
                sys.settrace(None)
        except Stopped:
            pass
        finally:
            with self.cond:
                self.alive.discard(me)
                if self.turn == me:
                    self.give()

    def run(self):
        """-> list of ('value', x) or ('error', exception); None for a thread without an answer"""
        threads = [threading.Thread(target=self.work, args=(i,), daemon=True) for i in range(len(self.jobs))]
        steps, moved = -1, time.monotonic()
        try:
            for t in threads:
                t.start()
            for t in threads:
                while t.is_alive():
                    t.join(0.5)
                    if steps != self.steps:
                        steps, moved = self.steps, time.monotonic()
                    elif time.monotonic() - moved > DEADLOCK_S:
                        return self.results
            return self.results
        finally:
            self.stop = True
