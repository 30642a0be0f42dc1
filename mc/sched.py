"""A controlled scheduler: two real threads, one of which runs at any time.

A schedule is a list of segments (thread, number of schedule points); control
changes hands exactly there.  Schedule points are the line (or opcode) events of
the library's own source files, delivered by sys.settrace.

A thread that really blocks (on a lock the other one holds) makes no progress;
after a while the other one is let go on, and from then on both run freely.
"""
import sys
import threading
import time
from .core import REPO

PREFIX = REPO.rstrip('/') + '/datashape/'


class Run(object):
    def __init__(self, fs, segments, opcodes=False):
        self.fs = fs
        self.segs = list(segments)
        self.opcodes = opcodes
        self.at = 0
        self.used = 0
        self.steps = [0] * len(fs)
        self.gates = [threading.Semaphore(0) for _ in fs]
        self.done = [False] * len(fs)
        self.result = [None] * len(fs)
        self.free = False

    def go(self, limit=60):
        ths = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.fs))]
        for th in ths:
            th.start()
        self.gates[self.segs[0][0]].release()
        end = time.time() + limit
        for th in ths:
            th.join(max(0.1, end - time.time()))
        return not any(th.is_alive() for th in ths)

    def _thread(self, i):
        self.gates[i].acquire()
        ev = 'opcode' if self.opcodes else 'line'

        def local(frame, event, arg):
            if event == ev:
                self.point(i)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(PREFIX):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
        if self.opcodes:
            sys._getframe().f_trace_opcodes = True    # before settrace, or there are no such events
        sys.settrace(glob)
        try:
            self.result[i] = self.fs[i]()
        finally:
            sys.settrace(None)
            self.done[i] = True
            for j in range(len(self.fs)):
                if not self.done[j]:
                    self.gates[j].release()
                    break

    def point(self, i):
        self.steps[i] += 1
        if self.free:
            return
        n = self.segs[self.at][1]
        if n is None:
            return
        if self.used < n:
            self.used += 1
            return
        # control passes on before this point is executed
        self.at += 1
        self.used = 1
        j = self.segs[self.at][0]
        if j == i:
            return
        if self.done[j]:
            return
        self.gates[j].release()
        seen = -1
        while not self.gates[i].acquire(timeout=0.5):
            if self.steps[j] == seen and not self.done[j]:
                self.free = True          # the other one waits for something of mine
                return
            seen = self.steps[j]
