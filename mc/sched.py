"""
Controlled scheduler for two real threads.

Each thread runs under sys.settrace; scheduling points are the line (or shared-memory bytecode) events in the
library's files and in copy.py.  Exactly one thread runs at a time; a schedule says after how many points of the
running thread the other one takes over.  After the last switch the threads run to completion one after the other.
"""
import copy
import dis
import os
import sys
import threading

from .core import REPO, sp

SCOPE = os.path.realpath(os.path.dirname(sp.__file__)) + os.sep
COPY = copy.__file__

# Bytecodes which only touch the frame itself (registers, stack, constants, control flow): they commute with
# everything another thread does, so no scheduling point is needed before them.
LOCAL = {
    'RESUME', 'LOAD_FAST', 'STORE_FAST', 'DELETE_FAST', 'LOAD_FAST_CHECK', 'LOAD_FAST_AND_CLEAR', 'LOAD_CONST', 'RETURN_CONST',
    'POP_TOP', 'PUSH_NULL', 'COPY', 'SWAP', 'NOP', 'CACHE', 'JUMP_FORWARD', 'JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT', 'POP_JUMP_IF_FALSE',
    'POP_JUMP_IF_TRUE', 'POP_JUMP_IF_NONE', 'POP_JUMP_IF_NOT_NONE', 'RETURN_VALUE', 'KW_NAMES', 'BUILD_TUPLE', 'BUILD_LIST', 'BUILD_MAP',
    'BUILD_SET', 'BUILD_STRING', 'BUILD_CONST_KEY_MAP', 'IS_OP', 'END_FOR', 'MAKE_FUNCTION', 'COPY_FREE_VARS', 'MAKE_CELL', 'LOAD_CLOSURE',
    'PUSH_EXC_INFO', 'POP_EXCEPT', 'CHECK_EXC_MATCH', 'RERAISE', 'EXTENDED_ARG', 'UNARY_NOT', 'GET_ITER', 'LIST_APPEND', 'LIST_TO_TUPLE',
    'RETURN_GENERATOR', 'YIELD_VALUE', 'CALL_INTRINSIC_1', 'END_SEND', 'LOAD_ASSERTION_ERROR', 'MAP_ADD', 'SET_ADD', 'UNPACK_SEQUENCE',
}
_POINTS = {}


def points_of(code):
    found = _POINTS.get(code)
    if found is None:
        found = _POINTS[code] = frozenset(
            i.offset for i in dis.get_instructions(code) if i.opname not in LOCAL)
    return found


def in_scope(filename, _cache={}):
    found = _cache.get(filename)
    if found is None:
        found = _cache[filename] = filename == COPY or os.path.realpath(filename).startswith(SCOPE)
    return found


class Run:
    PATIENCE = 0.3      # s without progress after which the running thread is taken as blocked on a lock
    DEADLOCK = 20

    def __init__(self, bodies, start, switches, grain):
        """
        switches: numbers of points after which the running thread is preempted
        grain: where the points are: 'calls' (entry of a function of the library), 'lines' (of the library),
               'lines+copy' (and of copy.py) or 'bytecodes' (which may touch shared memory)
        """
        self.bodies, self.turn, self.switches, self.grain = bodies, start, list(switches), grain
        self.left = self.switches.pop(0) if self.switches else None
        self.sems = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.results = [None, None]
        self.finished = threading.Event()
        self.progress = 0
        self.used = 0               # switches actually taken
        self.blocked = 0
        self.deadlock = False

    def execute(self):
        threads = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in (0, 1)]
        for t in threads:
            t.start()
        self.sems[self.turn].release()
        waited, last = 0, -1
        while not self.finished.wait(self.PATIENCE):
            if self.progress != last:
                last, waited = self.progress, 0
                continue
            waited += self.PATIENCE
            if waited > self.DEADLOCK:
                self.deadlock = True
                return self
            self.blocked += 1
            self._give(1 - self.turn)       # blocked on a lock of the other thread
        for t in threads:
            t.join()
        return self

    def _give(self, i):
        if self.done[i]:
            return
        self.turn = i
        self.sems[i].release()

    def _thread(self, i):
        self._wait(i)
        traced = self.left is not None
        if traced:
            sys._getframe().f_trace_opcodes = self.grain == 'bytecodes'
            sys.settrace(self._tracer(i))
        try:
            self.results[i] = self.bodies[i]()
        finally:
            sys.settrace(None)
            self.progress += 1
            self.done[i] = True
            if all(self.done):
                self.finished.set()
            elif self.turn == i:
                self._give(1 - i)

    def _wait(self, i):
        while self.turn != i:
            self.sems[i].acquire()

    def _point(self, i):
        self.progress += 1
        if self.turn != i:
            self._wait(i)
        if self.left is None or self.done[1 - i]:
            sys.settrace(None)
            return
        if self.left > 0:
            self.left -= 1
            return
        self.left = self.switches.pop(0) if self.switches else None
        self.used += 1
        self._give(1 - i)
        self._wait(i)

    def _tracer(self, i):
        grain = self.grain

        def enter(frame, event, _arg):
            filename = frame.f_code.co_filename
            if not in_scope(filename) or (filename == COPY and grain != 'lines+copy'):
                return None
            if grain == 'calls':
                self._point(i)
                return None
            if grain == 'bytecodes':
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                wanted = points_of(frame.f_code)

                def local(frame, event, _arg):
                    if event == 'opcode' and frame.f_lasti in wanted:
                        self._point(i)
                    return local
            else:
                def local(_frame, event, _arg):
                    if event == 'line':
                        self._point(i)
                    return local
            return local
        return enter
