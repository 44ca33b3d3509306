"""Controlled scheduler: runs Python functions in real threads of which exactly one may run at a time.

Every line (or byte code) of the watched files that a thread is about to execute is a switch point.
A schedule is a list of step counts [k1, k2, ...]: the first thread runs until it is about to execute
its (k1+1)-th step, then the next thread runs for k2 steps, and so on; the last entry's successor runs to
its end, then the remaining threads in turn.  A schedule with p entries has at most p preemptions."""
import sys, threading


class Deadlock(Exception):
    pass


class Run(object):
    def __init__(self, funcs, schedule, watch, opcodes=False, patience=5.0, whole=()):
        self.funcs = funcs
        self.schedule = list(schedule)
        self.watch = watch
        self.opcodes = opcodes
        self.patience = patience
        self.whole = whole          # threads that are never interrupted
        n = len(funcs)
        self.locks = [threading.Lock() for _ in range(n)]
        for l in self.locks:
            l.acquire()
        self.done = [False] * n
        self.steps = [0] * n
        self.results = [None] * n
        self.pos = 0
        self.budget = None
        self.free = False
        self.fired = 0              # preemptions that took place
        self.finished = threading.Lock()
        self.finished.acquire()
        self.where = []
        self.progress = 0

    # ------------------------------------------------------------------ called in the threads
    def tracer(self, tid):
        watch = self.watch
        opcodes = self.opcodes
        want = "opcode" if opcodes else "line"
        steps = self.steps

        def local(frame, event, arg):
            if event == want:
                steps[tid] += 1
                b = self.budget
                if b is not None:
                    if b == 0:
                        self.preempt(tid, frame)
                    else:
                        self.budget = b - 1
            return local

        def start(frame, event, arg):
            if frame.f_code.co_filename.startswith(watch):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return start

    def next_budget(self):
        self.budget = self.schedule[self.pos] if self.pos < len(self.schedule) else None
        self.pos += 1

    def other(self, tid):
        n = len(self.funcs)
        for d in range(1, n):
            t = (tid + d) % n
            if not self.done[t]:
                return t
        return None

    def preempt(self, tid, frame):
        t = self.other(tid)
        if t is None or self.free:
            self.budget = None
            return
        self.fired += 1
        self.progress += 1
        self.where.append((tid, self.steps[tid], frame.f_code.co_name, frame.f_lineno))
        self.next_budget()
        self.locks[t].release()
        self.locks[tid].acquire()

    def body(self, tid):
        self.locks[tid].acquire()
        if tid not in self.whole:
            sys.settrace(self.tracer(tid))
        try:
            try:
                self.results[tid] = ("value", self.funcs[tid]())
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.results[tid] = ("raised", "%s: %s" % (type(e).__name__, e))
        self.done[tid] = True
        self.progress += 1
        t = self.other(tid)
        if t is None:
            self.finished.release()
        elif not self.free:
            # the other thread continues; its budget is the next entry
            self.next_budget()
            self.locks[t].release()

    # ------------------------------------------------------------------ called by the owner
    def run(self):
        n = len(self.funcs)
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        self.next_budget()
        self.locks[0].release()
        while not self.finished.acquire(timeout=self.patience):
            seen = (self.progress, sum(self.steps))
            if self.finished.acquire(timeout=self.patience):
                break
            if seen == (self.progress, sum(self.steps)):
                # the thread whose turn it is waits for something another thread holds
                if self.free:
                    raise Deadlock("the threads block each other")
                self.free = True
                for l in self.locks:
                    if l.locked():
                        try:
                            l.release()
                        except RuntimeError:
                            pass
        for t in ts:
            t.join()
        return self.results
