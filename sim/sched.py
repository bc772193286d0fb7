"""Deterministic thread scheduler: threads run one at a time; control moves only where the plan says, at a line (or bytecode) of /repo's code."""
import sys
import threading

from sim import repo

STALL_S = 20.0


class Stalled(Exception):
    """The running thread waits for something a paused one holds: this schedule cannot be continued."""


class Scheduler:
    def __init__(self, n, switches, opcodes=False, start=0):
        """switches: [[points to run, party to run next], ...]; afterwards every party runs to its end in turn."""
        self.n = n
        self.switches = switches
        self.opcodes = opcodes
        self.pos = 0
        self.left = switches[0][0] if switches else -1
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.points = 0
        self.done = threading.Event()
        self.taken = []      # (party, file:line) at every switch that took effect
        self.free = False
        self.start = start
        self.prefix = repo.REPO.rstrip("/") + "/"

    # ---- tracing
    def _local(self, me):
        def tr(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                self.point(me, frame)
            return tr
        return tr

    def tracer(self, me):
        loc = self._local(me)

        def tr(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(self.prefix):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return loc
            return None
        return tr

    def point(self, me, frame):
        self.points += 1
        if self.left < 0 or self.free:
            return
        self.left -= 1
        if self.left > 0:
            return
        target = None
        while self.pos < len(self.switches):
            t = self.switches[self.pos][1] % self.n
            self.pos += 1
            self.left = self.switches[self.pos][0] if self.pos < len(self.switches) else -1
            if t != me and self.alive[t]:
                target = t
            break
        if target is None:
            return
        self.taken.append((me, target, frame.f_code.co_filename[len(self.prefix):], frame.f_lineno))
        self.go[target].release()
        self.go[me].acquire()

    # ---- life cycle
    def run(self, bodies):
        errs = []

        def main(me):
            self.go[me].acquire()
            sys.settrace(self.tracer(me))
            try:
                bodies[me]()
            except BaseException as e:  # noqa: BLE001
                errs.append(e)
            finally:
                sys.settrace(None)
                self.alive[me] = False
                nxt = next((j for j in list(range(me + 1, self.n)) + list(range(me)) if self.alive[j]), None)
                if nxt is None:
                    self.done.set()
                else:
                    self.go[nxt].release()
        ths = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        self.go[self.start % self.n].release()
        last = -1
        while not self.done.wait(STALL_S):
            if self.points == last:
                self.free = True
                for g in self.go:
                    g.release()
                self.done.wait(STALL_S)
                raise Stalled()
            last = self.points
        for t in ths:
            t.join()
        if errs:
            raise errs[0]
