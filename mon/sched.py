"""A controlled scheduler for Python threads.

One thread runs at a time.  A monitoring callback sees every source line (or bytecode instruction) executed in the code
under test; at each it may hand control to another thread, as its strategy says.  Given the seed the interleaving is
reproducible, unless a thread blocks outside our control: after STALL seconds without progress the waiters go on freely.
"""
import _thread
import sys
import time

TOOL = 4
STALL = 0.05
ENOUGH = 40             # stalls after which the threads are left to themselves


class Sched:
    def __init__(self, src, rng, n, strategy, instr):
        self.src, self.rng, self.n, self.strategy, self.instr = src, rng, n, strategy, instr
        self.gates = [_thread.allocate_lock() for _ in range(n)]
        for x in self.gates:
            x.acquire()
        self.ids = {}
        self.live = set(range(n))
        self.cur = 0
        self.steps = self.switches = self.stalls = 0
        self.where = [None] * n
        self.pairs = {}
        self.trace = 0
        k = strategy[0]
        if k == "random":
            self.choose = self._random
        elif k == "points":
            self.points = set(strategy[1])
            self.choose = self._points
        elif k == "site":
            self.choose = self._site
            self.hits = 0
        elif k == "lockstep":
            self.choose = self._lockstep
        elif k == "stagger":
            self.choose = self._stagger
        elif k == "free":
            self.choose = None
            self.prev = None

    # ---- strategies: who runs next (None: stay)
    def _other(self):
        o = [i for i in self.live if i != self.cur]
        return self.rng.choice(o) if o else None

    def _random(self, code, pos):
        return self._other() if self.rng.random() < self.strategy[1] else None

    def _points(self, code, pos):
        return self._other() if self.steps in self.points else None

    def _site(self, code, pos):
        if (code.co_firstlineno * 31 + pos) % self.strategy[1] == self.strategy[2] and self.hits < 400:
            self.hits += 1
            return self._other()

    def _lockstep(self, code, pos):
        if self.steps % self.strategy[1]:
            return None
        o = sorted(self.live)
        return next((i for i in o if i > self.cur), o[0]) if o else None

    def _stagger(self, code, pos):
        """lockstep, after the first has gone some steps ahead"""
        if self.steps < self.strategy[1]:
            return None
        return self._lockstep_n(self.strategy[2])

    def _lockstep_n(self, q):
        if self.steps % q:
            return None
        o = sorted(self.live)
        return next((i for i in o if i > self.cur), o[0]) if o else None

    # ---- monitoring
    def start(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "verif-sched")
        ev = m.events.INSTRUCTION if self.instr else m.events.LINE
        m.register_callback(TOOL, ev, self.free_point if self.choose is None else self.point)
        m.set_events(TOOL, ev)

    def stop(self):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.free_tool_id(TOOL)

    def free_point(self, code, pos):
        """only observe the switches the interpreter itself makes"""
        if not code.co_filename.startswith(self.src):
            return sys.monitoring.DISABLE
        me = self.ids.get(_thread.get_ident())
        if me is None:
            return
        self.steps += 1
        here = (code.co_qualname, pos)
        p = self.prev
        if p is not None and p[0] != me:
            self.switches += 1
            self.trace = hash((self.trace, p, me, here))
            self.pairs[p[1], here] = 1
        self.prev = (me, here)
        if self.rng.random() < self.strategy[1]:
            time.sleep(1e-6)

    def point(self, code, pos):
        if not code.co_filename.startswith(self.src):
            return sys.monitoring.DISABLE
        me = self.ids.get(_thread.get_ident())
        if me is None:
            return
        self.steps += 1
        if self.stalls > ENOUGH:
            return
        self.where[me] = here = (code.co_qualname, pos)
        if self.cur != me:
            self._wait(me)
            return
        if len(self.live) < 2:
            return
        nxt = self.choose(code, pos)
        if nxt is None or nxt == me:
            return
        self.switches += 1
        self.trace = hash((self.trace, me, nxt, here, self.where[nxt]))
        self.pairs[here, self.where[nxt]] = 1
        self._give(nxt)
        self._wait(me)

    def _give(self, i):
        self.cur = i
        try:
            self.gates[i].release()
        except RuntimeError:
            pass

    def _wait(self, me):
        while self.cur != me and self.stalls <= ENOUGH:
            seen = self.steps
            if not self.gates[me].acquire(timeout=STALL) and self.steps == seen and self.cur != me:
                self.stalls += 1        # whoever has the turn is blocked
                self.cur = me

    # ---- called by the threads
    def enter(self, me):
        self.ids[_thread.get_ident()] = me
        if self.choose is not None:
            self._wait(me)

    def leave(self, me):
        self.ids.pop(_thread.get_ident(), None)
        self.live.discard(me)
        if self.choose is not None and self.cur == me and self.live:
            self._give(self.rng.choice(sorted(self.live)))
