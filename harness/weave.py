"""Calls on several threads, switched at the callbacks in the order a schedule gives."""
from __future__ import annotations
import threading

LIMIT = 20


class Lane:
    def __init__(self, weave, i):
        self.weave, self.i = weave, i
        self.log = []
        self.go = threading.Semaphore(0)
        self.done = False

    def point(self):
        """A callback was entered: somebody else may be next."""
        self.weave.switch(self)


class Weave:
    def __init__(self, world, thunks, sched):
        self.w, self.sched, self.pos = world, sched, 0
        self.lanes = [Lane(self, i) for i in range(len(thunks))]
        self.thunks = thunks
        self.out = [None] * len(thunks)
        self.stuck = False

    def next_lane(self):
        while self.pos < len(self.sched):
            lane = self.lanes[self.sched[self.pos]]
            self.pos += 1
            if not lane.done:
                return lane
        for lane in self.lanes:
            if not lane.done:
                return lane
        return None

    def switch(self, me):
        nxt = self.next_lane()
        if nxt is me:
            return
        nxt.go.release()
        if not me.go.acquire(timeout=LIMIT):
            self.stuck = True
            raise RuntimeError('stuck')

    def body(self, lane):
        if not lane.go.acquire(timeout=LIMIT):
            self.stuck = True
            return
        self.w.threads[threading.get_ident()] = lane
        try:
            self.out[lane.i] = self.thunks[lane.i]()
        finally:
            del self.w.threads[threading.get_ident()]
            lane.done = True
            nxt = self.next_lane()
            if nxt is not None:
                nxt.go.release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(lane,), daemon=True) for lane in self.lanes]
        for t in ts:
            t.start()
        first = self.next_lane()
        first.go.release()
        for t in ts:
            t.join(LIMIT * 2)
            if t.is_alive():
                self.stuck = True
        if self.stuck:
            return {'k': 'panic', 'm': 'deadlock'}
        return {'k': 'both', 'a': dict(self.out[0], log=self.lanes[0].log), 'b': dict(self.out[1], log=self.lanes[1].log)}
