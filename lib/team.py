"""Processes of the code under test as threads of one process, of which one runs at a time."""
import pickle, threading


class Stuck(BaseException):
    pass


class Team:
    """n processes; `turns` says who goes on at each point where they can be told apart"""

    def __init__(self, n, turns):
        self.n, self.turns, self.at = n, turns or [0], 0
        self.cv = threading.Condition()
        self.state = ["ready"] * n
        self.now = -2
        self.local = threading.local()
        self.errors = {}
        self.boxes, self.calls = [], [0] * n
        self.arrived, self.gen = set(), 0

    def rank(self):
        return self.local.rank

    def pick(self):
        ready = [r for r in range(self.n) if self.state[r] == "ready"]
        if not ready:
            if any(s == "blocked" for s in self.state):
                self.now = -1
            self.cv.notify_all()
            return
        self.now = ready[self.turns[self.at % len(self.turns)] % len(ready)]
        self.at += 1
        self.cv.notify_all()

    def wait(self, r):
        while self.now != r:
            if self.now == -1 and self.state[r] == "blocked":
                raise Stuck()
            self.cv.wait()

    def switch(self):
        if not hasattr(self.local, "rank"):
            return
        with self.cv:
            self.pick()
            self.wait(self.rank())

    def block(self, test):
        """gives way until test() holds"""
        r = self.rank()
        with self.cv:
            while not test():
                self.state[r] = "blocked"
                self.pick()
                self.wait(r)
            self.state[r] = "ready"

    def wake(self):
        with self.cv:
            for r in range(self.n):
                if self.state[r] == "blocked":
                    self.state[r] = "ready"

    # what the code calls
    def Get_rank(self):
        return self.rank()

    def Get_size(self):
        return self.n

    rank_ = property(lambda s: s.rank())
    size = property(lambda s: s.n)

    def bcast(self, x, root=0):
        r = self.rank()
        i, self.calls[r] = self.calls[r], self.calls[r] + 1
        while len(self.boxes) <= i:
            self.boxes.append([])
        if r == root:
            self.boxes[i].append(pickle.dumps(x))
            self.wake()
            self.switch()
        else:
            self.block(lambda: self.boxes[i])
        return pickle.loads(self.boxes[i][0])

    def Barrier(self):
        g = self.gen
        self.arrived.add(self.rank())
        if len(self.arrived) == self.n:
            self.arrived, self.gen = set(), g + 1
            self.wake()
            self.switch()
        else:
            self.block(lambda: self.gen > g)
    barrier = Barrier

    def run(self, f):
        def body(r):
            self.local.rank = r
            try:
                with self.cv:
                    self.wait(r)
                f()
            except Stuck:
                self.errors.setdefault(r, "waits for ever")
            except BaseException as e:
                self.errors[r] = "%s: %s" % (type(e).__name__, e)
            with self.cv:
                self.state[r] = "done"
                if self.now != -1:
                    self.pick()
                self.cv.notify_all()
        ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.n)]
        with self.cv:
            self.pick()
        for x in ts:
            x.start()
        for x in ts:
            x.join(120)
        return self.errors
