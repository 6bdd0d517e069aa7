"""Simulated threads: real Python threads of which exactly one runs at any time; the hand-over points are
lines (optionally single bytecodes) of the code under test, chosen by an explicit schedule."""
import _thread, os, sys, threading
from . import sim

_alloc = _thread.allocate_lock
_RLock, _Lock = threading.RLock, threading.Lock
CUR = {"sched": None}


class Deadlock(BaseException):
    pass


class SimThreads:
    """schedule: list of [tid, steps].  A segment ends after `steps` points or when the task blocks or ends.
    After the last segment the runnable task with the smallest number runs until it blocks or ends."""

    def __init__(self, tasks, schedule=(), opfiles=(), deps=True, record=False):
        self.tasks = tasks
        self.n = len(tasks)
        self.sched = [list(x) for x in schedule]
        self.pos = -1
        self.left = 0
        self.cur = None
        self.base = os.path.join(os.path.realpath(sim.REPO), "opshin") + os.sep
        self.opfiles = {self.base + f for f in opfiles}
        self.deps = deps
        self.kind = {}
        self.sems = [_alloc() for _ in tasks]
        for s in self.sems:
            s.acquire()
        self.main = _alloc()
        self.main.acquire()
        self.alive = set(range(self.n))
        self.blocked = {}
        self.results = [None] * self.n
        self.switches = []
        self.steps = [0] * self.n
        self.deadlock = None
        self.tids = {}
        self.record = record
        self.seen = {}
        self.rare = []
        self.files = set()
        self.spans = {}
        self.opidx = 0
        self.last = [None] * self.n
        self.meets = {}
        self.killed = False

    # -- choice of the next task
    def runnable(self):
        return sorted(t for t in self.alive if t not in self.blocked or not self.blocked[t].held())

    def pick(self):
        rn = self.runnable()
        if not rn:
            return None
        while self.pos + 1 < len(self.sched):
            self.pos += 1
            t, n = self.sched[self.pos]
            if t in rn and n > 0:
                self.left = n
                return t
        self.left = 1 << 60
        return rn[0]

    def hand_over(self, to):
        me = self.cur
        if to == me:
            return
        self.switches.append([me, to, sum(self.steps)])
        if self.last[me] == self.last[to]:
            self.meets[self.last[me]] = self.meets.get(self.last[me], 0) + 1
        self.cur = to
        self.sems[to].release()
        self.sems[me].acquire()
        if self.killed:
            raise Deadlock()

    def point(self, frame):
        self.steps[self.cur] += 1
        self.last[self.cur] = frame.f_code.co_filename
        if self.record:
            spans = self.spans.setdefault((self.opidx, frame.f_code.co_filename), [])
            st = self.steps[self.cur]
            if spans and st - spans[-1][1] < 1500:
                spans[-1][1] = st
            elif len(spans) < 200:
                spans.append([st, st])
            k = (frame.f_code.co_filename, frame.f_lineno)
            c = self.seen.get(k, 0)
            self.seen[k] = c + 1
            if c < 2:
                self.rare.append(self.steps[self.cur])
        self.left -= 1
        if self.left <= 0:
            f = frame
            while f is not None:  # never park a thread that holds one of the interpreter's import locks
                if f.f_code.co_filename.startswith("<frozen importlib"):
                    return
                f = f.f_back
            to = self.pick()
            if to is not None:
                self.hand_over(to)

    # -- tracing
    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point(frame)
        return self._local

    def _global(self, frame, event, arg):
        if event != "call":
            return None
        fn = frame.f_code.co_filename
        k = self.kind.get(fn)
        if k is None:
            k = 0
            if fn.startswith(self.base):
                k = 3 if fn in self.opfiles else 2
                self.files.add(fn[len(self.base):])
            elif self.deps and ("/pluthon/" in fn or "/uplc/" in fn or "/pycardano/" in fn):
                k = 1
            self.kind[fn] = k
        if not k:
            return None
        self.point(frame)
        if k == 1:
            return None
        if k == 3:
            frame.f_trace_opcodes = True
        return self._local

    # -- life cycle
    def _body(self, t):
        self.sems[t].acquire()
        self.tids[_thread.get_ident()] = t
        try:
            if self.killed:
                return
            sys.settrace(self._global)
            try:
                self.results[t] = self.tasks[t]()
            finally:
                sys.settrace(None)
        except Deadlock:
            return
        except BaseException as e:
            self.results[t] = ["harness", repr(e)]
        finally:
            if not self.killed:
                self.alive.discard(t)
                if not self.alive:
                    self.main.release()
                else:
                    to = self.pick()
                    if to is None:
                        self.deadlock = sorted(self.alive)
                        self.kill()
                    else:
                        self.switches.append([t, to, sum(self.steps)])
                        self.cur = to
                        self.sems[to].release()

    def kill(self):
        self.killed = True
        for s in self.sems:
            try:
                s.release()
            except RuntimeError:
                pass
        self.main.release()

    def run(self):
        prev, CUR["sched"] = CUR["sched"], self
        threading.stack_size(512 * 1024 * 1024)
        ts = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in range(self.n)]
        for t in ts:
            t.start()
        self.cur = self.pick()
        self.sems[self.cur].release()
        self.main.acquire()
        if not self.killed:
            for t in ts:
                t.join()
        CUR["sched"] = prev
        return self.results

    def me(self):
        return self.tids.get(_thread.get_ident())


# ------------------------------------------------------------------ locks of the code under test

class SimLock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def held(self):
        return self.owner is not None

    def _who(self):
        s = CUR["sched"]
        t = s.me() if s else None
        return ("t", t) if t is not None else ("m", _thread.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        who = self._who()
        if self.reentrant and self.owner == who:
            self.count += 1
            return True
        s = CUR["sched"]
        while self.owner is not None:
            if not blocking:
                return False
            if who[0] == "m" or s is None:
                raise Deadlock("lock held while no simulated thread can run")
            s.blocked[who[1]] = self
            to = s.pick()
            if to is None:
                if timeout is not None and timeout >= 0:
                    s.blocked.pop(who[1], None)
                    return False  # simulated time passes
                s.deadlock = sorted(s.alive)
                s.kill()
                raise Deadlock()
            s.hand_over(to)
            s.blocked.pop(who[1], None)
        self.owner, self.count = who, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner != self._who():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0 or not self.reentrant:
            self.owner, self.count = None, 0

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True

    def _is_owned(self):
        return self.owner == self._who()

    def _release_save(self):
        st = (self.owner, self.count)
        self.owner, self.count = None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.owner, self.count = st


def install():
    """Locks that the code under test creates (directly or through threading's classes) are simulated ones."""
    base = os.path.join(os.path.realpath(sim.REPO), "opshin") + os.sep
    tf = threading.__file__

    def mine():
        f = sys._getframe(2)
        while f is not None and f.f_code.co_filename in (tf, _queue):
            f = f.f_back
        return f is not None and f.f_code.co_filename.startswith(base)
    import queue
    _queue = queue.__file__
    threading.Lock = lambda: SimLock() if mine() else _Lock()
    threading.RLock = lambda *a, **k: SimRLock() if mine() else _RLock(*a, **k)
    threading._allocate_lock = lambda: SimLock() if mine() else _alloc()


def after_import():
    from opshin.util import OPSHIN_LOG_HANDLER
    OPSHIN_LOG_HANDLER.lock = SimRLock()


# ------------------------------------------------------------------ schedules

def make_schedule(r, steps, rares, spans, strategy):
    """steps: points of every task when run alone; rares: points at rarely executed lines."""
    n = len(steps)
    out = []
    done = [0] * n

    def seg(t, k):
        k = max(1, int(k))
        out.append([t, k])
        done[t] += k
    if strategy == "quanta":
        hi = r.choice([3, 30, 300, 3000])
        while any(done[t] < steps[t] for t in range(n)) and len(out) < 6000:
            t = r.choice([t for t in range(n) if done[t] < steps[t]])
            seg(t, hi ** r.random() * r.choice([1, 1, 1, 10]))
    elif strategy == "meet":
        # bring two or more threads into the same source file (pass), then interleave them finely
        anchors = [{f: max(ivs, key=lambda iv: iv[1] - iv[0])[0] for f, ivs in sp.items()} for sp in spans]
        group = list(range(n))
        r.shuffle(group)
        group = group[: r.choice([2, 2, 3])]
        lead = group[0]
        keys = []
        for f, at in sorted(anchors[lead].items(), key=lambda x: x[1]):
            if all(f in anchors[t] and (not keys or anchors[t][f] > anchors[t][keys[-1]]) for t in group):
                keys.append(f)
        if r.random() < 0.3 and keys:
            keys = sorted(r.sample(keys, min(len(keys), 3)), key=keys.index)
        for t in range(n):
            if t not in group and r.random() < 0.5:
                seg(t, r.randrange(1, steps[t] + 2))
        marks = [[anchors[t][f] for f in keys] + [steps[t] + 5] for t in range(n) if t in group]
        idx = {t: i for i, t in enumerate(t for t in range(n) if t in group)}
        for j in range(len(keys) + 1):
            k = r.choice([1, 3, 10, 60])
            for c in range(1, k + 1):
                o = group[:]
                r.shuffle(o)
                for t in o:
                    a = marks[idx[t]][j - 1] if j else 0
                    b = marks[idx[t]][j]
                    to = a + (b - a) * c / k * r.choice([1, 1, r.uniform(0.7, 1.2)]) + (r.randrange(0, 9) if c < k else r.randrange(-3, 4))
                    if to > done[t] + 1:
                        seg(t, to - done[t])
    elif strategy == "pct":
        d = r.randrange(1, 6)
        marks = {t: sorted(r.randrange(1, max(2, steps[t])) for _ in range(d)) for t in range(n)}
        live = list(range(n))
        while live:
            t = r.choice(live)
            nxt = [m for m in marks[t] if m > done[t]]
            if nxt:
                seg(t, nxt[0] - done[t])
            else:
                seg(t, steps[t] - done[t] + 5)
                live.remove(t)
    elif strategy == "rare":
        d = r.randrange(2, 14)
        marks = {t: sorted(r.choice(rares[t]) + r.randrange(0, 2) for _ in range(d)) if rares[t] else [] for t in range(n)}
        live = list(range(n))
        while live:
            t = r.choice(live)
            nxt = [m for m in marks[t] if m > done[t]]
            if nxt:
                seg(t, nxt[0] - done[t])
            else:
                seg(t, steps[t] - done[t] + 5)
                live.remove(t)
    elif strategy == "lockstep":
        k = r.choice([1, 2, 7, 50])
        while any(done[t] < steps[t] for t in range(n)) and len(out) < 6000:
            for t in range(n):
                seg(t, k)
    return out
