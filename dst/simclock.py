"""Simulated clock and host identity: installed before the code under test is imported."""
import builtins, datetime, os, time

NOW = {"t": 1_795_000_000.0, "pid": 4242, "host": "sim", "tz": 0}
_real = {n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "process_time",
                                       "localtime", "gmtime", "strftime", "ctime", "sleep")}
READS = {"n": 0}


def _t():
    READS["n"] += 1
    NOW["t"] += 0.001
    return NOW["t"]


def install():
    time.time = _t
    time.time_ns = lambda: int(_t() * 1e9)
    time.localtime = lambda s=None: _real["gmtime"]((_t() if s is None else s) + NOW["tz"])
    time.gmtime = lambda s=None: _real["gmtime"](_t() if s is None else s)
    time.ctime = lambda s=None: time.asctime(time.localtime(s))
    time.strftime = lambda f, t=None: _real["strftime"](f, time.localtime() if t is None else t)
    rdt, rd = datetime.datetime, datetime.date

    class datetime_(rdt):
        @classmethod
        def now(cls, tz=None):
            return rdt.fromtimestamp(_t(), tz)

        @classmethod
        def utcnow(cls):
            return rdt.fromtimestamp(_t(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return rdt.fromtimestamp(_t())

    class date_(rd):
        @classmethod
        def today(cls):
            return rdt.fromtimestamp(_t()).date()
    for c, n, b in ((datetime_, "datetime", rdt), (date_, "date", rd)):
        c.__name__ = c.__qualname__ = n
        c.__module__ = "datetime"
    datetime.datetime, datetime.date = datetime_, date_


def set_world(p):
    import platform, socket
    NOW.update(t=float(p.get("clock", NOW["t"])), pid=p.get("pid", NOW["pid"]), host=p.get("host", NOW["host"]), tz=p.get("tz", 0))
    os.getpid = lambda: NOW["pid"]
    socket.gethostname = lambda: NOW["host"]
    platform.node = lambda: NOW["host"]
    os.getlogin = lambda: NOW["host"] + "user"
    os.cpu_count = lambda: 1 + NOW["pid"] % 64


def sim_environ(seed, base, log):
    """Environment variables read by the code under test get seeded values (only for frames in its own files)."""
    import random, sys
    r = random.Random(f"env{seed}")
    vals = {}
    E = type(os.environ)
    rg, rc = E.__getitem__, E.__contains__

    def mine():
        f = sys._getframe(2)
        while f is not None and f.f_code.co_filename.endswith(("/os.py", "simclock.py", "<frozen os>", "_collections_abc>", "<frozen _collections_abc>")):
            f = f.f_back
        return f is not None and f.f_code.co_filename.startswith(base)

    def val(k):
        if k not in vals:
            vals[k] = r.choice([None, "1", "1", "0", "true", "", "3", "debug"])
            log.append(k)
        return vals[k]

    def getitem(self, k):
        if mine():
            v = val(k)
            if v is None:
                raise KeyError(k)
            return v
        return rg(self, k)

    def contains(self, k):
        return val(k) is not None if mine() else rc(self, k)

    def get(self, k, default=None):
        if mine():
            v = val(k)
            return default if v is None else v
        try:
            return rg(self, k)
        except KeyError:
            return default
    E.__getitem__, E.__contains__, E.get = getitem, contains, get
