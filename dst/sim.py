"""The simulator inside a run: environment seams, scratch world, outcome digests,
process-state snapshots and the simulated disk (SimDisk)."""
import builtins, errno, hashlib, io, json, os, random, re, shutil, sys, tempfile, time, traceback
import importlib, importlib.machinery
import importlib._bootstrap_external as _bex


class REAL:
    open = builtins.open
    io_open = io.open
    os_open, os_write, os_close, os_read = os.open, os.write, os.close, os.read
    names = ("open", "write", "close", "read", "pwrite", "mkdir", "rmdir", "unlink", "remove", "rename", "replace", "fsync",
             "fdatasync", "listdir", "scandir", "truncate", "ftruncate", "link", "symlink", "chmod", "utime", "fdopen",
             "sync", "mkfifo", "makedirs", "removedirs", "system", "popen")
    os = {n: getattr(os, n) for n in names if hasattr(os, n)}
    listdir, scandir = os["listdir"], os["scandir"]
    time_time, sleep = time.time, time.sleep
    get_data = _bex.FileLoader.get_data
    urandom = os.__class__  # placeholder, never used


BASE = {}
RUN = {}
REPO = os.environ.get("DST_REPO", "/repo")
SCRATCH_BASE = os.environ.get("DST_SCRATCH", "/tmp")


def boot(flavour):
    if REPO != "/repo":
        sys.path.insert(0, REPO)
    sys.path[:] = [p for p in sys.path if p not in ("",)]
    BASE["junk"] = [[object() for _ in range(flavour.get("junk", 0) * 97 % 4001)], "x" * (flavour.get("junk", 0) * 7919 % 300007)]
    if flavour.get("clock"):
        from . import simclock
        simclock.install()
    if flavour.get("simset"):
        from . import simset
        simset.install(flavour["simset"])
    if flavour.get("bare"):
        return
    if flavour.get("threads"):
        from . import simthreads
        simthreads.install()
    import opshin, opshin.builder, opshin.compiler, opshin.__main__, opshin.util  # noqa
    import opshin.prelude, opshin.ledger.interval, opshin.std.builtins  # noqa
    src = os.path.realpath(opshin.__file__)
    assert src.startswith(os.path.realpath(REPO) + os.sep), src
    import pluthon, uplc, pycardano  # noqa
    BASE["flavour"] = flavour
    if flavour.get("threads"):
        simthreads.after_import()


def scratch_of(pid):
    return os.path.join(SCRATCH_BASE, f"dst-{os.getppid() if pid == os.getpid() else os.getpid()}-{pid}")


def remove_scratch(pid):
    p = os.path.join(SCRATCH_BASE, f"dst-{os.getpid()}-{pid}")
    if os.path.isdir(p):
        shutil.rmtree(p, ignore_errors=True)


def setup_run(scenario):
    root = scratch_of(os.getpid())
    os.makedirs(root)
    for d in ("w", "tmp", "home"):
        os.makedirs(os.path.join(root, d))
    RUN["root"] = root
    RUN["w"] = os.path.join(root, "w")
    os.chdir(RUN["w"])
    for k in ("TMPDIR", "TEMP", "TMP"):
        os.environ[k] = os.path.join(root, "tmp")
    os.environ["HOME"] = os.path.join(root, "home")
    tempfile.tempdir = os.path.join(root, "tmp")  # no probing of candidate directories
    if "dst.simset" in sys.modules:
        sys.modules["dst.simset"].seed(scenario.get("setseed"))
    seed_entropy(scenario.get("entropy", 0) if isinstance(scenario, dict) else 0)
    RUN["out"], RUN["errs"] = io.StringIO(), io.StringIO()
    sys.stdout, sys.stderr = RUN["out"], RUN["errs"]
    from opshin.util import OPSHIN_LOG_HANDLER
    OPSHIN_LOG_HANDLER.stream = RUN["errs"]


class _Names:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def __iter__(self):
        return self

    def __next__(self):
        return "".join(self.r.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))


def seed_entropy(seed):
    """Random state, operating-system entropy (uuid4, secrets) and temporary names come from the run's seed."""
    random.seed(seed)
    ent = random.Random(f"entropy{seed}")
    os.urandom = lambda n: bytes(ent.getrandbits(8) for _ in range(n))
    tempfile._name_sequence = _Names(f"names{seed}")
    tempfile._get_candidate_names = lambda: tempfile._name_sequence


def teardown_run():
    try:
        os.chdir("/")
    except Exception:
        pass


# ------------------------------------------------------------------ outcomes

_addr = re.compile(r"0x[0-9a-fA-F]{6,}")


def mask(s):
    s = str(s)
    for r in RUN.get("mask", []) + [RUN.get("root", "\0")]:
        s = s.replace(r, "<S>")
    s = _addr.sub("0xADDR", s)
    s = re.sub(r"__tmp_opshin[0-9a-f-]{36}", "__tmp_opshinUUID", s)
    return s[:600]


def sha(b):
    return hashlib.sha256(b).hexdigest()[:20]


def digest(v):
    import uplc.ast
    from opshin import PlutusContract
    from opshin.util import CompilerError  # noqa
    if isinstance(v, PlutusContract):
        return {"cbor": sha(bytes(v.contract)), "len": len(v.contract), "blueprint": sha(json.dumps(v.blueprint).encode()),
                "plutus": sha(v.plutus_json.encode()), "pid": v.policy_id, "main": str(v.mainnet_addr), "test": str(v.testnet_addr)}
    if isinstance(v, uplc.ast.Program):
        from uplc import flatten
        b = flatten(v)
        return {"flat": sha(b), "len": len(b)}
    if isinstance(v, (bytes, bytearray)):
        return {"bytes": sha(bytes(v)), "len": len(v)}
    if v is None or isinstance(v, (int, str, bool)):
        return {"val": mask(v) if isinstance(v, str) else v}
    if isinstance(v, (list, tuple)):
        return [digest(x) for x in v]
    if isinstance(v, dict):
        return {str(k): digest(x) for k, x in v.items()}
    return {"type": type(v).__name__}


def err_digest(e):
    from opshin.util import CompilerError
    if isinstance(e, CompilerError):
        n = e.node
        return ["err", "CompilerError", type(e.orig_err).__name__, mask(e.orig_err), getattr(n, "lineno", None),
                getattr(n, "col_offset", None), e.compilation_step]
    extra = []
    if isinstance(e, SyntaxError):
        extra = [e.lineno, e.offset]
        if hasattr(e, "orig_err"):
            extra.append(type(e.orig_err).__name__)
    return ["err", type(e).__name__, mask(e)] + extra


def call(fn):
    """Canonical outcome of an operation (always run at the same stack depth)."""
    try:
        v = fn()
    except (SimCrash,):
        raise
    except BaseException as e:
        return err_digest(e)
    return Deferred(v) if RUN.get("defer") else ok(v)


class Deferred:
    """A result that is inspected only after fault injection has ended."""
    def __init__(self, v):
        self.v = v


def ok(v):
    try:
        return ["ok", digest(v)]
    except Exception as e:   # what was returned cannot be used
        return ["ok", {"unusable": err_digest(e)}]


def config(cfg, level=None):
    from opshin.compiler_config import DEFAULT_CONFIG, OPT_CONFIGS, CompilationConfig
    c = DEFAULT_CONFIG
    if level is not None:
        c = c.update(OPT_CONFIGS[level])
    if cfg:
        c = c.update(CompilationConfig(**cfg))
    return c


def param(p):
    """Parameters in scenarios: ints, {"b": hex}, lists, {"m": [[k, v]...]}."""
    if isinstance(p, dict):
        if "b" in p:
            return bytes.fromhex(p["b"])
        if "m" in p:
            return {param(k): param(v) for k, v in p["m"]}
        if "cs" in p:
            import dataclasses, pycardano
            cls = pycardano.PlutusData
            from pycardano import RawPlutusData, RawCBOR
            import cbor2
            return RawCBOR(cbor2.dumps(cbor2.CBORTag(121 + p["cs"], [])))
    if isinstance(p, list):
        return [param(x) for x in p]
    return p


# ------------------------------------------------------------------ process state

def process_state():
    import logging, threading
    from opshin.util import OPSHIN_LOG_HANDLER, OPSHIN_LOGGER
    return {
        "sys.path": [mask(p) for p in sys.path],
        "cwd": mask(os.getcwd()),
        "environ": sha(json.dumps(sorted(os.environ.items())).encode()),
        "recursion_limit": sys.getrecursionlimit(),
        "streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        "builtins": sha(json.dumps(sorted((k, id(v)) for k, v in vars(builtins).items() if k not in ("_", "__builtins__"))).encode()),
        "meta_path": [id(x) for x in sys.meta_path],
        "path_hooks": len(sys.path_hooks),
        "excepthook": id(sys.excepthook),
        "log": [OPSHIN_LOGGER.level, OPSHIN_LOG_HANDLER.level, id(OPSHIN_LOG_HANDLER.stream), len(OPSHIN_LOGGER.handlers)],
        "umask": _umask(),
        "threads": threading.active_count(),
    }


def _umask():
    u = os.umask(0o022)
    os.umask(u)
    return u


def state_diff(a, b):
    return {k: [a[k], b[k]] for k in a if a[k] != b[k]}


# ------------------------------------------------------------------ fresh process oracle

class TracePoints:
    """Numbers the execution points inside the code under test (every function entry, every line of the files in
    `line_files`) and raises an exception at point `at`."""

    def __init__(self, at=None, exc=KeyboardInterrupt, line_files=("builder.py", "__main__.py", "rewrite_import.py"), avoid=()):
        self.at, self.exc, self.n, self.where = at, exc, 0, None
        self.base = os.path.join(os.path.realpath(REPO), "opshin") + os.sep
        self.line_files = tuple(self.base + ("rewrite/" + f if f.startswith("rewrite_") else "optimize/" + f if f.startswith("optimize_") else f) for f in line_files)
        self.avoid = tuple(avoid)
        self.fired = False
        self.cache = {}

    def _point(self, frame):
        i = self.n
        self.n += 1
        if i == self.at:
            self.fired = True
            self.where = [os.path.relpath(frame.f_code.co_filename, self.base), frame.f_code.co_name, frame.f_lineno]
            sys.settrace(None)
            raise self.exc(f"injected at point {i}")

    def _local(self, frame, event, arg):
        if event == "line":
            self._point(frame)
        return self._local

    def _global(self, frame, event, arg):
        if event != "call":
            return None
        fn = frame.f_code.co_filename
        k = self.cache.get(fn)
        if k is None:
            k = self.cache[fn] = 0 if not fn.startswith(self.base) or any(a in fn for a in self.avoid) else 2 if fn in self.line_files else 1
        if k:
            if self.avoid and any(a == frame.f_code.co_name for a in self.avoid):
                return None
            self._point(frame)
            if k == 2:
                return self._local
        return None

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class Fresh:
    """A fork server made before the run dirties anything: every query is answered by a
    process that has imported opshin and done nothing else."""

    def __init__(self):
        self.qr, self.qw = os.pipe()
        self.ar, self.aw = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self._serve()
            finally:
                os._exit(0)
        os.close(self.qr)
        os.close(self.aw)
        self.cache = {}
        self.n = 0

    def _serve(self):
        os.close(self.qw)
        os.close(self.ar)
        f = os.fdopen(self.qr, "rb")
        while True:
            line = f.readline()
            if not line:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    q = json.loads(line)
                    try:
                        mod = importlib.import_module(q["mod"])
                        res = getattr(mod, q["fn"])(q["arg"])
                        out = json.dumps({"r": res})
                    except BaseException as e:
                        out = json.dumps({"x": "".join(traceback.format_exception(e))[-3000:]})
                    data = out.encode() + b"\n"
                    off = 0
                    while off < len(data):
                        off += os.write(self.aw, data[off:off + 4096])
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st != 0:
                os.write(self.aw, json.dumps({"x": f"oracle process died: {st}"}).encode() + b"\n")

    def ask(self, mod, fn, arg, key=None):
        if key is not None and key in self.cache:
            return self.cache[key]
        w, r = REAL.os_write, REAL.os_read
        data = (json.dumps({"mod": mod, "fn": fn, "arg": arg}) + "\n").encode()
        off = 0
        while off < len(data):
            off += w(self.qw, data[off:off + 4096])
        buf = b""
        while not buf.endswith(b"\n"):
            c = r(self.ar, 1 << 16)
            if not c:
                raise RuntimeError("oracle died")
            buf += c
        self.n += 1
        ans = json.loads(buf)
        if "x" in ans:
            raise RuntimeError("oracle failed: " + ans["x"])
        if key is not None:
            self.cache[key] = ans["r"]
        return ans["r"]


def in_child(fn):
    """Runs fn in a forked copy of this process and returns its JSON result (state changes stay there)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            REAL.os_close(r)
            try:
                out = json.dumps({"r": fn()}, default=str)
            except BaseException as e:
                out = json.dumps({"x": "".join(traceback.format_exception(e))[-3000:]})
            data = out.encode()
            off = 0
            while off < len(data):
                off += REAL.os_write(w, data[off:off + 65536])
        finally:
            os._exit(0)
    REAL.os_close(w)
    buf = bytearray()
    while True:
        c = REAL.os_read(r, 1 << 16)
        if not c:
            break
        buf += c
    REAL.os_close(r)
    os.waitpid(pid, 0)
    ans = json.loads(bytes(buf))
    if "x" in ans:
        raise RuntimeError("child failed: " + ans["x"])
    return ans["r"]


# ------------------------------------------------------------------ files

def write_tree(root, files):
    for rel, content in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with REAL.open(p, "w" if isinstance(content, str) else "wb") as f:
            f.write(content)


def read_tree(root):
    """Contents of a directory as they really are (never subject to simulated faults)."""
    out = {}

    def walk(d):
        try:
            entries = list(REAL.os["scandir"](d))
        except (FileNotFoundError, NotADirectoryError):
            return
        for e in entries:
            rel = os.path.relpath(e.path, root)
            if e.is_symlink():
                out[rel] = os.readlink(e.path).encode()
            elif e.is_dir():
                out[rel + "/"] = b""
                walk(e.path)
            else:
                with REAL.open(e.path, "rb") as fp:
                    out[rel] = fp.read()
    walk(os.fspath(root))
    return out


# ------------------------------------------------------------------ simulated disk

class SimCrash(BaseException):
    """The simulated process is dead from here on."""


class SimDisk:
    """Every file operation below the scratch root passes through here, is numbered, and may be
    failed, shortened or turned into a crash by the fault plan.  `log` is the I/O trace."""

    def __init__(self, root, faults=(), seed=0, permute=True):
        self.root = root.rstrip("/")
        self.faults = {}
        for f in faults:
            self.faults.setdefault(f["at"], f)
        self.sticky = None
        self.n = 0
        self.log = []
        self.dead = False
        self.fired = {}
        self.escapes = []
        self.durable = {}
        self.versions = {}
        self.rng = random.Random(seed)
        self.fds = {}
        self.permute = permute
        self.armed = True
        self.order = None
        self.opened_write = []
        self.hook = None
        self.stats = False   # number stat() of source files and directories, too

    # -- trace
    def rel(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        if p == self.root or p.startswith(self.root + "/"):
            return os.path.relpath(p, self.root)
        return None

    def event(self, op, rel, info=None):
        """Returns the fault dict to apply, if any (errors are raised here)."""
        if self.dead:
            raise SimCrash("dead")
        if not self.armed:
            return None
        i = self.n
        self.n += 1
        self.log.append([i, op, mask(rel), info])
        if self.hook:
            self.hook(i, op, rel)
        f = self.faults.get(i)
        if f is None and self.sticky is not None and op in self.sticky["ops"]:
            f = {"kind": self.sticky["kind"], "at": i}
        if f is None:
            return None
        kind = f["kind"]
        if not kind_applies(kind, op):
            return None
        self.fired[kind + ":" + op] = self.fired.get(kind + ":" + op, 0) + 1
        if f.get("sticky"):
            self.sticky = {"kind": kind, "ops": ("write", "open_w", "mkdir", "fsync", "rename") if kind in ("ENOSPC", "EDQUOT", "EROFS") else (op,)}
        if kind == "crash":
            self.dead = True
            raise SimCrash(f"crash at event {i} ({op} {rel})")
        if kind == "INTR":
            raise KeyboardInterrupt(f"event {i}")
        if kind == "NOMEM":
            raise MemoryError(f"event {i}")
        if kind in ("short", "EINTR_ok", "crash_after", "garble", "eof"):
            return f
        raise OSError(getattr(errno, kind), os.strerror(getattr(errno, kind)), os.path.join("<S>", rel or "?"))

    def snapshot_before(self, rel):
        if rel is None or rel in self.durable:
            return
        p = os.path.join(self.root, rel)
        try:
            with REAL.open(p, "rb") as f:
                self.durable[rel] = f.read()
        except OSError:
            self.durable[rel] = None
        self.versions[rel] = []

    def note(self, rel):
        if rel is None or rel not in self.durable:
            return
        p = os.path.join(self.root, rel)
        try:
            with REAL.open(p, "rb") as f:
                v = f.read()
        except OSError:
            v = None
        if not self.versions[rel] or self.versions[rel][-1] != v:
            self.versions[rel].append(v)

    def synced(self, rel):
        if rel in self.durable:
            self.note(rel)
            if self.versions[rel]:
                self.durable[rel] = self.versions[rel][-1]
                self.versions[rel] = []

    # -- crash states
    def power_loss(self, rng):
        """Rewrites the directory to one state a power loss may leave: per file any unsynced version may be
        there, lost, cut short, or have a zero-filled tail."""
        choice = {}
        for rel in sorted(self.durable):
            opts = self.versions[rel]
            p = os.path.join(self.root, rel)
            if not opts:
                continue
            mode = rng.choice(["keep", "keep", "old", "torn", "empty", "zero", "mid"])
            new = opts[-1]
            old = self.durable[rel]
            v = new
            if mode == "old":
                v = old
            elif mode == "mid":
                v = rng.choice(opts)
            elif mode in ("torn", "zero", "empty") and new:
                k = 512 * rng.randrange((len(new) + 511) // 512)  # sectors are written whole
                if mode == "torn":
                    v = new[:k]
                elif mode == "zero":
                    v = new[:k] + b"\0" * (len(new) - k)
                else:
                    v = b""
            choice[rel] = mode if v is not None else mode + ":absent"
            try:
                if v is None:
                    if os.path.lexists(p):
                        REAL.os["unlink"](p)
                else:
                    REAL.os["makedirs"](os.path.dirname(p), exist_ok=True) if not os.path.isdir(os.path.dirname(p)) else None
                    with REAL.open(p, "wb") as f:
                        f.write(v)
            except OSError:
                pass
        return choice

    # -- installation
    def __enter__(self):
        d = self

        class SimFileIO(io.FileIO):
            def __init__(self, file, mode="r", closefd=True, opener=None):
                self._rel = None
                self._w = any(c in mode for c in "wax+")
                if not isinstance(file, int):
                    self._rel = d.rel(file)
                    if self._rel is None and self._w and os.fspath(file) != os.devnull:
                        d.escapes.append(mask(os.path.abspath(os.fspath(file))))
                        raise PermissionError(errno.EPERM, "write outside the scratch world", str(file))
                    if self._rel is not None:
                        d.event("open_w" if self._w else "open_r", self._rel)
                        if self._w:
                            d.snapshot_before(self._rel)
                            d.opened_write.append(self._rel)
                else:
                    self._rel = d.fds.get(file)
                if opener is None:
                    super().__init__(file, mode, closefd)
                else:
                    super().__init__(file, mode, closefd, opener)
                if self._rel is not None and not isinstance(file, int):
                    d.fds[self.fileno()] = self._rel
                    if self._w:
                        d.note(self._rel)

            def write(self, b):
                if self._rel is not None:
                    f = d.event("write", self._rel, len(b))
                    if f:
                        if f["kind"] == "short" and len(b) > 1:
                            n = super().write(bytes(b)[: max(1, int(len(b) * f.get("frac", 0.5)))])
                            d.note(self._rel)
                            return n
                        if f["kind"] == "EINTR_ok":
                            raise InterruptedError(errno.EINTR, "interrupted")
                        if f["kind"] == "crash_after":
                            super().write(bytes(b)[: int(len(b) * f.get("frac", 1.0))])
                            d.note(self._rel)
                            d.dead = True
                            raise SimCrash("crash after write")
                r = super().write(b)
                if self._rel is not None:
                    d.note(self._rel)
                return r

            def _rd(self):
                if self._rel is not None and not self._w:
                    return d.event("read", self._rel)

            def readinto(self, b):
                f = self._rd()
                if f and f["kind"] == "short" and len(b) > 1:
                    m = memoryview(b)[: max(1, len(b) // 3)]
                    return super().readinto(m)
                if f and f["kind"] == "EINTR_ok":
                    raise InterruptedError(errno.EINTR, "interrupted")
                return super().readinto(b)

            def readall(self):
                f = self._rd()
                if f and f["kind"] == "EINTR_ok":
                    return super().readall()
                return super().readall()

            def read(self, n=-1):
                self._rd()
                return super().read(n)

            def truncate(self, size=None):
                if self._rel is not None:
                    d.event("write", self._rel, "truncate")
                r = super().truncate(size)
                d.note(self._rel)
                return r

            def close(self):
                if self.closed:
                    return
                if self._rel is not None and self._w and not d.dead:
                    try:
                        d.event("close", self._rel)
                    except OSError:
                        # delayed allocation: what could not be flushed at close is gone
                        try:
                            n = os.fstat(self.fileno()).st_size
                            os.ftruncate(self.fileno(), n // 2)
                        except OSError:
                            pass
                        d.fds.pop(self.fileno(), None)
                        super().close()
                        d.note(self._rel)
                        raise
                    except BaseException:
                        d.fds.pop(self.fileno(), None)
                        super().close()
                        raise
                try:
                    d.fds.pop(self.fileno(), None)
                except ValueError:
                    pass
                super().close()

            def __del__(self):
                try:
                    io.FileIO.close(self)
                except Exception:
                    pass

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if isinstance(file, int) and file not in d.fds:
                return REAL.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if not isinstance(file, int) and d.rel(file) is None and not any(c in mode for c in "wax+"):
                return REAL.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if not isinstance(file, (int, str, bytes)):
                file = os.fspath(file)
            if not isinstance(mode, str):
                raise TypeError("invalid mode: %r" % mode)
            text = "b" not in mode
            raw_mode = mode.replace("b", "").replace("t", "")
            if not text and (encoding is not None or errors is not None or newline is not None):
                raise ValueError("binary mode doesn't take text arguments")
            raw = SimFileIO(file, raw_mode, closefd, opener)
            result = raw
            try:
                if buffering == 0:
                    if text:
                        raise ValueError("can't have unbuffered text I/O")
                    return raw
                size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
                if "+" in raw_mode:
                    buf = io.BufferedRandom(raw, size)
                elif any(c in raw_mode for c in "wax"):
                    buf = io.BufferedWriter(raw, size)
                else:
                    buf = io.BufferedReader(raw, size)
                result = buf
                if not text:
                    return buf
                t = io.TextIOWrapper(buf, io.text_encoding(encoding) if encoding is None else encoding, errors, newline, buffering == 1)
                result = t
                t.mode = mode
                return t
            except BaseException:
                result.close()
                raise

        def guard_write(p, op):
            r = d.rel(p)
            if r is None:
                if os.fspath(p) in (os.devnull, os.devnull.encode()):
                    return None
                d.escapes.append(mask(os.path.abspath(os.fspath(p))))
                raise PermissionError(errno.EPERM, "outside the scratch world", str(p))
            return r

        def s_open(path, flags, mode=0o777, *, dir_fd=None):
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                r = guard_write(path, "open") if dir_fd is None else None
                if r is not None:
                    d.event("open_w", r)
                    d.snapshot_before(r)
                    d.opened_write.append(r)
                fd = REAL.os["open"](path, flags, mode, dir_fd=dir_fd)
                if r is not None:
                    d.fds[fd] = r
                    d.note(r)
                return fd
            return REAL.os["open"](path, flags, mode, dir_fd=dir_fd)

        def s_write(fd, b):
            r = d.fds.get(fd)
            if r is not None:
                f = d.event("write", r, len(b))
                if f and f["kind"] == "short" and len(b) > 1:
                    n = REAL.os["write"](fd, bytes(b)[: max(1, int(len(b) * f.get("frac", 0.5)))])
                    d.note(r)
                    return n
                if f and f["kind"] == "crash_after":
                    REAL.os["write"](fd, bytes(b)[: int(len(b) * f.get("frac", 1.0))])
                    d.note(r)
                    d.dead = True
                    raise SimCrash("crash after write")
            n = REAL.os["write"](fd, b)
            d.note(r)
            return n

        def s_close(fd):
            r = d.fds.pop(fd, None)
            if r is not None and not d.dead:
                try:
                    d.event("close", r)
                except BaseException:
                    REAL.os["close"](fd)
                    raise
            return REAL.os["close"](fd)

        def s_fsync(fd):
            fd = fd if isinstance(fd, int) else fd.fileno()
            r = d.fds.get(fd)
            if r is not None:
                d.event("fsync", r)
            res = REAL.os["fsync"](fd)
            if r is not None:
                d.synced(r)
            return res

        def s_mkdir(path, mode=0o777, *, dir_fd=None):
            r = guard_write(path, "mkdir")
            if r is not None:
                d.event("mkdir", r)
            return REAL.os["mkdir"](path, mode, dir_fd=dir_fd)

        def s_rename_like(real):
            def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
                rs, rd = guard_write(src, "rename"), guard_write(dst, "rename")
                d.event("rename", rd)
                d.snapshot_before(rs)
                d.snapshot_before(rd)
                unsynced = bool(d.versions.get(rs))
                res = real(src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
                d.note(rs)
                d.note(rd)
                return res
            return f

        def s_unlink_like(real):
            def f(path, *, dir_fd=None):
                if dir_fd is None:
                    r = guard_write(path, "unlink")
                    d.event("unlink", r)
                    d.snapshot_before(r)
                    res = real(path)
                    d.note(r)
                    return res
                # rmtree works relative to directory descriptors
                base = os.readlink(f"/proc/self/fd/{dir_fd}")
                r = d.rel(os.path.join(base, os.fspath(path)))
                if r is None:
                    d.escapes.append(mask(os.path.join(base, os.fspath(path))))
                    raise PermissionError(errno.EPERM, "outside the scratch world", str(path))
                d.event("unlink", r)
                d.snapshot_before(r)
                res = real(path, dir_fd=dir_fd)
                d.note(r)
                return res
            return f

        def s_rmdir(path, *, dir_fd=None):
            base = os.readlink(f"/proc/self/fd/{dir_fd}") if dir_fd is not None else os.getcwd()
            r = d.rel(os.path.join(base, os.fspath(path)))
            if r is None:
                d.escapes.append(mask(os.path.join(base, os.fspath(path))))
                raise PermissionError(errno.EPERM, "outside the scratch world", str(path))
            d.event("rmdir", r)
            return REAL.os["rmdir"](path, dir_fd=dir_fd)

        def perm(items):
            items = sorted(items, key=lambda x: x if isinstance(x, (str, bytes)) else x.name)
            if d.order is not None:
                d.order.shuffle(items)
            return items

        def s_listdir(path="."):
            r = d.rel(path) if not isinstance(path, int) else None
            if r is None:
                return REAL.listdir(path)
            d.event("list", r)
            return perm(REAL.listdir(path))

        class SimScandir:
            def __init__(self, entries, real):
                self._it = iter(entries)
                self._real = real

            def __iter__(self):
                return self

            def __next__(self):
                return next(self._it)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def close(self):
                self._real.close()

        def s_scandir(path="."):
            if isinstance(path, int):
                return REAL.scandir(path)
            r = d.rel(path)
            if r is None:
                return REAL.scandir(path)
            d.event("list", r)
            it = REAL.scandir(path)
            return SimScandir(perm(list(it)), it)

        def s_guard_path(real, op):
            def f(path, *a, **k):
                if isinstance(path, int) or k.get("dir_fd") is not None:
                    return real(path, *a, **k)
                r = guard_write(path, op)
                if r is not None:
                    d.event(op, r)
                    d.snapshot_before(r)
                res = real(path, *a, **k)
                d.note(r)
                return res
            return f

        def s_get_data(loader, path):
            r = d.rel(path)
            if r is not None and not path.endswith(".pyc"):
                d.event("read", r)
            return REAL.get_data(loader, path)

        def no_system(cmd, *a, **k):
            d.escapes.append("system:" + str(cmd)[:80])
            raise PermissionError(errno.EPERM, "process creation is not simulated")

        def s_stat(path, *a, **k):
            if not isinstance(path, int):
                r = d.rel(path)
                if r is not None and r.endswith(".py"):
                    d.event("stat", r)
            return real_stat(path, *a, **k)
        real_stat = os.stat

        self.saved = [(builtins, "open", builtins.open), (io, "open", io.open)]
        patches = {**({"stat": s_stat} if self.stats else {}),
                   "open": s_open, "write": s_write, "close": s_close, "fsync": s_fsync, "fdatasync": s_fsync, "mkdir": s_mkdir,
                   "rename": s_rename_like(REAL.os["rename"]), "replace": s_rename_like(REAL.os["replace"]),
                   "unlink": s_unlink_like(REAL.os["unlink"]), "remove": s_unlink_like(REAL.os["remove"]), "rmdir": s_rmdir,
                   "listdir": s_listdir, "scandir": s_scandir, "truncate": s_guard_path(REAL.os["truncate"], "write"),
                   "chmod": s_guard_path(REAL.os["chmod"], "chmod"), "system": no_system, "popen": no_system}
        for k, v in patches.items():
            self.saved.append((os, k, getattr(os, k)))
            setattr(os, k, v)
        for s in ("supports_fd", "supports_dir_fd"):  # keep shutil.rmtree's choice of algorithm
            st = getattr(os, s)
            self.saved.append((os, s, st))
            setattr(os, s, set(st) | {getattr(os, k) for k in patches if REAL.os.get(k) in st})
        builtins.open = sim_open
        io.open = sim_open
        self.saved.append((_bex.FileLoader, "get_data", _bex.FileLoader.get_data))
        _bex.FileLoader.get_data = s_get_data
        return self

    def __exit__(self, *a):
        for obj, name, val in reversed(self.saved):
            setattr(obj, name, val)
        return False


KINDS = {
    "open_r": ["EIO", "EACCES", "EMFILE", "ENOENT", "INTR", "NOMEM"],
    "read": ["EIO", "EINTR_ok", "short", "INTR", "NOMEM"],
    "open_w": ["ENOSPC", "EACCES", "EROFS", "EMFILE", "crash", "INTR"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "short", "EINTR_ok", "crash", "crash_after", "INTR"],
    "close": ["EIO", "ENOSPC", "crash"],
    "fsync": ["EIO", "crash"],
    "mkdir": ["ENOSPC", "EACCES", "EROFS", "crash"],
    "rename": ["EIO", "EACCES", "crash"],
    "list": ["EIO", "EACCES", "INTR"],
    "unlink": ["EIO", "EACCES", "crash"],
    "rmdir": ["EIO", "EBUSY", "crash"],
    "chmod": ["EACCES"],
    "stat": ["EIO", "EACCES"],
}
BENIGN = {"short", "EINTR_ok"}


def kind_applies(kind, op):
    return kind in KINDS.get(op, []) or (kind in ("crash", "INTR") and op not in ("close",) or kind == "crash")


def choose_faults(log, r, n, allow, benign=0.25, sticky=0.25, ops=None):
    """Seeded fault plan over the numbered events of a fault-free dry run."""
    evs = [(e[0], e[1]) for e in log if (ops is None or e[1] in ops) and any(k in allow for k in KINDS.get(e[1], []))]
    out = []
    if not evs:
        return out
    by_op = {}
    for i, op in evs:
        by_op.setdefault(op, []).append(i)
    used = set()
    for _ in range(n):
        op = r.choice(sorted(by_op))
        if r.random() < 0.3:
            op = r.choice(evs)[1]
        i = r.choice(by_op[op])
        if i in used:
            continue
        used.add(i)
        ks = [k for k in KINDS[op] if k in allow]
        bs = [k for k in ks if k in BENIGN]
        hs = [k for k in ks if k not in BENIGN]
        k = r.choice(bs) if bs and (not hs or r.random() < benign) else r.choice(hs)
        f = {"at": i, "kind": k}
        if k in ("short", "crash_after"):
            f["frac"] = r.choice([0.0, 0.1, 0.5, 0.9, 0.999])
        if k in ("ENOSPC", "EDQUOT", "EROFS", "EIO", "EACCES") and r.random() < sticky:
            f["sticky"] = True
        out.append(f)
    return sorted(out, key=lambda f: f["at"])
