"""C10: commands report honestly and leave nothing behind."""
from ..core import Check, rng
from .. import contracts, gen

FAULTS = {"ENOSPC", "EIO", "EACCES", "EROFS", "EMFILE", "EDQUOT", "ENOENT", "EBUSY", "short", "EINTR_ok", "INTR", "NOMEM"}
COMMANDS = ["compile", "compile_pluto", "build", "eval", "eval_uplc", "parse", "lint"]

BAD = {
    "syntax": "def validator(x: int) -> int:\n    return x +\n",
    "import_raises": "raise ValueError('no')\ndef validator(x: int) -> int:\n    return x\n",
    "exit_at_import": "import nonexistent_module_xyz\ndef validator(x: int) -> int:\n    return x\n",
    "type": "def validator(x: int) -> int:\n    return x + b'a'\n",
    "no_validator": "def other(x: int) -> int:\n    return x\n",
    "unsupported": "def validator(x: int) -> int:\n    y = lambda z: z\n    return x\n",
    "undefined": "def validator(x: int) -> int:\n    return yy\n",
    "nul": {"b": "00646566"}, "latin1": {"b": "23e9e90a"},
    "empty_if": "def validator(x: int) -> int:\n    if x:\n        return 1\n",
    "wrong_context": "def validator(x: int) -> None:\n    pass\n",
}


class C10(Check):
    id = "C10"
    rule = ("A case is one command run with its arguments, input and fault plan; exit status, output, artifacts, sources and temporary directory are compared with the "
            "fault-free run of the same command and with the kind of input.  Non-trivial: a fault or interrupt fired, or the input is invalid; distinct by (command, "
            "input kind, faulted event and kind or interrupted function and line).")
    real = ["opshin.__main__ (argument parsing, all commands)", "opshin.builder, compiler, all passes", "pluthon, uplc", "tempfile, importlib", "real files in a scratch directory"]
    stub = ["raw file operations (SimDisk)", "standard streams (buffered in memory over a raw sink whose writes can fail)", "interrupt delivery (raised at a numbered execution point or I/O event)", "process exit (status as the interpreter would report it)"]
    assumptions = ["SIGKILL and SIGTERM are not interrupts a Python program can clean up after.", "Byte code caching of imported helper modules by the interpreter is off.",
                   "lint reports failures on standard output and exits with success; its report counts as honest if it names the failure."]

    def scenarios(self):
        n = 130 if self.quick else 3600
        for i in range(n):
            r = rng(self.seed, "C10", i)
            s = {"files": {}, "steps": []}
            kinds = []
            # a pool of inputs
            for j in range(r.randrange(2, 4)):
                k = r.choice(["lib", "lib", "lib", "contract", "helper", "bad", "bad"])
                name = f"{r.choice(['contract', 'my-contract', 'validator', 'Größe'])}{j}.py"
                if k == "lib":
                    s["files"][name] = gen.program(r, r.choice([0.3, 0.6]))
                elif k == "contract":
                    c = contracts.contract_spec(r, nparams=r.choice([0, 0, 1, 2]), metadata=False)
                    c["ptypes"] = [t if t != "Anything" else "int" for t in c["ptypes"]]
                    s["files"][name] = contracts.cli_source(c)
                    kinds.append([k, name, c["ptypes"]])
                    continue
                elif k == "helper":
                    h = f"chelp{j}"
                    s["files"][f"{h}.py"] = gen.helper_src(r, r.randrange(50), "bonus")
                    s["files"][name] = gen.contract_src(r, [h], ["bonus"])
                else:
                    b = r.choice(sorted(BAD))
                    s["files"][name] = BAD[b]
                    k = "bad:" + b
                kinds.append([k, name, []])
            for _ in range(r.randrange(3, 6)):
                k, name, pt = r.choice(kinds)
                s["steps"].append(self.step(r, k, name, pt))
            yield s

    def step(self, r, k, name, pt):
        cmd = r.choice(COMMANDS)
        if k == "contract":
            cmd = r.choice(["build", "build", "build", "build", "compile", "eval", "lint"])
        st = {"cmd": cmd, "input": name, "kind": k, "args": [], "opts": [], "stdin": r.random() < 0.12, "seed": r.randrange(2 ** 31)}
        if k == "contract":
            b = r.randrange(0, len(pt) + 1)
            if cmd in ("eval", "eval_uplc"):
                b = 0
            st["args"] = [contracts.param_value(r, t) for t in pt[:b]]
            st["opts"] = ["--parameters", str(len(pt) - b)]
            if cmd in ("eval", "eval_uplc"):
                st["expect"] = "fail"  # needs the script context as argument
            if r.random() < 0.12:
                st["opts"] = ["--parameters", str(len(pt) - b + 1)]
                if cmd not in ("eval", "eval_uplc"):
                    st["expect"] = "fail"
        elif cmd != "build" and k != "bad:wrong_context":
            st["opts"] = ["--lib"]
        if cmd == "build":
            if st["stdin"] or r.random() < 0.7:
                st["opts"] += ["-o", r.choice(["out", "out", "deep/er/out", "occupied", "withfile"])]
                if st["opts"][-1] == "occupied":
                    st["expect"] = "fail"
        if cmd in ("eval", "eval_uplc") and "--lib" in st["opts"]:
            st["args"] = [5, {"b": "00"}][: r.choice([1, 1, 1, 2])]
        st["opts"] += r.choice([[], [], ["-O0"], ["-O1"], ["-O3"], ["-fno-constant-folding"]])
        z = r.random()
        if z < 0.05:
            st["opts"] += r.choice([["--recursion-limit", "60"], ["-O7"], ["--nonsense"], ["-ffast-access-skip", "x"]])
            st["expect"] = "any"
        elif z < 0.09:
            st["input"], st["kind"] = r.choice([["missing.py", "bad:missing"], ["", "bad:missing"], ["withfile", "bad:dir"]])
            st["stdin"] = False
        elif z < 0.12:
            st["badarg"] = r.choice(["{", "{\"int\": }", "zz", "{\"foo\": 1}", "ff"])
            st["expect"] = "any"
        st["plan"] = r.choice(["none", "io", "io", "io", "io2", "interrupt", "interrupt", "stdout"])
        st["frac"] = r.random()
        return st

    def shrink_paths(self, s):
        return [["steps"]] + [["steps", i, "faults"] for i, st in enumerate(s["steps"]) if st.get("faults")]


def CHECK(tier, seed):
    return C10(tier, seed)


# ------------------------------------------------------------------ worker side

class Sink:
    """Raw standard stream whose writes can fail (write number `at`)."""

    def __init__(self, at=None, kind="ENOSPC"):
        import io
        self.data, self.n, self.at, self.kind, self.fired = bytearray(), 0, at, kind, False
        sink = self

        class Raw(io.RawIOBase):
            def writable(self):
                return True

            def write(self, b):
                import errno, os
                i = sink.n
                sink.n += 1
                if sink.at is not None and i >= sink.at:
                    sink.fired = True
                    raise OSError(getattr(errno, sink.kind), os.strerror(getattr(errno, sink.kind)))
                sink.data += bytes(b)
                return len(b)
        self.raw = io.BufferedWriter(Raw(), 1024)
        self.text = io.TextIOWrapper(self.raw, "utf-8", write_through=False)

    def value(self):
        return bytes(self.data).decode("utf-8", "replace")


def run_cli(argv, stdin=None, out_sink=None):
    """The command line entry point in this process; returns (exit status as a shell would see it, stdout, stderr)."""
    import io, sys, traceback
    import opshin.__main__ as m
    from .. import sim
    from opshin.util import OPSHIN_LOG_HANDLER
    old = (sys.argv, sys.stdout, sys.stderr, sys.stdin, sys.getrecursionlimit())
    h = (OPSHIN_LOG_HANDLER.stream, OPSHIN_LOG_HANDLER.formatter, OPSHIN_LOG_HANDLER.level)
    out, err = out_sink or Sink(), io.StringIO()
    sys.argv, sys.stdout, sys.stderr = ["opshin"] + argv, out.text, err
    if stdin is not None:
        sys.stdin = io.StringIO(stdin)
    OPSHIN_LOG_HANDLER.stream = err
    try:
        try:
            m.main()
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            if not isinstance(e.code, int) and e.code is not None:
                err.write(str(e.code) + "\n")
        except sim.SimCrash:
            raise
        except KeyboardInterrupt:
            err.write("KeyboardInterrupt\n")
            code = 130
        except BaseException as e:
            err.write("".join(traceback.format_exception_only(type(e), e)))
            code = 1
        sys.settrace(None)
        try:
            out.text.flush()
        except OSError as e:  # what the interpreter does while shutting down
            err.write(f"Exception ignored in: stdout flush\n{e}\n")
            code = 120
    finally:
        sys.argv, sys.stdout, sys.stderr, sys.stdin = old[:4]
        sys.setrecursionlimit(old[4])
        OPSHIN_LOG_HANDLER.stream, OPSHIN_LOG_HANDLER.formatter, OPSHIN_LOG_HANDLER.level = h
    return code & 255, out.value(), err.getvalue()


def execute(s):
    import contextlib, json, os, random, shutil, sys
    from .. import sim
    from .c05 import restore, parents
    from .c08 import json_arg
    stats = {"evaluations": 0, "exit_success": 0, "exit_failure": 0, "commands": 0, "points": 0}
    faults, probes, trace, nontriv, viol = {}, {}, [], [], []
    W, root = sim.RUN["w"], sim.RUN["root"]
    for f, v in s["files"].items():
        sim.write_tree(W, {f: bytes.fromhex(v["b"]) if isinstance(v, dict) else v.encode()})
    sim.write_tree(W, {"occupied": "a file\n", "withfile/notes.txt": "keep\n", "other.txt": "x"})
    sys.path.insert(0, W)  # as with python -m opshin
    explicit = []
    for n, st in enumerate(s["steps"]):
        argv = [st["cmd"], "-" if st["stdin"] else st["input"]] + [json_arg(a) for a in st["args"]] + ([st["badarg"]] if "badarg" in st else []) + st["opts"]
        src = s["files"].get(st["input"])
        stdin = None
        if st["stdin"]:
            stdin = src if isinstance(src, str) else ""

        def command(fl, at, out_at, kind, trace_points=False):
            def go():
                disk = sim.SimDisk(root, fl)
                tp = sim.TracePoints(at)
                sink = Sink(out_at, kind)
                with disk:
                    with tp if trace_points else contextlib.nullcontext():
                        code, out, err = run_cli(argv, stdin, sink)
                return {"code": code, "out": sim.mask(out), "outfull": norm(out), "err": sim.mask(err), "log": disk.log, "fired": disk.fired, "escapes": disk.escapes,
                        "points": tp.n, "where": tp.where, "interrupted": tp.fired, "sink": sink.n, "sinkfired": sink.fired}
            return sim.in_child(go)

        def norm(t):
            import re
            t = t.replace(root, "<S>")
            return re.sub(r"__tmp_opshin[0-9a-f-]{36}", "__tmp_opshinUUID", re.sub(r"0x[0-9a-f]{6,}", "0xADDR", t))
        snap = sim.read_tree(root)
        ref = command([], None, None, None, st["plan"] == "interrupt")
        ref_after = sim.read_tree(root)
        o = st["opts"][st["opts"].index("-o") + 1] if "-o" in st["opts"] else "build/" + os.path.splitext(os.path.basename(st["input"]))[0]
        inside = "w/" + o.rstrip("/") + "/"
        out_ok = {inside} | {p + "/" for p in parents(inside)}

        def world(before, after, res, label):
            ch = [p for p in set(before) | set(after) if before.get(p) != after.get(p)]
            tmp = [p for p in ch if p.startswith("tmp/")]
            if tmp and any(k.split(":")[1] in ("unlink", "rmdir", "list") for k in res["fired"]):
                probes["residue excused: removal itself failed"] = probes.get("residue excused: removal itself failed", 0) + 1
                tmp = []
            if tmp and res["interrupted"]:
                # creating a directory and entering its clean-up scope are two steps: an interrupt exactly between them
                # cannot be handled, so the same must happen a few steps earlier or later to count
                wide = False
                for dk in (-3, 3):
                    restore(root, snap)
                    command([], max(0, label["at"] + dk), None, None, True)
                    wide = wide or any(p.startswith("tmp/") and p not in snap for p in sim.read_tree(root))
                restore(root, snap)
                if not wide:
                    probes["residue excused: interrupt between creation and clean-up scope"] = 1
                    tmp = []
            bad = [p for p in ch if not p.startswith("tmp/") and not (st["cmd"] == "build" and (p in out_ok and p not in before or p.startswith(inside) and p[len(inside):] in contracts.ARTIFACTS))]
            if bad or res["escapes"]:
                viol.append({"class": "a command changes files outside its output directory", "signature": "outside:" + sim.sha(repr(sorted(bad)).encode()),
                             "detail": {"argv": argv, "what": label, "changed": sorted(bad)[:6], "escapes": res["escapes"][:4]}})
            if tmp:
                viol.append({"class": "a command leaves temporary files behind", "signature": "tmp:" + sim.sha(repr(label).encode()),
                             "detail": {"argv": argv, "what": label, "left": [sim.mask(p) for p in sorted(tmp)][:4], "exit": res["code"]}})
            arts = {p: after.get(p) for p in after if p.startswith(inside)} if st["cmd"] == "build" else {}
            return arts
        arts0 = world(snap, ref_after, ref, "no fault")
        stats["evaluations"] += 1
        stats["commands"] += 1
        # the fault-free run against what is known about the input
        bad_input = st["kind"].startswith("bad")
        if st["stdin"] and isinstance(src, dict):
            bad_input = None
        expect = st.get("expect") or ("any" if bad_input is None else "fail" if bad_input else "ok")
        if st["kind"] in ("lib", "helper") and st["cmd"] == "build":
            expect = "fail"  # no ScriptContext
        if st["kind"] == "bad:import_raises" or st["kind"] == "bad:exit_at_import":
            expect = "fail"
        if st["kind"] in ("bad:type", "bad:unsupported", "bad:undefined", "bad:empty_if") and st["cmd"] == "parse" and expect == "fail" and st.get("expect") is None:
            expect = "any"  # parsing alone does not check types
        if st["stdin"] and st["kind"] == "helper":
            expect = st.get("expect", "any")  # helpers are looked up next to the file
        if st["cmd"] == "lint":
            if expect == "fail" and ref["code"] == 0 and not ref["outfull"].strip():
                viol.append({"class": "lint reports nothing for a broken contract", "signature": "lint:" + st["kind"], "detail": {"argv": argv, "kind": st["kind"]}})
            expect = "any"
        if expect == "fail" and ref["code"] == 0:
            viol.append({"class": "a command that cannot do what it was asked exits with success", "signature": "falseok:" + st["kind"] + st["cmd"], "detail": {"argv": argv, "kind": st["kind"], "out": ref["out"], "err": ref["err"]}})
        if expect == "ok" and ref["code"] != 0:
            viol.append({"class": "a command on a valid contract fails", "signature": "falsefail:" + st["kind"] + st["cmd"], "detail": {"argv": argv, "kind": st["kind"], "err": ref["err"][-400:], "source": src}})
        if ref["code"] != 0 and not (ref["err"].strip() or ref["out"].strip()):
            viol.append({"class": "a command fails without saying why", "signature": "silent:" + st["kind"] + st["cmd"], "detail": {"argv": argv}})
        if st["cmd"] == "build" and ref["code"] == 0 and not viol:
            scr = arts0.get(inside + "script.cbor")
            prob = contracts.check_dir(os.path.join(W, o), bytes.fromhex(scr.decode()) if scr else b"")
            if prob:
                viol.append({"class": "build reports success but the artifacts are not there", "signature": "arts", "detail": {"argv": argv, "problems": prob}})
        restore(root, snap)
        if viol:
            break
        # the same command with its fault
        fl, at, out_at, kind = [], None, None, None
        r = random.Random(st["seed"])
        if st.get("faults") is not None:
            fl = st["faults"]
        elif st["plan"] in ("io", "io2"):
            fl = sim.choose_faults(ref["log"], r, 2 if st["plan"] == "io2" else 1, FAULTS, benign=0.15)
        if st["plan"] == "interrupt":
            at = st.get("at", int(st["frac"] * ref["points"]))
        if st["plan"] == "stdout":
            out_at, kind = (0 if st["frac"] < 0.5 else int(st["frac"] * ref["sink"])), ["ENOSPC", "EPIPE", "EIO"][st["seed"] % 3]
        explicit.append(dict(st, faults=fl, **({"at": at} if at is not None else {})))
        res = command(fl, at, out_at, kind, at is not None)
        after = sim.read_tree(root)
        stats["evaluations"] += 1
        stats["commands"] += 1
        stats["points"] += res["points"]
        stats["exit_success" if res["code"] == 0 else "exit_failure"] += 1
        for a, b in res["fired"].items():
            faults[a] = faults.get(a, 0) + b
        if res["interrupted"]:
            faults["interrupt:point"] = faults.get("interrupt:point", 0) + 1
        if res["sinkfired"]:
            faults[kind + ":stdout"] = faults.get(kind + ":stdout", 0) + 1
        label = {"faults": fl, "events": [[e[0], e[1], e[2]] for e in res["log"] if e[0] in [f["at"] for f in fl]], "interrupt": res["where"], "at": at, "stdout": kind}
        arts = world(snap, after, res, label)
        trace.append([n, argv, ref["code"], ref["out"], res["code"], res["out"], res["fired"], res["where"], [e[1:3] for e in res["log"]]])
        if res["fired"] or res["interrupted"] or res["sinkfired"] or bad_input:
            nontriv.append(sim.sha(repr([st["cmd"], st["kind"], st["opts"], label]).encode()))
        if res["code"] == 0:
            same_out = res["outfull"] == ref["outfull"]
            if st["cmd"] == "lint" and not same_out and len(res["outfull"].splitlines()) >= 1 and res["outfull"].strip():
                same_out = True  # it named a failure
                probes["lint names the injected failure"] = probes.get("lint names the injected failure", 0) + 1
            if ref["code"] != 0 or not same_out or arts != arts0:
                viol.append({"class": "a command reports success although a fault kept it from doing what it was asked", "signature": "lie:" + sim.sha(repr([st["cmd"], label]).encode()),
                             "detail": {"argv": argv, **label, "fault_free_exit": ref["code"], "output_same": same_out, "artifacts_same": arts == arts0, "out": res["out"][-300:], "expected": ref["out"][-300:]}})
            if res["fired"] and any(f["kind"] not in sim.BENIGN for f in fl):
                probes["success although a hard fault fired"] = probes.get("success although a hard fault fired", 0) + 1
        elif not (res["err"].strip() or res["out"].strip()):
            viol.append({"class": "a command fails without saying why", "signature": "silent2", "detail": {"argv": argv, **label}})
        if st["plan"] == "none" and res["code"] != ref["code"]:
            viol.append({"class": "the same command ends differently the second time", "signature": "flaky", "detail": {"argv": argv, "first": ref["code"], "second": res["code"], "err": res["err"]}})
        if viol:
            break
        if res["code"] != 0 and st["cmd"] == "build":
            restore(root, snap)
    return {"violations": viol, "stats": stats, "probes": probes, "faults": faults, "nontrivial": nontriv, "states": nontriv,
            "trace": trace, "trace_hash": sim.sha(repr(trace).encode()), "summary": {"steps": [t[1:5:3] for t in trace]},
            "explicit": {"steps": explicit + s["steps"][len(explicit):]}}
