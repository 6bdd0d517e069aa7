"""C14: every diagnostic points at its own program and line."""
from ..core import Check, rng
from .. import gen
from .c03 import FILES


def project(r, d, k):
    """Files of a project whose helper (or helper's helper) is faulty or emits a warning; the diagnostics belong to the import in the main file."""
    names = r.sample(gen.HELPERS, 2)
    deep = r.random() < 0.4
    kind = r.choice(["error", "error", "warn", "none"])
    bad = {"error": ["", "def bad_h(x: int) -> int:", "    y = x", "    return y + b'x'"], "warn": ["", "HEXY = b'abcd'", "def use_h(x: bytes) -> bytes:", "    return x + HEXY"], "none": []}[kind]
    files = {}
    h = ["# c"] * r.randrange(6) + ["def bonus_a(x: int) -> int:", "    return x + %d" % r.randrange(90), ""]
    if deep:
        files[f"{d}/{names[1]}.py"] = "\n".join(["#"] * r.randrange(9) + bad + ["DEEP = 1", ""])
        files[f"{d}/{names[0]}.py"] = "\n".join(h + [f"from {names[1]} import *", ""])
    else:
        files[f"{d}/{names[0]}.py"] = "\n".join(h + bad + [""])
    pre = r.choice(["", "# c\n", "\n\n", "KK = 3\n\n\n", "def two(a: int) -> int:\n    return a\n"])
    main = pre + f"from {names[0]} import *\n" + "\n" * r.randrange(3) + "def validator(p: int) -> int:\n    return bonus_a(p)" + (" + len(use_h(b'zz'))" if kind == "warn" else "") + "\n"
    files[f"{d}/contract.py"] = main
    return {"files": files, "kind": kind, "line": pre.count("\n") + 1}


def diag_op(r, t, j, threads=False):
    """One compile with known diagnostics."""
    d = gen.diagnostic(r, fault=r.random() < 0.6, base=None if r.random() < 0.7 else r.choice([gen.closures, gen.unions])(r))
    op = {"op": r.choice(["compile", "compile", "build", "cli", "cli"]) if not threads else r.choice(["compile", "build"]), "info": {k: d[k] for k in ("line", "col", "warn") if k in d}, "level": r.choice([None, 0, 0, 1, 2, 3])}
    if op["op"] == "compile":
        op.update(src=d["src"], filename=r.choice(["<unknown>", f"t{t}.py"]))
    elif op["op"] == "build":
        op.update(src=d["src"], file=f"src{t}_{j}.py")
    else:
        cmd = r.choice(["lint", "lint", "compile", "compile_pluto"])
        op.update(src=d["src"], file=f"src{t}_{j}.py", cmd=cmd, json=cmd == "lint" and r.random() < 0.3)
    return op


class C14(Check):
    id = "C14"
    timeout = 120
    rule = ("A case is one compile (library, command line) of a program with an error and warnings planted at known lines, inside a session or while other threads compile; checked are the position of the error, of "
            "every log record, and equality with the same call in a fresh process.  Non-trivial: the call produced at least one diagnostic and another call preceded or overlapped it; distinct by (program, level, what preceded).")
    real = ["opshin compiler, rewrites, optimisations, type inference, log handler and filter, command line", "CPython threads under the scheduler"]
    stub = ["scheduler of threads", "terminal streams", "log handler's stream (records are taken at the handler's emit)"]
    assumptions = ["A call served from the compile cache does not repeat its warnings.", "Errors in imported files are reported at the import statement of the compiled file."]

    def scenarios(self):
        n = 112 if self.quick else 4000
        for i in range(n):
            r = rng(self.seed, "C14", i)
            if i % 2 == 0:
                yield self.session(r)
            else:
                yield self.threads(r)

    def session(self, r):
        ops, files = [], {}
        projs = {}
        for p in ("pa", "pb"):
            if r.random() < 0.5:
                projs[p] = project(r, p, 0)
        if len(projs) == 2 and r.random() < 0.5:   # the same helpers, imported at another line
            a, b = projs["pa"], projs["pb"]
            b["files"] = {f.replace("pa/", "pb/"): ("\n" * 3 + t if f.endswith("contract.py") else t) for f, t in a["files"].items()}
            b["kind"], b["line"] = a["kind"], a["line"] + 3
        for p in projs.values():
            files.update(p["files"])
        for j in range(r.randrange(5, 11)):
            k = r.random()
            if k < 0.25 and projs:
                p = r.choice(sorted(projs))
                ops.append({"op": "build", "file": f"{p}/contract.py", "level": r.choice([None, 0, 1, 2, 3]), "proj": {"kind": projs[p]["kind"], "line": projs[p]["line"]}})
            elif k < 0.35 and ops:
                ops.append(dict(r.choice(ops)))
            elif k < 0.5:
                o = diag_op(r, 0, j)
                o["cut"] = r.randrange(1, 4000)
                if o["op"] == "cli":
                    o["op"] = "compile"
                    o["filename"] = "cut.py"
                ops.append(o)
                if r.random() < 0.5:
                    o = dict(o)
                    del o["cut"]
                    ops.append(o)
            else:
                ops.append(diag_op(r, 0, j))
        return {"kind": "session", "ops": ops, "world": files, "flavour": {"hashseed": 0}}

    def threads(self, r):
        nt = r.choice([2, 2, 2, 3])
        same = diag_op(r, 9, 0, True) if r.random() < 0.3 else None
        ths = []
        for t in range(nt):
            ops = [diag_op(r, t, j, True) for j in range(r.choice([1, 1, 2]))]
            if same and r.random() < 0.6:
                o = dict(same)
                if o["op"] == "build":
                    o["file"] = f"same{t}.py"
                ops.append(o)
            ths.append(ops)
        return {"kind": "threads", "threads": ths, "world": {}, "flavour": {"hashseed": 0, "threads": 1}, "strategy": r.choice(["meet", "meet", "rare", "pct", "quanta", "lockstep"]), "sseed": r.randrange(2 ** 31),
                "opfiles": r.sample(FILES, r.choice([0, 1, 3])) + ["util.py"], "deps": r.random() < 0.4, "contracts": []}

    def shrink_paths(self, s):
        if s["kind"] == "session":
            return [["ops"]]
        return [["threads"], *[["threads", i] for i in range(len(s["threads"]))], *([["schedule"]] if "schedule" in s else [])]

    def fixup(self, s):
        return s if s.get("ops") or s.get("threads") else None


def CHECK(tier, seed):
    return C14(tier, seed)


# ------------------------------------------------------------------ worker side

def raw_call(fn):
    """Outcome including the whole position of an error."""
    from .. import sim
    from opshin.util import CompilerError
    try:
        v = fn()
    except sim.SimCrash:
        raise
    except BaseException as e:
        out = sim.err_digest(e)
        if isinstance(e, CompilerError):
            out.append([getattr(e.node, a, None) for a in ("lineno", "col_offset", "end_lineno", "end_col_offset")] + [type(e.node).__name__])
        return out
    return ["ok", sim.digest(v)]


def run_op(op0):
    from .. import sim, ops
    import os
    op = ops.absolutize(op0)
    if op["op"] == "compile":
        def go():
            from opshin import builder, compiler
            tree = compiler.parse(op0["src"], filename=op.get("filename"))
            return builder.compile(tree, contract_filename=op.get("filename"), config=sim.config({}, op.get("level")))
    elif op["op"] == "build":
        if "src" in op0:
            with sim.REAL.open(os.path.join(sim.RUN["w"], op0["file"]), "w", encoding="utf-8") as f:
                f.write(op0["src"])

        def go():
            from opshin import builder
            return builder.build(os.path.join(sim.RUN["w"], op0["file"]), config=sim.config({}, op.get("level")))
    else:
        with sim.REAL.open(os.path.join(sim.RUN["w"], op0["file"]), "w", encoding="utf-8") as f:
            f.write(op0["src"])
        argv = [op0["cmd"], "@W/" + op0["file"], "--lib", "validator", "-O%d" % (op0["level"] or 0)] + (["--output-format-json"] if op0.get("json") else [])
        return ops.op_cli(ops.absolutize({"op": "cli", "argv": argv}))
    if op0.get("cut"):
        with sim.TracePoints(at=op0["cut"], line_files=("util.py",)) as tp:
            res = raw_call(go)
        return ["cut"] if tp.fired else res
    return raw_call(go)


def recorder():
    """Log records as the library's handler would emit them; by thread when threads are simulated."""
    from opshin.util import OPSHIN_LOG_HANDLER
    from .. import simthreads, sim
    out = {}
    orig = OPSHIN_LOG_HANDLER.emit

    def emit(record):
        sch = simthreads.CUR["sched"]
        key = (sch.me(), sch.opidx_of()) if sch else "seq"
        out.setdefault(key, []).append([record.levelname, sim.mask(record.getMessage()), record.lineno, record.col_offset, record.end_lineno, record.end_col_offset])
        if sch is None:
            orig(record)
    OPSHIN_LOG_HANDLER.emit = emit
    return out


def session_step(op, rec):
    rec.pop("seq", None)
    res = run_op(op)
    return [res, rec.pop("seq", [])]


def fresh_step(arg):
    import os
    os.chdir(arg["cwd"])
    rec = recorder()
    return session_step({k: v for k, v in arg["op"].items() if k != "cut"}, rec)


def spans(src):
    import ast
    return {(n.lineno, n.col_offset, n.end_lineno, n.end_col_offset) for n in ast.walk(ast.parse(src)) if hasattr(n, "lineno")}


def segment_may_be(src, rec, value):
    """False if the expressions at this place certainly have another value."""
    import ast
    seen = False
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.stmt) and (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset) == tuple(rec[2:6]):
            seen = True
        if isinstance(n, ast.expr) and (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset) == tuple(rec[2:6]):
            try:
                if repr(eval(compile(ast.Expression(n), "e", "eval"), {})) == value:
                    return True
            except Exception:
                return True
            seen = True
    return not seen


HEXD = b"0123456789abcdefABCDEF"


def judge(op, res, recs):
    """Checks of one call against the planted diagnostics; returns a violation class or None, and detail."""
    import ast, re, json
    info = op.get("info")
    lv = op.get("level")
    if op.get("proj"):
        p = op["proj"]
        if p["kind"] == "error":
            if res[0] != "err":
                return None, None
            if res[4] != p["line"]:
                return "an error in an imported file is not reported at the import", {"reported": res, "import at line": p["line"]}
        for rec in recs:
            if rec[2] != p["line"] and "hex" in rec[1]:
                return "a warning about an imported file is not reported at the import", {"record": rec, "import at line": p["line"]}
        return None, None
    src = op["src"]
    sp = spans(src)
    if op["op"] == "cli":
        st, out, err = res[1], res[2], res[4]
        path = "<W>/" + op["file"]
        lines = [l for l in out.split("\n") if l.strip()]
        if op["cmd"] == "lint":
            errs = []
            for l in lines:
                if op["json"]:
                    if l.startswith("["):
                        e = json.loads(l)[0]
                        errs.append((e["line"], e["column"], l))
                    continue
                m = re.match(r"^(.*?):(\w+):(\w+): ?(\w+): ", l)
                if not m:
                    continue
                if not m[1].endswith(op["file"]):
                    return "lint names another file", {"line": l, "file": op["file"]}
                if m[4] != "WARNING":
                    errs.append((int(m[2]) if m[2].isdigit() else None, int(m[3]) if m[3].isdigit() else None, l))
            got = errs[-1] if errs else None
        else:
            got = (st[3], st[4], st) if st[0] == "err" and st[1] == "SyntaxError" else None
            if st[0] == "err" and st[1] != "SyntaxError":
                return "a rejected program is reported without position", {"status": st}
        if got and info["line"]:
            if got[0] != info["line"]:
                return "an error is reported at another line", {"reported": got, "planted": info["line"]}
            c = info.get("col")
            if c is not None and "Could not import" not in str(got[2]):
                cc = len(src.split("\n")[info["line"] - 1].encode()[:c].decode())
                if got[1] != cc:
                    return "an error is reported at another column", {"reported": got, "planted": [info["line"], cc]}
    elif res[0] == "err":
        if res[1] != "CompilerError":
            return "a rejected program is reported without position", {"result": res}
        pos = res[-1]
        if pos[4] != "Module":
            if pos[0] is None:
                return "a rejected program is reported without position", {"result": res}
            if tuple(pos[:4]) not in sp:
                return "an error is reported at a place that is no expression or statement of the program", {"result": res}
        if info["line"]:
            if pos[0] != info["line"]:
                return "an error is reported at another line", {"reported": res, "planted": info["line"]}
            if info.get("col") is not None and pos[1] != info["col"]:
                return "an error is reported at another column", {"reported": res, "planted": [info["line"], info["col"]]}
    for rec in recs:
        if tuple(rec[2:6]) not in sp:
            return "a log message refers to a place that is no expression or statement of the program", {"record": rec}
        for l, word in info["warn"]:
            if word in rec[1] and rec[2] != l:
                return "a warning is reported at another line", {"record": rec, "planted": l}
        m = re.match(r"The string (b'\w+') looks", rec[1])
        if m and not segment_may_be(src, rec, m[1]):
            return "a warning about a constant is reported at an expression with another value", {"record": rec}
    ok = res[0] == "ok" or (op["op"] == "cli" and op["cmd"] != "lint" and res[1][:2] == ["exit", 0])
    got = {(x[2], x[3]) for x in recs if "hex-encoded" in x[1]}
    eff = lv if lv is not None else 2
    if op["op"] == "cli":
        eff = lv or 0
    if (eff == 0 and ok and recs) or got:
        hexs = {(n.lineno, n.col_offset): n.value for n in ast.walk(ast.parse(src)) if isinstance(n, ast.Constant) and isinstance(n.value, bytes) and n.value and len(n.value) % 2 == 0 and all(ch in HEXD for ch in n.value)}
        if eff <= 1 and got - set(hexs):
            return "a warning about a constant is reported where no such constant is", {"reported": sorted(got - set(hexs))}
        if eff == 0 and ok and got and got != set(hexs):
            return "warnings about constants are missing", {"missing": sorted(set(hexs) - got)}
    return None, None


def execute(s):
    return exec_session(s) if s["kind"] == "session" else exec_threads(s)


def short(op):
    return {k: (v if len(str(v)) < 1500 else str(v)[:1500]) for k, v in op.items()}


def exec_session(s):
    import os
    from .. import sim, ops
    fresh = sim.Fresh()
    sim.write_tree(sim.RUN["w"], s["world"])
    rec = recorder()
    viol, trace, nontriv, st, faults = [], [], [], {"evaluations": 0, "errors": 0, "records": 0, "planted": 0}, {}
    seen_src, prev = set(), []
    for j, op in enumerate(s["ops"]):
        before = sim.process_state() if op.get("cut") else None
        got = session_step(op, rec)
        trace.append([op["op"], op.get("level"), got])
        if got[0] == ["cut"]:
            faults["interrupt"] = faults.get("interrupt", 0) + 1
            prev.append("cut")
            continue
        st["evaluations"] += 1
        exp = fresh.ask("dst.checks.c14", "fresh_step", {"op": op, "cwd": os.getcwd()})
        key = sim.sha(repr([op.get("src"), op.get("file") if op.get("proj") else None, op["op"] == "cli"]).encode())
        cached = key in seen_src and got[0][0] == "ok"
        seen_src.add(key)
        v = None
        if got[0] != exp[0] and not (op["op"] == "cli" and got[0][:2] == exp[0][:2] and cached):
            v = ("a diagnostic differs from the one of a fresh process", {"session": got[0], "fresh": exp[0]})
        elif not cached and got[1] != exp[1]:
            v = ("log messages differ from those of a fresh process", {"session": got[1], "fresh": exp[1]})
        elif cached and any(x not in exp[1] for x in got[1]):
            v = ("log messages differ from those of a fresh process", {"session": got[1], "fresh": exp[1]})
        if v is None:
            c, d = judge(op, got[0], got[1])
            v = (c, d) if c else None
        e = got[0][0] == "err" or (got[0][0] == "cli" and got[0][1][0] == "err") or (op["op"] == "cli" and op["cmd"] == "lint" and ":" in got[0][2])
        st["errors"] += bool(e)
        st["records"] += len(got[1])
        st["planted"] += bool(op.get("info", {}).get("line"))
        if prev and (e or got[1]):
            nontriv.append(sim.sha(repr([op, prev[-3:]]).encode()))
        prev.append([op["op"], op.get("level"), got[0][0]])
        if v:
            viol.append({"class": v[0], "signature": "c14:" + sim.sha(repr([op, v[0]]).encode()), "detail": {"op": short(op), "step": j, **v[1]}})
            break
    return {"violations": viol, "stats": st, "nontrivial": nontriv, "states": [sim.sha(repr(prev).encode())], "faults": faults, "probes": {}, "trace": trace, "trace_hash": sim.sha(repr(trace).encode()), "summary": {"ops": len(s["ops"])}}


def runner(threads, t):
    import json
    from .. import simthreads

    def run():
        out = []
        for j, op in enumerate(threads[t]):
            simthreads.CUR["sched"].opidx = j
            OPIDX[t] = j
            out.append(run_op(op))
        return json.loads(json.dumps(out))
    return run


OPIDX = {}


def alone(arg):
    import os
    from .. import sim, simthreads
    os.chdir(arg["cwd"])
    s, t = arg["s"], arg["t"]
    simthreads.SimThreads.opidx_of = lambda self: OPIDX.get(t)
    logs = recorder()
    st = simthreads.SimThreads([runner(s["threads"], t)], [], s["opfiles"], s["deps"], record=True)
    res = st.run()
    rares = st.rare if len(st.rare) < 4000 else st.rare[:: len(st.rare) // 4000 + 1]
    return {"res": res[0], "steps": st.steps[0], "rare": rares, "spans": {f"{j}:{k[len(st.base):]}": v for (j, k), v in st.spans.items() if k.startswith(st.base)}, "logs": [logs.get((0, j), []) for j in range(len(s["threads"][t]))]}


def exec_threads(s):
    import os, random
    from .. import sim, simthreads
    fresh = sim.Fresh()
    exp = [fresh.ask("dst.checks.c14", "alone", {"s": {k: v for k, v in s.items() if k not in ("world", "schedule")}, "t": t, "cwd": os.getcwd()}) for t in range(len(s["threads"]))]
    for e in exp:
        if not isinstance(e["res"], list) or e["res"][:1] == ["harness"]:
            raise RuntimeError("alone: " + str(e["res"]))
    sched = s.get("schedule")
    if sched is None:
        sched = simthreads.make_schedule(random.Random(s["sseed"]), [e["steps"] for e in exp], [e["rare"] for e in exp], [e["spans"] for e in exp], s["strategy"])
    simthreads.SimThreads.opidx_of = lambda self: OPIDX.get(self.me())
    logs = recorder()
    st = simthreads.SimThreads([runner(s["threads"], t) for t in range(len(s["threads"]))], sched, s["opfiles"], s["deps"])
    got = st.run()
    viol, nontriv = [], []
    stats = {"evaluations": sum(map(len, s["threads"])), "errors": 0, "records": sum(map(len, logs.values())), "planted": 0, "hand_overs": len(st.switches)}
    inter = sim.sha(repr([s["threads"], [(a, b) for a, b, _ in st.switches]]).encode())
    seen = []
    if st.deadlock is not None:
        viol.append({"class": "concurrent calls block each other forever", "signature": "deadlock", "detail": {"waiting": st.deadlock}})
    for t, e in enumerate(exp):
        for j, op in enumerate(s["threads"][t]):
            if viol:
                break
            g = got[t][j] if isinstance(got[t], list) and len(got[t]) > j else got[t]
            lg = logs.get((t, j), [])
            dup = sum(o.get("src") == op["src"] for th in s["threads"] for o in th) > 1
            v = None
            if g != e["res"][j]:
                v = ("a diagnostic differs when other threads are compiling", {"concurrent": g, "alone": e["res"][j]})
            elif lg != e["logs"][j] and not (dup and all(x in e["logs"][j] for x in lg)):
                v = ("log messages differ when other threads are compiling", {"concurrent": lg, "alone": e["logs"][j]})
            else:
                c, d = judge(op, g, lg)
                v = (c, d) if c else None
            stats["errors"] += g[0] == "err"
            stats["planted"] += bool(op["info"]["line"])
            if (g[0] == "err" or lg) and len(st.switches) > len(s["threads"]):
                nontriv.append(sim.sha(repr([inter, t, j]).encode()))
            if v:
                viol.append({"class": v[0], "signature": "c14t:" + sim.sha(repr([op, v[0]]).encode()), "detail": {"thread": t, "op": short(op), **v[1]}})
    res = {"violations": viol, "stats": stats, "nontrivial": nontriv, "states": [inter], "faults": {"preemption:" + s["strategy"]: len(st.switches)}, "probes": {}, "trace": [got, len(st.switches)],
           "trace_hash": sim.sha(repr([got, st.switches, st.steps, sorted(map(repr, logs.items()))]).encode()), "summary": {"threads": len(s["threads"]), "hand_overs": len(st.switches)}}
    if viol:
        res["explicit"] = {"schedule": sched}
    return res
