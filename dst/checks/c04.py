"""C04: an aborted compile or build surfaces its failure and leaves no trace."""
from ..core import Check, rng
from .. import gen
from .c02 import C02

IO = {"EIO", "EACCES", "EMFILE", "ENOENT", "INTR", "NOMEM", "ENOSPC", "EROFS", "short", "EINTR_ok"}


class C04(Check):
    id = "C04"
    rule = ("A case is one API call aborted by an injected fault (I/O error, vanishing file, interrupt or memory exhaustion at a numbered execution point), or one later "
            "call of the same session, compared with a process that never saw the fault.  Non-trivial: the fault fired or an aborted call precedes; distinct by "
            "(operation, fault kind, faulted function and line or I/O event) and by (operation, aborted operations before it).")
    real = C02.real
    stub = ["raw file operations below the scratch root (SimDisk)", "delivery of interrupts and memory errors (raised at a numbered function entry or line of the code under test)", "terminal streams"]
    assumptions = ["A fork of an interpreter that has imported opshin and done nothing else counts as a process that never saw the failure.",
                   "Interrupts strike at function entries (and at line starts in the files that do I/O); interrupts inside the Python standard library or inside pluthon/uplc are not injected."]

    def scenarios(self):
        n = 130 if self.quick else 2600
        base = C02(self.tier, self.seed)
        for i in range(n):
            r = rng(self.seed, "C04", i)
            kind = r.choice(["corpus", "projects", "projects", "mixed", "artifacts"])
            ops = getattr(base, "s_" + kind)(r, i)["ops"]
            ops = ops[: r.randrange(8, 18)] if kind != "projects" else ops[:22]
            out = []
            for op in ops:
                out.append(op)
                if op["op"] in ("compile", "build", "buildsrc", "dump", "dumpc", "load", "apply", "cli") and r.random() < 0.55:
                    f = {"plan": r.choice(["point", "point", "point", "io", "io", "vanish"]), "exc": r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]),
                         "frac": r.random(), "early": r.random() < 0.25, "seed": r.randrange(2 ** 31)}
                    if op["op"] == "compile":
                        f["plan"] = "point" if "src" not in op or "import" not in op["src"] else f["plan"]
                    out[-1] = dict(op, fault=f)
                    if r.random() < 0.8:
                        out.append(op)  # retry
            yield {"ops": out, "kind": kind}

    def shrink_paths(self, s):
        return [["ops"]]

    def simplify(self, s):
        for i, op in enumerate(s["ops"]):
            if "fault" in op:
                o = dict(op)
                del o["fault"]
                yield dict(s, ops=s["ops"][:i] + [o] + s["ops"][i + 1:])


def CHECK(tier, seed):
    return C04(tier, seed)


def abort_run(disk, tp, fn):
    import contextlib
    from .. import sim
    sim.RUN["defer"] = True
    try:
        with disk:
            with tp if tp is not None else contextlib.nullcontext():
                got = fn()
    finally:
        sim.RUN["defer"] = False
    return sim.ok(got.v) if isinstance(got, sim.Deferred) else got


def execute(s):
    import json, os, random
    from .. import sim, ops
    from .c05 import restore
    fresh = sim.Fresh()
    stats = {"evaluations": 0, "aborted": 0, "world_ops": 0, "points": 0, "not_reached": 0}
    faults, probes, trace, nontriv, viol = {}, {}, [], [], []
    aborted = []
    EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
    explicit = []
    root = sim.RUN["root"]
    for i, op0 in enumerate(s["ops"]):
        f = op0.get("fault")
        opx = {k: v for k, v in op0.items() if k != "fault"}
        op = ops.absolutize(opx)
        explicit.append(op0)
        if op["op"] in ops.WORLD:
            try:
                ops.WORLD[op["op"]](op)
            except OSError:
                pass
            stats["world_ops"] += 1
            continue
        if op["op"] == "buildsrc":
            with sim.REAL.open(op["file"], "w") as fp:
                fp.write(ops.src_of(op))
        redirect = None
        if op["op"] in ("dump", "dumpc", "cli"):
            redirect = [op.get("dir") or op.get("outdir") or "\0", os.path.join(root, f"ref{i}")]
        exp = fresh.ask("dst.ops", "fresh_exec", {"op": op, "cwd": os.getcwd(), "redirect": redirect})
        if redirect:
            sim.RUN["mask"] = [redirect[0]]
        before = sim.process_state()
        short = {k: (v if len(str(v)) < 400 else str(v)[:400]) for k, v in opx.items()}
        call = (lambda: ops.op_build(op)) if op["op"] == "buildsrc" else (lambda: ops.API[op["op"]](op))
        if f is None:
            got = json.loads(json.dumps(call()))
            fired, where = False, None
        else:
            snap = sim.read_tree(root)

            def dry():
                d, tp = sim.SimDisk(root), sim.TracePoints() if f["plan"] == "point" else None
                abort_run(d, tp, call)
                return [d.log, tp.n if tp else 0]
            log, npoints = sim.in_child(dry)
            restore(root, snap)
            stats["points"] += npoints
            fl, at, vanish = [], None, None
            r = random.Random(f["seed"])
            if f["plan"] == "point":
                at = f.get("at", int(npoints * (f["frac"] * (0.1 if f["early"] else 1))))
            elif f["plan"] == "io":
                fl = f["faults"] if "faults" in f else sim.choose_faults(log, r, 1, IO, benign=0.1)
            else:
                reads = [e for e in log if e[1] in ("open_r", "read")]
                if reads:
                    e = reads[int(f["frac"] * len(reads))]
                    vanish = e[0]
            explicit[-1] = dict(op0, fault=dict(f, **({"at": at} if at is not None else {}), **({"faults": fl} if f["plan"] == "io" else {})))
            disk = sim.SimDisk(root, fl)
            gone = []
            if vanish is not None:
                def hook(k, o, rel, vanish=vanish):
                    if k == vanish and o in ("open_r", "read"):
                        p = os.path.join(root, rel)
                        if os.path.isfile(p):
                            with sim.REAL.open(p, "rb") as fp:
                                gone.append((p, fp.read()))
                            sim.REAL.os["unlink"](p)
                disk.hook = hook
            tp = sim.TracePoints(at, EXC[f["exc"]]) if at is not None else None
            try:
                got = abort_run(disk, tp, call)
            except KeyboardInterrupt as e:  # struck in the harness's own frame around the call
                got = sim.err_digest(e)
            for p, b in gone:
                if not os.path.isdir(os.path.dirname(p)) or "/tmp/" in p[len(root):]:
                    continue  # a temporary directory that is rightly gone
                with sim.REAL.open(p, "wb") as fp:
                    fp.write(b)
            got = json.loads(json.dumps(got))
            hard_io = {k: v for k, v in disk.fired.items() if k.split(":")[0] not in sim.BENIGN}
            fired = bool(hard_io) or bool(tp and tp.fired) or bool(gone)
            where = tp.where if tp and tp.fired else [e[1:3] for e in disk.log if e[0] in [x["at"] for x in fl]] or (["vanish", sim.mask(gone[0][0])] if gone else None)
            for a, b in disk.fired.items():
                faults[a] = faults.get(a, 0) + b
            if tp and tp.fired:
                k = f["exc"] + ":" + tp.where[0].split("/")[-1]
                faults[k] = faults.get(k, 0) + 1
            if gone:
                faults["vanish:file"] = faults.get("vanish:file", 0) + 1
            if not fired:
                stats["not_reached"] += 1
        stats["evaluations"] += 1
        sim.RUN["mask"] = []
        after = sim.process_state()
        trace.append([i, op["op"], exp, got == exp, fired, where])
        ok = got[0] == "ok" or (got[0] == "cli" and got[1] == ["exit", 0] and "lint" not in opx.get("argv", []))
        if fired:
            stats["aborted"] += 1
            nontriv.append(sim.sha(repr([short, f["plan"], f["exc"], where]).encode()))
            # removing a file that was opened already, or cleaning up temporary files, need not fail
            tolerable = (gone and got == exp) or (f["plan"] == "io" and all(k.split(":")[1] in ("unlink", "rmdir", "list", "mkdir") for k in hard_io) and got == exp)
            if ok and not tolerable:
                viol.append({"class": "a call returns a result although it was cut short", "signature": "swallow:" + sim.sha(repr([opx, where]).encode()),
                             "detail": {"step": i, "op": short, "fault": f["plan"], "exc": f["exc"], "struck_at": where, "result": got, "clean_result": exp}})
            elif not ok:
                aborted.append([op["op"], where])
                if got[0] == "err" and f["plan"] == "point":
                    names = [got[1], got[2] if got[1] == "CompilerError" else ""]
                    if f["exc"] not in names and not (got[1] == "SyntaxError" and f["exc"] == "MemoryError"):
                        probes["failure surfaced as another exception"] = probes.get("failure surfaced as another exception", 0) + 1
        elif got != exp:
            viol.append({"class": "after an aborted call another call gives a different result" if aborted else "outcome depends on session history", "signature": "after:" + sim.sha(repr([opx, got[:2], exp[:2]]).encode()),
                         "detail": {"step": i, "op": short, "aborted_before": aborted[-3:], "clean_process": exp, "in_session": got}})
        else:
            if aborted:
                nontriv.append(sim.sha(repr([short, aborted[-2:]]).encode()))
        d = sim.state_diff(before, after)
        if op["op"] == "cli":
            d.pop("recursion_limit", None)
            d.pop("log", None)
        if d:
            viol.append({"class": f"an aborted call leaves process state changed: {sorted(d)}" if fired else f"a call leaves process state changed: {sorted(d)}", "signature": "state:" + sim.sha(repr([opx, sorted(d), where]).encode()),
                         "detail": {"step": i, "op": short, "struck_at": where, "changed": d}})
        if fired and op["op"] in ("dump", "dumpc"):
            restore(root, snap)
        if viol:
            break
    return {"violations": viol, "stats": stats, "probes": probes, "faults": faults, "nontrivial": nontriv, "states": nontriv, "trace": trace,
            "trace_hash": sim.sha(repr(trace).encode()), "summary": {"ops": len(s["ops"]), "aborted": stats["aborted"], "kind": s["kind"]},
            "explicit": {"ops": explicit + s["ops"][len(explicit):]}}
