"""C05: a successful artifact write means every artifact is completely on disk."""
from ..core import Check, rng
from .. import contracts

ALLOW = {"ENOSPC", "EIO", "EACCES", "EROFS", "EMFILE", "EDQUOT", "short", "EINTR_ok", "INTR", "ENOENT"}


class C05(Check):
    id = "C05"
    rule = ("A case is one artifact write (library dump or build command) with its fault plan; if the write reports success the directory is compared with "
            "an independently computed expectation (hashes and addresses recomputed from the script bytes). Non-trivial: at least one fault fired; distinct by "
            "(entry point, state of the target, event and kind of each fired fault).")
    real = ["opshin.builder (build, PlutusContract.dump, properties)", "opshin.__main__ build command", "compiler and all passes", "CPython io.BufferedWriter/TextIOWrapper over the simulated raw file", "real files in a scratch directory"]
    stub = ["raw file operations below the scratch root (SimDisk: numbered events, injected errors, short writes)", "terminal streams"]
    assumptions = ["Storage failures are reported to the process by the failing system call (open, write, close, mkdir); a device that loses acknowledged data is covered by C06."]

    def scenarios(self):
        n = 260 if self.quick else 4000
        for i in range(n):
            r = rng(self.seed, "C05", i)
            ks = [contracts.contract_spec(r) for _ in range(r.randrange(1, 4))]
            steps = []
            for _ in range(r.randrange(3, 9)):
                steps.append({"c": r.randrange(len(ks)), "dir": r.choice(["out", "out", "out", "a/b/c", "occupied", "out2", "withfile"]),
                              "nfaults": r.choice([0, 1, 1, 1, 1, 2, 3]), "seed": r.randrange(2 ** 31), "path": r.random() < 0.5, "how": "dump",
                              "chdir": r.random() < 0.2})
            if i % 6 == 0:
                for st in r.sample(steps, 1):
                    st["how"] = "cli"
            yield {"contracts": ks, "steps": steps}

    def shrink_paths(self, s):
        return [["steps"]] + [["steps", i, "faults"] for i, st in enumerate(s["steps"]) if "faults" in st]

    def simplify(self, s):
        for i, c in enumerate(s["contracts"]):
            for k in ("pad",):
                if c[k]:
                    t = dict(s, contracts=[dict(x) for x in s["contracts"]])
                    t["contracts"][i][k] = 0
                    yield t


def CHECK(tier, seed):
    return C05(tier, seed)


def execute(s):
    import json, os, pathlib, random
    from .. import sim
    from .c10 import run_cli
    stats = {"evaluations": 0, "reported_failures": 0, "successes": 0, "io_events": 0}
    faults, probes, trace, nontriv, viol = {}, {}, [], [], []
    W = sim.RUN["w"]
    real = {}

    def contract(i):
        if i not in real:
            real[i] = contracts.realise(s["contracts"][i])
        return real[i]

    sim.write_tree(W, {"occupied": "a file where the directory should be\n", "withfile/notes.txt": "keep me\n", "withfile/sub/x.json": "{}",
                       "outside.txt": "untouched", "other/contract.py": "# not ours\n"})
    explicit = []
    for n, st in enumerate(s["steps"]):
        k = contract(st["c"])
        target = os.path.join(W, st["dir"])
        if st["chdir"]:
            os.chdir(W)
            arg = st["dir"]
        else:
            arg = target
        arg = pathlib.Path(arg) if st["path"] else arg
        if st["how"] == "cli":
            srcf = os.path.join(sim.RUN["root"], f"cli_{st['c']}.py")
            with sim.REAL.open(srcf, "w", encoding="utf-8") as f:
                f.write(contracts.cli_source(s["contracts"][st["c"]]))
            argv = ["build", srcf, "-o", str(arg), "--parameters", str(len(s["contracts"][st["c"]]["ptypes"]))]

            def op():
                code, out, err = run_cli(argv)
                if code != 0:
                    raise RuntimeError("exit " + str(code))
        else:
            def op():
                k.dump(arg)
        order = random.Random(st["seed"])

        def dry():
            d = sim.SimDisk(sim.RUN["root"])
            with d:
                try:
                    op()
                    ok = True
                except Exception as e:
                    ok = repr(e)
            files = {}
            if st["how"] == "cli" and ok is True:
                files = {"script.cbor": sim.REAL.open(os.path.join(target, "script.cbor")).read()}
            return [d.log, ok, files]
        import copy
        snap = sim.read_tree(sim.RUN["root"])
        log, ok0, files0 = sim.in_child(dry)
        # the dry run wrote into the shared scratch world: put it back
        restore(sim.RUN["root"], snap)
        if ok0 is not True and st["dir"] != "occupied":
            viol.append({"class": "artifact write fails without any fault", "signature": "nofault:" + st["how"], "detail": {"step": n, "error": ok0, "dir": st["dir"]}})
            break
        fl = st.get("faults")
        if fl is None:
            fl = sim.choose_faults(log, order, st["nfaults"], ALLOW)
        explicit.append(dict(st, faults=fl))
        disk = sim.SimDisk(sim.RUN["root"], fl)
        with disk:
            try:
                op()
                res = ["ok"]
            except sim.SimCrash as e:
                res = ["crash"]
            except BaseException as e:
                res = ["err", type(e).__name__]
        stats["evaluations"] += 1
        stats["io_events"] += disk.n
        for a, b in disk.fired.items():
            faults[a] = faults.get(a, 0) + b
        trace.append([n, st["how"], st["dir"], fl, res, [[e[1], e[2]] for e in disk.log]])
        if disk.fired:
            nontriv.append(sim.sha(repr([st["how"], st["dir"], [(f["kind"], disk.log[f["at"]][1:3] if f["at"] < len(disk.log) else None) for f in fl]]).encode()))
        where = {"step": n, "how": st["how"], "dir": st["dir"], "faults": fl, "events": [[e[0], e[1], e[2]] for e in disk.log if e[0] in [f["at"] for f in fl]]}
        after = sim.read_tree(sim.RUN["root"])
        inside = os.path.relpath(target, sim.RUN["root"]) + "/"
        allowed_new = {inside} | {p + "/" for p in parents(inside)}
        moved = [p for p in set(snap) | set(after) if snap.get(p) != after.get(p)
                 and not (p.startswith(inside) and p[len(inside):] in contracts.ARTIFACTS) and not (p in allowed_new and p not in snap)]
        moved = [p for p in moved if not p.startswith("tmp/")]
        stray = [p for p in after if p.startswith(inside) and p not in snap and p[len(inside):] not in contracts.ARTIFACTS + [""]]
        if st["dir"] == "occupied":
            moved = [p for p in moved if not p.startswith(inside)]
        if res[0] == "ok":
            moved += stray
        else:
            moved = [p for p in moved if p not in stray]
        if disk.escapes or moved:
            viol.append({"class": "artifact write touches files outside the artifacts of the target directory", "signature": "outside",
                         "detail": {**where, "changed": sorted(moved)[:5], "escapes": disk.escapes[:5]}})
            break
        if res[0] == "ok":
            stats["successes"] += 1
            if disk.fired and any(f["kind"] not in sim.BENIGN for f in fl if f["at"] < disk.n):
                probes["success although a hard fault fired"] = probes.get("success although a hard fault fired", 0) + 1
            if st["how"] == "cli":
                prob = contracts.check_dir(target, bytes.fromhex(files0["script.cbor"]), {"title": os.path.basename(srcf)[:-3]})
            else:
                prob = contracts.check_dir(target, bytes(k.contract), s["contracts"][st["c"]], json.loads(json.dumps(k.blueprint)))
            if prob:
                viol.append({"class": "write reported success but artifacts are missing, incomplete or inconsistent",
                             "signature": "success:" + sim.sha(repr(sorted(prob)).encode()), "detail": {**where, "problems": prob}})
                break
        else:
            stats["reported_failures"] += 1
            if not disk.fired and st["dir"] != "occupied":
                viol.append({"class": "artifact write fails without any fault", "signature": "nofault2:" + st["how"], "detail": {**where, "res": res}})
                break
            probes["write that failed after some artifacts were written"] = probes.get("write that failed after some artifacts were written", 0) + (len(set(disk.opened_write)) > 1)
        if st["dir"] == "occupied" and res[0] == "ok":
            viol.append({"class": "write reported success but artifacts are missing, incomplete or inconsistent", "signature": "occupied", "detail": where})
            break
    return {"violations": viol, "stats": stats, "probes": probes, "faults": faults, "nontrivial": nontriv,
            "states": [sim.sha(repr(t[3:]).encode()) for t in trace], "trace": trace, "trace_hash": sim.sha(repr(trace).encode()),
            "summary": {"steps": [t[:5] for t in trace]}, "explicit": {"steps": explicit + s["steps"][len(explicit):]}}


def parents(p):
    import os
    p = p.rstrip("/")
    out = []
    while os.path.dirname(p):
        p = os.path.dirname(p)
        out.append(p)
    return out


def restore(root, snap):
    """Puts the scratch world back to a snapshot taken with read_tree."""
    import os, shutil
    from .. import sim
    now = sim.read_tree(root)
    for p in sorted(now, key=len, reverse=True):
        if p not in snap:
            q = os.path.join(root, p)
            if p.endswith("/"):
                shutil.rmtree(q, ignore_errors=True)
            elif os.path.exists(q):
                os.unlink(q)
    for p, b in snap.items():
        q = os.path.join(root, p)
        if p.endswith("/"):
            os.makedirs(q, exist_ok=True)
    for p, b in snap.items():
        if not p.endswith("/") and now.get(p) != b:
            os.makedirs(os.path.dirname(os.path.join(root, p)), exist_ok=True)
            with sim.REAL.open(os.path.join(root, p), "wb") as f:
                f.write(b)
