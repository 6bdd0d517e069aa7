"""C01: builds are reproducible: one source, one result, whatever the runtime chooses."""
import json
from ..core import Check, rng, jhash
from .. import gen, contracts

REF = {"flavour": {"hashseed": 0, "clock": 1}, "p": {}}


class C01(Check):
    id = "C01"
    rule = ("A case is one unit (program or project, entry point, settings, operation) compiled in two processes that differ in every choice the source does not fix; the artifacts, outputs or "
            "rejections are compared byte for byte.  Non-trivial: at least one simulated choice was consulted during the run (a set order was drawn, the clock was read, a directory was listed, names "
            "were hashed under another seed); distinct by (unit, perturbation).")
    real = ["opshin (all of it)", "pluthon", "uplc", "pycardano", "CPython with several hash seeds and locales", "real files in a scratch directory"]
    stub = ["iteration order of sets in opshin's modules (drawn from the seed where hashes differ between processes)", "id() and hash() of objects in opshin's modules (salted)", "clock, process id, host name",
            "entropy and temporary names", "order in which directories are listed"]
    assumptions = ["Interpreter options that change the language (-O, warnings as errors) are not varied.", "The stack depth at which the library is called is the same on both sides."]

    def perturbation(self, r):
        ascii_ = r.random() < 0.15
        fl = {"hashseed": r.choice([1, 2, 3, 4, 5, 6]) if not ascii_ else 7, "clock": 1}
        fl["junk"] = fl["simset"] = fl["hashseed"]
        if ascii_:
            fl["env"] = {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
        p = {"place": r.choice(["w", "w/a/b/c", "w/with space/x", "w/proj-1.0", "w/lib.d"] + ([] if ascii_ else ["w/Größe"])), "cwd": r.choice(["place", "root", "other", "proj"]), "style": r.choice(["abs", "abs", "rel", "link"]),
             "env": r.choice([{}, {"TZ": "Asia/Tokyo", "LANG": "de_DE.UTF-8"}, {"USER": "root2", "HOME": "@/home", "PYTHONPATH": "/nonexistent"}, {"OPSHIN_DEBUG": "1", "DEBUG": "1", "VERBOSE": "1", "CI": "true", "NO_COLOR": "1"},
                              {"SOURCE_DATE_EPOCH": "1", "XDG_CACHE_HOME": "@/tmp"}, {"PYTHONDONTWRITEBYTECODE": ""}]),
             "clock": r.choice([0, 86399, 951782400, 1_700_000_000, 4_102_444_800]) + r.random() * 1000, "tz": r.choice([0, 3600, -36000]), "pid": r.randrange(2, 99999), "host": r.choice(["alpha", "beta"]),
             "entropy": r.randrange(1, 2 ** 31), "order": r.randrange(1, 2 ** 31), "setseed": r.randrange(1, 2 ** 31), "mtime": r.choice([None, 0, 1_000_000_000, 4_000_000_000]),
             "decoys": r.random() < 0.5, "envsim": r.randrange(1, 2 ** 31), "argv0": r.choice(["opshin", "/usr/bin/opshin", "__main__.py"])}
        return {"flavour": fl, "p": p}

    def unit(self, r):
        k = r.choice([0, 1, 2, 3, 4, 5, 6, 6, 7, 8, 9, 10, 11])
        if k < 3:
            c = gen.corpus()
            i = r.choice([i for i, p in enumerate(c) if p["cost"] < (0.4 if r.random() < 0.9 else 1.5)])
            cfg = dict(c[i]["cfg"] or {})
            if r.random() < 0.5:
                cfg[r.choice(["constant_folding", "remove_dead_code", "expand_union_types", "fast_access_skip", "iterative_unfold_patterns", "wrap_output"])] = r.random() < 0.7
            return {"kind": "corpus", "corpus": i, "vfn": c[i]["vfn"], "cfg": cfg}
        lvl = r.choice([None, None, 0, 1, 2, 3])
        cfg = r.choice([{}, {}, {"constant_folding": True}, {"expand_union_types": True}, {"constant_folding": True, "expand_union_types": True}])
        if k == 3:
            return {"kind": "src", "src": gen.program(r, r.choice([1, 1.5, 2.5])), "level": lvl, "cfg": cfg}
        if k == 4 or k == 5:
            return {"kind": "src", "src": gen.closures(r), "level": lvl, "cfg": cfg}
        if k == 6:
            return {"kind": "src", "src": gen.unions(r), "level": lvl, "cfg": dict(cfg, **({"expand_union_types": True} if r.random() < 0.6 else {}))}
        if k == 7:
            return {"kind": "src", "src": gen.folding(r, "data.txt"), "level": None, "cfg": {"constant_folding": True}}
        if k == 8:
            base = r.choice([lambda: gen.program(r, 1), lambda: gen.closures(r), lambda: gen.unions(r)])()
            return {"kind": "src", "src": gen.mutate(r, base), "level": lvl, "cfg": cfg}
        if k == 9:
            hs = r.sample(gen.HELPERS, r.randrange(1, 4))
            files = {f"{h}.py": gen.helper_src(r, r.randrange(60), f"bonus_{h}", [f"from {x} import *" for x in hs[j + 1:] if r.random() < 0.5]) for j, h in enumerate(hs)}
            if r.random() < 0.2:
                h = r.choice(hs)
                files[f"{h}.py"] = gen.mutate(r, files[f"{h}.py"])
            files["main.py"] = gen.contract_src(r, hs, [f"bonus_{h}" for h in hs])
            return {"kind": "project", "files": files, "level": lvl, "cfg": cfg}
        c = contracts.contract_spec(r)
        if k == 10:
            return {"kind": "contract", "c": c}
        src = contracts.cli_source(c)
        if r.random() < 0.3:
            src = src.replace("'salt'", "'Grö\u00dfe \u2713'")
        argv = r.choice([["build"], ["build"], ["compile"], ["lint"], ["parse"], ["compile_pluto"]])
        return {"kind": "cli", "src": src, "argv": argv + ["@F"] + r.choice([[], ["-O0"], ["-O1"], ["-O3"]]) + (["-o", "@O"] if argv[0] == "build" else [])}

    def scenarios(self):
        n, per, k = (30, 8, 5) if self.quick else (330, 10, 9)
        self.groups = {}
        for i in range(n):
            r = rng(self.seed, "C01", i)
            units = [self.unit(r) for _ in range(per)]
            for j in range(k):
                q = REF if j == 0 else self.perturbation(r)
                yield dict(units=units, flavour=q["flavour"], group=i, p=q["p"], entropy=q["p"].get("entropy", 0), setseed=q["p"].get("setseed"))

    def batch_checks(self, scenarios, results):
        ref = {s["group"]: (s, r) for s, r in zip(scenarios, results) if not s["p"]}
        out = []
        self.compared = 0
        for s, r in zip(scenarios, results):
            if not s["p"] or s["group"] not in ref or "outcomes" not in r or "outcomes" not in ref[s["group"]][1]:
                continue
            for j, (a, b) in enumerate(zip(ref[s["group"]][1]["outcomes"], r["outcomes"])):
                self.compared += 1
                if a != b:
                    sc = {"pair": True, "units": [s["units"][j]], "flavour": {"hashseed": 0, "bare": True}, "alt": {"flavour": s["flavour"], "p": s["p"]}}
                    out.append((sc, violation(s["units"][j], a, b)))
        return out

    def shrink_paths(self, s):
        if s.get("pair") and "src" in s["units"][0]:
            return [["units", 0, "lines"]] if "lines" in s["units"][0] else []
        return []

    def simplify(self, s):
        if not s.get("pair"):
            return
        u = s["units"][0]
        if "src" in u and "lines" not in u:
            yield dict(s, units=[dict({k: v for k, v in u.items() if k != "src"}, lines=u["src"].split("\n"))])
        alt = s["alt"]
        for k in sorted(alt["p"]):
            if k in ("place",):
                if alt["p"][k] != "w":
                    yield dict(s, alt=dict(alt, p=dict(alt["p"], place="w")))
            else:
                p = dict(alt["p"])
                del p[k]
                yield dict(s, alt=dict(alt, p=p))
        for k in ("simset", "junk", "env"):
            if k in alt["flavour"]:
                f = dict(alt["flavour"])
                del f[k]
                yield dict(s, alt=dict(alt, flavour=f))
        if alt["flavour"]["hashseed"] != 0:
            yield dict(s, alt=dict(alt, flavour=dict(alt["flavour"], hashseed=0)))

    def extra_coverage(self, scenarios, results):
        return {"evaluations": self.compared, "distinct_flavours": len({json.dumps(s["flavour"], sort_keys=True) for s in scenarios})}


def violation(u, a, b):
    kind = "result" if a[0] == b[0] == "ok" else "rejection" if a[0] == b[0] == "err" else "outcome"
    return {"class": f"same source, different {kind} ({u['kind']})", "signature": "repro:" + jhash([u, a[:2]]), "detail": {"unit": {k: (v if len(str(v)) < 900 else str(v)[:900]) for k, v in u.items()}, "reference": a, "perturbed": b}}


def CHECK(tier, seed):
    return C01(tier, seed)


# ------------------------------------------------------------------ worker side

def execute(s):
    if s.get("pair"):
        from ..core import Worker
        got = []
        for q in ({"flavour": REF["flavour"], "p": {}}, s["alt"]):
            w = Worker(q["flavour"])
            try:
                r = w.run("C01", {"units": s["units"], "p": q["p"], "entropy": q["p"].get("entropy", 0), "setseed": q["p"].get("setseed")}, 100)
            finally:
                w.close()
            if "outcomes" not in r:
                return {"harness_error": str(r)[:2000]}
            got.append(r["outcomes"][0])
        return {"violations": [violation(s["units"][0], *got)] if got[0] != got[1] else [], "stats": {}, "trace_hash": "pair"}
    import os, random, shutil
    from .. import sim, ops, simclock
    ss = __import__("sys").modules.get("dst.simset")
    p = s["p"]
    simclock.set_world(p)
    root = sim.RUN["root"]
    place = os.path.join(root, p.get("place", "w"))
    os.makedirs(place, exist_ok=True)
    for k, v in p.get("env", {}).items():
        os.environ[k] = v.replace("@", root)
    env_log = []
    if p.get("envsim"):
        simclock.sim_environ(p["envsim"], os.path.join(os.path.realpath(sim.REPO), "opshin"), env_log)
    other = os.path.join(root, "other")
    os.makedirs(other)
    if p.get("decoys"):
        for n in gen.HELPERS:
            with sim.REAL.open(os.path.join(other, n + ".py"), "w") as f:
                f.write(f"def bonus_{n}(x: int) -> int:\n    return 0\n")
        with sim.REAL.open(os.path.join(other, "data.txt"), "w") as f:
            f.write("other data")
    if p.get("style") == "link":
        link = os.path.join(root, "linked")
        os.symlink(place, link)
        place = link
    outcomes, nontriv = [], []
    stats = {"clock_reads": 0, "set_orders_drawn": 0, "listings": 0, "ok": 0, "rejected": 0}
    for i, u in enumerate(s["units"]):
        d = os.path.join(place, f"u{i}")
        os.makedirs(d)
        src = "\n".join(u["lines"]) if "lines" in u else u.get("src")
        if u["kind"] == "corpus":
            src = gen.corpus()[u["corpus"]]["src"]
        files = dict(u.get("files") or {})
        if u["kind"] == "contract":
            files["main.py"] = contracts.source(u["c"])
        elif src is not None:
            files["main.py"] = src
        for n, t in sorted(files.items()):
            with sim.REAL.open(os.path.join(d, n), "w", encoding="utf-8") as f:
                f.write(t)
            if p.get("mtime") is not None:
                os.utime(os.path.join(d, n), (p["mtime"], p["mtime"]))
        main = os.path.join(d, "main.py")
        os.chdir({"place": place, "root": root, "other": other, "proj": d}[p.get("cwd", "other" if not p else "root")])
        arg = os.path.relpath(main) if p.get("style") == "rel" else main
        sim.RUN["mask"] = [main, arg, d, os.path.realpath(d), os.path.realpath(main)] if len(arg) > 10 else [main, d]
        draws, reads = (ss.STATE["draws"] if ss else 0), simclock.READS["n"]
        disk = sim.SimDisk(root, [])
        if "order" in p:
            disk.order = random.Random(p["order"] + i)
        outd = os.path.join(root, f"out{i}")
        with disk:
            if u["kind"] == "cli":
                sim.RUN["mask"] += [outd, arg]
                o = ops.op_cli({"argv": [a.replace("@F", arg).replace("@O", outd) for a in u["argv"]]})
                tree = {k: sim.sha(v) for k, v in sim.read_tree(outd).items()} if os.path.isdir(outd) else {}
                o = ["cli" if o[1] == ["exit", 0] else "err", o[1], o[3], o[4], tree]
            elif u["kind"] == "contract":
                def go(u=u, main=main, outd=outd):
                    from opshin import builder
                    k = contracts.realise(u["c"], builder.build(main, config=sim.config({}, u["c"]["level"])))
                    k.dump(outd)
                    k2 = builder.load(outd)
                    k2.dump(outd + "b")
                    return [sim.read_tree(outd), sim.read_tree(outd + "b"), k.blueprint]
                o = sim.call(go)
            else:
                op = {"file": arg, "cfg": u.get("cfg"), "level": u.get("level"), "vfn": u.get("vfn", "validator")}
                o = ops.op_build(op)
                if u["kind"] in ("src", "corpus"):
                    o = [o[0], o, ops.op_compile(dict(op, op="compile", src="\n".join(u["lines"]) if "lines" in u else src, filename="main.py"))]
        os.chdir(root)
        o = json.loads(json.dumps(o))
        outcomes.append(o)
        stats["ok" if o[0] in ("ok", "cli") else "rejected"] += 1
        dr, cr, ls = (ss.STATE["draws"] if ss else 0) - draws, simclock.READS["n"] - reads, sum(1 for e in disk.log if e[1] == "list")
        stats["set_orders_drawn"] += dr
        stats["clock_reads"] += cr
        stats["listings"] += ls
        if p:
            nontriv.append(sim.sha(repr([u, dr > 0, p]).encode()))
    return {"violations": [], "stats": stats, "outcomes": outcomes, "nontrivial": nontriv, "states": [sim.sha(repr(o).encode()) for o in outcomes], "faults": {}, "probes": {"environment variable read by opshin: " + k: 1 for k in env_log},
            "trace": outcomes, "trace_hash": sim.sha(repr([outcomes, stats["set_orders_drawn"]]).encode()), "summary": {"ok": stats["ok"], "rejected": stats["rejected"]}}
