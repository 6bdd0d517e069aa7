"""C03: concurrent compilations in one process are isolated from each other."""
from ..core import Check, rng
from .. import gen, contracts
from .c02 import C02

FILES = ["builder.py", "compiler.py", "util.py", "type_inference.py", "rewrite/rewrite_import.py", "rewrite/rewrite_scoping.py", "rewrite/rewrite_function_closures.py", "optimize/optimize_const_folding.py",
         "optimize/optimize_union_expansion.py", "optimize/optimize_remove_deadvars.py", "type_impls.py", "typed_util.py", "bridge.py", "compiler_config.py"]


def light(r, limit=0.07):
    c = gen.corpus()
    return r.choice([i for i, p in enumerate(c) if p["cost"] < limit])


def thread_ops(r, t, share):
    """Operations of one thread; `share` holds sources that several threads use."""
    ops = []
    for j in range(r.choice([1, 1, 2, 3])):
        k = r.randrange(10)
        lvl = r.choice([None, None, 0, 1, 2, 3])
        if k < 3:
            i = r.choice(share["corpus"]) if r.random() < 0.5 else light(r)
            p = gen.corpus()[i]
            ops.append({"op": r.choice(["compile", "build"]), "corpus": i, "vfn": p["vfn"], "cfg": dict(p["cfg"] or {}), "filename": f"t{t}.py"})
            if r.random() < 0.3:
                ops[-1].update(level=lvl, cfg={})
        elif k < 5:
            s = r.choice(share["src"]) if r.random() < 0.5 else r.choice([lambda: gen.closures(r), lambda: gen.unions(r), lambda: gen.program(r, 0.5)])()
            if r.random() < 0.25:
                s = gen.mutate(r, s)
            cfg = r.choice([{}, {}, {"constant_folding": True}, {"expand_union_types": True}])
            ops.append({"op": r.choice(["compile", "build"]), "src": s, "level": lvl, "cfg": cfg, "filename": f"t{t}.py"})
        elif k < 7:
            d = f"p{r.randrange(3)}"
            ops.append({"op": "build", "file": f"{d}/contract.py", "level": lvl})
        elif k == 7:
            ops.append({"op": "shared", "k": r.randrange(len(share["contracts"])), "do": r.choice(["apply", "apply", "blueprint", "dump"]), "take": r.random(), "dir": f"out{t}_{j}", "vseed": r.randrange(2 ** 30)})
        elif k == 8:
            d = f"q{t}_{j}"
            ops.append({"op": "dump", "file": f"p{r.randrange(3)}/contract.py", "dir": d, "title": f"title{t}"})
            ops.append({"op": "load", "path": d})
        else:
            ops.append({"op": "load", "path": f"art{r.randrange(2)}"})
    for o in ops:
        if o["op"] == "build" and "file" not in o:
            o["file"] = f"src{t}_{ops.index(o)}.py"
    return ops


def tiny_ops(r, t, share):
    k = r.randrange(8)
    if k < 2:
        i = light(r, 0.03)
        p = gen.corpus()[i]
        return [{"op": r.choice(["compile", "build"]), "corpus": i, "vfn": p["vfn"], "cfg": dict(p["cfg"] or {}), "filename": f"t{t}.py", "file": f"src{t}_0.py"}]
    if k < 5:
        s = r.choice([gen.closures, gen.unions])(r)
        if r.random() < 0.2:
            s = gen.mutate(r, s)
        return [{"op": r.choice(["compile", "build"]), "src": s, "level": r.choice([None, 1, 2]), "cfg": r.choice([{}, {}, {"constant_folding": True}, {"expand_union_types": True}]), "filename": f"t{t}.py", "file": f"src{t}_0.py"}]
    return [{"op": "build", "file": f"p{r.randrange(3)}/contract.py", "level": r.choice([None, 0, 1, 2, 3])}]


class C03(Check):
    id = "C03"
    timeout = 120
    liveness_class = "a concurrent call does not return"
    rule = ("A case is one API call made by a simulated thread while other threads' calls are in progress, compared with the same thread's script run alone in a fresh process.  Non-trivial: at least "
            "one switch to another thread happened inside a call; distinct by (operations, sequence of hand-overs).")
    real = C02.real + ["CPython threads (one runs at a time, hand-over chosen by the schedule)"]
    stub = ["the scheduler of the operating system and of the interpreter (which thread runs, where it is preempted: any line, or bytecode in the focus files, of opshin; any function entry of pluthon, uplc, pycardano)",
            "locks created by opshin and the log handler's lock", "terminal streams"]
    assumptions = ["No hand-over happens inside the interpreter's import machinery.", "The command line entry point is one run per process and is not called concurrently.", "Threads do not change the working directory or the files another thread is compiling."]

    def scenarios(self):
        n = 100 if self.quick else 6000
        for i in range(n):
            r = rng(self.seed, "C03", i)
            share = {"corpus": [light(r) for _ in range(2)], "src": [r.choice([gen.closures, gen.unions])(r) for _ in range(2)], "contracts": [contracts.contract_spec(r, nparams=r.randrange(1, 4)) for _ in range(1)]}
            nt = r.choice([2, 2, 2, 3, 3, 4])
            world = {}
            names = r.sample(gen.HELPERS, r.randrange(1, 3))
            for d in range(3):
                for h in names:
                    world[f"p{d}/{h}.py"] = gen.helper_src(r, r.randrange(90), f"bonus_{h}", [f"from {x} import *" for x in names if x > h])
                world[f"p{d}/contract.py"] = gen.contract_src(r, names, [f"bonus_{h}" for h in names])
            if r.random() < 0.3:  # same contract text, other helpers
                for d in (1, 2):
                    world[f"p{d}/contract.py"] = world["p0/contract.py"]
            tiny = i % 3 > 0
            if tiny:
                nt = r.choice([2, 2, 2, 3])
            yield {"threads": [tiny_ops(r, t, share) if tiny else thread_ops(r, t, share) for t in range(nt)], "world": world, "contracts": share["contracts"], "arts": [contracts.contract_spec(r) for _ in range(2)], "flavour": {"hashseed": 0, "threads": 1},
                   "strategy": r.choice(["meet", "meet", "meet", "rare", "pct", "quanta"]) if tiny else r.choice(["quanta", "meet", "meet", "meet", "pct", "rare", "rare", "lockstep"]), "sseed": r.randrange(2 ** 31), "opfiles": r.sample(FILES, r.choice([0, 0, 1, 3, len(FILES)])), "deps": r.random() < 0.6}

    def shrink_paths(self, s):
        return [["threads"], *[["threads", i] for i in range(len(s["threads"]))], *([["schedule"]] if "schedule" in s else [])]

    def fixup(self, s):
        return s if len(s["threads"]) >= 1 else None


def CHECK(tier, seed):
    return C03(tier, seed)


# ------------------------------------------------------------------ worker side

def prepare(s):
    """Shared objects of a run, made the same way in the oracle and in the run."""
    import os
    from .. import sim
    objs = []
    for c in s["contracts"]:
        objs.append(contracts.realise(c))
    return objs


def script_runner(threads, t, objs, s, logs=None):
    import json, os, random
    from .. import sim, ops

    def run_op(op0):
        op = ops.absolutize(op0)
        if op["op"] == "shared":
            c, k = s["contracts"][op["k"]], objs[op["k"]]

            def go():
                if op["do"] == "apply":
                    rr = random.Random(op["vseed"])
                    n = int(op["take"] * (len(c["ptypes"]) + 1.3))
                    vals = [sim.param(contracts.param_value(rr, (c["ptypes"] + ["int"])[i % (len(c["ptypes"]) + 1)])) for i in range(n)]
                    return contracts.fingerprint(k.apply_parameter(*vals))
                if op["do"] == "dump":
                    k.dump(op["dir"])
                    return sim.read_tree(op["dir"])
                return contracts.fingerprint(k)
            return sim.call(go)
        if op["op"] == "build" and ("src" in op or "corpus" in op):
            return ops.op_build(op)
        return ops.API[op["op"]](op)

    def run():
        out = []
        from .. import simthreads
        for j, op in enumerate(threads[t]):
            simthreads.CUR["sched"].opidx = j
            out.append(run_op(op))
        return json.loads(json.dumps(out))
    return run


def alone(arg):
    """Oracle: this thread's script as the only thread of a fresh process."""
    import os
    from .. import sim, simthreads
    os.chdir(arg["cwd"])
    s, t = arg["s"], arg["t"]
    objs = prepare(s)
    logs = collect_logs()
    st = simthreads.SimThreads([script_runner(s["threads"], t, objs, s)], [], s["opfiles"], s["deps"], record=True)
    res = st.run()
    rares = st.rare if len(st.rare) < 4000 else st.rare[:: len(st.rare) // 4000 + 1]
    return {"res": res[0], "steps": st.steps[0], "rare": rares, "spans": {f"{j}:{k[len(st.base):]}": v for (j, k), v in st.spans.items() if k.startswith(st.base)}, "logs": logs.get(None, []) + logs.get(0, [])}


def collect_logs():
    """Records as the library's own handler emits them, by simulated thread."""
    from opshin.util import OPSHIN_LOG_HANDLER
    from .. import simthreads, sim
    out = {}
    orig = OPSHIN_LOG_HANDLER.emit

    def emit(record):
        sch = simthreads.CUR["sched"]
        out.setdefault(sch.me() if sch else None, []).append([record.levelname, sim.mask(record.getMessage()), record.lineno, record.col_offset, record.end_lineno, record.end_col_offset])
    OPSHIN_LOG_HANDLER.emit = emit
    return out


def execute(s):
    import json, os, random
    from .. import sim, simthreads, ops
    fresh = sim.Fresh()
    sim.write_tree(sim.RUN["w"], s["world"])
    for t, th in enumerate(s["threads"]):
        for op in th:
            if op["op"] == "build" and ("src" in op or "corpus" in op):
                with sim.REAL.open(os.path.join(sim.RUN["w"], op["file"]), "w") as f:
                    f.write(ops.src_of(op))
    arts = sim.in_child(lambda: [contracts.realise(c).dump(os.path.join(sim.RUN["w"], f"art{i}")) for i, c in enumerate(s["arts"])])
    exp = [fresh.ask("dst.checks.c03", "alone", {"s": {k: v for k, v in s.items() if k not in ("world", "schedule")}, "t": t, "cwd": os.getcwd()}) for t in range(len(s["threads"]))]
    for e in exp:
        if not isinstance(e["res"], list) or e["res"][:1] == ["harness"]:
            raise RuntimeError("alone: " + str(e["res"]))
    # what the lone scripts wrote is removed again, so that a result cannot come from them
    for t, th in enumerate(s["threads"]):
        for op in th:
            if op["op"] in ("dump", "shared"):
                ops.op_rm({"path": os.path.join(sim.RUN["w"], op["dir"])})
    sched = s.get("schedule")
    if sched is None:
        sched = simthreads.make_schedule(random.Random(s["sseed"]), [e["steps"] for e in exp], [e["rare"] for e in exp], [e["spans"] for e in exp], s["strategy"])
    objs = prepare(s)
    logs = collect_logs()
    base_fp = [contracts.fingerprint(k) for k in objs]
    before = sim.process_state()
    st = simthreads.SimThreads([script_runner(s["threads"], t, objs, s) for t in range(len(s["threads"]))], sched, s["opfiles"], s["deps"])
    got = st.run()
    viol = []

    def short(op):
        return {k: (v if len(str(v)) < 300 else str(v)[:300]) for k, v in op.items()}
    if st.deadlock is not None:
        viol.append({"class": "concurrent calls block each other forever", "signature": "deadlock:" + sim.sha(repr(s["threads"]).encode()), "detail": {"waiting": st.deadlock, "switches": st.switches[-6:]}})
    else:
        for t, (g, e) in enumerate(zip(got, exp)):
            if g != e["res"]:
                j = next((j for j, (a, b) in enumerate(zip(g, e["res"])) if a != b), 0)
                viol.append({"class": "a call gives another result when other threads are compiling", "signature": "conc:" + sim.sha(repr([s["threads"][t][j], g[j][:2] if g else g, e["res"][j][:2]]).encode()),
                             "detail": {"thread": t, "op": short(s["threads"][t][j]), "alone": e["res"][j], "concurrent": g[j] if isinstance(g, list) and len(g) > j else g, "others": [[short(o) for o in th] for u, th in enumerate(s["threads"]) if u != t], "switches": len(st.switches)}})
                break
        after = sim.process_state()
        d = sim.state_diff(before, after)
        if d and not viol:
            viol.append({"class": f"process state differs after concurrent calls: {sorted(d)}", "signature": "state:" + sim.sha(repr(sorted(d)).encode()), "detail": {"changed": d, "threads": [[short(o) for o in th] for th in s["threads"]]}})
        for k, (a, b) in enumerate(zip(base_fp, [contracts.fingerprint(x) for x in objs])):
            if a != b and not viol:
                viol.append({"class": "a shared contract object changed", "signature": "mut", "detail": contracts.fp_diff(a, b)})
    ncalls = sum(len(t) for t in s["threads"])
    inter = sim.sha(repr([s["threads"], [(a, b) for a, b, _ in st.switches], [c for _, _, c in st.switches][:50]]).encode())
    # a mid-call switch: a hand-over away from a task that was not finished
    mid = sum(1 for a, b, c in st.switches)
    nontriv = [sim.sha(repr([inter, t, j]).encode()) for t, th in enumerate(s["threads"]) for j in range(len(th))] if mid > len(s["threads"]) else []
    res = {"violations": viol, "stats": {"evaluations": ncalls, "threads": len(s["threads"]), "points": sum(st.steps), "hand_overs": len(st.switches), "log_records": sum(map(len, logs.values()))}, "nontrivial": nontriv, "states": [inter], "faults": {"preemption:" + s["strategy"]: len(st.switches)},
           "probes": {"runs with a hand-over between two threads inside " + (f[len(st.base):] if f.startswith(st.base) else os.path.basename(os.path.dirname(f))): 1 for f in st.meets if f}, "trace": [got, st.switches[:2000]], "trace_hash": sim.sha(repr([got, st.switches, st.steps]).encode()), "summary": {"threads": len(s["threads"]), "hand_overs": len(st.switches), "strategy": s["strategy"]}}
    res["trace"] = [got, len(st.switches)]
    if viol:
        res["explicit"] = {"schedule": sched}
    return res
