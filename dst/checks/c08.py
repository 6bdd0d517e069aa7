"""C08: binding parameters commutes with every storage step and never mutates."""
from ..core import Check, rng
from .. import contracts


class C08(Check):
    id = "C08"
    rule = ("A case is one contract object or written directory reached by a history of bind, write, crash, re-write and load steps, compared with binding the same "
            "values at build time and with the specification's metadata.  Non-trivial: at least one bind and one storage step, or two binds, precede the comparison; "
            "distinct by (spec, values, history).")
    real = ["opshin.builder build/apply_parameter/apply_parameters/dump/load", "opshin.__main__ build with arguments", "uplc flatten/unflatten", "pycardano", "real files in a scratch directory"]
    stub = ["raw file operations (SimDisk: crashes, errors)", "terminal streams"]
    assumptions = ["Library builds and command line builds are compared within their own kind (the command line adds a version marker to the script)."]

    def scenarios(self):
        n = 190 if self.quick else 4000
        for i in range(n):
            r = rng(self.seed, "C08", i)
            c = contracts.contract_spec(r, nparams=r.choice([1, 2, 2, 3, 3, 4]))
            cli = i % 5 == 0
            vals = [contracts.param_value(r, t) for t in c["ptypes"]]
            if cli:
                for k in ("datum", "redeemer", "version", "title", "description", "license"):
                    c.pop(k, None)
                c["purpose"] = ["any"]
                c["ptypes"] = [t if t != "Anything" else "int" for t in c["ptypes"]]
                c["params"] = [[f"p{j}", {"int": "int", "bytes": "bytes", "List[int]": ["list", "int"], "Dict[int, bytes]": ["dict", "int", "bytes"]}[t]] for j, t in enumerate(c["ptypes"])]
                vals = [contracts.param_value(r, t) for t in c["ptypes"]]
            steps = []
            for _ in range(r.randrange(4, 12)):
                k = r.choice(["bind", "bind", "bind", "dump", "dump", "crash", "load", "load", "overbind", "loadfile", "bindraw"])
                steps.append({"do": k, "n": r.choice([0, 1, 1, 1, 2, 3]), "pick": r.randrange(2 ** 31), "dir": r.choice(["d0", "d1"]), "seed": r.randrange(2 ** 31),
                              "mode": r.choice(["kill", "power", "error"])})
            # ending: everything bound at once, from the first object and from the last loaded one
            steps += [{"do": "dump", "pick": r.randrange(2 ** 31), "dir": "d0"}, {"do": "load", "dir": "d0"}, {"do": "bind", "n": 9, "pick": -1}]
            yield {"contract": c, "vals": vals, "steps": steps, "cli": cli, "entry": r.randrange(0, len(vals) + 1)}

    def shrink_paths(self, s):
        return [["steps"]]


def CHECK(tier, seed):
    return C08(tier, seed)


def json_arg(v):
    """Plutus data JSON of a parameter in a scenario."""
    import json
    def j(v):
        if isinstance(v, int):
            return {"int": v}
        if isinstance(v, list):
            return {"list": [j(x) for x in v]}
        if "b" in v:
            return {"bytes": v["b"]}
        if "m" in v:
            return {"map": [{"k": j(a), "v": j(b)} for a, b in v["m"]]}
        raise ValueError(v)
    return json.dumps(j(v))


def execute(s):
    import hashlib, json, os, random, shutil, sys
    from opshin import PlutusContract, builder
    from .. import sim
    from .c05 import restore
    from .c07 import spec_problems
    from .c10 import run_cli
    stats = {"evaluations": 0, "binds": 0, "dumps": 0, "crashes": 0, "loads": 0, "rejected_overbinds": 0}
    faults, probes, trace, nontriv, viol = {}, {}, [], [], []
    sys.setrecursionlimit(8000)  # level 0 scripts nest deeply; users raise the limit as the command line does
    W = sim.RUN["w"]
    c, nv = s["contract"], len(s["vals"])
    path = os.path.join(sim.RUN["root"], "contract.py")
    cfg = sim.config({}, c["level"])
    with sim.REAL.open(path, "w", encoding="utf-8") as f:
        f.write(contracts.cli_source(c) if s["cli"] else contracts.source(c))

    def values(a, b):
        return [sim.param(v) for v in s["vals"][a:b]]

    def cli_build(k, out):
        code, o, e = run_cli(["build", path] + [json_arg(v) for v in s["vals"][:k]] + ["-o", out, "--parameters", str(nv - k)] + (["-O%d" % c["level"]] if c["level"] is not None else []))
        if code:
            raise RuntimeError(f"build command failed: {e[-400:]}")
    # reference: bound at build time, one build per prefix
    expect = []
    for k in range(nv + 1):
        if s["cli"]:
            d = os.path.join(sim.RUN["root"], f"ref{k}")
            cli_build(k, d)
            expect.append(bytes.fromhex(sim.REAL.open(os.path.join(d, "script.cbor")).read()))
        else:
            expect.append(bytes(builder.build(path, *values(0, k), config=cfg)))
    if len(set(expect)) != nv + 1:
        viol.append({"class": "binding a parameter does not change the script", "signature": "same", "detail": {}})
    if s["cli"]:
        c = dict(c, title="contract")
        first = builder.load(os.path.join(sim.RUN["root"], f"ref{s['entry']}"))
        objs = [(first, s["entry"], ["cli-bound %d" % s["entry"]])]
    else:
        objs = [(contracts.realise(c, builder.build(path, config=cfg)), 0, [])]
    meta0 = {k: v for k, v in contracts.fingerprint(objs[0][0]).items() if k not in ("script", "blueprint", "plutus", "params")}
    allowed = {}      # dir -> list of bound counts whose contract the directory may hold
    clean = {}        # dir -> bound count after a complete write

    def judge(k, bound, hist, what, n):
        stats["evaluations"] += 1
        spec = dict(c, params=c["params"][bound:])
        p = spec_problems(k, spec, expect[bound])
        d = {a: [meta0[a], v] for a, v in contracts.fingerprint(k).items() if a in meta0 and v != meta0[a]}
        if not c.get("redeemer"):
            d.pop("purpose", None)
        try:
            bp = k.blueprint["validators"][0]
            if bp["compiledCode"] != expect[bound].hex() or bp["hash"] != contracts.expected_files(expect[bound])[2]:
                p.append("blueprint is not about the bound script")
        except Exception as e:
            p.append(repr(e))
        if len(hist) > 1:
            nontriv.append(sim.sha(repr([c, s["vals"], hist]).encode()))
        if p or d:
            viol.append({"class": f"{what} gives another contract than binding at build time", "signature": what + ":" + sim.sha(repr([sorted(d), [x[:20] for x in p]]).encode()),
                         "detail": {"step": n, "bound": bound, "history": hist, "problems": p, "metadata": d, "cli": s["cli"]}})

    judge(objs[0][0], objs[0][1], ["start"], "loading" if s["cli"] else "building", -1)
    for n, st in enumerate(s["steps"]):
        if viol:
            break
        k, bound, hist = objs[-1] if st.get("pick", -1) == -1 else objs[st["pick"] % len(objs)]
        before = contracts.fingerprint(k)
        snapshot_types = (k.datum_type, k.redeemer_type, list(k.parameter_types), list(k.purpose), bytes(k.contract))
        if st["do"] == "bind":
            j = min(st["n"], nv - bound)
            try:
                got = k.apply_parameter(*values(bound, bound + j))
            except Exception as e:
                viol.append({"class": "binding declared parameters fails", "signature": "bindfail:" + type(e).__name__, "detail": {"step": n, "error": repr(e)[:300], "bound": bound, "more": j, "history": hist}})
                break
            stats["binds"] += 1
            h = hist + [f"bind {j}"]
            objs.append((got, bound + j, h))
            judge(got, bound + j, h, "binding", n)
        elif st["do"] == "bindraw":
            j = min(st["n"], nv - bound)
            got = builder.apply_parameters(k.contract, *values(bound, bound + j))
            stats["binds"] += 1
            stats["evaluations"] += 1
            if bytes(got) != expect[bound + j]:
                viol.append({"class": "binding to the bare script gives another script than binding at build time", "signature": "raw", "detail": {"step": n, "bound": bound, "more": j, "history": hist}})
        elif st["do"] == "overbind":
            extra = values(bound, nv) + [sim.param(v) for v in ([7] * (1 + st["n"]))]
            stats["evaluations"] += 1
            try:
                k.apply_parameter(*extra)
                viol.append({"class": "binding more parameters than declared is accepted", "signature": "over", "detail": {"step": n, "declared": nv - bound, "given": len(extra), "history": hist}})
            except Exception:
                stats["rejected_overbinds"] += 1
        elif st["do"] in ("dump", "crash"):
            d = os.path.join(W, st["dir"])
            fl = []
            if st["do"] == "crash":
                fl = st.get("faults")
                if fl is None:
                    snap = sim.read_tree(sim.RUN["root"])

                    def dry():
                        dd = sim.SimDisk(sim.RUN["root"])
                        with dd:
                            k.dump(d)
                        return dd.log
                    log = sim.in_child(dry)
                    restore(sim.RUN["root"], snap)
                    fl = sim.choose_faults(log, random.Random(st["seed"]), 1, {"ENOSPC", "EIO"} if st["mode"] == "error" else {"crash", "crash_after"})
            disk = sim.SimDisk(sim.RUN["root"], fl)
            with disk:
                try:
                    k.dump(d)
                    allowed[d] = [(bound, hist)]
                    clean[d] = (bound, hist + ["write"])
                    stats["dumps"] += 1
                except (sim.SimCrash, OSError):
                    allowed.setdefault(d, []).append((bound, hist))
                    clean.pop(d, None)
                    stats["crashes"] += 1
            if st["do"] == "crash" and st["mode"] == "power" and disk.dead:
                for a, m in disk.power_loss(random.Random(st["seed"] + 1)).items():
                    faults["power_loss:" + m] = faults.get("power_loss:" + m, 0) + 1
            for a, b in disk.fired.items():
                faults[a] = faults.get(a, 0) + b
        elif st["do"] in ("load", "loadfile"):
            d = os.path.join(W, st["dir"])
            if not os.path.isdir(d):
                continue
            target = d if st["do"] == "load" else os.path.join(d, ["script.cbor", "script.plutus", "blueprint.json"][st["pick"] % 3])
            try:
                got = builder.load(target)
                stats["loads"] += 1
            except Exception as e:
                if d in clean:
                    viol.append({"class": "a completely written contract does not load", "signature": "noload", "detail": {"step": n, "error": repr(e)[:300], "target": target}})
                continue
            bare = st["do"] == "loadfile" and not target.endswith("blueprint.json")
            if d in clean and not bare:
                b, h = clean[d]
                h = h + ["load"]
                judge(got, b, h, "loading", n)
                objs.append((got, b, h))
            else:
                poss = [b for b, _ in allowed.get(d, [])]
                stats["evaluations"] += 1
                hit = [b for b in poss if bytes(got.contract) == expect[b]]
                if not hit:
                    viol.append({"class": "a directory loads to a script that was never written", "signature": "never", "detail": {"step": n, "target": target, "possible": poss}})
                    continue
                b = hit[0]
                full = len(got.parameter_types) == nv - b and got.title == objs[0][0].title
                # keep binding on the bare script
                more = builder.apply_parameters(got.contract, *values(b, nv))
                stats["binds"] += 1
                nontriv.append(sim.sha(repr([c, s["vals"], "bare", b, st["do"]]).encode()))
                if bytes(more) != expect[nv]:
                    viol.append({"class": "binding to the bare script gives another script than binding at build time", "signature": "raw2", "detail": {"step": n, "bound": b, "target": target}})
                if bare:
                    probes["bound on a script loaded without metadata"] = probes.get("bound on a script loaded without metadata", 0) + 1
                elif not full:
                    probes["loaded bare after a crash"] = probes.get("loaded bare after a crash", 0) + 1
        after = contracts.fingerprint(k)
        same = snapshot_types == (k.datum_type, k.redeemer_type, list(k.parameter_types), list(k.purpose), bytes(k.contract))
        if before != after or not same:
            viol.append({"class": f"{st['do']} changes the contract it is applied to", "signature": "mutates:" + st["do"], "detail": {"step": n, "diff": contracts.fp_diff(before, after), "history": hist}})
        trace.append([n, st["do"], bound, [x[1] for x in objs][-3:], dict(stats)])
    # no earlier object changed behind our back
    for k, bound, hist in objs:
        if viol:
            break
        judge(k, bound, hist, "a later operation", "end")
    return {"violations": viol, "stats": stats, "probes": probes, "faults": faults, "nontrivial": nontriv, "states": nontriv,
            "trace": trace, "trace_hash": sim.sha(repr(trace).encode()), "summary": {"contract": c["salt"], "cli": s["cli"], "objects": [[o[1], o[2]] for o in objs][:8]}}
