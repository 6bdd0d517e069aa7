"""C06: a crash while artifacts are written never yields a wrong contract."""
from ..core import Check, rng
from .. import contracts

CRASH = {"crash", "crash_after"}
ERR = {"ENOSPC", "EIO", "EDQUOT", "INTR", "short", "EINTR_ok"}


class C06(Check):
    id = "C06"
    rule = ("A case is one directory state after a crash (kill or power loss) or failed write at one I/O event of an artifact write, loaded as a whole and file by file "
            "under permuted directory orders and compared with every contract whose write was begun since the last complete one.  Non-trivial: the crash left at "
            "least one artifact changed; distinct by (resulting file contents, kinds of result).")
    real = ["opshin.builder dump and load", "opshin.__main__ build command", "pycardano/cbor2/uplc decoding", "CPython buffered and text I/O", "real files in a scratch directory"]
    stub = ["raw file operations below the scratch root (SimDisk)", "the crash: the process image is abandoned at an I/O event; unsynced file versions are kept, lost, emptied, cut at a sector boundary or zero-filled"]
    assumptions = ["A single-sector (512 byte) write is not torn inside the sector by a power loss, but a file may end up empty, zero-filled or cut at any sector boundary.",
                   "Completed earlier writes have reached the disk before the next write starts."]

    def scenarios(self):
        n = 150 if self.quick else 3000
        for i in range(n):
            r = rng(self.seed, "C06", i)
            ks = [contracts.contract_spec(r) for _ in range(r.randrange(2, 4))]
            if r.random() < 0.4:  # same code, other metadata: only the metadata can be confused
                ks[1] = {**contracts.contract_spec(r, nparams=len(ks[0]["ptypes"])), **{k: ks[0][k] for k in ("salt", "pad", "level", "ptypes", "params")}}
            for k in ks:
                if r.random() < 0.15:
                    k["unlucky"] = r.choice(["policy581a"])
            steps = []
            for _ in range(r.randrange(3, 8)):
                steps.append({"c": r.randrange(len(ks)), "seed": r.randrange(2 ** 31), "how": "dump",
                              "mode": r.choice(["none", "kill", "kill", "power", "power", "power", "error"])})
            if i % 8 == 0:
                r.choice(steps)["how"] = "cli"
            yield {"contracts": ks, "steps": steps}

    def shrink_paths(self, s):
        return [["steps"]]

    def simplify(self, s):
        for i, c in enumerate(s["contracts"]):
            for k, v in (("pad", 0), ("datum", None), ("license", None)):
                if c.get(k):
                    t = dict(s, contracts=[dict(x) for x in s["contracts"]])
                    t["contracts"][i][k] = v
                    yield t


def CHECK(tier, seed):
    return C06(tier, seed)


def unlucky_script(script, prefix=b"\x58\x1a"):
    """Same program with a dead constant chosen so that the script hash starts like a CBOR byte string."""
    import hashlib, pycardano, uplc, uplc.ast as u
    prog = uplc.unflatten(bytes(script))
    # (\_ -> body) const: search a constant of fixed width in the flattened bytes
    mark = 0x5A5A5A5A5A
    flat = None
    base = u.Program(prog.version, u.Apply(u.Lambda("unused_0", prog.term), u.BuiltinByteString(mark.to_bytes(5, "big"))))
    flat = uplc.flatten(base)
    key = mark.to_bytes(5, "big")
    off = flat.find(key)
    if off < 0:
        return script
    for n in range(1 << 22):
        b = flat[:off] + n.to_bytes(5, "big") + flat[off + 5:]
        if hashlib.blake2b(b"\x03" + b, digest_size=28).digest().startswith(prefix):
            return pycardano.PlutusV3Script(b)
    return script


def load_all(d, order_seeds):
    """In a fresh process image: every way of loading the directory."""
    import os, random
    from opshin import builder
    from .. import sim
    out = []
    for o in order_seeds:
        disk = sim.SimDisk(sim.RUN["root"])
        disk.order = random.Random(o)
        with disk:
            try:
                out.append(["dir", contracts.fingerprint(builder.load(d))])
            except Exception as e:
                out.append(["dir", None, type(e).__name__])
        if o == order_seeds[0]:
            for f in contracts.ARTIFACTS:
                try:
                    out.append([f, contracts.fingerprint(builder.load(os.path.join(d, f)))])
                except Exception as e:
                    out.append([f, None, type(e).__name__])
    return out


def execute(s):
    import copy, hashlib, json, os, random, shutil
    from opshin import PlutusContract, builder
    from .. import sim
    from .c05 import restore
    from .c10 import run_cli
    stats = {"evaluations": 0, "loads": 0, "crashes": 0, "io_events": 0, "load_errors": 0, "loaded_old_or_new": 0, "loaded_bare": 0}
    faults, probes, trace, nontriv, viol = {}, {}, [], [], []
    W = sim.RUN["w"]
    target = os.path.join(W, "out")
    real, refs = {}, {}

    def contract(i):
        if i not in real:
            c = s["contracts"][i]
            scr = None
            if c.get("unlucky"):
                scr = unlucky_script(contracts.build_script(c))
            real[i] = contracts.realise(c, scr)
        return real[i]

    def cli_argv(i, out):
        src = os.path.join(sim.RUN["root"], f"cli_{i}.py")
        with sim.REAL.open(src, "w", encoding="utf-8") as f:
            f.write(contracts.cli_source(s["contracts"][i]))
        return ["build", src, "-o", out, "--parameters", str(len(s["contracts"][i]["ptypes"]))]

    def writer(i, how, out):
        if how == "cli":
            argv = cli_argv(i, out)

            def go():
                code, o, e = run_cli(argv)
                if code:
                    raise RuntimeError(f"exit {code}: {e[-300:]}")
            return go
        return lambda: contract(i).dump(out)

    def reference(i, how):
        """What a clean write followed by a load gives."""
        if (i, how) not in refs:
            def go():
                d = os.path.join(sim.RUN["root"], "ref")
                writer(i, how, d)()
                k = builder.load(d)
                r = contracts.fingerprint(k), bytes(k.contract).hex()
                shutil.rmtree(d)
                return r
            fp, scr = sim.in_child(go)
            bare = contracts.fingerprint(PlutusContract(type(contract(i).contract)(bytes.fromhex(scr))))
            refs[(i, how)] = (fp, bare, scr)
        return refs[(i, how)]

    allowed = {}
    seen_sig = set()
    explicit = []
    for n, st in enumerate(s["steps"]):
        ref = reference(st["c"], st["how"])
        op = writer(st["c"], st["how"], target)
        r = random.Random(st["seed"])
        snap = sim.read_tree(sim.RUN["root"])

        def dry():
            d = sim.SimDisk(sim.RUN["root"])
            with d:
                op()
            return d.log
        fl = st.get("faults")
        if fl is None:
            if st["mode"] == "none":
                fl = []
            else:
                log = sim.in_child(dry)
                restore(sim.RUN["root"], snap)
                out_log = [e for e in log if str(e[2]).startswith("w/out")]
                fl = sim.choose_faults(out_log, r, 1, ERR if st["mode"] == "error" else CRASH)
                if st["mode"] == "error":
                    fl = [f for f in fl]
        disk = sim.SimDisk(sim.RUN["root"], fl)
        res = "ok"
        with disk:
            try:
                op()
            except sim.SimCrash:
                res = "crash"
                stats["crashes"] += 1
            except BaseException as e:
                res = "error"
        pl = st.get("power_seed", r.randrange(2 ** 31))
        choice = {}
        if st["mode"] == "power" and res == "crash":
            choice = disk.power_loss(random.Random(pl))
            for k, m in choice.items():
                faults["power_loss:" + m] = faults.get("power_loss:" + m, 0) + 1
        explicit.append(dict(st, faults=fl, power_seed=pl))
        for a, b in disk.fired.items():
            faults[a] = faults.get(a, 0) + b
        stats["io_events"] += disk.n
        if res == "ok":
            allowed = {(st["c"], st["how"]): ref}
        else:
            allowed[(st["c"], st["how"])] = ref
        where = {"step": n, "how": st["how"], "mode": st["mode"], "faults": fl, "event": [e[:3] for e in disk.log if e[0] in [f["at"] for f in fl]], "power": choice}
        now = {p: b for p, b in sim.read_tree(target).items()} if os.path.isdir(target) else {}
        orders = [r.randrange(2 ** 31) for _ in range(3)]
        loads = sim.in_child(lambda: load_all(target, orders)) if now or os.path.isdir(target) else []
        stats["evaluations"] += 1
        kinds = []
        for l in loads:
            stats["loads"] += 1
            if l[1] is None:
                stats["load_errors"] += 1
                kinds.append("error")
                if res == "ok" and l[0] in ("dir", "blueprint.json", "script.cbor", "script.plutus"):
                    viol.append({"class": "artifacts written without a fault do not load", "signature": "noload", "detail": {**where, "what": l}})
                continue
            full = [k for k, v in allowed.items() if v[0] == l[1]]
            bare = [k for k, v in allowed.items() if v[1] == l[1]]
            kinds.append("full" if full else "bare" if bare else "WRONG")
            stats["loaded_old_or_new"] += bool(full)
            stats["loaded_bare"] += bool(bare and not full)
            if not full and not bare:
                best = min((contracts.fp_diff(v[0], l[1]) for v in allowed.values()), key=len)
                sig = "wrong:" + sim.sha(repr([fl, l[0], choice]).encode())
                cls = "after a crash the directory loads to a contract nobody wrote"
                if l[1]["script"].startswith("581a") and l[1]["script"] in [contracts.expected_files(bytes.fromhex(v[2]))[2] for v in allowed.values()]:
                    # the loaded "script" is the hash of a written script whose hash happens to look like a CBOR byte string
                    sig, cls = "policy-id-581a-taken-for-script", "the file script.policy_id is taken for a script"
                if sig in seen_sig:
                    continue
                seen_sig.add(sig)
                viol.append({"class": cls, "signature": sig, "detail": {**where, "loaded_from": l[0], "differs_from_nearest": best}})
                if sig != "policy-id-581a-taken-for-script":
                    break
                continue
            if res == "ok" and l[0] == "dir" and not full:
                viol.append({"class": "after a complete write the directory does not load to the written contract", "signature": "notfull", "detail": where})
                break
        if len({k for l, k in zip(loads, kinds) if l[0] == "dir"}) > 1:
            probes["load result depends on directory order"] = probes.get("load result depends on directory order", 0) + 1
        trace.append([n, st["how"], st["mode"], fl, res, sorted(choice.items()), kinds])
        if res != "ok":
            pre = {p[len("w/out/"):]: b for p, b in snap.items() if p.startswith("w/out/")}
            if pre != now:
                nontriv.append(sim.sha(repr([sorted(now.items()), kinds]).encode()))
                probes["crash left the directory changed"] = probes.get("crash left the directory changed", 0) + 1
            if len({k for k in kinds if k != "error"}) == 2:
                probes["some artifacts load to the full, others to the bare contract"] = probes.get("some artifacts load to the full, others to the bare contract", 0) + 1
            if "full" not in kinds and "bare" not in kinds:
                probes["nothing loadable after crash"] = probes.get("nothing loadable after crash", 0) + 1
        if [v for v in viol if v["class"] != "the file script.policy_id is taken for a script"]:
            break
        if res != "ok":
            # repair: a later process writes again, then loads
            def repair():
                op()
                prob = []
                if st["how"] == "dump":
                    k = contract(st["c"])
                    prob = contracts.check_dir(target, bytes(k.contract), s["contracts"][st["c"]], json.loads(json.dumps(k.blueprint)))
                return [prob, [l for l in load_all(target, orders[:1])]]
            keep = sim.read_tree(sim.RUN["root"])
            try:
                prob, loads = sim.in_child(repair)
            except RuntimeError as e:
                prob, loads = [str(e)[-300:]], []
            restore(sim.RUN["root"], keep)
            stats["evaluations"] += 1
            bad = [l for l in loads if l[0] == "dir" and l[1] != ref[0]]
            if prob or bad:
                viol.append({"class": "writing again after a crash does not repair the directory", "signature": "repair:" + sim.sha(repr(prob).encode()),
                             "detail": {**where, "problems": prob, "diff": [contracts.fp_diff(ref[0], l[1]) if l[1] else l for l in bad]}})
                break
    return {"violations": viol, "stats": stats, "probes": probes, "faults": faults, "nontrivial": nontriv, "states": nontriv,
            "trace": trace, "trace_hash": sim.sha(repr(trace).encode()), "summary": {"steps": trace},
            "explicit": {"steps": explicit + s["steps"][len(explicit):]}}
