"""C07: loading depends on artifact contents only, not on directory order or format."""
from ..core import Check, rng
from .. import contracts

BENIGN = {"short", "EINTR_ok"}
HARD = {"EIO", "EACCES", "EMFILE", "ENOENT", "INTR"}

UNRELATED = {
    "README.md": "# artifacts\n\nof a contract\n", "notes.txt": "deadbeef is a nice number\n", "zz_last.json": "{}", "aaa_first.json": "[]", "a.json": "5",
    "null.json": "null", "str.json": "\"cborHex\"", "meta.json": "{\"cborHex\": 5}", "meta2.json": "{\"type\": \"PlutusScriptV3\"}", "list.json": "[{\"validators\": 1}]",
    "preamble.json": "{\"preamble\": {\"title\": \"other\", \"version\": \"9.9.9\"}}", "empty": "", "blank.txt": "\n \n", ".hidden": "x", "package.json": "{\"name\": \"x\", \"license\": \"ISC\", \"version\": \"7.7.7\"}",
    "bin.dat": {"b": "00ff80fe"}, "logo.png": {"b": "89504e470d0a1a0a0000000d49484452"}, "latin1.txt": {"b": "4772f6df65"}, "bom.json": {"b": "efbbbf7b7d"},
    "tx.signed": "{\"type\": \"Witnessed Tx BabbageEra\", \"description\": \"\", \"cborHex\": \"84a30081825820ff01818258\"}", "alice.addr": "addr_test1vz09v9yfxguvlp0zsnrpa3tdtm7el8xufp3m5lsm7qxzclgmzkket",
    "alice.skey": "{\"type\": \"PaymentSigningKeyShelley_ed25519\", \"description\": \"Payment Signing Key\", \"cborHex\": \"5820%s\"}" % ("ab" * 32),
    "tx.hash": "f" * 64, "numbers.txt": "123456", "hexish": "84a400", "contract.py": "def validator(ctx: ScriptContext) -> None:\n    pass\n", "broken.json": "{\"validators\": [", "text.uplc.txt": "(program 1.0.0", "x.toml": "[contract]\ntitle='z'\n",
}
DIRS = {"sub.json": {"inner.json": "{}"}, "aaa": {"script.cbor": "00"}, "blueprint": {}, "zz": {"blueprint.json": "{\"validators\": []}"}}


class C07(Check):
    id = "C07"
    rule = ("A case is one load of a written directory or artifact (directory order permuted, unrelated entries present, read faults) whose complete contents are "
            "compared with the written contract and with the contract's specification.  Non-trivial: the enumeration order is not sorted, or an unrelated entry or a "
            "fault was present; distinct by (spec, entries, order, fault).")
    real = ["opshin.builder dump, load, to/from schema", "pycardano", "cbor2", "uplc", "CPython I/O", "real files in a scratch directory"]
    stub = ["directory enumeration order", "raw reads (short, interrupted, failing)"]
    assumptions = ["A purpose is only part of the written form together with a redeemer.", "Class names of types nested in fields are not part of the written form (the field name is).",
                   "JSON documents with a 'validators' key are contracts by definition and not unrelated."]

    def scenarios(self):
        n = 500 if self.quick else 4000
        for i in range(n):
            r = rng(self.seed, "C07", i)
            c = contracts.contract_spec(r)
            if c["level"] is None or r.random() < 0.8:
                c["level"] = r.choice([None, 0, 1])
            steps = []
            for _ in range(r.randrange(4, 10)):
                steps.append({"unrelated": r.sample(sorted(UNRELATED), r.choice([0, 1, 2, 5])), "dirs": r.sample(sorted(DIRS), r.choice([0, 0, 1, 2])),
                              "order": r.randrange(2 ** 31), "faults": r.choice(["none", "none", "benign", "hard"]), "seed": r.randrange(2 ** 31),
                              "remove": r.choice([[], [], [], ["blueprint.json"], ["blueprint.json", "script.cbor"], ["blueprint.json", "script.plutus"], ["script.cbor"], ["script.policy_id", "mainnet.addr"], ["blueprint.json", "script.policy_id", "mainnet.addr", "testnet.addr"]]),
                              "how": r.choice(["abs", "rel", "path", "slash", "symlink"]), "generation": r.choice([0, 0, 1, 2])})
            yield {"contract": c, "steps": steps}

    def shrink_paths(self, s):
        return [["steps"]] + [["steps", i, k] for i in range(len(s["steps"])) for k in ("unrelated", "dirs", "remove")] + [["contract", "params"]]

    def fixup(self, s):
        return s if len(s["contract"]["params"]) == len(s["contract"]["ptypes"]) else None

    def simplify(self, s):
        c = s["contract"]
        for k in ("datum", "redeemer", "license", "title", "description", "version"):
            if c.get(k) is not None and not (k == "redeemer" and c["purpose"] != ["any"]):
                t = dict(c)
                if k in ("datum", "redeemer"):
                    t[k] = None
                else:
                    del t[k]
                yield dict(s, contract=t)
        for i, st in enumerate(s["steps"]):
            if st["faults"] != "none":
                yield dict(s, steps=s["steps"][:i] + [dict(st, faults="none")] + s["steps"][i + 1:])


def CHECK(tier, seed):
    return C07(tier, seed)


def type_problem(t, spec, named=True, path="$"):
    """Does a loaded type have the structure of the specification?  Written without the code under test."""
    import typing, pycardano
    if spec in ("int", "bytes"):
        return None if t is {"int": int, "bytes": bytes}[spec] else f"{path}: {t} is not {spec}"
    if spec == "any":
        return None if t == pycardano.Datum else f"{path}: {t} is not unconstrained"
    o, a = typing.get_origin(t), typing.get_args(t)
    if spec[0] == "list":
        return type_problem(a[0], spec[1], True, path + "[]") if o is list else f"{path}: {t} is not a list"
    if spec[0] == "dict":
        if o is not dict:
            return f"{path}: {t} is not a map"
        return type_problem(a[0], spec[1], True, path + ".k") or type_problem(a[1], spec[2], True, path + ".v")
    if spec[0] == "union":
        if o is not typing.Union or len(a) != len(spec[1]):
            return f"{path}: {t} is not a union of {len(spec[1])}"
        for i, (x, y) in enumerate(zip(a, spec[1])):
            p = type_problem(x, y, True, f"{path}|{i}")
            if p:
                return p
        return None
    if not (isinstance(t, type) and issubclass(t, pycardano.PlutusData)):
        return f"{path}: {t} is not a constructor"
    if t.CONSTR_ID != spec[2]:
        return f"{path}: constructor index {t.CONSTR_ID} != {spec[2]}"
    if named and t.__name__ != spec[1]:
        return f"{path}: class name {t.__name__} != {spec[1]}"
    ann = [(n, x) for n, x in t.__annotations__.items() if n != "CONSTR_ID"]
    if [n for n, _ in ann] != [n for n, _ in spec[3]]:
        return f"{path}: fields {[n for n, _ in ann]} != {[n for n, _ in spec[3]]}"
    for (n, x), (_, y) in zip(ann, spec[3]):
        p = type_problem(x, y, isinstance(y, list) and y[0] in ("list", "dict", "union"), f"{path}.{n}")
        if p:
            return p
    return None


def spec_problems(k, c, script):
    out = []
    if bytes(k.contract) != script:
        out.append("script differs")
    for f in ("version", "title", "description", "license"):
        if f in c and getattr(k, f) != c[f]:
            out.append(f"{f}: {getattr(k, f)!r} != {c[f]!r}")
    if c.get("redeemer") and [p.name for p in k.purpose] != c["purpose"]:
        out.append(f"purpose {[p.name for p in k.purpose]} != {c['purpose']}")
    for f, got in (("datum", k.datum_type), ("redeemer", k.redeemer_type)):
        if bool(c.get(f)) != bool(got):
            out.append(f"{f} presence differs")
        elif got:
            if got[0] != c[f][0]:
                out.append(f"{f} title {got[0]!r} != {c[f][0]!r}")
            p = type_problem(got[1], c[f][1])
            if p:
                out.append(f"{f} {p}")
    if [n for n, _ in k.parameter_types] != [n for n, _ in c["params"]]:
        out.append(f"parameters {[n for n, _ in k.parameter_types]} != {[n for n, _ in c['params']]}")
    else:
        for (n, t), (_, sp) in zip(k.parameter_types, c["params"]):
            p = type_problem(t, sp)
            if p:
                out.append(f"parameter {n} {p}")
    return out


def execute(s):
    import hashlib, json, os, pathlib, random, shutil
    from opshin import PlutusContract, builder
    from .. import sim
    from .c05 import restore
    stats = {"evaluations": 0, "loads": 0, "load_errors": 0, "redumps": 0}
    faults, probes, trace, nontriv, viol = {}, {}, [], [], []
    W = sim.RUN["w"]
    c = s["contract"]
    orig = contracts.realise(c)
    script = bytes(orig.contract)
    d0 = os.path.join(W, "art")
    orig.dump(d0)
    written = sim.read_tree(d0)
    fp0 = contracts.fingerprint(orig)
    bare = contracts.fingerprint(PlutusContract(type(orig.contract)(script)))
    prob = contracts.check_dir(d0, script, c, json.loads(json.dumps(orig.blueprint)))
    if prob:
        viol.append({"class": "written artifacts do not describe the contract", "signature": "written:" + sim.sha(repr(prob).encode()), "detail": prob})
    # every artifact on its own
    for f in ("blueprint.json", "script.plutus", "script.cbor"):
        for st_order in (0,):
            stats["evaluations"] += 1
            stats["loads"] += 1
            try:
                k = builder.load(os.path.join(d0, f))
                got = contracts.fingerprint(k)
                want = fp0 if f == "blueprint.json" else bare
                dd = contracts.fp_diff(want, got)
                sp = spec_problems(k, c, script) if f == "blueprint.json" else ([] if bytes(k.contract) == script else ["script differs"])
                if f == "blueprint.json" and not c.get("redeemer"):
                    dd.pop("purpose", None)
            except Exception as e:
                dd, sp = {"error": repr(e)}, []
            if dd or sp:
                viol.append({"class": f"the artifact {f} alone does not load to the written contract", "signature": f"single:{f}:" + sim.sha(repr([dd, sp]).encode()),
                             "detail": {"differences": dd, "against_specification": sp}})
    gens = [d0]
    for n, st in enumerate(s["steps"]):
        if viol:
            break
        while len(gens) <= st["generation"]:
            # a directory written from a loaded contract
            k = builder.load(gens[-1])
            g = os.path.join(W, f"gen{len(gens)}")
            k.dump(g)
            stats["redumps"] += 1
            again = sim.read_tree(g)
            if again != written:
                viol.append({"class": "writing a loaded contract again changes the artifacts", "signature": "redump:" + sim.sha(repr(sorted(a for a in set(again) | set(written) if again.get(a) != written.get(a))).encode()),
                             "detail": {"generation": len(gens), "files": [[a, str(written.get(a))[-300:], str(again.get(a))[-300:]] for a in sorted(set(again) | set(written)) if again.get(a) != written.get(a)]}})
                break
            gens.append(g)
        if viol:
            break
        work = os.path.join(W, "case")
        shutil.copytree(gens[st["generation"]], work)
        for f in st["remove"]:
            os.unlink(os.path.join(work, f))
        for u in st["unrelated"]:
            v = UNRELATED[u]
            with sim.REAL.open(os.path.join(work, u), "wb") as fp:
                fp.write(bytes.fromhex(v["b"]) if isinstance(v, dict) else v.encode())
        for dn in st["dirs"]:
            os.makedirs(os.path.join(work, dn))
            sim.write_tree(os.path.join(work, dn), DIRS[dn])
        if st["seed"] % 5 == 0:
            os.symlink("nowhere", os.path.join(work, "dangling.json"))
        how = {"abs": work, "rel": "case", "path": pathlib.Path(work), "slash": work + "/", "symlink": os.path.join(W, "link")}[st["how"]]
        if st["how"] == "symlink":
            os.symlink(work, os.path.join(W, "link"))
        before = sim.read_tree(work)

        def load(fl):
            disk = sim.SimDisk(sim.RUN["root"], fl)
            disk.order = random.Random(st["order"])
            with disk:
                try:
                    k = builder.load(how)
                    return disk, k, None
                except (Exception, KeyboardInterrupt) as e:
                    return disk, None, e
        fl = []
        if st["faults"] != "none":
            log = load([])[0].log
            fl = sim.choose_faults(log, random.Random(st["seed"]), 2, BENIGN if st["faults"] == "benign" else HARD, sticky=0)
        disk, k, err = load(fl)
        for a, b in disk.fired.items():
            faults[a] = faults.get(a, 0) + b
        stats["evaluations"] += 1
        stats["loads"] += 1
        want = fp0 if "blueprint.json" not in st["remove"] else bare
        if st["unrelated"] or st["dirs"] or disk.fired or st["order"]:
            nontriv.append(sim.sha(repr([c, st]).encode()))
        hard = any(f["kind"] not in sim.BENIGN for f in fl if f["at"] < disk.n) and disk.fired
        where = {"step": n, "entries": sorted(before), "how": st["how"], "faults": fl, "removed": st["remove"], "generation": st["generation"]}
        trace.append([n, [e[1:3] for e in disk.log], fl, err and type(err).__name__])
        if err is not None:
            stats["load_errors"] += 1
            if not hard:
                viol.append({"class": "a written directory does not load", "signature": "noload:" + sim.sha(repr([st["unrelated"], st["dirs"], st["remove"]]).encode()), "detail": {**where, "error": repr(err)[:400]}})
        else:
            got = contracts.fingerprint(k)
            dd = contracts.fp_diff(want, got)
            if want is fp0 and not c.get("redeemer"):
                dd.pop("purpose", None)
            sp = spec_problems(k, c, script) if want is fp0 else ([] if bytes(k.contract) == script else ["script differs"])
            if dd or sp:
                viol.append({"class": "a loaded contract differs from the written one", "signature": "differs:" + sim.sha(repr([st["unrelated"], st["remove"], sorted(dd)]).encode()),
                             "detail": {**where, "differences": dd, "against_specification": sp}})
            if hard:
                probes["load succeeded although a read failed"] = probes.get("load succeeded although a read failed", 0) + 1
        if sim.read_tree(work) != before or disk.escapes:
            viol.append({"class": "load changes files", "signature": "changes", "detail": where})
        shutil.rmtree(work)
        if os.path.islink(os.path.join(W, "link")):
            os.unlink(os.path.join(W, "link"))
    return {"violations": viol, "stats": stats, "probes": probes, "faults": faults, "nontrivial": nontriv, "states": nontriv,
            "trace": trace, "trace_hash": sim.sha(repr(trace).encode()), "summary": {"contract": c["salt"], "steps": len(trace)}}
