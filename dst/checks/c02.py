"""C02: long-lived sessions behave like fresh processes."""
from ..core import Check, rng
from .. import contracts, gen


class C02(Check):
    id = "C02"
    rule = ("A case is one API operation of a seeded session; its outcome (bytes, artifacts, or error with text and position) is compared "
            "with the same call made by a fresh process on the same files.  Non-trivial: the operation follows at least one other API "
            "operation in the session; distinct by (operation, files it reads, kinds of everything before it).")
    real = ["opshin.builder", "opshin.compiler", "opshin.rewrite.*", "opshin.optimize.*", "opshin.__main__", "pluthon", "uplc", "pycardano", "CPython import system", "real files in a scratch directory"]
    stub = ["terminal streams (captured)", "temporary directory location", "home directory"]
    assumptions = ["A fork of an interpreter that has imported opshin and done nothing else counts as a fresh process."]

    def scenarios(self):
        n = 150 if self.quick else 1600
        for i in range(n):
            r = rng(self.seed, "C02", i)
            kind = r.choice(["corpus", "corpus", "projects", "projects", "projects", "mixed", "artifacts"])
            yield getattr(self, "s_" + kind)(r, i)

    # -- op generators
    def corpus_pool(self, r):
        c = gen.corpus()
        cheap = [i for i, p in enumerate(c) if p["cost"] < 0.25]
        mid = [i for i, p in enumerate(c) if 0.25 <= p["cost"] < 1.5]
        return cheap, mid

    def corpus_op(self, r, i, opn=None):
        p = gen.corpus()[i]
        cfg = dict(p["cfg"] or {})
        op = {"op": opn or r.choice(["compile", "buildsrc"]), "corpus": i, "vfn": p["vfn"], "cfg": cfg}
        k = r.randrange(6)
        if k == 0:
            op["level"] = r.randrange(4)
            op["cfg"] = {}
        elif k == 1:
            op["cfg"] = {**cfg, r.choice(["constant_folding", "remove_dead_code", "expand_union_types", "wrap_output", "unwrap_input", "allow_isinstance_anything"]): r.random() < 0.5}
        if op["op"] == "buildsrc":
            op["file"] = f"b{r.randrange(3)}.py"
        else:
            op["filename"] = r.choice(["<unknown>", "<unknown>", "a.py"])
        return op

    def s_corpus(self, r, i):
        cheap, mid = self.corpus_pool(r)
        chosen = [r.choice(cheap) for _ in range(r.randrange(5, 12))] + ([r.choice(mid)] if r.random() < 0.4 else [])
        # neighbours in the corpus share class and function names: good for leaks
        base = r.choice(cheap)
        chosen += [j for j in range(base, min(base + 4, len(gen.corpus()))) if gen.corpus()[j]["cost"] < 0.25]
        ops = []
        for j in chosen:
            ops.append(self.corpus_op(r, j))
        for _ in range(r.randrange(2, 5)):   # a program that lacks one of its imports (or another line), next to the complete one
            j = r.choice(chosen)
            lines = gen.corpus()[j]["src"].split("\n")
            drop = [k for k, l in enumerate(lines) if "import " in l and "pycardano" not in l and "dataclasses" not in l] or [k for k, l in enumerate(lines) if "import " in l] or list(range(len(lines)))
            del lines[r.choice(drop)]
            ops.append({"op": "compile", "src": "\n".join(lines), "vfn": gen.corpus()[j]["vfn"], "cfg": dict(gen.corpus()[j]["cfg"] or {}), "filename": "<unknown>"})
        for _ in range(r.randrange(2, 6)):
            o = dict(r.choice(ops))
            if r.random() < 0.5 and "corpus" in o:
                o = self.corpus_op(r, o["corpus"])
            ops.append(o)
        r.shuffle(ops)
        return {"kind": "corpus", "ops": ops}

    def s_projects(self, r, i):
        names = r.sample(gen.HELPERS, r.randrange(1, 3))
        dirs = ["pa", "pb", "pc"][: r.randrange(2, 4)]
        ops = []
        tag = [r.randrange(50)]

        def put(d, h, broken=None):
            tag[0] += r.randrange(1, 9)
            imports = []
            if h != names[-1] and r.random() < 0.5:
                imports = [f"from {names[-1]} import *"]
            src = gen.helper_src(r, tag[0], f"bonus_{h}", imports)
            if broken == "raise":
                src += "assert K_bonus_%s < 0, 'helper refuses'\n" % h
            elif broken == "syntax":
                src += "def broken(:\n"
            elif broken == "type":
                src += f"def ill(x: int) -> int:\n    return x + b'a'\nBAD = ill(1)\n"
            ops.append({"op": "write", "path": f"{d}/{h}.py", "content": src})

        for d in dirs:
            for h in names:
                if r.random() < 0.9:
                    put(d, h)
            ops.append({"op": "write", "path": f"{d}/contract.py", "content": gen.contract_src(r, names, [f"bonus_{h}" for h in names])})
        same = r.random() < 0.5
        if same:  # identical contract text in two projects; only the helpers differ
            src = gen.contract_src(r, names, [f"bonus_{h}" for h in names])
            for d in dirs:
                ops.append({"op": "write", "path": f"{d}/contract.py", "content": src})
        rel = r.random() < 0.3
        for _ in range(r.randrange(6, 14)):
            d = r.choice(dirs)
            k = r.randrange(14)
            if k < 5:
                ops.append({"op": "build", "file": f"{d}/contract.py", "level": r.choice([None, 0, 1, 2, 3])})
            elif k == 5:
                h = r.choice(names)
                put(d, h)
                ops.append({"op": "build", "file": f"{d}/contract.py"})
            elif k == 6:
                h = r.choice(names)
                put(d, h, r.choice(["raise", "syntax", "type"]))
                ops.append({"op": "build", "file": f"{d}/contract.py"})
                if r.random() < 0.7:
                    put(d, h)
                    ops.append({"op": "build", "file": f"{d}/contract.py"})
            elif k == 7:
                h = r.choice(names)
                ops.append({"op": "rm", "path": f"{d}/{h}.py"})
                ops.append({"op": "build", "file": f"{d}/contract.py"})
            elif k == 8:
                ops.append({"op": "mv", "src": d, "dst": d + "_old"})
                ops.append({"op": "build", "file": f"{d}_old/contract.py"})
                ops.append({"op": "mv", "src": d + "_old", "dst": d})
            elif k == 9:
                ops.append({"op": "chdir", "dir": r.choice([d, "."])})
                ops.append({"op": "build", "rel": True, "file": "contract.py"})
            elif k == 10:
                ops.append({"op": "chdir", "dir": d})
                src = gen.contract_src(r, names[:1], [f"bonus_{names[0]}"])
                ops.append({"op": "compile", "src": src, "filename": r.choice(["<unknown>", "contract.py"])})
                d2 = r.choice(dirs)
                ops.append({"op": "chdir", "dir": d2})
                ops.append({"op": "compile", "src": src, "filename": "<unknown>"})
            elif k == 11:
                ops.append({"op": "dump", "file": f"{d}/contract.py", "dir": f"{d}/out", "title": r.choice(["t1", "t2"])})
                ops.append({"op": "load", "path": f"{d}/out"})
            elif k == 12:
                ops.append({"op": "cli", "argv": [r.choice(["compile", "lint", "parse", "compile_pluto"]), f"@W/{d}/contract.py", "--lib"] + r.choice([[], ["-O0"], ["-O3"], ["-fno-constant-folding"]])})
            else:
                ops.append(self.corpus_op(r, r.choice(self.corpus_pool(r)[0])))
        return {"kind": "projects", "ops": ops}

    def s_artifacts(self, r, i):
        """Contracts with metadata that share names, written over each other, loaded and bound."""
        specs = [contracts.contract_spec(r)]
        while len(specs) < 4:
            specs.append(contracts.variant(r, r.choice(specs)) if r.random() < 0.7 else contracts.contract_spec(r))
        for c in specs:
            c["level"] = c["level"] or None
        ops = []
        held = {}
        for _ in range(r.randrange(8, 16)):
            d = r.choice(["d0", "d1", "d2"])
            k = r.randrange(8)
            if k < 3 or not held:
                held[d] = r.choice(specs)
                ops.append({"op": "dumpc", "spec": held[d], "dir": d})
            elif k < 6:
                ops.append({"op": "load", "path": r.choice(sorted(held)) + r.choice(["", "", "", "/blueprint.json", "/script.plutus", "/script.cbor"])})
            elif k == 6:
                d = r.choice(sorted(held))
                ts = held[d]["ptypes"]
                ops.append({"op": "apply", "path": d, "args": [contracts.param_value(r, t) for t in ts[: r.randrange(0, len(ts) + 2)]]})
            else:
                d = r.choice(sorted(held))
                ops.append({"op": "rm", "path": d + "/" + r.choice(contracts.ARTIFACTS)})
        return {"kind": "artifacts", "ops": ops}

    def s_mixed(self, r, i):
        a = self.s_projects(r, i)["ops"]
        b = self.s_corpus(r, i)["ops"][:8]
        for _ in range(2):
            src = gen.program(r, r.choice([0.5, 1, 2]))
            for _ in range(2):
                b.append({"op": "compile", "src": src, "level": r.choice([None, 0, 1, 2, 3]), "vfn": "validator"})
        # interesting special imports and names used before/after
        sp = ["from opshin.std.integrity import check_integrity%s\n" % r.choice(["", " as ci", " as check_it"]),
              "from hashlib import sha256%s\n" % r.choice(["", " as hsh", " as ci"]),
              "from opshin.std.math import *\n", "from opshin.std.fractions import *\n"]
        for s in r.sample(sp, 2):
            nm = s.strip().split()[-1]
            body = {"integrity": f"@dataclass()\nclass A(PlutusData):\n    CONSTR_ID = 1\n    a: int\ndef validator(x: A) -> int:\n    {nm}(x)\n    return x.a\n",
                    "hashlib": f"def validator(x: bytes) -> bytes:\n    return {nm}(x).digest()\n",
                    "math": "def validator(x: int) -> int:\n    return gcd(x, 12)\n",
                    "fractions": "def validator(x: int) -> int:\n    return floor(Fraction(x, 3))\n"}
            key = next(k for k in body if k in s)
            src = s + "from dataclasses import dataclass\nfrom typing import Dict, List, Union\nfrom pycardano import Datum as Anything, PlutusData\n" + body[key]
            b.append({"op": "compile", "src": src})
            # a program that uses the same name as an ordinary function afterwards
            alias = nm if nm.isidentifier() and nm != "*" else "gcd"
            b.append({"op": "compile", "src": f"def {alias}(x: int) -> int:\n    return x + 1\ndef validator(x: int) -> int:\n    return {alias}(x)\n"})
            b.append({"op": "compile", "src": f"def validator(x: int) -> int:\n    return {alias}(x)\n"})
            b.append({"op": "buildsrc", "src": src, "file": "special.py", "level": r.choice([0, 3])})
        r.shuffle(b)
        out = []
        while a or b:
            if a and (not b or r.random() < len(a) / (len(a) + len(b))):
                out.append(a.pop(0))
            else:
                out.append(b.pop(0))
        return {"kind": "mixed", "ops": out}

    def shrink_paths(self, s):
        return [["ops"]]


def CHECK(tier, seed):
    return C02(tier, seed)


# ------------------------------------------------------------------ worker side

def execute(s):
    import os
    from .. import sim, ops
    fresh = sim.Fresh()
    base = sim.process_state()
    stats = {"evaluations": 0, "world_ops": 0, "errors_expected": 0}
    probes, trace, nontriv, viol = {}, [], [], []
    seen_kinds = []
    n_api = 0
    srcs = {}
    last_build = {}
    for i, op0 in enumerate(s["ops"]):
        op = ops.absolutize(op0)
        if op["op"] in ops.WORLD:
            try:
                ops.WORLD[op["op"]](op)
            except OSError:
                pass
            base = sim.process_state() if op["op"] == "chdir" else base
            stats["world_ops"] += 1
            trace.append([i, "world", op["op"]])
            continue
        before = sim.process_state()
        redirect = None
        if op["op"] == "buildsrc":
            with sim.REAL.open(op["file"], "w") as f:
                f.write(ops.src_of(op))
        if op["op"] in ("dump", "dumpc", "cli"):
            redirect = [op.get("dir") or op.get("outdir") or "\0", os.path.join(sim.RUN["root"], f"ref{i}")]
        exp = fresh.ask("dst.ops", "fresh_exec", {"op": op, "cwd": os.getcwd(), "redirect": redirect})
        if redirect:
            sim.RUN["mask"] = [redirect[0]]
        got = ops.API[op["op"]](op)
        sim.RUN["mask"] = []
        got = __import__("json").loads(__import__("json").dumps(got))
        stats["evaluations"] += 1
        if got[0] == "err":
            stats["errors_expected"] += 1
        after = sim.process_state()
        key = sim.sha(repr([op0, exp]).encode())
        if n_api:
            nontriv.append(sim.sha(repr([key, sorted(set(seen_kinds))]).encode()))
        if key in srcs:
            probes["repeat of an earlier call"] = probes.get("repeat of an earlier call", 0) + 1
        srcs[key] = 1
        f = op.get("file")
        if f in last_build and last_build[f] != exp:
            probes["same file, result changed by an edit"] = probes.get("same file, result changed by an edit", 0) + 1
        if f:
            last_build[f] = exp
        if got[0] == "err" or (got[0] == "cli" and got[1] != ["exit", 0]):
            probes["operation after which a failure is history"] = probes.get("operation after which a failure is history", 0) + 1
        trace.append([i, op["op"], exp, got == exp])
        n_api += 1
        seen_kinds.append(op["op"] + ("!" if got[0] == "err" else ""))
        if got != exp:
            viol.append({"class": f"outcome of {op['op']} depends on session history", "signature": "hist:" + sim.sha(repr([op0, got[:2], exp[:2]]).encode()),
                         "detail": {"step": i, "op": {k: (v if len(str(v)) < 400 else str(v)[:400]) for k, v in op0.items()}, "fresh_process": exp, "in_session": got}})
            break
        d = sim.state_diff(before, after)
        if op["op"] == "cli":
            d.pop("recursion_limit", None)
            d.pop("log", None)
        if d:
            viol.append({"class": f"{op['op']} leaves process state changed: {sorted(d)}", "signature": "state:" + sim.sha(repr([op0, sorted(d)]).encode()),
                         "detail": {"step": i, "op": {k: (v if len(str(v)) < 400 else str(v)[:400]) for k, v in op0.items()}, "changed": d}})
            break
    return {"violations": viol, "stats": stats, "probes": probes, "faults": {}, "nontrivial": nontriv,
            "states": [sim.sha(repr(t).encode()) for t in trace], "trace": trace,
            "trace_hash": sim.sha(repr(trace).encode()), "summary": {"ops": len(s["ops"]), "api_ops": n_api, "kind": s["kind"]}}
