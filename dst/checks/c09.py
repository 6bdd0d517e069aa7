"""C09: imports resolve to the project's own files and are included exactly once."""
from ..core import Check, rng
from .c02 import C02

FLAT = ["alpha", "beta", "gamma", "delta", "json", "random", "types", "helper", "calendar", "util", "common", "string"]
PKG = ["pkg", "lib", "core", "email", "inner"]
STD = ["opshin.std.math", "opshin.std.bitmap", "opshin.std.fractions"]
DECOY_DIRS = ["else", "cwd", "site", "proj/old", "other"]


def fid(path):
    """The name that a module's definitions carry."""
    return path.replace("/", "_").replace(".py", "").replace("__init__", "i")


def body(r, path, tag, uses, shared):
    """Declarations of one module; `uses` are files whose names it may rely on."""
    n = fid(path)
    L = [f"K_{n} = {tag}"]
    if r.random() < 0.5:
        L.append(f"{shared} = {tag + 1}")
    e = [f"K_{n}"] + ([shared] if r.random() < 0.4 else []) + [f"f_{fid(u)}(x - 1)" for u in uses[:2] if r.random() < 0.6]
    L += [f"def f_{n}(x: int) -> int:", "    if x < 1:", f"        return x + {tag}", f"    return x * {tag % 7 + 1} + " + " + ".join(e), ""]
    if r.random() < 0.2:
        L += ["def same_name(x: int) -> int:", f"    return x + {tag}", ""]
    if r.random() < 0.15:
        L += [f"KONST_{n} = K_{n} + {shared}"]
    return L


def variant(r, files, path):
    """Another version of a module: same names, other values."""
    t = r.randrange(1, 10 ** 6)
    out = []
    for l in files[path].split("\n"):
        if l.startswith("K_"):
            l = l.split(" = ")[0] + f" = {t}"
        out.append(l)
    return "\n".join(out)


def graph(r):
    """Files of one project (relative to its root) with imports whose targets are known by construction."""
    mods = r.sample(FLAT, r.randrange(1, 5))
    files = [m + ".py" for m in mods]
    for p in r.sample(PKG, r.choice([0, 0, 1, 1, 2])):
        pack = r.random() < 0.7
        if pack:
            files.append(f"{p}/__init__.py")
        for m in r.sample(FLAT, r.randrange(1, 4)):
            files.append(f"{p}/{m}.py")
        if r.random() < 0.3:
            files.append(f"{p}/sub/__init__.py")
            files.append(f"{p}/sub/leaf.py")
            if r.random() < 0.6:
                files.append(f"{p}/sub/deep/__init__.py")
                files.append(f"{p}/sub/deep/tip.py")
    r.shuffle(files)
    if r.random() < 0.15:   # a module and a package of the same name
        m = r.choice(mods)
        files.append(f"{m}/__init__.py")
    cyc = r.choice([0.0, 0.1, 0.3])
    shared = r.choice(["SHARED", "LEVEL", "VALUE"])
    src, names = {}, {}
    order = ["contract.py"] + files

    def spell(frm, to):
        """Ways to import `to` from `frm` that denote it by the rules of the language."""
        dotted = (to[:-12] if to.endswith("/__init__.py") else to[:-3]).replace("/", ".")
        ways = [dotted]
        here = frm.split("/")[:-1]
        d = dotted.split(".")
        if here:
            common = 0
            while common < len(here) and common < len(d) - 1 and here[common] == d[common]:
                common += 1
            up = len(here) - common
            if common >= 1:
                ways.append("." * (up + 1) + ".".join(d[common:]))
                ways.append(ways[-1])
            if common == len(here) and len(d) == common + 1 and r.random() < 0.3 and not any(x == d[-1] + ".py" or x == d[-1] + "/__init__.py" for x in files):
                ways.append(d[-1])  # last resort: beside the importing file
        return r.choice(ways)
    for i, f in enumerate(order):
        targets = []
        for j, g in enumerate(order):
            if j == i:
                continue
            p = 0.45 if j > i else cyc
            if f == "contract.py":
                p = 0.5
            if g == "contract.py" and r.random() < 0.8:
                continue
            if r.random() < p:
                targets.append(g)
        targets = targets[:4]
        imps = [f"from {spell(f, g)} import *" for g in targets]
        if targets and r.random() < 0.2:
            imps.append(f"from {spell(f, targets[0])} import *")
        if f != "contract.py" and r.random() < 0.06:
            imps.append(f"from {r.choice(STD)} import *")
        if f == "contract.py":
            reach = targets
            L = imps + [f"BASE = {r.randrange(99)}", "def validator(p: int) -> int:", "    return " + " + ".join(["p", "BASE"] + [f"f_{fid(g)}(p)" for g in reach] + ([shared] if r.random() < 0.2 else []))]
            if r.random() < 0.3:
                k = r.randrange(len(imps) + 1)
                L = imps[:k] + [f"{shared} = {r.randrange(99)}"] + imps[k:] + L[len(imps):]
        else:
            b = body(r, f, r.randrange(1, 1000), targets, shared)
            if r.random() < 0.3 and imps:   # imports in the middle of the module
                L = b[:1] + imps + b[1:]
            else:
                L = imps + b
        src[f] = "\n".join(L) + "\n"
    return src


class C09(Check):
    id = "C09"
    timeout = 90
    rule = ("A case is one build of a contract from several files inside a session with history, decoys and faults, compared with a fresh build of one file in which the imports were expanded by an independent model; "
            "non-trivial: at least two files are included; distinct by (files included, history kinds before it).")
    real = C02.real
    stub = ["module search path entries and loaded modules (decoys added by the scenario)", "raw file operations in runs with a fault (SimDisk)", "terminal streams"]
    assumptions = ["An import of a name that exists neither beside the contract nor as installed module may be found beside the importing file.", "opshin.* always denotes the installed library.",
                   "Relative imports that leave the directory of the contract are not generated."]

    def scenarios(self):
        n = 150 if self.quick else 5000
        for i in range(n):
            r = rng(self.seed, "C09", i)
            projs = {"proj": graph(r)}
            if r.random() < 0.5:
                projs["proj2"] = graph(r) if r.random() < 0.5 else {f: (variant(r, projs["proj"], f) if f != "contract.py" else t) for f, t in projs["proj"].items()}
            world = {f"{p}/{f}": t for p, fs in projs.items() for f, t in fs.items()}
            ops = []
            # decoys: equally named modules everywhere else
            for f in sorted(projs["proj"]):
                for d in DECOY_DIRS:
                    if r.random() < 0.3 and f != "contract.py":
                        world[f"{d}/{f}"] = variant(r, projs["proj"], f)
                # a module beside the importing file must not be preferred to one beside the contract
                if "/" not in f and f != "contract.py" and r.random() < 0.3:
                    for p in {g.split("/")[0] for g in projs["proj"] if "/" in g}:
                        if f"proj/{p}/{f}" not in world:
                            world[f"proj/{p}/{f}"] = variant(r, projs["proj"], f)
            files = sorted(f for f in projs["proj"] if f != "contract.py")
            gone = {}
            for _ in range(r.randrange(3, 9)):
                k = r.randrange(16)
                p = r.choice(sorted(projs))
                f = r.choice(sorted(x for x in projs[p] if x != "contract.py"))
                if k < 3:
                    ops.append({"op": "chdir", "dir": r.choice(["cwd", "else", "proj", "proj2", ".", "proj/old"])})
                elif k == 3:
                    ops.append({"op": "path", "dir": r.choice(["site", "else", "cwd", "proj2", "proj"]), "at": r.choice([0, 0, 99])})
                elif k == 4:
                    ops.append({"op": "preload", "dir": r.choice(["site", "else", "cwd", "other", "proj2"]), "mod": (f[:-12] if f.endswith("/__init__.py") else f[:-3]).replace("/", ".")})
                elif k < 8:
                    t = variant(r, projs[p], f)
                    o = {"op": "write", "path": f"{p}/{f}", "content": t}
                    if r.random() < 0.4:
                        o["mtime"] = 1_700_000_000
                    ops.append(o)
                elif k == 8:
                    ops.append({"op": "rm", "path": f"{p}/{f}"})
                    gone[(p, f)] = world[f"{p}/{f}"]
                elif k == 9 and gone:
                    (gp, gf), t = sorted(gone.items())[r.randrange(len(gone))]
                    ops.append({"op": "write", "path": f"{gp}/{gf}", "content": t})
                elif k == 10 and "/" not in f:
                    ops.append({"op": "write", "path": f"{p}/{f[:-3]}/__init__.py", "content": variant(r, projs[p], f)})
                elif k == 10:   # a module beside a directory of the same name
                    ops.append({"op": "write", "path": f"{p}/{f.split('/')[0]}.py", "content": variant(r, projs[p], f)})
                elif k == 11:
                    ops.append({"op": "mv", "src": p, "dst": "moved"})
                    ops.append({"op": "build", "file": "moved/contract.py", "level": r.choice([None, 0, 1, 2])})
                    if r.random() < 0.8:
                        ops.append({"op": "mv", "src": "moved", "dst": p})
                elif k == 12:
                    ops.append({"op": "pyc", "path": f"{p}/{f}", "content": variant(r, projs[p], f)})
                b = {"op": "build", "file": f"{p}/contract.py", "level": r.choice([None, None, 0, 1, 2]), "spell": r.choice(["abs", "abs", "rel", "dots", "dot"])}
                if r.random() < 0.25:
                    b["fault"] = {"seed": r.randrange(2 ** 31)}
                ops.append(b)
                if r.random() < 0.15:
                    ops.append({"op": "cli", "file": f"{p}/contract.py", "level": r.choice([0, 1, 2]), "decoy": r.choice([None, "else", "cwd"])})
            yield {"world": world, "ops": ops, "flavour": {"hashseed": 0}}

    def shrink_paths(self, s):
        return [["ops"]]

    def simplify(self, s):
        for f in sorted(s["world"]):
            if not f.endswith("contract.py"):
                yield dict(s, world={k: v for k, v in s["world"].items() if k != f})


def CHECK(tier, seed):
    return C09(tier, seed)


# ------------------------------------------------------------------ reference model (independent of the code under test)

class Missing(Exception):
    pass


def installed(parts, extra):
    """Module search path of the process (only directories added by the scenario can hold it)."""
    import os
    places = []
    for d in extra:
        if len(parts) == 1:
            for c in (os.path.join(d, parts[0], "__init__.py"), os.path.join(d, parts[0] + ".py")):
                if os.path.isfile(c):
                    return c
            continue
        p = os.path.join(d, parts[0])
        if os.path.isfile(os.path.join(p, "__init__.py")):
            places = [p]
            break
        if os.path.isfile(p + ".py"):
            return None
        if os.path.isdir(p):
            places.append(p)
    for d in places:
        ok = True
        for q in parts[1:-1]:
            if not os.path.isfile(os.path.join(d, q, "__init__.py")) and os.path.isfile(os.path.join(d, q + ".py")):
                ok = False
                break
            d = os.path.join(d, q)
        if ok:
            for c in (os.path.join(d, parts[-1], "__init__.py"), os.path.join(d, parts[-1] + ".py")):
                if os.path.isfile(c):
                    return c
    return None


def locate(root, importer, level, name, repo, extra):
    import os, sys
    parts = name.split(".")

    def under(d):
        for p in parts[:-1]:
            if not os.path.isfile(os.path.join(d, p, "__init__.py")) and os.path.isfile(os.path.join(d, p + ".py")):
                return None
            d = os.path.join(d, p)
        for c in (os.path.join(d, parts[-1], "__init__.py"), os.path.join(d, parts[-1] + ".py")):
            if os.path.isfile(c):
                return c
        return None
    if level:
        d = importer
        for _ in range(level - 1):
            d = os.path.dirname(d)
        f = under(d)
    elif parts[0] == "opshin":
        f = os.path.join(repo, *parts) + ".py"
    else:
        f = under(root)
        if f is None:
            if parts[0] in sys.stdlib_module_names:
                raise Missing("stdlib")
            f = installed(parts, extra)
        if f is None:
            f = under(importer)
    if f is None:
        raise Missing(name)
    return os.path.abspath(f)


def flatten(root, contract, repo, special, counts, extra=()):
    """One file with every import expanded once at its first occurrence."""
    import ast, os, re
    done = set()

    def expand(path):
        from .. import sim
        with sim.REAL.open(path, encoding="utf-8") as f:
            text = f.read()
        out = []
        imports = {n.lineno for n in ast.parse(text).body if isinstance(n, ast.ImportFrom)}
        for no, l in enumerate(text.split("\n"), 1):
            m = re.match(r"from (\.*)([\w.]+) import \*\s*(#.*)?$", l) if no in imports else None
            if not m or m[2] in special:
                out.append(l)
                continue
            t = locate(root, os.path.dirname(path), len(m[1]), m[2], repo, extra)
            if t in done:
                counts["repeated"] = counts.get("repeated", 0) + 1
                continue
            done.add(t)
            out += expand(t)
        return out
    res = "\n".join(expand(os.path.join(root, contract)))
    counts["files"] = len(done)
    return res


# names of intermediate values contain their position; they are not part of the script
NORM = r"(?<=chain_cmp_value_)\d+_\d+"
SPECIAL = ["pycardano", "typing", "dataclasses", "hashlib", "opshin.bridge", "opshin.std.integrity", "opshin.std.bls12_381"]


# ------------------------------------------------------------------ worker side

def flat_build(arg):
    """Fresh process: one file in an empty directory."""
    import os
    from .. import sim, ops
    d = os.path.join(sim.RUN["root"], "flat")
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    with sim.REAL.open(os.path.join(d, "flat.py"), "w", encoding="utf-8") as f:
        f.write(arg["src"])
    if arg.get("cli"):
        return ops.op_cli({"op": "cli", "norm": NORM, "argv": ["compile", "flat.py", "--lib", "validator", "-O%d" % arg["level"]]})
    return ops.op_build({"op": "build", "file": os.path.join(d, "flat.py"), "level": arg["level"]})


def spelled(path, how):
    import os
    rel = os.path.relpath(path)
    if how == "rel":
        return rel
    if how == "dot":
        return "./" + rel
    if how == "dots":
        return os.path.join(os.path.dirname(path), "..", os.path.basename(os.path.dirname(path)), "contract.py")
    return path


def strip(res):
    """Result without position (which differs by construction)."""
    if res[0] == "err" and res[1] == "CompilerError":
        return res[:4]
    return res


def execute(s):
    import importlib, json, os, random, sys
    from .. import sim, ops
    fresh = sim.Fresh()
    w = sim.RUN["w"]
    sim.write_tree(w, s["world"])
    sim.write_tree(w, {d + "/.keep": "" for d in DECOY_DIRS + ["proj2"]})
    viol, trace, nontriv, hist = [], [], [], []
    st = {"evaluations": 0, "included_files": 0, "repeated_imports": 0, "rejected": 0, "decoys": sum(1 for f in s["world"] if f.split("/")[0] in DECOY_DIRS)}
    faults, probes = {}, {}
    for i, op in enumerate(s["ops"]):
        o = op["op"]
        if o in ops.WORLD:
            ops.WORLD[o](ops.absolutize(op))
            hist.append(o)
            continue
        if o == "path":
            sys.path.insert(op["at"], os.path.join(w, op["dir"]))
            importlib.invalidate_caches()
            hist.append(o)
            continue
        if o == "preload":
            sys.path.insert(0, os.path.join(w, op["dir"]))
            importlib.invalidate_caches()
            try:
                importlib.import_module(op["mod"])
                hist.append(o)
            except Exception:
                pass
            finally:
                sys.path.pop(0)
            continue
        if o == "pyc":
            import py_compile
            p = os.path.join(w, op["path"])
            if os.path.isfile(p):
                st_ = os.stat(p)
                with sim.REAL.open(p + ".tmp", "w") as f:
                    f.write(op["content"])
                os.utime(p + ".tmp", (st_.st_mtime, st_.st_mtime))
                py_compile.compile(p + ".tmp", cfile=importlib.util.cache_from_source(p))
                os.unlink(p + ".tmp")
                hist.append(o)
            continue
        path = os.path.join(w, op["file"])
        if not os.path.isfile(path):
            continue
        counts = {}
        try:
            flat = flatten(os.path.dirname(path), os.path.basename(path), sim.REPO, SPECIAL, counts, [p for p in sys.path if p.startswith(w + os.sep)])
        except Missing as e:
            flat = None
            if str(e) == "stdlib":
                continue
        if o == "cli":
            if flat is None:
                continue

            def go():
                os.chdir(os.path.join(w, op["decoy"]) if op["decoy"] else os.path.dirname(path))
                sys.path.insert(0, os.getcwd())
                sys.modules.pop("contract", None)
                for m in [m for m, v in sys.modules.items() if (getattr(v, "__file__", None) or "").startswith(w)]:
                    del sys.modules[m]
                importlib.invalidate_caches()
                return ops.op_cli({"op": "cli", "norm": NORM, "argv": ["compile", path, "--lib", "validator", "-O%d" % op["level"]]})
            got = sim.in_child(go)
            st["evaluations"] += 1
            exp = fresh.ask("dst.checks.c09", "flat_build", {"src": flat, "level": op["level"], "cli": True})
            trace.append([i, "cli", got[1]])
            if got[1][0] == "exit" and exp[1][0] == "exit" and (got[1], got[3]) != (exp[1], exp[3]):
                viol.append({"class": "the command line compiles another script than the single file", "signature": "c09cli:" + sim.sha(repr(op).encode()), "detail": {"step": i, "op": op, "multi": got, "flat": exp, "source": flat[:3000]}})
                break
            hist.append("cli")
            continue
        name = spelled(path, op.get("spell", "abs"))
        f = op.get("fault")
        bop = {"op": "build", "file": name, "level": op["level"]}
        fired = {}
        if f:
            root = sim.RUN["root"]

            def dry():
                d = sim.SimDisk(root)
                d.stats = True
                with d:
                    ops.op_build(bop)
                return d.log
            log = sim.in_child(dry)
            d = sim.SimDisk(root, f.get("faults") or sim.choose_faults(log, random.Random(f["seed"]), 1, ("EIO", "EACCES", "EMFILE", "ENOENT", "short", "EINTR_ok"), benign=0.1))
            d.stats = True
            with d:
                got = ops.op_build(bop)
            fired = d.fired
            for a, b in fired.items():
                faults[a] = faults.get(a, 0) + b
        else:
            got = ops.op_build(bop)
        got = json.loads(json.dumps(got))
        st["evaluations"] += 1
        exp = ["err", "CompilerError", "ModuleNotFoundError"] if flat is None else fresh.ask("dst.checks.c09", "flat_build", {"src": flat, "level": op["level"]})
        st["included_files"] += counts.get("files", 0)
        st["repeated_imports"] += counts.get("repeated", 0)
        st["rejected"] += got[0] == "err"
        trace.append([i, o, got, bool(fired)])
        hard = [k for k in fired if k.split(":")[0] not in sim.BENIGN]
        if flat is None:
            bad = got[:3] != exp and not hard
        elif hard:
            bad = got[0] != "err" and got != exp
        else:
            bad = strip(got) != strip(exp)
        if counts.get("files", 0) >= 1:
            nontriv.append(sim.sha(repr([flat, sorted(set(hist)), op.get("spell"), sorted(fired)]).encode()))
        if bad:
            viol.append({"class": ("a storage fault makes the build take another file" if hard else "a missing module is not reported" if flat is None else "the script differs from that of the single file with all imports expanded"),
                         "signature": "c09:" + sim.sha(repr([op, s["world"]]).encode()),
                         "detail": {"step": i, "op": op, "multi": got, "flat": exp, "faults": fired, "expanded": (flat or "")[:4000], "history": hist[-8:], "cwd": sim.mask(os.getcwd())}})
            break
        hist.append("faulty build" if hard else "build" if got[0] == "ok" else "failed build")
    return {"violations": viol, "stats": st, "nontrivial": nontriv, "states": nontriv, "faults": faults, "probes": probes, "trace": trace, "trace_hash": sim.sha(repr(trace).encode()), "summary": {"ops": len(s["ops"]), "history": hist[:20]}}
