"""C13: the size gate never takes an unknown or grown size for an unchanged one."""
from ..core import Check, rng

FAULTS = {"ENOSPC", "EIO", "EACCES", "EROFS", "EMFILE", "EDQUOT", "short", "EINTR_ok", "INTR", "NOMEM", "crash", "crash_after"}
BUILD = ["exit", "exit_partial", "killed", "killed_partial", "no_artifact", "spawn", "unreadable", "signal_late"]
EVAL = ["exit", "killed", "silent", "spawn", "garbled"]
NET = ["offline", "status", "html", "truncated", "no_asset", "asset_gone", "no_tag"]


class C13(Check):
    id = "C13"
    rule = ("A case is one run of the size tracker (generate or compare) or of the local check script in a seeded history of builds, faults and damaged baselines; exit status and stored baseline are "
            "compared with what the simulated build farm did. Non-trivial: a build, evaluation, download or file operation failed, or a size differs from the baseline; distinct by (command, fault kinds, change kinds).")
    real = ["scripts/binary_size_tracker.py", "scripts/check_binary_sizes.py", "PyYAML, json, argparse, shutil, subprocess.run on top of the simulated process"]
    stub = ["build and evaluation processes (simulated: exit status, output, artifacts)", "raw file operations (SimDisk)", "HTTP", "the shell"]
    assumptions = ["A contract or level without any entry in the baseline is new and cannot have grown.", "A build process that hangs forever makes the gate hang, not pass.", "A build that exits with success and leaves a script.cbor has written it completely (C05)."]

    def scenarios(self):
        n = 700 if self.quick else 12000
        for i in range(n):
            r = rng(self.seed, "C13", i)
            cs = []
            for j in range(r.randrange(1, 5)):
                c = {"name": f"contract_{j}", "path": f"examples/{r.choice(['gift', 'pool', 'market', 'mint'])}{j % 3}.py", "description": f"number {j}"}
                if r.random() < 0.3:
                    c["extra_flags"] = r.choice([["--parameters", "3"], ["-fno-remove-dead-code"], ["--parameters", "1", "-fno-constant-folding"]])
                if r.random() < 0.4:
                    c["test_inputs"] = [{"test_case_name": f"case {k}", "inputs_hex": ["%02x" % k, "d87980"][: r.randrange(1, 3)]} for k in range(r.randrange(1, 3))]
                if r.random() < 0.15:
                    c["compile_recursion_limit"] = 8000
                if any((c["path"], c.get("extra_flags")) == (x["path"], x.get("extra_flags")) for x in cs):
                    c["path"] = f"examples/other{j}.py"   # the farm tells builds apart by path and flags
                cs.append(c)
            levels = r.choice([["O1", "O2", "O3"], ["O0", "O1", "O2", "O3"], ["O3"], ["O2", "O3"]])
            s = {"config": {"contracts": cs, "optimization_levels": levels, "thresholds": r.choice([{"warning": 5.0, "significant": 10.0}, {"warning": 5, "significant": 10}, {"warning": 0.0, "significant": 2.0}, {"warning": 1.0, "significant": 50.0}])},
                 "base": r.randrange(2 ** 31), "steps": []}
            if r.random() < 0.5:
                s["config"]["ignore_warnings"] = r.sample(levels, r.choice([0, 1, 1, len(levels) // 2]))
            s["steps"].append({"do": "generate", "seed": r.randrange(2 ** 31), "plan": r.choice(["none", "none", "none", "io", "farm"])})
            for _ in range(r.randrange(2, 6)):
                do = r.choice(["compare", "compare", "compare", "compare", "check", "check", "generate", "edit", "edit", "edit", "damage"])
                st = {"do": do, "seed": r.randrange(2 ** 31)}
                if do in ("compare", "check", "generate"):
                    st["plan"] = r.choice(["none", "none", "farm", "farm", "farm2", "io", "io", "both"])
                if do == "check":
                    st["source"] = r.choice(["local", "net", "net", "net"])
                    st["net"] = r.choice([None, None] + NET)
                    st["cut"] = r.random()
                if do == "compare":
                    st["where"] = r.choice(["cwd", "cwd", "work-dir"])
                if do == "edit":
                    st["how"] = r.choice(["grow", "grow", "grow_little", "shrink", "boundary", "cost", "new_contract", "drop_contract", "new_level", "same"])
                if do == "damage":
                    st["how"] = r.choice(["delete", "truncate", "empty", "text", "list", "number"])
                    st["cut"] = r.random()
                s["steps"].append(st)
            yield s

    def shrink_paths(self, s):
        return [["steps"], ["config", "contracts"]] + [["steps", i, k] for i, st in enumerate(s["steps"]) for k in ("faults", "farm") if st.get(k)]

    def fixup(self, s):
        return s if s["config"]["contracts"] else None


def CHECK(tier, seed):
    return C13(tier, seed)


# ------------------------------------------------------------------ worker side

class Farm:
    """What `opshin build` and `opshin eval_uplc` do as child processes: a table of sizes and costs and a plan of failures."""

    def __init__(self, base):
        self.base = base
        self.sizes, self.costs = {}, {}
        self.plan = {}
        self.begin()

    def begin(self, plan=()):
        self.plan = {f["at"]: f["kind"] for f in plan}
        self.log, self.n = [], 0

    def size(self, path, level, flags):
        import random
        k = repr((path, level, flags))
        if k not in self.sizes:
            r = random.Random(f"{self.base}{path}{flags}")
            top = r.choice([1000, 2000, 4000, r.randrange(150, 9000)])
            for o in ("O0", "O1", "O2", "O3"):
                self.sizes.setdefault(repr((path, o, flags)), top)
                top = top - r.choice([0, 0, 1, top // 7, top // 3])
        return self.sizes[k]

    def cost(self, path, level, flags, inputs):
        import random
        k = repr((path, level, flags, inputs))
        if k not in self.costs:
            r = random.Random(f"{self.base}cost{k}")
            self.costs[k] = [r.randrange(10 ** 6, 10 ** 9), r.randrange(10 ** 4, 10 ** 7)]
        return self.costs[k]

    def run(self, argv, cwd):
        """(exit status, stdout, stderr)"""
        import os
        from .. import sim
        i = argv.index("build") if "build" in argv else argv.index("eval_uplc") if "eval_uplc" in argv else None
        if i is None or "opshin" not in argv[:i]:
            raise FileNotFoundError(2, "No such file or directory", argv[0])
        what, path, rest = argv[i], argv[i + 1], argv[i + 2:]
        level, limit, out, flags, inputs = "O1", None, None, [], []
        while rest:
            a = rest.pop(0)
            if a in ("-O0", "-O1", "-O2", "-O3"):
                level = a[1:]
            elif a == "--recursion-limit":
                limit = rest.pop(0)
            elif a in ("-o", "--output-directory"):
                out = rest.pop(0)
            elif a == "--parameters":
                flags += [a, rest.pop(0)]
            elif a.startswith("-"):
                flags.append(a)
            else:
                inputs.append(a)
        n = self.n
        self.n += 1
        kind = self.plan.get(n)
        rec = [what, path, level, flags, inputs, kind, None]
        self.log.append(rec)
        if kind == "spawn":
            raise FileNotFoundError(2, "No such file or directory", argv[0])
        if not os.path.exists(os.path.join(cwd, path)):
            return 1, "", "no such contract\n"
        if what == "eval_uplc":
            cpu, mem = self.cost(path, level, flags, inputs)
            if kind == "exit":
                return 1, "", "error\n"
            if kind == "killed":
                return -9, "Starting execution\n", ""
            if kind == "silent":
                return 0, "Starting execution\n", ""
            if kind == "garbled":
                return 0, "Starting execution\nCPU: | MEM: \n", ""
            rec[6] = [cpu, mem]
            return 0, f"Starting execution\n------LOGS--------\nNo logs\n------COST--------\nCPU: {cpu} | MEM: {mem}\n-----SUCCESS------\n(con unit ())\n", ""
        d = os.path.join(cwd, out or "build/" + os.path.splitext(os.path.basename(path))[0])
        size = self.size(path, level, flags)

        def write(n):
            sim.REAL.os["makedirs"](d, exist_ok=True)
            for f in ("blueprint.json", "script.cbor"):
                with sim.REAL.open(os.path.join(d, f), "w") as fp:
                    fp.write("0" * n)
        if kind in ("exit", "killed"):
            return (1 if kind == "exit" else -9), "", "Traceback\nMemoryError\n"
        if kind in ("exit_partial", "killed_partial", "signal_late"):
            write({"exit_partial": size // 2, "killed_partial": 0, "signal_late": size}[kind])
            return (1 if kind == "exit_partial" else -15), "", "Traceback\nOSError: No space left on device\n"
        if kind == "no_artifact":
            return 0, "Wrote script artifacts\n", ""
        if kind == "unreadable":
            write(size)
            os.symlink("script.cbor", os.path.join(d, "x")) if not os.path.lexists(os.path.join(d, "x")) else None
            sim.REAL.os["unlink"](os.path.join(d, "script.cbor"))
            os.symlink("script.cbor", os.path.join(d, "script.cbor"))  # a loop: every stat fails
            return 0, "Wrote script artifacts\n", ""
        if os.path.islink(os.path.join(d, "script.cbor")):
            sim.REAL.os["unlink"](os.path.join(d, "script.cbor"))
        write(size)
        rec[6] = size
        return 0, f"Wrote script artifacts to {d}\n", ""


def script_main(name, argv, farm, net, disk):
    """Runs one of the scripts as the interpreter would; returns (exit status, output)."""
    import io, os, shlex, subprocess, sys, traceback, types
    from .. import sim
    path = os.path.join(sim.REPO, "scripts", name)
    out = io.StringIO()

    class Popen:
        def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, shell=False, cwd=None, env=None, text=None, universal_newlines=None, encoding=None, **kw):
            self.args = args
            argv = shlex.split(args) if isinstance(args, str) else [os.fspath(a) for a in args]
            self.text = bool(text or universal_newlines or encoding)
            self.pid, self.stdin, self.stdout, self.stderr = 4242, None, None, None
            code, o, e = child(argv, os.path.abspath(cwd or os.getcwd()))
            if shell and code < 0:
                code = 128 - code
            self.returncode = None
            self._code = code
            if stdout is None:
                out.write(o)
                o = None
            if stderr is None:
                out.write(e)
                e = None
            elif stderr == subprocess.STDOUT:
                o, e = (o or "") + e, None
            self._io = tuple(x if x is None or self.text else x.encode() for x in (o, e))

        def communicate(self, input=None, timeout=None):
            self.returncode = self._code
            return self._io

        def wait(self, timeout=None):
            self.returncode = self._code
            return self._code
        poll = wait

        def kill(self):
            pass
        terminate = kill

        def send_signal(self, s):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.wait()

    def child(argv, cwd):
        if len(argv) > 1 and "python" in os.path.basename(argv[0]) and argv[1].endswith("binary_size_tracker.py"):
            def nested():
                d = sim.SimDisk(disk.root, [])
                with d:
                    code, o = script_main("binary_size_tracker.py", argv[2:], farm, net, d)
                return [code, o, farm.log, farm.n]
            disk.armed = False
            try:
                code, o, farm.log, farm.n = sim.in_child(nested)
            finally:
                disk.armed = True
            return (code if code >= 0 else code), o, ""
        disk.armed = False
        try:
            return farm.run(argv, cwd)
        finally:
            disk.armed = True

    def system(cmd):
        try:
            code, o, e = child(shlex.split(cmd), os.getcwd())
        except FileNotFoundError:
            code, o, e = 127, "", "sh: not found\n"
        out.write(o + e)
        return -code if code < 0 else code << 8
    import requests
    saved = (subprocess.Popen, os.system, requests.Session.request, sys.argv, sys.stdout, sys.stderr)
    subprocess.Popen, os.system = Popen, system
    requests.Session.request = lambda self, method, url, **kw: net(url)
    sys.argv, sys.stdout, sys.stderr = [path] + argv, out, out
    mod = types.ModuleType("__main__")
    mod.__file__ = path
    try:
        try:
            with sim.REAL.open(path, encoding="utf-8") as f:
                code = compile(f.read(), path, "exec")
            exec(code, mod.__dict__)
            return 0, out.getvalue()
        except SystemExit as e:
            return (e.code if isinstance(e.code, int) else 0 if e.code is None else 1) & 255, out.getvalue()
        except sim.SimCrash:
            return -9, out.getvalue()
        except KeyboardInterrupt:
            return 130, out.getvalue()
        except BaseException as e:
            return 1, out.getvalue() + "".join(traceback.format_exception_only(type(e), e))
    finally:
        subprocess.Popen, os.system, requests.Session.request, sys.argv, sys.stdout, sys.stderr = saved


def execute(s):
    import copy, json, os, random, sys
    import yaml
    from .. import sim
    from .c05 import restore
    W, root = sim.RUN["w"], sim.RUN["root"]
    stats = {"evaluations": 0, "passed": 0, "failed": 0, "builds": 0, "farm_faults": 0}
    faults, probes, trace, nontriv, viol, explicit = {}, {}, [], [], [], []
    cfg = copy.deepcopy(s["config"])
    farm = Farm(s["base"])
    B = os.path.join(W, "baseline.json")

    def put_config():
        sim.write_tree(W, {"sizes.yaml": yaml.safe_dump(cfg, sort_keys=False)})
        for c in cfg["contracts"]:
            sim.write_tree(W, {c["path"]: "def validator(x: int) -> int:\n    return x\n"})

    def stored():
        try:
            with sim.REAL.open(B, "rb") as f:
                return f.read()
        except OSError:
            return None

    def probe(k):
        probes[k] = probes.get(k, 0) + 1

    def table(raw):
        """name -> level -> (size, {case: (cpu, mem)}), or None if the text is no baseline."""
        try:
            d = json.loads(raw)["contracts"]
            out = {}
            for name, c in d.items():
                out[name] = {}
                for lv, x in c["sizes"].items():
                    if x is None:
                        continue
                    if isinstance(x, int):
                        out[name][lv] = (x, {})
                    else:
                        out[name][lv] = (x["size"], {e["test_case"]: (e["cpu"], e["memory"]) for e in x.get("execution_costs", [])})
            return out
        except Exception:
            return None

    for n, st in enumerate(s["steps"]):
        r = random.Random(st["seed"])
        put_config()
        do = st["do"]
        if do == "edit":
            how = st["how"]
            c = r.choice(cfg["contracts"])
            lv = r.choice(cfg["optimization_levels"])
            fl = c.get("extra_flags", [])
            k = repr((c["path"], lv, fl))
            z = farm.size(c["path"], lv, fl)
            if how == "grow":
                farm.sizes[k] = z + max(2, z * r.choice([2, 6, 11, 60, 200]) // 100)
            elif how == "grow_little":
                farm.sizes[k] = z + 1
            elif how == "shrink":
                farm.sizes[k] = max(1, z - r.choice([1, z // 20, z // 3]))
            elif how == "boundary":
                for o in cfg["optimization_levels"]:
                    q = repr((c["path"], o, fl))
                    farm.size(c["path"], o, fl)
                    farm.sizes[q] = {1000: 1050, 2000: 2100, 4000: 4200}.get(farm.sizes[q], farm.sizes[q])
            elif how == "cost":
                for t in c.get("test_inputs", []):
                    x = farm.cost(c["path"], lv, fl, t["inputs_hex"])
                    j = r.randrange(2)
                    x[j] += x[j] * r.choice([1, 4, 7, 15, -10]) // 100
            elif how == "new_contract":
                cfg["contracts"].insert(r.randrange(len(cfg["contracts"]) + 1), {"name": f"added_{n}", "path": f"examples/added{n}.py", "description": "added"})
            elif how == "drop_contract" and len(cfg["contracts"]) > 1:
                cfg["contracts"].remove(c)
            elif how == "new_level":
                cfg["optimization_levels"] = [o for o in ("O0", "O1", "O2", "O3") if o in cfg["optimization_levels"] or r.random() < 0.5]
            explicit.append(st)
            continue
        if do == "damage":
            b = stored()
            if b is not None:
                new = {"delete": None, "truncate": b[: int(len(b) * st["cut"])], "empty": b"", "text": b"<html>not found</html>", "list": b"[]", "number": b"5"}[st["how"]]
                if new is None:
                    sim.REAL.os["unlink"](B)
                else:
                    with sim.REAL.open(B, "wb") as f:
                        f.write(new)
            explicit.append(st)
            continue
        before = stored()
        base_raw = before
        # ------------------------------------------------ the outside world of this step
        net_state = {"n": 0}
        release = json.dumps({"tag_name": "9.9.9", "assets": [{"name": "other.txt", "browser_download_url": "https://x/other"}, {"name": "binary_sizes_baseline.json", "browser_download_url": "https://x/base"}]})

        def net(url):
            import requests
            kind = st.get("net")
            i = net_state["n"]
            net_state["n"] += 1
            resp = requests.Response()
            resp.status_code, resp.url, resp.encoding = 200, url, "utf-8"
            if i == 0:
                if kind == "offline":
                    raise requests.ConnectionError("unreachable")
                if kind == "status":
                    resp.status_code = 503
                resp._content = b"<html>" if kind == "html" else release.encode()
                if kind == "no_asset":
                    resp._content = b'{"tag_name": "9.9.9", "assets": []}'
                if kind == "no_tag":
                    resp._content = b'{"message": "API rate limit exceeded"}'
                return resp
            if kind == "asset_gone":
                resp.status_code = 404
            resp._content = (before or b"") if kind != "truncated" else (before or b"")[: int(len(before or b"") * st["cut"])]
            return resp
        if do == "check":
            argv = ["--baseline-file", "baseline.json"] if st["source"] == "local" else []
            script = "check_binary_sizes.py"
            if st["source"] == "net":
                if st["net"] == "truncated":
                    base_raw = (before or b"")[: int(len(before or b"") * st["cut"])]
                elif st["net"]:
                    base_raw = None
        else:
            argv = [do, "--baseline-file", "baseline.json", "--config-file", "sizes.yaml"]
            script = "binary_size_tracker.py"
            if st.get("where") == "work-dir":
                argv += ["--work-dir", "../w"]
        conf = cfg
        if do == "check":
            # the local check uses the configuration beside the scripts; its contracts are built by the farm, too
            with sim.REAL.open(os.path.join(sim.REPO, "scripts", "binary_size_config.yaml"), encoding="utf-8") as f:
                conf = yaml.safe_load(f)
            conf["contracts"] = conf["contracts"]
            for c in conf["contracts"]:
                sim.write_tree(W, {c["path"]: "x\n"})

        def command(fl, plan):
            def go():
                disk = sim.SimDisk(root, fl)
                farm.begin(plan)
                with disk:
                    code, out = script_main(script, argv, farm, net, disk)
                return {"code": code, "out": out, "log": disk.log, "fired": disk.fired, "farm": farm.log, "sizes": farm.sizes, "costs": farm.costs}
            return sim.in_child(go)
        snap = sim.read_tree(root)
        ref = command([], [])
        farm.sizes, farm.costs = ref["sizes"], ref["costs"]
        ref_after = stored()
        restore(root, snap)
        if st.get("faults") is not None:
            fl, plan = st["faults"], st["farm"]
        else:
            fl = sim.choose_faults(ref["log"], r, 1, FAULTS, benign=0.15) if st["plan"] in ("io", "both") and do != "check" else []
            plan = []
            if st["plan"] in ("farm", "farm2", "both") and ref["farm"]:
                for j in sorted(r.sample(range(len(ref["farm"])), min(len(ref["farm"]), 2 if st["plan"] == "farm2" else 1))):
                    plan.append({"at": j, "kind": r.choice(BUILD if ref["farm"][j][0] == "build" else EVAL)})
        explicit.append(dict(st, faults=fl, farm=plan))
        fired0 = {}
        for label, f2, p2 in (("no fault", [], []), ("fault", fl, plan)):
            if label == "fault" and not (fl or plan):
                continue
            res = command(f2, p2)
            after = stored()
            stats["evaluations"] += 1
            stats["builds"] += sum(1 for x in res["farm"] if x[0] == "build")
            stats["passed" if res["code"] == 0 else "failed"] += 1
            fk = sorted({x[0] + ":" + x[5] for x in res["farm"] if x[5]})
            for x in fk:
                faults[x] = faults.get(x, 0) + 1
                stats["farm_faults"] += 1
            for a, b in res["fired"].items():
                faults[a] = faults.get(a, 0) + b
            if do == "check" and st["source"] == "net" and st["net"]:
                faults["net:" + st["net"]] = faults.get("net:" + st["net"], 0) + 1
            where = {"step": n, "argv": [script] + argv, "exit": res["code"], "build_faults": [x[:6] for x in res["farm"] if x[5]][:4], "file_faults": res["fired"], "output": sim.mask(res["out"])[-900:].replace(root, "<S>")}
            # what the farm measured in this very run
            seen = {}
            for x in res["farm"]:
                if x[6] is not None:
                    seen[repr(x[:5])] = x[6]
            unknown, grown, cost_grown, cost_unknown, harmless = [], [], [], [], True
            base = table(base_raw) if base_raw is not None else None
            want = {}
            for c in conf["contracts"]:
                flg = c.get("extra_flags", [])
                prev = None
                for lv in conf["optimization_levels"]:
                    z = seen.get(repr(["build", c["path"], lv, flg, []]))
                    if z is None:
                        unknown.append([c["name"], lv])
                        continue
                    costs = {}
                    for t in c.get("test_inputs", []):
                        costs[t["test_case_name"]] = seen.get(repr(["eval_uplc", c["path"], lv, flg, t["inputs_hex"]]))
                    want.setdefault(c["name"], {})[lv] = (z, costs)
                    if prev is not None and z > prev:
                        harmless = False
                    prev = z
                    old = (base or {}).get(c["name"], {}).get(lv)
                    if old is None:
                        continue
                    th = conf["thresholds"]["warning"]
                    ign = lv in conf.get("ignore_warnings", [])
                    if (z - old[0]) * 100 > th * old[0]:
                        harmless = False
                        if not ign:
                            grown.append([c["name"], lv, old[0], z])
                    for t, pair in old[1].items():
                        if t in costs and pair[0] is not None:
                            if costs[t] is None:
                                harmless = False
                                if not ign:
                                    cost_unknown.append([c["name"], lv, t])
                            elif any((b - a) * 100 > th * a for a, b in zip(pair, costs[t])):
                                harmless = False
                                if not ign:
                                    cost_grown.append([c["name"], lv, t, pair, costs[t]])
                        elif t in costs:
                            harmless = harmless and costs[t] is not None
            trace.append([n, label, script, argv, res["code"], fk, res["fired"], unknown, grown, cost_grown, sim.sha(after or b"-")])
            if fk or res["fired"] or grown or cost_grown or base is None or (do == "check" and st["net"]):
                nontriv.append(sim.sha(repr([script, argv[0] if argv else "", fk, sorted(res["fired"]), bool(grown), bool(cost_grown), base is None, st.get("net"), len(unknown), len(conf["contracts"]), len(conf["optimization_levels"])]).encode()))

            def bad(cls, **d):
                viol.append({"class": cls, "signature": cls + script, "detail": {**where, **d}})
            if do == "generate":
                new = table(after) if after is not None else None
                if res["code"] == 0:
                    if unknown:
                        bad("generating a baseline reports success although a size is unknown", unknown=unknown[:4])
                    elif new is None or {k: {lv: (z, {t: (tuple(p) if p else (None, None)) for t, p in cs.items()}) for lv, (z, cs) in v.items()} for k, v in want.items()} != {k: {lv: (z, {t: tuple(p) for t, p in cs.items()}) for lv, (z, cs) in v.items()} for k, v in new.items()}:
                        bad("the stored baseline does not hold the sizes that were measured", stored=None if new is None else repr(new)[:600], measured=repr(want)[:600])
                else:
                    if after != before and (ref_after is None or after != ref_after):
                        bad("a failed run replaces the stored baseline with incomplete data", before=None if before is None else len(before), after=None if after is None else len(after))
                    if not fk and not res["fired"]:
                        bad("generating a baseline fails without any fault")
            else:
                if after != before:
                    bad("a comparison changes the stored baseline")
                if res["code"] == 0:
                    if base_raw is None or base is None:
                        bad("the gate passes without a readable baseline")
                    elif unknown:
                        bad("the gate passes although a size is unknown", unknown=unknown[:4])
                    elif grown:
                        bad("the gate passes although a size grew beyond the threshold", grown=grown[:4])
                    elif cost_grown:
                        bad("the gate passes although an execution cost grew beyond the threshold", grown=cost_grown[:4])
                    elif cost_unknown:
                        bad("the gate passes although the execution cost of a recorded test case is unknown", unknown=cost_unknown[:4])
                elif not fk and not res["fired"] and base is not None and harmless and not unknown and not (do == "check" and st["source"] == "net" and st["net"]):
                    bad("the gate fails although everything was measured and nothing grew")
            if viol:
                break
            if label == "no fault" and (fl or plan):
                restore(root, snap)
        if viol:
            break
    return {"violations": viol[:1], "stats": stats, "probes": probes, "faults": faults, "nontrivial": nontriv, "states": nontriv,
            "trace": trace, "trace_hash": sim.sha(repr(trace).encode()), "summary": {"steps": [[t[1], t[3][:1], t[4]] for t in trace]},
            "explicit": {"steps": explicit + s["steps"][len(explicit):]}}
