"""Controller side of the deterministic simulation: seeds, worker pool, shrinking,
known findings, replay files and evidence.  Never imports opshin."""
import hashlib, importlib, json, os, queue, random, subprocess, sys, threading, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("DST_REPO", "/repo")
SCRATCH_BASE = os.environ.get("DST_SCRATCH", "/tmp")


def derive(seed, *labels):
    h = hashlib.sha256(("/".join([str(seed), *map(str, labels)])).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng(seed, *labels):
    return random.Random(derive(seed, *labels))


def jhash(o):
    return hashlib.sha256(json.dumps(o, sort_keys=True, default=str).encode()).hexdigest()[:16]


class HarnessError(Exception):
    pass


class Worker:
    """One zygote interpreter; forks one child per run."""

    def __init__(self, flavour):
        self.flavour = dict(flavour)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTEST", "OPSHIN"))}
        env["PYTHONHASHSEED"] = str(self.flavour.get("hashseed", 0))
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONPATH"] = ROOT
        env["DST_REPO"] = REPO
        env["DST_FLAVOUR"] = json.dumps(self.flavour)
        env.pop("PYTHONWARNINGS", None)
        env.update(self.flavour.get("env", {}))
        self.err = open(os.path.join(SCRATCH_BASE, f"dst-worker-{os.getpid()}-{id(self)}.err"), "w+")
        os.unlink(self.err.name)
        self.p = subprocess.Popen([PY, "-B", "-m", "dst.worker"], cwd=ROOT, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err)
        line = self.p.stdout.readline()
        if line.strip() != b'{"ready": true}':
            self.err.seek(0)
            raise HarnessError("worker did not start: " + line.decode(errors="replace") + self.err.read()[-3000:])

    def run(self, check, scenario, timeout):
        self.p.stdin.write((json.dumps({"check": check, "scenario": scenario, "timeout": timeout}) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.err.seek(0)
            raise HarnessError("worker died: " + self.err.read()[-3000:])
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        self.err.close()


class Pool:
    """n threads; each keeps at most a few worker flavours alive."""

    def __init__(self, n=None):
        self.n = n or int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 8)

    def map(self, check, scenarios, flavour_of, timeout, deadline=None, on_result=None):
        """Runs every scenario; returns list of results in scenario order (None if deadline hit)."""
        groups = {}
        for i, s in enumerate(scenarios):
            groups.setdefault(json.dumps(flavour_of(s), sort_keys=True), []).append(i)
        results = [None] * len(scenarios)
        qs = {k: queue.SimpleQueue() for k in groups}
        for k, idx in groups.items():
            for i in idx:
                qs[k].put(i)
        # assign threads to flavours proportionally, then let them steal
        keys = sorted(groups, key=lambda k: -len(groups[k]))
        errors, stuck = [], []

        def work(t):
            order = keys[t % len(keys):] + keys[: t % len(keys)]
            for k in order:
                w = None
                try:
                    while not errors:
                        if deadline is not None and time.time() > deadline:
                            return
                        try:
                            i = qs[k].get_nowait()
                        except queue.Empty:
                            break
                        if w is None:
                            w = Worker(json.loads(k))
                        results[i] = w.run(check, scenarios[i], timeout)
                        if results[i].get("timeout") or results[i].get("died"):
                            stuck.append(i)
                        if len(stuck) >= 3 and deadline is not None:
                            return      # conclusive, the rest of the batch would only wait
                        if on_result:
                            on_result(i, results[i])
                except Exception as e:
                    errors.append(f"{type(e).__name__}: {e}")
                finally:
                    if w is not None:
                        w.close()

        ts = [threading.Thread(target=work, args=(t,)) for t in range(min(self.n, max(1, len(scenarios))))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errors:
            raise HarnessError(errors[0])
        return results


def run_once(check, scenario, flavour, timeout):
    w = Worker(flavour)
    try:
        return w.run(check, scenario, timeout)
    finally:
        w.close()


# ---------------------------------------------------------------- known findings

def load_findings(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path))["findings"] if f["property"] == prop and f.get("status") == "known"]


def matches(finding, violation):
    return finding["signature"] == violation["signature"]


# ---------------------------------------------------------------- minimisation

def get_path(o, path):
    for k in path:
        o = o[k]
    return o


def with_path(o, path, v):
    if not path:
        return v
    o = json.loads(json.dumps(o))
    t = o
    for k in path[:-1]:
        t = t[k]
    t[path[-1]] = v
    return o


def minimise(chk, scenario, vclass, deadline, log):
    """Greedy ddmin over the list-valued parts of the scenario named by chk.shrink_paths,
    then chk.simplify() candidates, keeping the same violation class."""
    tried = 0
    w = Worker(chk.flavour_of(scenario))

    def fails(s):
        nonlocal tried
        tried += 1
        try:
            r = w.run(chk.id, s, chk.timeout)
        except HarnessError:
            raise
        for v in r.get("violations", []):
            if v["class"] == vclass:
                return r
        return None

    best, best_r = scenario, None
    try:
        changed = True
        while changed and time.time() < deadline:
            changed = False
            for path in chk.shrink_paths(best):
                try:
                    lst = get_path(best, path)
                except (IndexError, KeyError, TypeError):
                    continue
                if not isinstance(lst, list) or not lst:
                    continue
                n = max(1, len(lst) // 2)
                while n >= 1 and time.time() < deadline:
                    i = 0
                    while i < len(lst) and time.time() < deadline:
                        cand_l = lst[:i] + lst[i + n:]
                        cand = chk.fixup(with_path(best, path, cand_l))
                        r = fails(cand) if cand is not None else None
                        if r:
                            best, best_r, lst, changed = cand, r, get_path(cand, path), True
                        else:
                            i += n
                    n //= 2
            for cand in chk.simplify(best):
                if time.time() > deadline:
                    break
                r = fails(cand)
                if r:
                    best, best_r, changed = cand, r, True
                    break
    finally:
        w.close()
    log(f"  minimised with {tried} trial runs")
    return best, best_r


# ---------------------------------------------------------------- check base class

class Check:
    id = None
    technique = "deterministic simulation with fault injection (seeded search)"
    level = "exploration"
    timeout = 90
    quick_cap = 420
    thorough_cap = 3000
    rule = ""
    assumptions = []
    real = []
    stub = []
    liveness_class = "liveness: no progress"

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.quick = tier == "quick"

    def scenarios(self):
        raise NotImplementedError

    def flavour_of(self, s):
        return s.get("flavour", {"hashseed": 0})

    def shrink_paths(self, s):
        return []

    def fixup(self, s):
        return s

    def simplify(self, s):
        return []

    def batch_checks(self, scenarios, results):
        """Cross-run checks on the whole batch; returns list of (scenario, violation)."""
        return []

    def extra_coverage(self, scenarios, results):
        return {}

    def replay_extra(self, s, r):
        """The scenario with the recorded schedule made explicit."""
        if r and r.get("explicit"):
            s = dict(s)
            s.update(r["explicit"])
        return s


def load_check(pid, tier, seed):
    mod = importlib.import_module(f"dst.checks.{pid.lower()}")
    return mod.CHECK(tier, seed)


def merge_counts(results, key):
    tot = {}
    for r in results:
        for k, v in (r or {}).get(key, {}).items():
            tot[k] = tot.get(k, 0) + v
    return dict(sorted(tot.items()))


def main_check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()

    def log(*a):
        print(*a, flush=True)

    chk = load_check(pid, tier, seed)
    log(f"# {pid} tier={tier} VERIF_SEED={seed} workers={Pool().n}")
    cap = chk.quick_cap if tier == "quick" else chk.thorough_cap
    scens = list(chk.scenarios())
    deadline = t0 + cap
    results = Pool().map(chk.id, scens, chk.flavour_of, chk.timeout, deadline)
    done = [(s, r) for s, r in zip(scens, results) if r is not None]
    if not done:
        log("harness error: nothing ran")
        return 2
    errs = [(s, r) for s, r in done if r.get("harness_error")]
    hangs = [(s, r) for s, r in done if r.get("timeout")]
    cands = []
    for s, r in done:
        for v in r.get("violations", []):
            cands.append((s, v, r))
    for s, v in chk.batch_checks([s for s, _ in done], [r for _, r in done]):
        cands.append((s, v, None))
    died = [(s, r) for s, r in done if r.get("died")]
    for group, kind in ((hangs, "timeout"), (died, "died")):
        if not group:
            continue
        log(f"  {len(group)} run(s) " + (f"hit the wall limit of {chk.timeout}s" if kind == "timeout" else "ended with a signal") + "; re-running the first alone")
        s = group[0][0]
        r = run_once(chk.id, s, chk.flavour_of(s), chk.timeout * 2)
        if r.get(kind):
            cands.append((s, {"class": chk.liveness_class if kind == "timeout" else "the process dies", "signature": kind + ":" + jhash(s),
                              "detail": f"no result within {chk.timeout*2}s although the run has the machine to itself (normally a few seconds)" if kind == "timeout" else f"signal {r['died']}"}, None))
        else:
            cands += [(s, v, r) for v in r.get("violations", [])]
    # determinism: re-run a sample in fresh workers and diff traces
    det_n = 0
    det_bad = []
    sample = [sr for sr in done if sr[1].get("trace_hash") and not sr[1].get("violations")]
    k = min(len(sample), getattr(chk, "det_quick", 8) if tier == "quick" else 40)
    if k and not hangs and not died:
        pick = [sample[(i * len(sample)) // k] for i in range(k)]
        again = Pool().map(chk.id, [s for s, _ in pick], chk.flavour_of, chk.timeout)
        for (s, r), r2 in zip(pick, again):
            det_n += 1
            if r2.get("trace_hash") != r.get("trace_hash"):
                det_bad.append((s, r, r2))
    violations, known = [], []
    findings = load_findings(pid)
    seen_cls = set()
    n_viol = 0
    exit_code = 0
    printed_known = set()
    for s, v, r in cands:
        f = next((f for f in findings if matches(f, v)), None)
        if f:
            known.append(f)
            continue
        n_viol += 1
        if v["class"] in seen_cls or len(violations) >= 3:
            continue
        seen_cls.add(v["class"])
        violations.append((s, v, r))
    for f in findings:
        if f["signature"] not in printed_known:
            printed_known.add(f["signature"])
            log(f"KNOWN-FINDING: property={pid} {f['text']}")
    replay_dir = os.path.join(ROOT, "replays")
    unconfirmed = []
    for s, v, r in violations:
        log(f"  violation class: {v['class']}\n  detail: {json.dumps(v.get('detail'))[:1500]}")
        if r is not None:
            s = chk.replay_extra(s, r)
        confirmed = None
        if v["signature"].startswith(("timeout:", "died:")):
            confirmed = {"timeout": True}       # the run alone, above, was the confirmation
        for attempt in range(0 if confirmed else 3):
            r2 = run_once(chk.id, s, chk.flavour_of(s), chk.timeout * 2)
            if r2.get("timeout") and v["class"] == chk.liveness_class:
                confirmed = {"timeout": True}
                break
            if r2.get("died") and v["signature"].startswith("died:"):
                confirmed = {"timeout": True}
                break
            if any(x["class"] == v["class"] for x in r2.get("violations", [])):
                confirmed = r2
                break
        if confirmed is None:
            if v.get("batch"):
                confirmed = {"batch": True}
            else:
                unconfirmed.append((s, v))
                log("  NOT REPRODUCED in a fresh worker")
                continue
        if not confirmed.get("timeout") and not confirmed.get("batch") and os.environ.get("DST_NO_SHRINK") != "1":
            budget = 25 if tier == "quick" else 240
            try:
                s2, r3 = minimise(chk, s, v["class"], time.time() + budget, log)
                if r3:
                    s = s2
                    v = next(x for x in r3["violations"] if x["class"] == v["class"])
            except HarnessError as e:
                log("  minimisation stopped:", e)
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, f"{pid}-{jhash([s, v['class']])}.json")
        with open(path, "w") as fp:
            json.dump({"property": pid, "verif_seed": seed, "tier": tier, "flavour": chk.flavour_of(s), "scenario": s,
                       "violation": v, "how": "./check replay <this file>"}, fp, indent=1)
        log(f"  minimised: {json.dumps(v.get('detail'))[:1500]}")
        log(f"VIOLATION property={pid} replay={path}")
        exit_code = 1
    wall = time.time() - t0
    stats = merge_counts([r for _, r in done], "stats")
    faults = merge_counts([r for _, r in done], "faults")
    probes = merge_counts([r for _, r in done], "probes")
    nontriv = set()
    states = set()
    for s, r in done:
        for n in r.get("nontrivial", []):
            nontriv.add(n)
        for n in r.get("states", []):
            states.add(n)
    samples = []
    for s, r in done[:: max(1, len(done) // 3)][:3]:
        txt = json.dumps(s)
        samples.append({"scenario": json.loads(txt) if len(txt) < 6000 else txt[:6000] + "...",
                        "summary": r.get("summary")})
    cov = {
        "evaluations": stats.get("evaluations", len(done)),
        "distinct_nontrivial": len(nontriv),
        "rule": chk.rule,
        "samples": samples,
        "simulated_runs": len(done),
        "planned_runs": len(scens),
        "runs_per_hour": round(len(done) / wall * 3600),
        "seeds_per_hour": round(len(done) / wall * 3600),
        "simulated_time": stats.get("sim_time", 0),
        "faults_injected": faults,
        "probes": probes,
        "distinct_states": len(states),
        "stats": stats,
        "determinism_rechecks": {"runs": det_n, "diverged": len(det_bad)},
        "components_real": chk.real,
        "components_stub": chk.stub,
    }
    cov.update(chk.extra_coverage([s for s, _ in done], [r for _, r in done]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.level, "coverage": cov,
          "assumptions": chk.assumptions, "wall_s": round(wall, 1), "violations": n_viol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    log(f"# runs={len(done)}/{len(scens)} evaluations={cov['evaluations']} nontrivial={len(nontriv)} states={len(states)} "
        f"faults={sum(faults.values())} known={len(known)} violations={n_viol} wall={wall:.1f}s")
    log("# faults " + json.dumps(faults))
    log("# probes " + json.dumps(probes))
    log("# stats " + json.dumps(stats))
    if exit_code:
        return exit_code
    if errs:
        log("harness error: " + errs[0][1]["harness_error"][-3000:])
        log(json.dumps(errs[0][0])[:1500])
        return 2
    if det_bad or unconfirmed:
        for s, r, r2 in det_bad[:2]:
            log("non-deterministic run: " + json.dumps(s)[:600])
            a, b = r.get("trace", []), r2.get("trace", [])
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    log(f"  first difference at {i}: {x} / {y}")
                    break
        log("harness error: non-determinism")
        return 2
    return 0


def main_replay(path):
    d = json.load(open(path))
    chk = load_check(d["property"], d["tier"], d["verif_seed"])
    r = run_once(chk.id, d["scenario"], d["flavour"], chk.timeout * 2)
    same = [v for v in r.get("violations", []) if v["class"] == d["violation"]["class"]]
    print(json.dumps({"violations": r.get("violations"), "harness_error": r.get("harness_error"),
                      "timeout": r.get("timeout")}, indent=1)[:6000])
    if same or (r.get("timeout") and d["violation"]["class"] == chk.liveness_class) or (r.get("died") and d["violation"]["signature"].startswith("died:")):
        if same:
            print("identical to recorded:", same[0] == d["violation"])
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("not reproduced on this tree")
    return 2 if r.get("harness_error") else 0


def main(argv):
    try:
        if argv[0] == "setup":
            w = Worker({"hashseed": 0})
            w.close()
            print("worker starts, corpus", len(json.load(open(os.path.join(ROOT, "dst", "corpus.json")))))
            return 0
        if argv[0] == "replay":
            return main_replay(argv[1])
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
        return main_check(argv[0], tier)
    except HarnessError as e:
        print("harness error:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
