"""A simulated ledger: nodes with their own clocks, an unreliable network, rollbacks, crashes, honest and adversarial parties.

Every node validates with another form of the same contract: the Python program, or the script compiled at one optimisation level.
One seed decides every delay, loss, leader and transaction."""
import hashlib, heapq, random

from . import ledgergen as g

SLOT = 1000
PARTIES = ["alice", "bob", "carol", "mallory"]


def h28(*x):
    return hashlib.blake2b(repr(x).encode(), digest_size=28).digest()


def h32(*x):
    return hashlib.blake2b(repr(x).encode(), digest_size=32).digest()


def draw(seed, *labels):
    return random.Random(int.from_bytes(hashlib.sha256(repr((seed,) + labels).encode()).digest()[:8], "big"))


# ------------------------------------------------------------------ controller side: what happens in a run

def scenario(r, focus, deck=None):
    c = g.contract(r, focus, deck)
    end = 100_000
    forms = [["py"]]
    levels = r.sample([0, 1, 2, 3], 1 if r.random() < 0.4 else 2)
    forms += [["uplc", l, {}] for l in levels]
    if r.random() < 0.25:
        o = r.choice([{"allow_isinstance_anything": True}, {"fast_access_skip": r.choice([2, 3, 8])}, {"iterative_unfold_patterns": True}, {"constant_folding": True}, {"constant_folding": False}, {"wrap_output": True}])
        # folding constants of the whole library, before dead code is gone, takes minutes
        forms.append(["uplc", 1 if o.get("constant_folding") else 2 if "constant_folding" in o else r.choice([0, 1, 2, 3]), o])
    n = r.randrange(3, 6)
    acts = []
    for _ in range(r.randrange(25, 55) if focus != "time" else r.randrange(25, 50)):
        acts.append({"t": r.randrange(1000, end - 5000), "who": r.choice(PARTIES), "node": r.randrange(n), "seed": r.randrange(2 ** 31),
                     "kind": r.choice(["spend"] * 6 + ["mint"] * (2 if c["mint"] else 0)), "muts": r.choice([0, 0, 1, 1, 1, 2, 3]), "copies": r.choice([1, 1, 2])})
    acts.sort(key=lambda a: a["t"])
    faults = []
    heal = 55_000
    for _ in range(r.randrange(0, 7)):
        at = r.randrange(0, heal - 2000)
        dur = min(r.choice([1000, 5000, 15000, 30000]), heal - at)
        k = r.choice(["partition", "crash", "skew", "jump", "loss", "dup", "delay", "stall"])
        f = {"kind": k, "at": at, "dur": dur}
        if k == "partition":
            f["side"] = sorted(r.sample(range(n), r.randrange(1, n)))
        elif k in ("crash", "stall"):
            f["node"] = r.randrange(n)
        elif k in ("skew", "jump"):
            f["node"] = r.randrange(n)
            f["ms"] = r.choice([-1, 1]) * (r.randrange(500, 3000) if k == "skew" else r.choice([10_000, 40_000, 3_600_000]))
        elif k in ("loss", "dup"):
            f["p"] = r.choice([0.1, 0.3, 0.7])
        else:
            f["ms"] = r.choice([2000, 8000])
        faults.append(f)
    return {"contract": c, "forms": forms, "nodes": n, "acts": acts, "faults": faults, "seed": r.randrange(2 ** 31), "end": end, "heal": heal, "retry": focus == "time" or r.random() < 0.3,
            "genesis": r.randrange(2 ** 31)}


# ------------------------------------------------------------------ worker side

class Forms:
    """The contract as every node runs it."""

    def __init__(self, s, root):
        import os, sys, types
        from . import sim
        self.c = s["contract"]
        self.src = g.source(self.c)
        self.path = os.path.join(root, "contract_under_test.py")
        with sim.REAL.open(self.path, "w", encoding="utf-8") as f:
            f.write(self.src)
        mod = types.ModuleType("contract_under_test")
        sys.modules[mod.__name__] = mod
        exec(compile(self.src, self.path, "exec"), mod.__dict__)
        self.ns = mod.__dict__
        self.typed = g.Typed(self.c, self.ns)
        self.forms = [tuple(f[:2]) + (tuple(sorted(f[2].items())) if len(f) > 2 else (),) for f in s["forms"]]
        self.programs = {}
        self.errors = {}
        self.machine = None
        for f in self.forms:
            if f[0] == "uplc":
                try:
                    self.programs[f] = self.build(f)
                except Exception as e:
                    self.errors[f] = f"{type(e).__name__}: {e}"[:500]

    def build(self, f):
        import opshin, uplc.ast
        from opshin import compiler_config as cc
        from uplc.tools import unflatten
        cfg = cc.DEFAULT_CONFIG.update(cc.OPT_CONFIGS[f[1]])
        if f[2]:
            cfg = cfg.update(**dict(f[2])) if _kwupdate(cc) else cfg.update(cc.CompilationConfig(**dict(f[2])))
        k = opshin.build(self.path, self.c["param"], config=cfg)
        # the machine gives every variable its own name before each run; once per program is enough
        return self.renamer().visit(unflatten(bytes(k)))

    def python(self, tx, purpose):
        try:
            self.ns["validator"](self.c["param"], self.typed.context(tx, purpose))
            return None
        except Exception as e:
            return type(e).__name__

    @staticmethod
    def renamer():
        from uplc.transformer.unique_variables import UniqueVariableTransformer
        return UniqueVariableTransformer()

    def compiled(self, f, data):
        import uplc.ast
        from uplc import machine as um
        p = self.programs[f]
        if self.machine is None:
            from uplc import cost_model as cm

            class Machine(um.Machine):
                """The library's machine without the accounting of costs."""

                def step_and_maybe_spend(self, term):
                    pass

                def apply_evaluate(self, context, function, argument):
                    if not isinstance(function, um.ForcedBuiltIn):
                        return um.Machine.apply_evaluate(self, context, function, argument)
                    run = um.BuiltInFunEvalMap[function.builtin]
                    if function.applied_forces != um.BuiltInFunForceMap[function.builtin]:
                        raise RuntimeError("Tried to apply arguments to improper object")
                    args = function.bound_arguments + [argument]
                    if run.__code__.co_argcount != len(args):
                        return um.Return(context, um.ForcedBuiltIn(function.builtin, function.applied_forces, args))
                    try:
                        return um.Return(context, run(*args))
                    except Exception as e:
                        raise RuntimeError("builtin failed") from e

            class Same:
                def visit(self, program):
                    return program
            um.UniqueVariableTransformer = Same
            self.machine = Machine(cm.default_budget(), cm.default_cek_machine_cost_model_plutus_v3(), cm.default_builtin_cost_model_plutus_v3())
        res = self.machine.eval(uplc.ast.Program(p.version, uplc.ast.Apply(p.term, data))).result
        if isinstance(res, Exception):
            return type(res).__name__
        if not isinstance(res, uplc.ast.BuiltinUnit):
            return "not unit: " + type(res).__name__ if not dict(f[2]).get("wrap_output") else None
        return None


def _kwupdate(cc):
    import inspect
    try:
        return any(p.kind == p.VAR_KEYWORD for p in inspect.signature(cc.CompilationConfig.update).parameters.values())
    except (TypeError, ValueError):
        return False


class Divergence(Exception):
    pass


class Ledger:
    def __init__(self, s, forms):
        self.s, self.c, self.F = s, s["contract"], forms
        self.seed = s["seed"]
        self.queue, self.count, self.now = [], 0, 0
        self.txs = {}          # id -> tx
        self.verdicts = {}     # id -> True (all scripts accept) or reason
        self.blocks = {}
        self.viol = []
        self.stats = {"transactions": 0, "script_executions": 0, "accepted": 0, "rejected": 0, "included": 0, "blocks": 0, "rollbacks": 0, "invalid_phase1": 0, "messages": 0, "retries": 0, "previews": 0, "sim_ms": 0}
        self.faults, self.reasons, self.shapes, self.trace = {}, {}, set(), []
        self.genesis = self.make_genesis(random.Random(s["genesis"]))
        g0 = {"id": b"genesis", "parent": None, "slot": -1, "height": 0, "txs": [], "state": self.genesis}
        self.blocks[b"genesis"] = g0
        self.nodes = [Node(self, i) for i in range(s["nodes"])]
        self.calc = any(cl["k"] == "calc" for b in self.c["rules"].values() for cl in b)
        self.targets = {ref: {"avail": 0, "done": False} for ref, o in self.genesis.items() if o["addr"][0] == ("s", g.SCRIPT) and o["datum"]}
        self.datums = {}
        for o in self.genesis.values():
            if o["datum"]:
                self.note_datum(o)

    def fault(self, k):
        self.faults[k] = self.faults.get(k, 0) + 1

    # -------------------------------------------------------------- initial state

    def state(self, r):
        return ("State", {"owner": g.KEYS[r.choice(["alice", "bob"])], "count": r.choice([0, 1, 7]), "limit": r.choice([0, 1_000_000, 2_000_000]), "deadline": g.BASE + r.choice([20_000, 30_000, 45_000, 30_001, 44_999])})

    def note_datum(self, o):
        if o["datum"] and o["datum"][0] == "i":
            self.datums[h32(o["datum"][1])] = o["datum"][1]

    def attach(self, r, d):
        self.known[h32(d)] = d
        return r.choice([("i", d), ("i", d), ("h", h32(d))])

    def make_genesis(self, r):
        self.known = {}
        out = {}

        def add(addr, value, datum=None, ref=None):
            out[(h32("genesis"), len(out)) if len(out) % 2 else (h32("genesis2"), len(out))] = {"addr": addr, "value": value, "datum": datum, "ref": ref}
        for _ in range(r.randrange(3, 7)):
            st = r.choice([None, None, None, ("k", g.KEYS["alice"]), ("s", g.FOREIGN), ("ptr", 4, 0, 1)])
            v = {b"": {b"": r.choice([2_000_000, 5_000_000, 9_500_000])}}
            for p, n in ((g.COIN, b"coin"), (g.NFT, b"nft"), (g.SCRIPT, b"share")):
                if r.random() < 0.35:
                    v[p] = {n: r.choice([1, 1, 3])}
                    if r.random() < 0.3:
                        v[p][b"other"] = 2
            add((("s", g.SCRIPT), st), v, None if r.random() < 0.06 else self.attach(r, self.state(r)), r.choice([None, None, None, h28("ref")]))
        add((("k", g.SCRIPT), None), {b"": {b"": 4_000_000}, g.COIN: {b"coin": 2}}, self.attach(r, self.state(r)))
        add((("s", g.FOREIGN), None), {b"": {b"": 3_000_000}, g.NFT: {b"nft": 1, b"oracle": 1}}, self.attach(r, ("Price", {"num": r.choice([1, 3, 500_000]), "den": r.choice([1, 2])})))
        if r.random() < 0.5:
            add((("s", g.FOREIGN), None), {b"": {b"": 3_000_000}, g.NFT: {b"oracle": 1}}, self.attach(r, ("Price", {"num": 7, "den": 3})))
        for n in PARTIES:
            add(g.key_addr(g.KEYS[n]), {b"": {b"": 50_000_000}})
            add(g.key_addr(g.KEYS[n]), {b"": {b"": 20_000_000}, **({g.NFT: {b"nft": 1}} if r.random() < 0.5 else {}), **({g.COIN: {b"coin": 5, b"": 1}} if r.random() < 0.6 else {}), **({g.SCRIPT: {b"share": 4}} if r.random() < 0.4 else {})})
        return out

    # -------------------------------------------------------------- events

    def at(self, t, key, fn, *args):
        self.count += 1
        heapq.heappush(self.queue, (t, key, self.count, fn, args))

    def active(self, kind, **want):
        for f in self.s["faults"]:
            if f["kind"] == kind and f["at"] <= self.now < f["at"] + f["dur"] and all(f.get(k) == v for k, v in want.items()):
                yield f

    def send(self, src, dst, what, ident, fn, *args):
        """One message: lost, delayed, duplicated as the faults of the moment say."""
        self.stats["messages"] += 1
        for f in self.active("partition"):
            if (src in f["side"]) != (dst in f["side"]):
                self.fault("partition")
                return
        d = draw(self.seed, "net", src, dst, what, ident, self.now)
        for f in self.active("loss"):
            if d.random() < f["p"]:
                self.fault("loss")
                return
        base = d.randrange(20, 900)
        for f in self.active("delay"):
            base += d.randrange(0, f["ms"])
            self.fault("delay")
        self.at(self.now + base, (1, dst, ident), fn, *args)
        for f in self.active("dup"):
            if d.random() < f["p"]:
                self.fault("duplicate")
                self.at(self.now + base + d.randrange(1, 4000), (1, dst, ident), fn, *args)

    def run(self):
        for s in range(self.s["end"] // SLOT):
            for n in self.nodes:
                self.at(s * SLOT + 1, (0, n.i), n.tick, s)
        for k, a in enumerate(self.s["acts"]):
            self.at(a["t"], (2, k), self.act, a)
        for f in self.s["faults"]:
            if f["kind"] == "crash":
                self.at(f["at"], (3, f["node"]), self.nodes[f["node"]].crash)
                self.at(f["at"] + f["dur"], (3, f["node"]), self.nodes[f["node"]].restart)
        if self.s["retry"]:
            for s in range(2, self.s["end"] // SLOT, 3):
                self.at(s * SLOT + 500, (4, 0), self.retry)
        while self.queue and not self.viol:
            self.now, _, _, fn, args = heapq.heappop(self.queue)
            if self.now > self.s["end"]:
                break
            fn(*args)
        self.stats["sim_ms"] = min(self.now, self.s["end"])
        if not self.viol:
            self.final()

    # -------------------------------------------------------------- scripts

    def verdict(self, tx, forms=None, encode=True):
        """True if all scripts of the transaction accept; every form and the model have to agree on each of them."""
        if tx["id"] in self.verdicts:
            return self.verdicts[tx["id"]]
        from . import sim
        ok = True
        for p, red in tx["redeemers"]:
            if p[0] == "spend":
                if p[1] not in dict(tx["inputs"]):
                    continue
                reason = g.spend_verdict(self.c, tx, p[1], red)
            else:
                if p[1] not in tx["mint"]:
                    continue
                reason = g.mint_verdict(self.c, tx, p[1])
            want = reason is None
            plain = g.e_context(self.c, tx, p, False)
            data = g.to_uplc(g.e_context(self.c, tx, p, self.c["v3"]))
            got = {}
            import uplc.ast
            if encode and (forms is None or len(forms) > 1) and uplc.ast.data_from_cbor(self.F.typed.context(tx, p).to_cbor()) != g.to_uplc(plain):
                self.violate("the library's data types encode a transaction differently from the ledger", "encode", {"purpose": p[0]}, tx)
            for f in forms or self.F.forms:
                self.stats["script_executions"] += 1
                got[f] = self.F.python(tx, p) if f[0] == "py" else self.F.compiled(f, data)
            self.stats["accepted" if want else "rejected"] += 1
            self.reasons[reason or "accepted"] = self.reasons.get(reason or "accepted", 0) + 1
            self.shapes.add((p[0], red[0], reason, len(tx["inputs"]), len(tx["outputs"]), len(tx["refs"]), shape(tx["vr"], self.now)))
            self.trace.append((self.now, tx["id"].hex()[:12], p[0], red[0], reason, [repr(v) for v in got.values()]))
            verdicts = {v is None for v in got.values()}
            if verdicts != {want}:
                cls = "off-chain and on-chain forms of the contract disagree" if len(verdicts) > 1 else ("the contract accepts a transaction that its rules forbid" if not want else "the contract rejects a transaction that its rules allow")
                self.violate(cls, "verdict:" + cls, {"purpose": p[0], "redeemer": red[0], "model": reason or "accept", "forms": {str(f): v or "accept" for f, v in got.items()}}, tx)
            ok = ok and want
        self.verdicts[tx["id"]] = ok
        return ok

    def violate(self, cls, sig, detail, tx=None):
        self.viol.append({"class": cls, "signature": sig, "detail": {"sim_time_ms": self.now, **detail, "transaction": render(tx) if tx else None}})

    # -------------------------------------------------------------- parties

    def act(self, a):
        r = random.Random(a["seed"])
        node = self.nodes[a["node"]]
        if not node.up:
            return
        view = node.head["state"]
        tx = self.build(r, a, view, node.clock())
        if tx is None:
            return
        if self.c["focus"] == "time" and self.corners:
            self.preview(tx, self.corners, r)
            if self.viol:
                return
        elif self.calc and r.random() < 0.7:
            self.suppose(tx, r)
            if self.viol:
                return
        self.submit(tx, a["node"], a["copies"], r)

    def preview(self, tx, pts, r):
        """A party looks at several validity ranges, with bounds at and beside the interesting instants, before it submits."""
        rest = [f for f in self.F.forms if f[0] != "py"]
        for k in range(8):
            c = [None if r.random() < 0.2 else r.choice(sorted(pts)) + r.choice([0, 0, 0, 0, 1, -1]) for _ in range(2)]
            if None not in c and c[0] > c[1] and r.random() < 0.8:
                c.reverse()
            vr = (c[0], r.random() < 0.5, c[1], r.random() < 0.5)
            forms = [f for f in self.F.forms if f[0] == "py"] + ([r.choice(rest)] if k == 0 else [])
            self.stats["previews"] += 1
            self.verdict(dict(tx, vr=vr, id=h32(tx["id"], vr)), forms)
            if self.viol:
                return

    def suppose(self, tx, r):
        """A party considers the same transaction for other states and amounts."""
        spent = [p[1] for p, _ in tx["redeemers"] if p[0] == "spend"]
        rest = [f for f in self.F.forms if f[0] != "py"]
        for k in range(6):
            num = lambda: r.choice([r.randrange(-6, 24), r.randrange(-6, 24), r.choice([0, 1, -1, 2, 7, 255, 256, 1000, 1_000_000, 2_000_000]), r.randrange(10 ** 7)])
            ins = []
            for ref, o in tx["inputs"]:
                d = o["datum"] and (tx["datums"].get(o["datum"][1]) if o["datum"][0] == "h" else o["datum"][1])
                if ref in spent and d and d[0] == "State":
                    o = dict(o, datum=("i", ("State", dict(d[1], count=num(), limit=num(), owner=r.choice([d[1]["owner"], d[1]["owner"], h32("owner", k)[:28]])))))
                ins.append((ref, o))
            reds = [(p, (n, dict(f, amount=num()) if "amount" in f else f)) for p, (n, f) in tx["redeemers"]]
            self.stats["previews"] += 1
            self.verdict(dict(tx, inputs=ins, redeemers=reds, id=h32(tx["id"], "suppose", k)), [f for f in self.F.forms if f[0] == "py"] + [r.choice(rest)], encode=False)
            if self.viol:
                return

    def submit(self, tx, node, copies, r):
        if tx["id"] in self.txs:
            return
        self.txs[tx["id"]] = tx
        self.stats["transactions"] += 1
        self.verdict(tx)
        if self.viol:
            return
        for k in range(copies):
            dst = node if k == 0 else r.randrange(len(self.nodes))
            self.send(-1, dst, "tx", tx["id"], self.nodes[dst].receive_tx, tx["id"])

    def near(self, r, now, pts):
        """A validity range around a moment, with bounds at and beside the interesting instants."""
        t = g.BASE + now
        c = sorted(pts)

        def b(side):
            k = r.randrange(6)
            if k == 0:
                return None
            if k < 4 and c:
                return r.choice(c) + r.choice([0, 0, 0, 1, -1])
            return t + side * r.choice([0, 1000, 3000, 20_000])
        if r.random() < 0.45:
            return (t - r.choice([0, 2000]), True, t + r.choice([5_000, 20_000]), r.random() < 0.3)
        return (b(-1), r.random() < 0.7, b(1), r.random() < 0.5)

    def build(self, r, a, view, now):
        c = self.c
        mine = [(ref, o) for ref, o in sorted(view.items()) if o["addr"][0] == ("s", g.SCRIPT)]
        who = a["who"]
        key = g.KEYS[who]
        wallet = [(ref, o) for ref, o in sorted(view.items()) if o["addr"] == g.key_addr(key)]
        if not wallet:
            return None
        tx = {"inputs": [], "refs": [], "outputs": [], "fee": r.choice([165_000, 170_000, 180_000, 200_000, 210_000]), "mint": {}, "sigs": {key}, "datums": {}, "redeemers": []}
        purse = r.choice(wallet)
        tx["inputs"].append(purse)
        pts = set()
        rules = []
        if a["kind"] == "spend":
            if not mine:
                return None
            n = r.choice([1, 1, 1, 1, 2, 3])
            picks = r.sample(mine, min(n, len(mine)))
            b = r.choice(["Withdraw", "Withdraw", "Tick", "Close"])
            amt = r.choice([0, 500_000, 1_000_000, 2_000_000])
            red = (b, {"Withdraw": {"amount": amt}, "Tick": {}, "Close": {"note": b"bye", "amount": r.choice([0, 1, 2, 3])}}[b])
            rules = c["rules"][b]
            kinds = {cl["k"] for cl in rules}
            if "single" in kinds or "cont" in kinds:
                picks = picks[:1] if r.random() < 0.85 else picks
            for ref, o in picks:
                tx["inputs"].append((ref, o))
                tx["redeemers"].append((("spend", ref), red))
                d = self.datum_of(o)
                if d is None or d[0] != "State":
                    continue
                st = d[1]
                owner = st["owner"]
                if a["muts"] == 0 or r.random() < 0.7:
                    tx["sigs"].add(owner)
                for cl in rules:
                    if cl["k"] == "time":
                        pts |= g.points(c, cl["e"], st)
                addr = o["addr"] if c["addr"] == "own" else (("s", g.SCRIPT), None)
                # the continuing output keeps what the rules ask for
                v = copy_value(o["value"])
                take = min([st["limit"]] + ([amt] if b == "Withdraw" else [])) if r.random() < 0.7 else 0
                if take and v[b""][b""] - take > 1_000_000:
                    v[b""][b""] -= take
                if b == "Close" and not kinds & {"keep", "keepd", "cont", "total", "unchanged"}:
                    continue
                if "unchanged" in kinds:
                    tx["outputs"].append(dict(o))
                    if "cont" not in kinds and "keepd" not in kinds:
                        continue
                ns = dict(st)
                if any(cl["k"] == "cont" and cl["count"] != "==" for cl in rules) or any(cl["k"] == "keepd" and cl["which"] == "next" for cl in rules):
                    ns["count"] += 1
                nd = ("State", ns)
                same = any(cl["k"] == "keepd" and cl["which"] == "same" for cl in rules)
                inline = any(cl["k"] == "keepd" and cl["which"] == "next" for cl in rules)
                dd = o["datum"] if same else ("i", nd) if inline or r.random() < 0.6 else ("h", h32(nd))
                if dd[0] == "h":
                    tx["datums"][h32(nd)] = nd
                    self.known[h32(nd)] = nd
                tx["outputs"].append({"addr": addr, "value": v, "datum": dd, "ref": None})
                for cl in rules:
                    if cl["k"] == "paid":
                        x = {"limit": st["limit"], "amt": amt}.get(cl["val"], cl["val"])
                        tx["outputs"].append({"addr": g.key_addr(owner), "value": {b"": {b"": max(x, 1_000_000) if cl["tok"] == "ada" and cl["op"] != "==" else x if cl["tok"] == "ada" else 1_000_000},
                                                                                 **({g.COIN: {b"coin": max(1, x)}} if cl["tok"] == "coin" else {})}, "datum": None, "ref": None})
                    if cl["k"] == "oracle":
                        tx["outputs"].append({"addr": g.key_addr(owner), "value": {b"": {b"": 3_000_000}}, "datum": None, "ref": None})
                    if cl["k"] == "mint" and cl["val"]:
                        self.add_mint(tx, cl["tok"], cl["val"])
        else:
            rules = c["mint"]
            self.add_mint(tx, "share", r.choice([1, 1, 2, -1, 3]))
            if r.random() < 0.2:
                tx["mint"].setdefault(g.SCRIPT, {})[b"other"] = r.choice([1, -1])
            q = tx["mint"].get(g.SCRIPT, {}).get(b"share", 0)
            if any(cl["k"] == "locked" for cl in rules):
                tx["outputs"].append({"addr": (("s", g.SCRIPT), None), "value": {b"": {b"": 2_000_000}, **({g.SCRIPT: {b"share": q}} if q > 0 else {})}, "datum": ("i", self.state(r)), "ref": None})
            for cl in rules:
                if cl["k"] == "time":
                    pts |= g.points(c, cl["e"], None)
        if any(cl.get("k") == "oracle" or cl.get("where") == "reference_inputs" for cl in rules) or r.random() < 0.15:
            for ref, o in sorted(view.items()):
                if g.amount(o["value"], "oracle") or (r.random() < 0.3 and ref not in dict(tx["inputs"])):
                    tx["refs"].append((ref, o))
        for cl in rules:
            if cl["k"] in ("nft", "present") and not cl.get("neg") and cl["where"] == "inputs":
                for ref, o in sorted(view.items()):
                    if g.amount(o["value"], cl["tok"]) and o["addr"][0][0] == "k" and o["addr"][0][1] in g.KEYS.values() and ref not in dict(tx["inputs"]):
                        tx["inputs"].append((ref, o))
                        tx["sigs"].add(o["addr"][0][1])
                        break
            if cl.get("who") == "carol" or (a["kind"] == "mint" and cl["k"] == "sig"):
                tx["sigs"].add(g.KEYS["carol"])
        self.corners = pts
        tx["vr"] = self.near(r, now, pts)
        self.range_for(r, tx, rules, now, pts) if a["muts"] == 0 or r.random() < 0.5 else None
        for _ in range(a["muts"]):
            self.mutate(r, tx, view, pts)
        return self.finish(r, tx, key)

    def range_for(self, r, tx, rules, now, pts):
        """An honest party chooses a range that its own preview accepts."""
        e = [cl["e"] for cl in rules if cl["k"] == "time"]
        if not e:
            t = g.BASE + now
            tx["vr"] = (t - 2000, True, t + 20_000, False)
            return
        sts = [None]
        for p, _ in tx["redeemers"]:
            if p[0] == "spend":
                d = self.datum_of(dict(tx["inputs"])[p[1]])
                if d and d[0] == "State":
                    sts = [d[1]]
        for vr in self.candidates(now, pts):
            if all(self.time_ok(x, sts[0], vr) for x in e):
                tx["vr"] = vr
                return

    def time_ok(self, e, st, vr):
        try:
            return g.time_val(self.c, e, st, vr)
        except TypeError:
            return False

    def candidates(self, now, pts):
        t = g.BASE + now
        los = [(t - 2000, True)] + [(p, x) for p in sorted(pts) if p <= t for x in (True, False)] + [(p + 1, True) for p in sorted(pts) if p + 1 <= t]
        his = [(t + 20_000, False)] + [(p, x) for p in sorted(pts) if p > t for x in (True, False)] + [(p - 1, True) for p in sorted(pts) if p - 1 > t]
        for lo in los:
            for hi in his:
                vr = (lo[0], lo[1], hi[0], hi[1])
                yield vr

    def add_mint(self, tx, tok, q):
        pol, n = {"coin": (g.COIN, b"coin"), "nft": (g.NFT, b"nft"), "share": (g.SCRIPT, b"share")}[tok]
        tx["mint"].setdefault(pol, {})[n] = q
        if tok == "share" and (("mint", g.SCRIPT), ("Tick", {})) not in tx["redeemers"]:
            tx["redeemers"].append((("mint", g.SCRIPT), ("Tick", {})))
        if tok != "share":
            tx["sigs"].add(g.KEYS["carol"])

    def datum_of(self, o):
        d = o["datum"]
        return None if d is None else self.known.get(d[1]) if d[0] == "h" else d[1]

    def mutate(self, r, tx, view, pts):
        k = r.randrange(19)
        outs = tx["outputs"]
        mine = [i for i, o in enumerate(outs) if o["addr"][0] == ("s", g.SCRIPT)]
        pick = r.choice(mine) if mine else None
        o = dict(outs[pick], value=copy_value(outs[pick]["value"])) if pick is not None else None
        if k == 0 and tx["sigs"]:
            tx["sigs"].discard(r.choice(sorted(tx["sigs"])))
        elif k == 1 and o:
            o["addr"] = (o["addr"][0], r.choice([None, ("k", g.KEYS["mallory"]), ("ptr", 4, 0, 1), ("s", g.FOREIGN)]))
            outs[pick] = o
        elif k == 2 and o:
            o["addr"] = (r.choice([("k", g.SCRIPT), ("s", g.FOREIGN), ("k", g.KEYS["mallory"])]), o["addr"][1])
            outs[pick] = o
        elif k == 3 and o:   # split an output
            other = dict(o, value={p: {n: q - q // 2 for n, q in t.items()} for p, t in o["value"].items()})
            o["value"] = {p: {n: q // 2 for n, q in t.items()} for p, t in o["value"].items()}
            outs[pick] = strip(o)
            outs.insert(r.randrange(len(outs) + 1), strip(other))
        elif k == 4 and o:   # take tokens away
            p = r.choice(sorted(o["value"]))
            n = r.choice(sorted(o["value"][p]))
            o["value"][p][n] = max(0, o["value"][p][n] - r.choice([1, 1, 1_000_000, 10 ** 9])) if p else max(900_000, o["value"][p][n] - r.choice([1, 500_000, 2_000_000]))
            outs[pick] = strip(o)
        elif k == 5 and o:   # other kind of attached datum
            d = self.datum_of(o)
            if d:
                self.known[h32(d)] = d
                o["datum"] = r.choice([None, ("i", d), ("h", h32(d))])
                if o["datum"] and o["datum"][0] == "h" and r.random() < 0.7:
                    tx["datums"][h32(d)] = d
                outs[pick] = o
        elif k == 6 and o:   # other state
            d = self.datum_of(o)
            if d and d[0] == "State":
                f = r.choice(g.FIELDS)
                ns = dict(d[1], **{f: g.KEYS["mallory"] if f == "owner" else d[1][f] + r.choice([1, -1, 1000])})
                o["datum"] = ("i", ("State", ns))
                outs[pick] = o
        elif k == 7 or k == 8:
            vr = list(tx["vr"])
            j = r.choice([0, 2])
            if vr[j] is not None and r.random() < 0.8:
                vr[j] += r.choice([1, -1, 1, -1, 1000, -1000, 30_000])
            else:
                vr[j] = r.choice([None] + sorted(pts)) if pts else None
            tx["vr"] = tuple(vr)
        elif k == 9:
            vr = list(tx["vr"])
            j = r.choice([1, 3])
            vr[j] = not vr[j]
            tx["vr"] = tuple(vr)
        elif k == 10:
            tx["vr"] = self.near(r, self.now, pts)
        elif k == 11:   # another input
            cand = [(ref, x) for ref, x in sorted(view.items()) if ref not in dict(tx["inputs"])]
            if cand:
                ref, x = r.choice(cand)
                tx["inputs"].append((ref, x))
                if x["addr"][0] == ("s", g.SCRIPT):
                    tx["redeemers"].append((("spend", ref), tx["redeemers"][0][1] if tx["redeemers"] else ("Tick", {})))
        elif k == 12 and tx["refs"]:
            tx["refs"].pop(r.randrange(len(tx["refs"])))
        elif k == 13:
            cand = [(ref, x) for ref, x in sorted(view.items()) if ref not in dict(tx["refs"])]
            if cand:
                tx["refs"].append(r.choice(cand))
        elif k == 14:
            self.add_mint(tx, r.choice(["coin", "nft", "share"]), r.choice([1, -1, 2]))
        elif k == 15 and tx["redeemers"]:
            j = r.randrange(len(tx["redeemers"]))
            p, (b, f) = tx["redeemers"][j]
            tx["redeemers"][j] = (p, r.choice([("Withdraw", {"amount": r.choice([0, 1, 1_000_000, -1, 10 ** 9])}), ("Tick", {}), ("Close", {"note": b"", "amount": 1})]))
        elif k == 16 and o:   # the same output twice
            outs.insert(r.randrange(len(outs) + 1), dict(o))
        elif k == 17 and len(outs) > 1:
            r.shuffle(outs)
        elif k == 18 and o:
            o["ref"] = h28("ref")
            outs[pick] = o

    def finish(self, r, tx, key):
        """Balances the transaction with a change output and brings it into the ledger's order."""
        tx["inputs"].sort(key=lambda x: x[0])
        tx["refs"] = sorted({ref: o for ref, o in tx["refs"]}.items())
        for _, o in tx["inputs"] + tx["refs"]:
            d = o["datum"]
            if d and d[0] == "h" and d[1] in self.known and r.random() < 0.93:
                tx["datums"][d[1]] = self.known[d[1]]
        tx["mint"] = strip({"value": tx["mint"]})["value"]
        have = {}
        for _, o in tx["inputs"]:
            add(have, o["value"], 1)
        add(have, tx["mint"], 1)
        for o in tx["outputs"]:
            add(have, o["value"], -1)
        have.setdefault(b"", {}).setdefault(b"", 0)
        have[b""][b""] -= tx["fee"]
        change = {p: {n: q for n, q in t.items() if q > 0} for p, t in have.items()}
        change = {p: t for p, t in change.items() if t}
        if change:
            change.setdefault(b"", {b"": 0})
            o = {"addr": g.key_addr(key), "value": change, "datum": None, "ref": None}
            tx["outputs"].insert(r.choice([0, len(tx["outputs"])]), o)
        tx["redeemers"] = [(p, d) for p, d in tx["redeemers"] if p[0] != "mint" or p[1] in tx["mint"]]
        tx["sigs"] = sorted(tx["sigs"])
        if not tx["redeemers"]:
            return None
        tx["id"] = h32(tx["inputs"], tx["refs"], tx["outputs"], tx["fee"], tx["mint"], tx["vr"], tx["sigs"], tx["redeemers"], sorted(tx["datums"]))
        for o in tx["outputs"]:
            d = o["datum"]
            if d and d[0] == "i":
                self.known[h32(d[1])] = d[1]
        return tx

    # -------------------------------------------------------------- honest retries (time locks)

    def retry(self):
        c = self.c
        for ref, info in sorted(self.targets.items()):
            node = self.nodes[draw(self.seed, "retry", self.now, ref).randrange(len(self.nodes))]
            if not node.up or ref not in node.head["state"]:
                if self.now >= self.s["heal"] and node.up:
                    info["avail"] = 0
                continue
            o = node.head["state"][ref]
            d = self.datum_of(o)
            if d is None:
                continue
            st = d[1]
            b = "Tick"
            rules = c["rules"][b]
            if any(cl["k"] not in ("time", "sig") for cl in rules):
                continue
            pts = set()
            for cl in rules:
                if cl["k"] == "time":
                    pts |= g.points(c, cl["e"], st)
            purse = self.purse(node, "alice", draw(self.seed, "purse", self.now, ref))
            if purse is None:
                continue
            possible = False
            vrs = [vr for vr in self.candidates(node.clock(), pts) if vr[2] > g.BASE + node.clock() + 5000]
            for vr in vrs:
                if all(g.time_val(c, cl["e"], st, vr) for cl in rules if cl["k"] == "time"):
                    possible = vr
                    break
            if not possible:
                info["avail"] = 0
                continue
            if self.now >= self.s["heal"]:
                info["avail"] += 1
            tx = {"inputs": [(ref, o), purse], "refs": [], "outputs": [], "fee": 180_000, "mint": {}, "sigs": {st["owner"], g.KEYS["alice"], g.KEYS["carol"]}, "datums": {}, "redeemers": [(("spend", ref), (b, {}))], "vr": possible}
            if o["datum"][0] == "h":
                tx["datums"][o["datum"][1]] = d
            tx = self.finish(random.Random(1), tx, g.KEYS["alice"])
            self.stats["retries"] += 1
            if tx["id"] not in self.txs:
                self.submit(tx, node.i, 3, draw(self.seed, "r", self.now, ref))
            else:
                self.send(-1, node.i, "tx", tx["id"], node.receive_tx, tx["id"])
            if self.viol:
                return

    def purse(self, node, who, r):
        w = [(ref, o) for ref, o in sorted(node.head["state"].items()) if o["addr"] == g.key_addr(g.KEYS[who])]
        return r.choice(w) if w else None

    # -------------------------------------------------------------- ledger rules

    def phase1(self, tx, state, slot):
        ins = [ref for ref, _ in tx["inputs"]]
        if len(set(ins)) != len(ins) or any(state.get(ref) != o for ref, o in tx["inputs"]) or any(state.get(ref) != o for ref, o in tx["refs"]):
            return False
        if any(ref in dict(tx["inputs"]) for ref, _ in tx["refs"]):
            return False
        if not self.in_range(tx["vr"], slot):
            return False
        for ref, o in tx["inputs"]:
            pay = o["addr"][0]
            if pay[0] == "k" and pay[1] not in tx["sigs"]:
                return False
            if pay[0] == "s" and (pay[1] != g.SCRIPT or ("spend", ref) not in [p for p, _ in tx["redeemers"]]):
                return False
            if pay[0] == "s" and o["datum"] and o["datum"][0] == "h" and o["datum"][1] not in tx["datums"]:
                return False
        for p, t in tx["mint"].items():
            if p == g.SCRIPT and ("mint", p) not in [q for q, _ in tx["redeemers"]]:
                return False
            if p != g.SCRIPT and g.KEYS["carol"] not in tx["sigs"]:
                return False
        bal = {}
        for _, o in tx["inputs"]:
            add(bal, o["value"], 1)
        add(bal, tx["mint"], 1)
        for o in tx["outputs"]:
            if any(q < 0 for t in o["value"].values() for q in t.values()):
                return False
            add(bal, o["value"], -1)
        bal.setdefault(b"", {}).setdefault(b"", 0)
        bal[b""][b""] -= tx["fee"]
        return not any(q for t in bal.values() for q in t.values())

    def in_range(self, vr, slot):
        t = 2 * (g.BASE + slot * SLOT)
        a, b = g.half(vr)
        return (a is None or t >= a) and (b is None or t <= b)

    def apply(self, state, tx):
        s = dict(state)
        for ref, _ in tx["inputs"]:
            del s[ref]
        for i, o in enumerate(tx["outputs"]):
            s[(tx["id"], i)] = o
        return s

    def new_block(self, parent, slot, txids, leader):
        b = {"parent": parent["id"], "slot": slot, "height": parent["height"] + 1, "txs": txids, "leader": leader}
        b["id"] = h32("block", b["parent"], slot, txids, leader)
        state = parent["state"]
        for t in txids:
            state = self.apply(state, self.txs[t])
        b["state"] = state
        self.blocks[b["id"]] = b
        self.stats["blocks"] += 1
        self.check_block(parent, b)
        return b

    # -------------------------------------------------------------- invariants

    def check_block(self, parent, b):
        """Safety of everything that becomes part of some chain, judged from the ledger alone."""
        state = parent["state"]
        for t in b["txs"]:
            tx = self.txs[t]
            after = self.apply(state, tx)
            now = g.BASE + b["slot"] * SLOT
            for p, red in tx["redeemers"]:
                if p[0] != "spend":
                    continue
                o = state[p[1]]
                d = self.datum_of(o)
                if d is None:
                    self.violate("a state without datum was spent", "nodatum", {}, tx)
                    continue
                st = d[1]
                addr = o["addr"] if self.c["addr"] == "own" else (("s", g.SCRIPT), None)
                for cl in self.c["rules"].get(red[0], []):
                    if cl["k"] == "time" and not g.time_val(self.c, weak(cl["e"]), st, (now, True, now, True)):
                        self.violate("a time lock opened at a moment outside its window", "early", {"slot_time": now, "rule": cl["e"], "state": {k: str(v) for k, v in st.items()}}, tx)
                    if cl["k"] == "sig" and (st["owner"] if cl["who"] == "owner" else g.KEYS["carol"]) not in tx["sigs"]:
                        self.violate("spent without the required signature", "sig", {}, tx)
                    if cl["k"] == "keep" and cl["op"] in (">=", "=="):
                        slack = {"limit": st["limit"], "amt": red[1].get("amount")}.get(cl["slack"], cl["slack"])
                        total = lambda s: sum(g.amount(x["value"], cl["tok"]) for x in s.values() if x["addr"] == addr)
                        if total(after) < total(state) - slack:
                            self.violate("the locked value of the contract shrank by more than its rules allow", "locked", {"before": total(state), "after": total(after), "slack": slack}, tx)
            for tok in ("nft", "coin", "share", "ada"):
                tot = lambda s: sum(g.amount(x["value"], tok) for x in s.values())
                if tot(after) != tot(state) + g.amount(tx["mint"], tok) - (tx["fee"] if tok == "ada" else 0):
                    self.violate("value is not conserved", "conserve", {}, tx)
            state = after

    def final(self):
        """Progress once faults stopped, and agreement of the nodes that hear of each other."""
        for ref, info in sorted(self.targets.items()):
            if info["avail"] >= 10:   # 10 retries, 30 slots, of an open window
                self.violate("an open time lock did not let an honest retrying party succeed", "liveness", {"output": [ref[0].hex()[:8], ref[1]], "retries": info["avail"]})
                return


def weak(e):
    """The instants a rule admits: comparisons of limits that look beyond the instant count as their windows."""
    if e[0] in ("and", "or"):
        return [e[0], weak(e[1]), weak(e[2])]
    kind = {"after": "from", "before": "to"}.get(e[1], e[1])
    return [e[0], kind] + e[2:]


class Node:
    def __init__(self, L, i):
        self.L, self.i = L, i
        self.form = L.F.forms[i % len(L.F.forms)]
        self.up = True
        self.head = L.blocks[b"genesis"]
        self.pool = {}
        self.drift = draw(L.seed, "drift", i).randrange(-900, 900)

    def clock(self):
        t = self.L.now + self.drift
        for k in ("skew", "jump"):
            for f in self.L.active(k, node=self.i):
                t += f["ms"]
        return t

    def slot(self):
        return self.clock() // SLOT

    def crash(self):
        self.up = False
        self.pool = {}
        self.L.fault("crash")

    def restart(self):
        self.up = True

    def tick(self, s):
        """One slot: lead a block if it is this node's turn, tell the others the head now and then."""
        L = self.L
        if not self.up:
            return
        for k in ("skew", "jump"):
            if any(True for _ in L.active(k, node=self.i)):
                L.fault(k)
        for f in L.active("stall", node=self.i):
            L.fault("stall")
            return
        while self.head["height"] > 0 and self.head["slot"] > self.slot() + 3:   # the clock was set back: blocks of the future are dropped
            self.head = L.blocks[self.head["parent"]]
            L.stats["rollbacks"] += 1
        my = self.slot()
        lead = draw(L.seed, "lead", my).randrange(len(L.nodes)) == self.i or draw(L.seed, "lead2", my, self.i).random() < 0.08
        if lead and my > self.head["slot"]:
            state, ids = self.head["state"], []
            for t in list(self.pool):
                tx = L.txs[t]
                if L.phase1(tx, state, my) and L.verdict(tx):
                    state = L.apply(state, tx)
                    ids.append(t)
                elif any(ref not in self.head["state"] for ref, _ in tx["inputs"]) and draw(L.seed, "drop", t, my).random() < 0.3:
                    del self.pool[t]
            b = L.new_block(self.head, my, ids, self.i)
            if L.viol:
                return
            L.stats["included"] += len(ids)
            L.trace.append((L.now, "block", self.i, b["slot"], b["height"], len(ids)))
            self.head = b
            self.announce()
        elif s % 5 == self.i % 5:
            self.announce()

    def announce(self):
        for n in self.L.nodes:
            if n is not self:
                self.L.send(self.i, n.i, "head", self.head["id"], n.receive_block, self.head["id"])

    def receive_tx(self, t):
        L = self.L
        if not self.up or t in self.pool:
            return
        if not L.verdict(L.txs[t]):
            return
        self.pool[t] = True
        for n in L.nodes:
            if n is not self:
                L.send(self.i, n.i, "gossip", t, n.receive_tx, t)

    def receive_block(self, b):
        L = self.L
        blk = L.blocks[b]
        if not self.up or blk["height"] <= self.head["height"]:
            return
        chain, x = [], blk
        while x["height"] > 0:
            chain.append(x)
            x = L.blocks[x["parent"]]
        if any(y["slot"] > self.slot() + 3 for y in chain):
            return
        for y in chain:
            p = L.blocks[y["parent"]]
            if y["slot"] <= p["slot"]:
                return
            state = p["state"]
            for t in y["txs"]:
                tx = L.txs[t]
                if not L.phase1(tx, state, y["slot"]) or not L.verdict(tx):
                    return
                state = L.apply(state, tx)
        if self.head not in chain and self.head["height"] > 0:
            L.stats["rollbacks"] += 1
        self.head = blk


def shape(vr, now):
    t = g.BASE + now
    return tuple("inf" if vr[j] is None else ("past" if vr[j] <= t else "future") + str(vr[j + 1])[0] for j in (0, 2))


def copy_value(v):
    return {p: dict(t) for p, t in v.items()}


def strip(o):
    v = {p: {n: q for n, q in t.items() if q} for p, t in o["value"].items()}
    return dict(o, value={p: t for p, t in v.items() if t})


def add(acc, v, sign):
    for p, t in v.items():
        for n, q in t.items():
            acc.setdefault(p, {})
            acc[p][n] = acc[p].get(n, 0) + sign * q


def render(x):
    if isinstance(x, bytes):
        names = {g.SCRIPT: "SCRIPT", g.NFT: "NFT", g.COIN: "COIN", g.FOREIGN: "FOREIGN", **{v: k for k, v in g.KEYS.items()}}
        return names.get(x) or (x.decode() if len(x) < 12 and x.isascii() else x.hex()[:16])
    if isinstance(x, dict):
        return {str(render(k)): render(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [render(y) for y in x]
    return x
