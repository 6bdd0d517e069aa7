"""C12: off-chain and on-chain replicas of a contract agree on every ledger history."""
from ..core import Check, rng
from .. import calc, ledger


class C12(Check):
    id = "C12"
    focus = "all"
    timeout = 200
    rule = ("A case is one script execution in a simulated ledger history: the contract in Python, the contract compiled at several optimisation levels and an independent model on plain data "
            "judge the same transaction. Distinct by (purpose, redeemer, first rule that fails, numbers of inputs, outputs and reference inputs, bounds of the validity range relative to now).")
    real = ["opshin.prelude, opshin.ledger.api_v3, opshin.ledger.interval (as Python and compiled)", "compiler and all passes, opshin.build", "uplc evaluation of the flat-encoded script", "pycardano encoding"]
    stub = ["ledger nodes, consensus, network, clocks and wallets (simulated)", "transaction hashes and signatures (symbolic)"]
    assumptions = ["Parties attach data of the declared types to the contract.", "Contexts are encoded as the ledger encodes them (independent encoder); certificates, votes and withdrawals are empty."]
    n_quick, n_thorough = 20, 1500
    det_quick = 4

    def scenarios(self):
        n = self.n_quick if self.quick else self.n_thorough
        deck = []
        for i in range(n):
            if len(deck) < 12:   # every computation comes up before any comes up again
                more = list(range(len(calc.SNIPPETS)))
                rng(self.seed, self.id, "deck", i).shuffle(more)
                deck += more
            yield ledger.scenario(rng(self.seed, self.id, i), self.focus, deck if self.focus == "all" else None)

    def shrink_paths(self, s):
        return [["acts"], ["faults"], ["contract", "mint"]] + [["contract", "rules", b] for b in s["contract"]["rules"]]

    def simplify(self, s):
        if len(s["forms"]) > 2:
            for i in range(len(s["forms"])):
                yield dict(s, forms=s["forms"][:i] + s["forms"][i + 1:])
        for i, a in enumerate(s["acts"]):
            for k, v in (("copies", 1), ("muts", 0)):
                if a[k] != v:
                    yield dict(s, acts=s["acts"][:i] + [dict(a, **{k: v})] + s["acts"][i + 1:])
        if s["retry"]:
            yield dict(s, retry=False)


def CHECK(tier, seed):
    return C12(tier, seed)


def execute(s):
    from .. import sim
    import sys
    sys.setrecursionlimit(20000)
    F = ledger.Forms(s, sim.RUN["root"])
    L = ledger.Ledger(s, F)
    if F.errors:
        L.violate("a contract built from the library's helpers cannot be compiled", "compile", {"forms": {str(k): v for k, v in F.errors.items()}})
    else:
        L.run()
    st = dict(L.stats)
    st["evaluations"] = st.pop("script_executions")
    probes = {"rule that decided: " + k: v for k, v in L.reasons.items()}
    for k in ("rollbacks", "retries"):
        probes[k] = st[k]
    t = L.trace
    return {"violations": [dict(v, detail=dict(v["detail"], source=F.src)) for v in L.viol[:1]], "stats": st, "probes": probes, "faults": L.faults,
            "nontrivial": [sim.sha(repr(x).encode()) for x in sorted(map(repr, L.shapes))], "states": [sim.sha(repr(sorted(map(repr, L.shapes))).encode())],
            "trace": t, "trace_hash": sim.sha(repr(t).encode()), "summary": {"blocks": st["blocks"], "transactions": st["transactions"]}}
