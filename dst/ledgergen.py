"""Contracts for the simulated ledger: seeded specs, their program text and an independent model of their meaning.

Plain data: bytes are bytes, an output is {"addr", "value", "datum", "ref"}, an address is (payment, staking) with payment ("k"|"s", hash),
a datum value is (type name, {field: value}); a validity range is (lower limit, closed, upper limit, closed) with None for infinity."""
import hashlib

from . import calc, calcmodel

BASE = 1_700_000_000_000  # instant of slot 0, milliseconds
KEYS = {n: hashlib.blake2b(("key" + n).encode(), digest_size=28).digest() for n in ("alice", "bob", "carol", "mallory")}
SCRIPT = hashlib.blake2b(b"script under test", digest_size=28).digest()
FOREIGN = hashlib.blake2b(b"another script", digest_size=28).digest()
NFT = hashlib.blake2b(b"nft policy", digest_size=28).digest()
COIN = hashlib.blake2b(b"coin policy", digest_size=28).digest()
FIELDS = ["owner", "count", "limit", "deadline"]


class Reject(Exception):
    """The model's verdict: the script fails."""


# ------------------------------------------------------------------ specs

def time_expr(r, d=0, more=False):
    k = r.randrange(10)
    if d < 2 and k < 2:
        return [r.choice(["and", "or"]), time_expr(r, d + 1, more), time_expr(r, d + 1, more)]
    kind = r.choice(["from", "from", "to", "range", "range", "custom", "custom", "lower", "upper", "after", "before"] + ["custom"] * 4 * more)
    t1 = time_point(r)
    t2 = [t1[0], t1[1] + r.choice([0, 1, 1000, 5000, 30000])]
    return ["win", kind, t1, t2, r.random() < 0.5, r.random() < 0.5, r.randrange(3)]


def time_point(r):
    off = r.choice([0, 1000, 20000, 40000, 60000, r.randrange(0, 90000), r.randrange(0, 90) * 1000])
    return [r.choice(["st", "st", "param", "const"]), r.choice([0, 0, 1, -1, off, -off]) if r.random() < 0.8 else off]


def contract(r, focus, deck=None):
    """A stateful contract with one rule set per redeemer; deck: computations still to be used in this batch."""
    fields = FIELDS[:]
    if r.random() < 0.5:
        r.shuffle(fields)
    ids = r.sample(range(0, 9), 3)
    heavy = r.random() < 0.3   # pieces that need a library module take long to compile
    c = {"fields": fields, "state_id": r.randrange(0, 5), "price_id": r.randrange(0, 3), "ids": ids, "addr": r.choice(["own", "own", "policy"]),
         "find": r.choice(["own_spent_utxo", "own_spent_utxo", "resolve_spent_utxo"]), "datum": r.choice(["unsafe", "unsafe", "safe"]),
         "pconst": BASE + r.choice([20000, 30000, 45000, 30001, 29999]), "param": BASE + r.choice([20000, 30000, 45000, 30001, 29999]), "v3": r.random() < 0.5,
         "helpers": r.random() < 0.4, "rules": {}, "mint": [], "focus": focus, "msgs": r.random() < 0.5, "integrity": r.random() < 0.3}
    for b in ("Withdraw", "Tick", "Close"):
        if focus == "time":
            cl = [{"k": "time", "e": time_expr(r, 0, True)}]
            if r.random() < 0.3:
                cl.append({"k": "sig", "who": "owner", "style": 0})
            if r.random() < 0.15:
                cl.append(clause(r, b))
        else:
            cl = [clause(r, b) for _ in range(r.randrange(1, 5))]
            if r.random() < 0.85:
                cl = [calc_clause(r, heavy, deck) for _ in range(r.choice([1, 2, 3, 3]))] + cl[:2]
                r.shuffle(cl)
        c["rules"][b] = cl
    if focus != "time" and r.random() < 0.6:
        c["mint"] = [mint_clause(r) for _ in range(r.randrange(1, 4))]
    return c


def tok(r):
    return r.choice(["ada", "ada", "coin", "nft", "share"])


def clause(r, b):
    k = r.choice(["keep", "keep", "keep", "keepd", "keepd", "sig", "sig", "nft", "cont", "cont", "single", "mint", "oracle", "paid", "paid", "fee", "time", "time",
                  "hasdatum", "total", "unchanged", "first", "refscript", "idx", "peer"])
    c = {"k": k}
    if k == "keep":
        c.update(tok=tok(r), op=r.choice([">=", ">=", "==", "<="]), slack=r.choice(["limit", "limit", 0, 0, 1_000_000] + (["amt", "amt"] if b == "Withdraw" else [])), style=r.randrange(3))
    elif k == "keepd":
        c.update(tok=tok(r), which=r.choice(["same", "next", "next"]), op=r.choice([">=", ">=", "==", ">"]), min=r.choice([0, 1, 1, 1_000_000, "limit"]))
    elif k == "sig":
        c.update(who=r.choice(["owner", "owner", "carol"]), style=r.randrange(3))
    elif k == "nft":
        c.update(tok=r.choice(["nft", "coin", "share"]), where=r.choice(["inputs", "inputs", "reference_inputs"]), neg=r.random() < 0.15)
    elif k == "cont":
        c.update(count=r.choice(["+1", "+1", ">", "=="]), owner=r.random() < 0.6, via=r.choice(["resolve_datum_unsafe", "resolve_datum"]), limit=r.random() < 0.4)
    elif k == "mint":
        c.update(tok=r.choice(["nft", "coin", "share"]), op=r.choice(["==", "<=", ">="]), val=r.choice([0, 0, 1, -1]))
    elif k == "paid":
        c.update(tok=r.choice(["ada", "ada", "coin"]), op=r.choice([">=", ">=", "=="]), val=r.choice(["limit", 1_000_000, 2_000_000] + (["amt"] if b == "Withdraw" else [])), style=r.randrange(2))
    elif k == "fee":
        c.update(max=r.choice([170_000, 200_000]))
    elif k == "time":
        c.update(e=time_expr(r))
    elif k == "hasdatum":
        c.update(style=r.randrange(2))
    elif k == "total":
        c.update(tok=r.choice(["coin", "nft", "share", "ada"]), op=r.choice(["==", ">=", "<="]), style=r.randrange(3))
    elif k == "peer":
        c.update(style=r.randrange(2))
    return c


def calc_clause(r, heavy, deck=None):
    fits = lambda i: heavy or not any(".std." in x for x in calc.imports("\n".join(calc.SNIPPETS[i][1])))
    while True:
        i = next((i for i in deck or [] if fits(i)), None)
        if i is None:
            i = r.randrange(len(calc.SNIPPETS))
        else:
            deck.remove(i)
        helpers, lines = calc.SNIPPETS[i]
        if fits(i):
            m = r.choice([2, 2, 3])
            return {"k": "calc", "helpers": helpers, "lines": lines, "mod": m, "not": r.randrange(m)}


def mint_clause(r):
    k = r.choice(["total", "sig", "present", "locked", "names", "burn", "sum", "time", "noself"])
    c = {"k": k}
    if k == "total":
        c.update(op=r.choice(["==", "<=", ">="]), val=r.choice([1, 1, 2, 0, -1]))
    elif k == "present":
        c.update(tok=r.choice(["nft", "coin"]), where=r.choice(["inputs", "reference_inputs"]))
    elif k == "locked":
        c.update(op=r.choice([">=", "=="]), val=r.choice([0, 1, "minted"]))
    elif k == "time":
        e = time_expr(r)
        c.update(e=_nost(e))
    return c


def _nost(e):
    if e[0] == "win":
        return e[:2] + [["param" if p[0] == "st" else p[0], p[1]] for p in e[2:4]] + e[4:]
    return [e[0], _nost(e[1]), _nost(e[2])]


# ------------------------------------------------------------------ program text

TOK = {"ada": 'Token(b"", b"")', "coin": 'Token(COIN, b"coin")', "nft": 'Token(NFT, b"nft")', "share": 'Token({pid}, b"share")'}


def source(c):
    used = _kinds(c)
    pieces = [cl for b in c["rules"].values() for cl in b if cl["k"] == "calc"]
    helpers = []
    for cl in pieces:
        helpers += [h for h in cl["helpers"] if h not in helpers]
    text = "\n".join(x for h in helpers for x in calc.HELPERS[h]) + "\n".join(x for cl in pieces for x in cl["lines"])
    L = ["from opshin.prelude import *", "from opshin.ledger.interval import *", "from opshin.std.integrity import check_integrity"] + calc.imports(text) + [""]
    L += [f"NFT = {NFT!r}", f"COIN = {COIN!r}", f"CAROL = {KEYS['carol']!r}", f"T0 = {c['pconst']}", "", ""]

    def cls(name, cid, fields):
        return ["@dataclass()", f"class {name}(PlutusData):", f"    CONSTR_ID = {cid}"] + [f"    {f}: {t}" for f, t in fields] + ["", ""]
    L += cls("State", c["state_id"], [(f, "bytes" if f == "owner" else "int") for f in c["fields"]])
    L += cls("Price", c["price_id"], [("num", "int"), ("den", "int")])
    L += cls("Withdraw", c["ids"][0], [("amount", "int")]) + cls("Tick", c["ids"][1], []) + cls("Close", c["ids"][2], [("note", "bytes"), ("amount", "int")])
    L += ["Action = Union[Withdraw, Tick, Close]", "", ""]
    if c["helpers"]:
        L += ["def opens(t: int, r: POSIXTimeRange) -> bool:", "    return contains(make_from(t), r)", "", "",
              "def next_state(s: State) -> State:", "    return State(" + ", ".join("s.count + 1" if f == "count" else "s." + f for f in c["fields"]) + ")", "", ""]
    if "total" in used:
        L += ["def count_value(v: Value, p: PolicyId) -> int:", "    n = 0", "    for k, q in v.items():", "        if k == p:", "            for name, x in q.items():", "                n += x", "    return n", "", ""]
    for h in helpers:
        L += calc.HELPERS[h] + ["", ""]
    L += ["def validator(start: int, context: ScriptContext) -> None:", "    tx = context.transaction", "    purpose = context.purpose", "    if isinstance(purpose, Spending):"]
    B = []
    B.append(f"own = {c['find']}(tx.inputs, purpose)")
    if c["datum"] == "unsafe":
        B.append("st: State = own_datum_unsafe(context)")
    else:
        B += ["od = own_datum(context)", "assert isinstance(od, SomeOutputDatum), 'no state'" if c["msgs"] else "assert isinstance(od, SomeOutputDatum)", "st: State = od.datum"]
    if c["integrity"]:
        B.append("check_integrity(st)")
    B.append("pid = own_policy_id(own)")
    B.append("addr = own.address" if c["addr"] == "own" else "addr = own_address(pid)")
    B.append("act: Action = context.redeemer")
    for i, b in enumerate(("Withdraw", "Tick", "Close")):
        B.append(("if" if i == 0 else "elif") + f" isinstance(act, {b}):")
        n = [0]
        body = []
        if any(cl["k"] == "calc" for cl in c["rules"][b]):
            body += ["n = st.count", "a = " + ("3" if b == "Tick" else "act.amount"), "l = st.limit", "w = st.owner",
                     "qs = [o.value.get(b'', {b'': 0}).get(b'', 0) for o in tx.outputs]", "sg = tx.signatories"]
        for cl in c["rules"][b]:
            body += clause_src(c, cl, b, n)
        B += ["    " + l for l in body]
    B += ["else:", "    assert False, 'unknown action'"]
    L += ["        " + l for l in B]
    if c["mint"]:
        L.append("    elif isinstance(purpose, Minting):")
        M = ["mine = purpose.policy_id", "minted = sum([q for q in tx.mint[mine].values()])"]
        n = [0]
        for cl in c["mint"]:
            M += mint_src(c, cl, n)
        L += ["        " + l for l in M]
    L += ["    else:", "        assert False, 'unsupported purpose'" if c["msgs"] else "        assert False"]
    return "\n".join(L) + "\n"


def _kinds(c):
    return {cl["k"] for b in c["rules"].values() for cl in b}


def t_src(c, p):
    base = {"st": "st.deadline", "param": "start", "const": "T0"}[p[0]]
    return base if p[1] == 0 else f"{base} + {p[1]}" if p[1] > 0 else f"{base} - {-p[1]}"


def time_src(c, e):
    if e[0] in ("and", "or"):
        return f"({time_src(c, e[1])} {e[0]} {time_src(c, e[2])})"
    _, kind, t1, t2, lc, uc, style = e
    a, b = t_src(c, t1), t_src(c, t2)
    v = "tx.validity_range"
    if kind == "from":
        return f"opens({a}, {v})" if c["helpers"] and style else f"contains(make_from({a}), {v})"
    if kind == "to":
        return f"contains(make_to({a}), {v})"
    if kind == "range":
        return f"contains(make_range({a}, {b}), {v})"
    if kind == "custom":
        lo = f"LowerBoundPOSIXTime(FinitePOSIXTime({a}), {'TrueData()' if lc else 'FalseData()'})" if style != 1 else "LowerBoundPOSIXTime(NegInfPOSIXTime(), TrueData())"
        hi = f"UpperBoundPOSIXTime(FinitePOSIXTime({b}), {'TrueData()' if uc else 'FalseData()'})" if style != 2 else "UpperBoundPOSIXTime(PosInfPOSIXTime(), TrueData())"
        return f"contains(POSIXTimeRange({lo}, {hi}), {v})"
    if kind == "lower":
        return f"compare_lower_bound(make_from({a}).lower_bound, {v}.lower_bound) >= 0"
    if kind == "upper":
        return f"compare_upper_bound({v}.upper_bound, make_to({a}).upper_bound) >= 0"
    if kind == "after":
        return f"compare_extended(FinitePOSIXTime({a}), {v}.lower_bound.limit) == 1"
    if kind == "before":
        return f"compare_extended({v}.upper_bound.limit, FinitePOSIXTime({a})) == 1"
    raise ValueError(kind)


def amount_src(x):
    return {"limit": "st.limit", "amt": "act.amount"}.get(x, str(x))


def _msg(c, text):
    return f", {text!r}" if c["msgs"] else ""


def clause_src(c, cl, b, n):
    n[0] += 1
    i = f"{b.lower()}{n[0]}"
    k = cl["k"]
    t = TOK[cl["tok"]].format(pid="pid") if "tok" in cl else None
    m = _msg(c, k)
    if k == "calc":
        return [x.replace("@", "_" + i) for x in cl["lines"]] + [f"assert (r_{i} * 31 + n) % {cl['mod']} != {cl['not']}{m}"]
    if k == "keep":
        a = amount_src(cl["slack"])
        if cl["style"] == 0:
            return [f"assert all_tokens_locked_at_address(tx.outputs, addr, {t}) {cl['op']} all_tokens_unlocked_from_address(tx.inputs, addr, {t}) - {a}{m}"]
        return [f"tok_{i} = {t}", f"un_{i} = all_tokens_unlocked_from_address(tx.inputs, addr, tok_{i})", f"lo_{i} = all_tokens_locked_at_address(tx.outputs, addr, tok_{i})",
                f"assert lo_{i} - un_{i} {cl['op']} -({a}){m}" if cl["style"] == 1 else f"assert lo_{i} + {a} {cl['op']} un_{i}{m}"]
    if k == "keepd":
        nxt = "next_state(st)" if c["helpers"] else "State(" + ", ".join("st.count + 1" if f == "count" else "st." + f for f in c["fields"]) + ")"
        d = "own.datum" if cl["which"] == "same" else f"SomeOutputDatum({nxt})"
        return [f"assert all_tokens_locked_at_address_with_datum(tx.outputs, addr, {t}, {d}) {cl['op']} {amount_src(cl['min'])}{m}"]
    if k == "sig":
        w = "st.owner" if cl["who"] == "owner" else "CAROL"
        return [[f"assert {w} in tx.signatories{m}"], [f"assert any([s == {w} for s in tx.signatories]){m}"],
                [f"found_{i} = False", f"for s_{i} in tx.signatories:", f"    if s_{i} == {w}:", f"        found_{i} = True", f"assert found_{i}{m}"]][cl["style"]]
    if k == "nft":
        return [f"has_{i}: bool = token_present_in_inputs({t}, tx.{cl['where']})", f"assert {'not ' if cl['neg'] else ''}has_{i}{m}"]
    if k == "cont":
        out = [f"outs_{i} = [o for o in tx.outputs if o.address == addr]", f"assert len(outs_{i}) == 1{m}"]
        if cl["via"] == "resolve_datum_unsafe":
            out.append(f"ns_{i}: State = resolve_datum_unsafe(outs_{i}[0], tx)")
        else:
            out += [f"rd_{i} = resolve_datum(outs_{i}[0], tx)", f"assert isinstance(rd_{i}, SomeOutputDatum){m}", f"ns_{i}: State = rd_{i}.datum"]
        out.append({"+1": f"assert ns_{i}.count == st.count + 1{m}", ">": f"assert ns_{i}.count > st.count{m}", "==": f"assert ns_{i}.count == st.count{m}"}[cl["count"]])
        if cl["owner"]:
            out.append(f"assert ns_{i}.owner == st.owner{m}")
        if cl["limit"]:
            out.append(f"assert ns_{i}.limit <= st.limit and ns_{i}.deadline == st.deadline{m}")
        return out
    if k == "single":
        return [f"assert len([x for x in tx.inputs if x.resolved.address == addr]) == 1{m}"]
    if k == "mint":
        return [f"mt_{i} = {t}", f"assert tx.mint.get(mt_{i}.policy_id, {{b'': 0}}).get(mt_{i}.token_name, 0) {cl['op']} {cl['val']}{m}"]
    if k == "oracle":
        amt = "act.amount" if b in ("Withdraw", "Close") else "3"
        return [f"feeds_{i} = [x.resolved for x in tx.reference_inputs if x.resolved.value.get(NFT, {{b'': 0}}).get(b'oracle', 0) > 0]",
                f"pr_{i}: Price = resolve_datum_unsafe(feeds_{i}[0], tx)",
                f"pd_{i} = all_tokens_locked_at_address(tx.outputs, Address(PubKeyCredential(st.owner), NoStakingCredential()), Token(b'', b''))",
                f"assert {amt} * pr_{i}.num <= pd_{i} * pr_{i}.den{m}"]
    if k == "paid":
        a = "Address(PubKeyCredential(st.owner), NoStakingCredential())"
        if cl["style"] == 0:
            return [f"assert all_tokens_locked_at_address(tx.outputs, {a}, {t}) {cl['op']} {amount_src(cl['val'])}{m}"]
        return [f"to_{i} = {a}", f"pt_{i} = {t}", f"ps_{i} = 0", f"for o_{i} in tx.outputs:", f"    if o_{i}.address == to_{i}:",
                f"        ps_{i} += o_{i}.value.get(pt_{i}.policy_id, {{b'': 0}}).get(pt_{i}.token_name, 0)", f"assert ps_{i} {cl['op']} {amount_src(cl['val'])}{m}"]
    if k == "fee":
        return [f"assert tx.fee <= {cl['max']}{m}"]
    if k == "time":
        return [f"assert {time_src(c, cl['e'])}{m}"]
    if k == "hasdatum":
        if cl["style"] == 0:
            return [f"hd_{i} = own_datum(context)", f"assert isinstance(hd_{i}, SomeOutputDatum){m}", f"hs_{i}: State = hd_{i}.datum", f"assert hs_{i}.count == st.count{m}"]
        return [f"assert isinstance(own.datum, SomeOutputDatum){m}"]
    if k == "total":
        p = {"ada": "b''", "coin": "COIN", "nft": "NFT", "share": "pid"}[cl["tok"]]
        if cl["style"] == 0:
            return [f"assert sum([count_value(o.value, {p}) for o in tx.outputs if o.address == addr]) {cl['op']} sum([count_value(x.resolved.value, {p}) for x in tx.inputs if x.resolved.address == addr]){m}"]
        out = [f"ti_{i} = 0", f"for x_{i} in tx.inputs:", f"    if x_{i}.resolved.address == addr:", f"        ti_{i} += count_value(x_{i}.resolved.value, {p})",
               f"to_{i} = 0", f"for o_{i} in tx.outputs:", f"    if o_{i}.address == addr:", f"        to_{i} += count_value(o_{i}.value, {p})"]
        return out + [f"assert to_{i} {cl['op']} ti_{i}{m}"]
    if k == "unchanged":
        return [f"assert any([o == own for o in tx.outputs]){m}"]
    if k == "first":
        return [f"assert tx.inputs[0].out_ref == purpose.tx_out_ref{m}"]
    if k == "refscript":
        return [f"assert all([isinstance(o.reference_script, NoScriptHash) for o in tx.outputs]){m}"]
    if k == "idx":
        return [f"assert purpose.tx_out_ref.idx < 3 and len(tx.inputs) <= 4{m}"]
    if k == "peer":
        if cl["style"] == 0:
            return [f"pp_{i} = [own_policy_id(x.resolved) for x in tx.inputs if isinstance(x.resolved.address.payment_credential, ScriptCredential)]", f"assert all([q == pid for q in pp_{i}]){m}"]
        return [f"assert own_policy_id(tx.inputs[0].resolved) == pid{m}"]
    raise ValueError(k)


def mint_src(c, cl, n):
    n[0] += 1
    i = f"mint{n[0]}"
    k = cl["k"]
    m = _msg(c, "m" + k)
    if k == "total":
        return [f"assert tx.mint[mine].get(b'share', 0) {cl['op']} {cl['val']}{m}"]
    if k == "sum":
        return [f"assert minted != 0{m}"]
    if k == "sig":
        return [f"assert CAROL in tx.signatories{m}"]
    if k == "present":
        return [f"has_{i}: bool = token_present_in_inputs({TOK[cl['tok']].format(pid='mine')}, tx.{cl['where']})", f"assert has_{i}{m}"]
    if k == "locked":
        v = "minted" if cl["val"] == "minted" else str(cl["val"])
        return [f"assert all_tokens_locked_at_address(tx.outputs, own_address(mine), Token(mine, b'share')) {cl['op']} {v}{m}"]
    if k == "names":
        return [f"assert all([x == b'share' for x in tx.mint[mine].keys()]){m}"]
    if k == "burn":
        return [f"assert all([q < 0 for q in tx.mint[mine].values()]) or minted > 0{m}"]
    if k == "time":
        return [f"assert {time_src(c, cl['e'])}{m}"]
    if k == "noself":
        return [f"assert all_tokens_unlocked_from_address(tx.inputs, own_address(mine), Token(b'', b'')) == 0{m}"]
    raise ValueError(k)


# ------------------------------------------------------------------ model (independent of the code under test)

def cmp(op, a, b):
    return {">=": a >= b, "<=": a <= b, "==": a == b, ">": a > b}[op]


def half(vr):
    """First and last instant on a line where every integer t is 2t and the open interval after it is 2t+1; None for infinity."""
    lo, lc, hi, hc = vr
    return (None if lo is None else 2 * lo + (0 if lc else 1)), (None if hi is None else 2 * hi - (0 if hc else 1))


def empty(vr):
    a, b = half(vr)
    return a is not None and b is not None and a > b


def inside(win, vr):
    a, b = half(win)
    x, y = half(vr)
    return (a is None or (x is not None and x >= a)) and (b is None or (y is not None and y <= b))


def t_val(c, st, p):
    return {"st": st["deadline"] if st else None, "param": c["param"], "const": c["pconst"]}[p[0]] + p[1]


def time_val(c, e, st, vr):
    if e[0] == "and":
        return time_val(c, e[1], st, vr) and time_val(c, e[2], st, vr)
    if e[0] == "or":
        return time_val(c, e[1], st, vr) or time_val(c, e[2], st, vr)
    _, kind, t1, t2, lc, uc, style = e
    a, b = t_val(c, st, t1), t_val(c, st, t2)
    if kind in ("from", "lower"):
        return inside((a, True, None, True), vr)
    if kind in ("to", "upper"):
        return inside((None, True, a, True), vr)
    if kind == "range":
        return inside((a, True, b, True), vr)
    if kind == "custom":
        return inside((a if style != 1 else None, lc if style != 1 else True, b if style != 2 else None, uc if style != 2 else True), vr)
    if kind == "after":
        return vr[0] is not None and vr[0] > a
    if kind == "before":
        return vr[2] is not None and vr[2] < a


def points(c, e, st):
    if e[0] in ("and", "or"):
        return points(c, e[1], st) | points(c, e[2], st)
    return {t_val(c, st, e[2]), t_val(c, st, e[3])}


def amount(v, name):
    pol, n = {"ada": (b"", b""), "coin": (COIN, b"coin"), "nft": (NFT, b"nft"), "share": (SCRIPT, b"share"), "oracle": (NFT, b"oracle")}[name]
    return v.get(pol, {}).get(n, 0)


def policy_sum(v, name):
    pol = {"ada": b"", "coin": COIN, "nft": NFT, "share": SCRIPT}[name]
    return sum(v.get(pol, {}).values())


def resolved(o, tx):
    """The datum attached to an output, or None."""
    d = o["datum"]
    if d is None:
        return None
    if d[0] == "h":
        if d[1] not in tx["datums"]:
            raise Reject("unknown datum hash")
        return tx["datums"][d[1]]
    return d[1]


def key_addr(h):
    return (("k", h), None)


def spend_verdict(c, tx, ref, red):
    """Name of the first rule that fails, or None."""
    own = next(o for q, o in tx["inputs"] if q == ref)
    try:
        d = resolved(own, tx)
        if d is None:
            return "no datum"
        if d[0] != "State":
            raise ValueError("the parties only attach states to the contract")
        st = d[1]
        if own["addr"][0][0] != "s":
            return "not a script"
        pid = own["addr"][0][1]
        addr = own["addr"] if c["addr"] == "own" else (("s", pid), None)
        b, f = red
        if b not in c["rules"]:
            return "action"
        env = dict(st=st, own=own, addr=addr, amt=f.get("amount"), ref=ref, pid=pid, b=b)
        for cl in c["rules"][b]:
            if not clause_val(c, cl, tx, env):
                return cl["k"]
    except Reject as e:
        return "error"
    return None


def clause_val(c, cl, tx, E):
    k, st, addr = cl["k"], E["st"], E["addr"]
    num = lambda x: {"limit": st["limit"], "amt": E["amt"]}.get(x, x)
    locked = lambda t, a=addr: sum(amount(o["value"], t) for o in tx["outputs"] if o["addr"] == a)
    unlocked = lambda t: sum(amount(o["value"], t) for _, o in tx["inputs"] if o["addr"] == addr)
    if k == "calc":
        try:
            v = calcmodel.value(cl["helpers"], cl["lines"], st["count"], 3 if E["amt"] is None else E["amt"], st["limit"], st["owner"],
                                [o["value"].get(b"", {}).get(b"", 0) for o in tx["outputs"]], list(tx["sigs"]))
        except Exception:
            raise Reject("computation fails")
        return (v * 31 + st["count"]) % cl["mod"] != cl["not"]
    if k == "keep":
        return cmp(cl["op"], locked(cl["tok"]), unlocked(cl["tok"]) - num(cl["slack"]))
    if k == "keepd":
        want = E["own"]["datum"] if cl["which"] == "same" else ("i", ("State", dict(st, count=st["count"] + 1)))
        return cmp(cl["op"], sum(amount(o["value"], cl["tok"]) for o in tx["outputs"] if o["addr"] == addr and o["datum"] == want), num(cl["min"]))
    if k == "sig":
        return (st["owner"] if cl["who"] == "owner" else KEYS["carol"]) in tx["sigs"]
    if k == "nft":
        return any(amount(o["value"], cl["tok"]) > 0 for _, o in tx["inputs" if cl["where"] == "inputs" else "refs"]) != cl["neg"]
    if k == "cont":
        outs = [o for o in tx["outputs"] if o["addr"] == addr]
        if len(outs) != 1:
            return False
        d = resolved(outs[0], tx)
        if d is None:
            return False
        ns = d[1]
        if not {"+1": ns["count"] == st["count"] + 1, ">": ns["count"] > st["count"], "==": ns["count"] == st["count"]}[cl["count"]]:
            return False
        return (not cl["owner"] or ns["owner"] == st["owner"]) and (not cl["limit"] or (ns["limit"] <= st["limit"] and ns["deadline"] == st["deadline"]))
    if k == "single":
        return sum(1 for _, o in tx["inputs"] if o["addr"] == addr) == 1
    if k == "mint":
        return cmp(cl["op"], amount(tx["mint"], cl["tok"]), cl["val"])
    if k == "oracle":
        feeds = [o for _, o in tx["refs"] if amount(o["value"], "oracle") > 0]
        if not feeds:
            return False
        d = resolved(feeds[0], tx)
        if d is None:
            return False
        amt = E["amt"] if E["b"] in ("Withdraw", "Close") else 3
        return amt * d[1]["num"] <= locked("ada", key_addr(st["owner"])) * d[1]["den"]
    if k == "paid":
        return cmp(cl["op"], locked(cl["tok"], key_addr(st["owner"])), num(cl["val"]))
    if k == "fee":
        return tx["fee"] <= cl["max"]
    if k == "time":
        return time_val(c, cl["e"], st, tx["vr"])
    if k == "hasdatum":
        return True if cl["style"] == 0 else E["own"]["datum"][0] == "i"
    if k == "total":
        return cmp(cl["op"], sum(policy_sum(o["value"], cl["tok"]) for o in tx["outputs"] if o["addr"] == addr), sum(policy_sum(o["value"], cl["tok"]) for _, o in tx["inputs"] if o["addr"] == addr))
    if k == "unchanged":
        return any(o == E["own"] for o in tx["outputs"])
    if k == "first":
        return tx["inputs"][0][0] == E["ref"]
    if k == "refscript":
        return all(o["ref"] is None for o in tx["outputs"])
    if k == "idx":
        return E["ref"][1] < 3 and len(tx["inputs"]) <= 4
    if k == "peer":
        if cl["style"] == 0:
            return all(o["addr"][0][1] == E["pid"] for _, o in tx["inputs"] if o["addr"][0][0] == "s")
        return tx["inputs"][0][1]["addr"][0] == ("s", E["pid"])
    raise ValueError(k)


def mint_verdict(c, tx, pid):
    if not c["mint"]:
        return "purpose"
    own = tx["mint"][pid]
    minted = sum(own.values())
    for cl in c["mint"]:
        k = cl["k"]
        if k == "total":
            ok = cmp(cl["op"], own.get(b"share", 0), cl["val"])
        elif k == "sum":
            ok = minted != 0
        elif k == "sig":
            ok = KEYS["carol"] in tx["sigs"]
        elif k == "present":
            ok = any(amount(o["value"], cl["tok"]) > 0 for _, o in tx["inputs" if cl["where"] == "inputs" else "refs"])
        elif k == "locked":
            ok = cmp(cl["op"], sum(amount(o["value"], "share") for o in tx["outputs"] if o["addr"] == (("s", pid), None)), minted if cl["val"] == "minted" else cl["val"])
        elif k == "names":
            ok = all(n == b"share" for n in own)
        elif k == "burn":
            ok = all(q < 0 for q in own.values()) or minted > 0
        elif k == "time":
            ok = time_val(c, cl["e"], None, tx["vr"])
        elif k == "noself":
            ok = sum(amount(o["value"], "ada") for _, o in tx["inputs"] if o["addr"] == (("s", pid), None)) == 0
        if not ok:
            return k
    return None


# ------------------------------------------------------------------ plain data to ledger data and to the library's classes

def enc(ctor, *fields):
    return {"c": ctor, "f": list(fields)}


def e_datum(c, d):
    t, f = d
    if t == "State":
        return enc(c["state_id"], *[f[x] for x in c["fields"]])
    if t == "Price":
        return enc(c["price_id"], f["num"], f["den"])
    return enc({"Withdraw": c["ids"][0], "Tick": c["ids"][1], "Close": c["ids"][2]}[t], *f.values())


def e_cred(x):
    return enc(0 if x[0] == "k" else 1, x[1])


def e_addr(a):
    pay, st = a
    return enc(0, e_cred(pay), enc(1) if st is None else enc(0, enc(1, *st[1:]) if st[0] == "ptr" else enc(0, e_cred(st))))


def e_value(v):
    return {"m": [(p, {"m": sorted(t.items())}) for p, t in sorted(v.items())]}


def e_ref(r):
    return enc(0, r[0], r[1])


def e_out(c, o):
    d = o["datum"]
    return enc(0, e_addr(o["addr"]), e_value(o["value"]), enc(0) if d is None else enc(1, d[1]) if d[0] == "h" else enc(2, e_datum(c, d[1])), enc(1) if o["ref"] is None else enc(0, o["ref"]))


def e_range(vr):
    lo, lc, hi, hc = vr
    b = lambda x: enc(1) if x else enc(0)
    return enc(0, enc(0, enc(0) if lo is None else enc(1, lo), b(lc)), enc(0, enc(2) if hi is None else enc(1, hi), b(hc)))


def e_purpose(c, tx, p, info=False):
    if p[0] == "mint":
        return enc(0, p[1])
    extra = []
    if info:   # the V3 context tells the datum of the spent output
        o = next(o for r, o in tx["inputs"] if r == p[1])
        d = o["datum"] and (tx["datums"].get(o["datum"][1]) if o["datum"][0] == "h" else o["datum"][1])
        extra = [enc(0, e_datum(c, d)) if d else enc(1)]
    return enc(1, e_ref(p[1]), *extra)


def e_context(c, tx, purpose, info):
    ins = lambda l: [enc(0, e_ref(r), e_out(c, o)) for r, o in l]
    reds = {"m": [(e_purpose(c, tx, p), e_datum(c, d)) for p, d in tx["redeemers"]]}
    t = enc(0, ins(tx["inputs"]), ins(tx["refs"]), [e_out(c, o) for o in tx["outputs"]], tx["fee"], e_value(tx["mint"]), [], {"m": []}, e_range(tx["vr"]), list(tx["sigs"]), reds,
            {"m": [(h, e_datum(c, d)) for h, d in sorted(tx["datums"].items())]}, tx["id"], {"m": []}, [], enc(1), enc(1))
    return enc(0, t, e_datum(c, dict(map(lambda x: (x[0], x[1]), tx["redeemers"]))[purpose]), e_purpose(c, tx, purpose, info))


def to_uplc(x):
    from uplc import ast as u
    if isinstance(x, bool):
        raise TypeError
    if isinstance(x, int):
        return u.PlutusInteger(x)
    if isinstance(x, bytes):
        return u.PlutusByteString(x)
    if isinstance(x, list):
        return u.PlutusList([to_uplc(y) for y in x])
    if "m" in x:
        from frozendict import frozendict
        return u.PlutusMap(frozendict({to_uplc(k): to_uplc(v) for k, v in x["m"]}))
    return u.PlutusConstr(x["c"], [to_uplc(y) for y in x["f"]])


def to_cbor_shape(x):
    """The same value as nested tuples, for comparison with decoded bytes."""
    return x


class Typed:
    """Plain data as objects of the contract's own module (what a wallet in Python builds)."""

    def __init__(self, c, ns):
        self.c, self.n = c, ns

    def datum(self, d):
        t, f = d
        cls = self.n[t]
        return cls(**f)

    def cred(self, x):
        return self.n["PubKeyCredential" if x[0] == "k" else "ScriptCredential"](x[1])

    def addr(self, a):
        pay, st = a
        n = self.n
        s = n["NoStakingCredential"]() if st is None else n["SomeStakingCredential"](n["StakingPtr"](*st[1:]) if st[0] == "ptr" else n["StakingHash"](self.cred(st)))
        return n["Address"](self.cred(pay), s)

    def value(self, v):
        return {p: dict(sorted(t.items())) for p, t in sorted(v.items())}

    def ref(self, r):
        return self.n["TxOutRef"](r[0], r[1])

    def out(self, o):
        n, d = self.n, o["datum"]
        dd = n["NoOutputDatum"]() if d is None else n["SomeOutputDatumHash"](d[1]) if d[0] == "h" else n["SomeOutputDatum"](self.datum(d[1]))
        return n["TxOut"](self.addr(o["addr"]), self.value(o["value"]), dd, n["NoScriptHash"]() if o["ref"] is None else n["SomeScriptHash"](o["ref"]))

    def range(self, vr):
        n = self.n
        b = lambda x: n["TrueData"]() if x else n["FalseData"]()
        lo, lc, hi, hc = vr
        return n["POSIXTimeRange"](n["LowerBoundPOSIXTime"](n["NegInfPOSIXTime"]() if lo is None else n["FinitePOSIXTime"](lo), b(lc)),
                                   n["UpperBoundPOSIXTime"](n["PosInfPOSIXTime"]() if hi is None else n["FinitePOSIXTime"](hi), b(hc)))

    def purpose(self, p):
        return self.n["Minting"](p[1]) if p[0] == "mint" else self.n["Spending"](self.ref(p[1]))

    def context(self, tx, purpose):
        n = self.n
        ins = lambda l: [n["TxInInfo"](self.ref(r), self.out(o)) for r, o in l]
        t = n["TxInfo"](ins(tx["inputs"]), ins(tx["refs"]), [self.out(o) for o in tx["outputs"]], tx["fee"], self.value(tx["mint"]), [], {}, self.range(tx["vr"]), list(tx["sigs"]),
                        {self.purpose(p): self.datum(d) for p, d in tx["redeemers"]}, {h: self.datum(d) for h, d in sorted(tx["datums"].items())}, tx["id"], {}, [], n["NoValue"](), n["NoValue"]())
        return n["ScriptContext"](t, self.datum(dict((p, d) for p, d in tx["redeemers"])[purpose]), self.purpose(purpose))
