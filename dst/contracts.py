"""Contracts as data: seeded specs (controller side) and their realisation on the real API (worker side)."""
import hashlib, json, os

PURPOSES = ["spending", "minting", "rewarding", "certifying", "voting", "proposing", "any"]


# ------------------------------------------------------------------ specs

def type_spec(r, d=0, top=False):
    k = r.randrange(10) if d < 3 else r.randrange(3)
    if k < 2:
        return "int"
    if k == 2:
        return "bytes"
    if k == 3:
        return "any"
    if k == 4:
        return ["list", type_spec(r, d + 1)]
    if k == 5:
        return ["dict", r.choice(["int", "bytes"]), type_spec(r, d + 1)]
    if k == 6 and d < 2:
        return ["union", [constr_spec(r, d + 1, i) for i in range(r.randrange(2, 4))]]
    return constr_spec(r, d + 1, r.randrange(6))


NAMES = ["Listing", "Unlist", "Buy", "Params", "Auth", "Vesting", "Claim", "Pay", "Mint", "Burn"]


FIELDS = ["owner", "price", "deadline", "tag", "list", "Beneficiary", "amount", "zone", "aux_1", "aux_10", "aux_2", "_reserved", "min_bid", "state"]


def constr_spec(r, d, cid):
    fields = [[f, type_spec(r, d + 1)] for f in r.sample(FIELDS, r.randrange(0, 4))]
    return ["constr", f"{r.choice(NAMES)}{cid}", cid, fields]


def contract_spec(r, nparams=None, metadata=True):
    """A contract: a small parameterized program plus metadata."""
    n = r.randrange(0, 4) if nparams is None else nparams
    c = {"salt": r.randrange(10 ** 6), "pad": r.choice([0, 0, 3, 40, 400]), "level": r.choice([None, None, 0, 1, 3]),
         "ptypes": [r.choice(["int", "bytes", "List[int]", "Dict[int, bytes]", "Anything"]) for _ in range(n)]}
    if metadata:
        c["datum"] = [r.choice(["datum", "d", "Vesting Datum"]), type_spec(r)] if r.random() < 0.6 else None
        c["redeemer"] = [r.choice(["redeemer", "r", "Action"]), type_spec(r)] if r.random() < 0.7 else None
        c["params"] = [[f"p{i}", {"int": "int", "bytes": "bytes", "Anything": "any", "List[int]": ["list", "int"], "Dict[int, bytes]": ["dict", "int", "bytes"]}[t]] for i, t in enumerate(c["ptypes"])]
        if r.random() < 0.25:   # parameters are not required to have distinct names
            c["params"] = [[r.choice(["_", "amount"]), t] for _, t in c["params"]]
        c["purpose"] = r.sample(PURPOSES[:6], r.randrange(1, 4)) if (r.random() < 0.6 and c["redeemer"]) else ["any"]
        for k, alts in (("version", ["1.0.0", "0.3.1", "2.0.0-rc1"]), ("title", ["validator", "escrow", "Größe \u2713", "a \"quoted\" title"]),
                        ("description", ["some contract", "", "line one\nline two"]), ("license", [None, None, "MIT", "Apache-2.0"])):
            if r.random() < 0.7:
                c[k] = r.choice(alts) if k != "title" else r.choice(alts) + str(r.randrange(1000))
    return c


def variant(r, c):
    """Another contract that resembles a given one: same names, something else behind them."""
    c = json.loads(json.dumps(c))

    def classes(t):
        if isinstance(t, list):
            if t[0] == "constr":
                yield t
                for _, x in t[3]:
                    yield from classes(x)
            elif t[0] == "union":
                for x in t[1]:
                    yield from classes(x)
            else:
                for x in t[1:]:
                    yield from classes(x)
    cs = [t for k in ("datum", "redeemer") if c.get(k) for t in classes(c[k][1])]
    for _ in range(r.randrange(1, 3)):
        k = r.randrange(6)
        if k < 3 and cs:
            t = r.choice(cs)
            if t[3] and k == 0:
                r.choice(t[3])[1] = r.choice(["int", "bytes", "any", ["list", "int"]])
            elif t[3] and k == 1:
                r.shuffle(t[3])
            elif t[3]:
                t[3].pop(r.randrange(len(t[3])))
        elif k == 3:
            c["salt"] += 1
        elif k == 4:
            c["version"] = r.choice(["1.0.0", "5.0"])
        else:
            c["license"] = r.choice([None, "MIT", "BSD"])
    return c


def param_value(r, t):
    if t == "int":
        return r.choice([0, 1, -1, 255, -(2 ** 70), 2 ** 64, r.randrange(10 ** 9)])
    if t == "bytes":
        return {"b": bytes(r.randrange(256) for _ in range(r.choice([0, 1, 28, 32, 64, 65, 130]))).hex()}
    if t == "List[int]":
        return [r.randrange(1000) for _ in range(r.randrange(0, 5))]
    if t == "Dict[int, bytes]":
        return {"m": [[k, {"b": "%02x" % k}] for k in r.sample(range(200), r.randrange(0, 4))]}
    return r.choice([5, {"b": "00ff"}, [1, 2], {"cs": r.randrange(7)}])


def source(c):
    """Program text of a contract spec (library style)."""
    pad = "".join("abcdefghij"[(c["salt"] + i) % 10] for i in range(10)) * c["pad"]
    args = "".join(f"p{i}: {t}, " for i, t in enumerate(c["ptypes"]))
    use = "".join(f"    print(str(p{i}))\n" if t == "int" else "" for i, t in enumerate(c["ptypes"]))
    return ("from typing import Dict, List, Union\nfrom dataclasses import dataclass\nfrom pycardano import Datum as Anything, PlutusData\n"
            f"def validator({args}ctx: Anything) -> None:\n{use}    print({pad!r})\n    assert {c['salt']} > 0, 'salt'\n")


def cli_source(c):
    return source(c).replace("from typing import Dict, List, Union\nfrom dataclasses import dataclass\nfrom pycardano import Datum as Anything, PlutusData\n",
                             "from opshin.prelude import *\n").replace("ctx: Anything", "ctx: ScriptContext")


# ------------------------------------------------------------------ realisation (worker)

def realise_type(t, memo=None):
    import typing, dataclasses, pycardano
    if t == "int":
        return int
    if t == "bytes":
        return bytes
    if t == "any":
        return pycardano.Datum
    if t[0] == "list":
        return typing.List[realise_type(t[1])]
    if t[0] == "dict":
        return typing.Dict[realise_type(t[1]), realise_type(t[2])]
    if t[0] == "union":
        return typing.Union[tuple(realise_type(x) for x in t[1])]
    if t[0] == "constr":
        ns = {"CONSTR_ID": t[2], "__annotations__": {n: realise_type(x) for n, x in t[3]}, "__module__": __name__}
        return dataclasses.dataclass(type(t[1], (pycardano.PlutusData,), ns))
    raise ValueError(t)


def build_script(c, path=None):
    from opshin import builder
    from . import sim
    if path is None:
        path = os.path.join(sim.RUN["root"], f"contract_{c['salt']}.py")
    with sim.REAL.open(path, "w", encoding="utf-8") as f:
        f.write(source(c))
    return builder.build(path, config=sim.config({}, c["level"]))


def realise(c, script=None):
    from opshin import PlutusContract, Purpose
    kw = {k: c[k] for k in ("version", "title", "description", "license") if k in c}
    return PlutusContract(
        build_script(c) if script is None else script,
        datum_type=(c["datum"][0], realise_type(c["datum"][1])) if c.get("datum") else None,
        redeemer_type=(c["redeemer"][0], realise_type(c["redeemer"][1])) if c.get("redeemer") else None,
        parameter_types=[(n, realise_type(t)) for n, t in c.get("params", [])],
        purpose=[Purpose[p] for p in c["purpose"]] if "purpose" in c else (Purpose.any,), **kw)


# ------------------------------------------------------------------ independent oracle for artifacts

ARTIFACTS = ["blueprint.json", "mainnet.addr", "script.cbor", "script.plutus", "script.policy_id", "testnet.addr"]
_B32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"


def bech32(hrp, data):
    acc = bits = 0
    out = []
    for b in data:
        acc = (acc << 8) | b
        bits += 8
        while bits >= 5:
            bits -= 5
            out.append((acc >> bits) & 31)
    if bits:
        out.append((acc << (5 - bits)) & 31)
    exp = [ord(x) >> 5 for x in hrp] + [0] + [ord(x) & 31 for x in hrp]

    def polymod(vs):
        chk = 1
        for v in vs:
            top = chk >> 25
            chk = (chk & 0x1ffffff) << 5 ^ v
            for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)):
                chk ^= g if ((top >> i) & 1) else 0
        return chk
    pm = polymod(exp + out + [0] * 6) ^ 1
    return hrp + "1" + "".join(_B32[x] for x in out + [(pm >> 5 * (5 - i)) & 31 for i in range(6)])


def cbor_bytes(b):
    n = len(b)
    if n < 24:
        return bytes([0x40 + n]) + b
    for m, s in ((0x58, 1), (0x59, 2), (0x5a, 4)):
        if n < 1 << (8 * s):
            return bytes([m]) + n.to_bytes(s, "big") + b
    raise ValueError


def expected_files(script):
    """What the script artifacts must contain, computed without the code under test."""
    h = hashlib.blake2b(b"\x03" + script, digest_size=28).digest()
    return {"script.cbor": script.hex(), "script.policy_id": h.hex(), "mainnet.addr": bech32("addr", b"\x71" + h),
            "testnet.addr": bech32("addr_test", b"\x70" + h)}, cbor_bytes(script).hex(), h.hex()


def check_dir(d, script, c=None, blueprint=None):
    """Problems with an artifact directory, given the script and metadata it must hold."""
    from . import sim
    problems = []
    want, cborhex, h = expected_files(script)
    got = {}
    for f in ARTIFACTS:
        try:
            with sim.REAL.open(os.path.join(d, f), "rb") as fp:
                got[f] = fp.read()
        except OSError as e:
            problems.append(f"{f} missing")
    for f, w in want.items():
        if f in got and got[f] != w.encode():
            problems.append(f"{f} wrong or incomplete ({len(got[f])} bytes, expected {len(w)})")
    for f in ("script.plutus", "blueprint.json"):
        if f not in got:
            continue
        try:
            j = json.loads(got[f])
        except ValueError:
            problems.append(f"{f} is not complete JSON ({len(got[f])} bytes)")
            continue
        if f == "script.plutus":
            if j.get("cborHex") != cborhex or j.get("type") != "PlutusScriptV3":
                problems.append("script.plutus holds another script")
            if c and "description" in c and j.get("description") != c["description"]:
                problems.append("script.plutus description differs")
        else:
            try:
                v = j["validators"][0]
                if v["compiledCode"] != script.hex():
                    problems.append("blueprint.json holds another script")
                if v["hash"] != h:
                    problems.append("blueprint.json hash differs from script hash")
                if c:
                    for k in ("version", "title", "description", "license"):
                        if k in c and j["preamble"].get(k) != c[k]:
                            problems.append(f"blueprint.json {k} differs")
                if blueprint is not None and j != blueprint:
                    problems.append("blueprint.json differs from the contract's blueprint")
            except (KeyError, IndexError, TypeError) as e:
                problems.append(f"blueprint.json malformed: {e!r}")
    return problems


def fingerprint(k):
    """Everything a contract says about itself, as comparable data."""
    return {"script": bytes(k.contract).hex() if len(k.contract) < 40 else hashlib.sha256(bytes(k.contract)).hexdigest(),
            "blueprint": json.loads(json.dumps(k.blueprint)), "plutus": k.plutus_json, "version": k.version, "title": k.title,
            "description": k.description, "license": k.license, "purpose": [p.name for p in k.purpose],
            "params": [n for n, _ in k.parameter_types], "datum": k.datum_type and k.datum_type[0], "redeemer": k.redeemer_type and k.redeemer_type[0]}


def fp_diff(a, b):
    return {k: [str(a[k])[:300], str(b[k])[:300]] for k in a if a[k] != b[k]}
