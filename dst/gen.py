"""Seeded program and project generators (controller side; never imports opshin)."""
import json, os

_CORPUS = None


def corpus():
    global _CORPUS
    if _CORPUS is None:
        with open(os.path.join(os.path.dirname(__file__), "corpus.json")) as f:
            _CORPUS = json.load(f)
    return _CORPUS


WORDS = "alpha beta gamma delta eps zeta eta theta iota kappa lam mu nu xi omi rho sig tau ups phi chi psi omega".split()


class ProgGen:
    """Well-typed programs with classes, unions, closures, nested functions, recursion, constants, loops."""

    def __init__(self, r, size=1.0, prefix=""):
        self.r, self.size, self.prefix = r, size, prefix
        self.n = 0
        self.consts = []     # (name, type)
        self.funs = []       # (name, [argtypes], ret)
        self.classes = []    # (name, [(field, type)])
        self.lines = []
        self.pool = WORDS[:]
        r.shuffle(self.pool)

    def name(self, base=None):
        self.n += 1
        b = base or self.pool[self.n % len(self.pool)]
        return f"{self.prefix}{b}{self.n}"

    # expressions -----------------------------------------------------------
    def expr(self, t, env, d=0):
        r = self.r
        cands = [n for n, tt in env if tt == t]
        if d > 3 or (cands and r.random() < 0.35):
            if cands and r.random() < 0.8:
                return r.choice(cands)
            return self.lit(t)
        m = getattr(self, "e_" + t, None)
        if m:
            return m(env, d + 1)
        return r.choice(cands) if cands else self.lit(t)

    def lit(self, t):
        r = self.r
        if t == "int":
            return str(r.choice([0, 1, 2, 3, 7, 10, 42, 255, 1000, r.randrange(10 ** 6)]))
        if t == "bool":
            return r.choice(["True", "False"])
        if t == "bytes":
            return "b" + repr("".join(r.choice("abcdef") for _ in range(r.randrange(4))))
        if t == "str":
            return repr("".join(r.choice("xyzuv") for _ in range(r.randrange(4))))
        if t == "List[int]":
            return "[" + ", ".join(self.lit("int") for _ in range(r.randrange(1, 4))) + "]"
        if t == "Dict[int, bytes]":
            return "{" + ", ".join(f"{i}: {self.lit('bytes')}" for i in range(r.randrange(1, 4))) + "}"
        for c, fs in self.classes:
            if c == t:
                return f"{c}({', '.join(self.lit(ft) for _, ft in fs)})"
        raise KeyError(t)

    def call_of(self, t, env, d):
        fs = [f for f in self.funs if f[2] == t]
        if fs and d < 3:
            f = self.r.choice(fs)
            return f"{f[0]}({', '.join(self.expr(a, env, d + 1) for a in f[1])})"
        return None

    def attr_of(self, t, env):
        c = []
        for n, tt in env:
            for cn, fs in self.classes:
                if cn == tt:
                    c += [f"{n}.{fn}" for fn, ft in fs if ft == t]
        return self.r.choice(c) if c else None

    def e_int(self, env, d):
        r = self.r
        k = r.randrange(10)
        if k < 4:
            return f"({self.expr('int', env, d)} {r.choice(['+', '-', '*'])} {self.expr('int', env, d)})"
        if k == 4:
            return f"len({self.expr(r.choice(['bytes', 'List[int]']), env, d)})"
        if k == 5:
            return f"({self.expr('int', env, d)} if {self.expr('bool', env, d)} else {self.expr('int', env, d)})"
        if k == 6:
            return f"sum([{self.name('q')} for _ in [0]])".replace(self.name("zz"), "") if False else f"({self.expr('int', env, d)} % {r.choice([3, 5, 7, 11])})"
        if k == 7:
            return self.attr_of("int", env) or self.lit("int")
        return self.call_of("int", env, d) or self.lit("int")

    def e_bool(self, env, d):
        r = self.r
        k = r.randrange(6)
        if k < 3:
            return f"({self.expr('int', env, d)} {r.choice(['<', '>', '==', '<=', '!='])} {self.expr('int', env, d)})"
        if k == 3:
            return f"({self.expr('bool', env, d)} {r.choice(['and', 'or'])} {self.expr('bool', env, d)})"
        if k == 4:
            return f"(not {self.expr('bool', env, d)})"
        return f"({self.expr('bytes', env, d)} == {self.expr('bytes', env, d)})"

    def e_bytes(self, env, d):
        r = self.r
        k = r.randrange(5)
        if k < 2:
            return f"({self.expr('bytes', env, d)} + {self.expr('bytes', env, d)})"
        if k == 2:
            return self.attr_of("bytes", env) or self.lit("bytes")
        if k == 3:
            return self.call_of("bytes", env, d) or self.lit("bytes")
        return self.lit("bytes")

    # statements ------------------------------------------------------------
    def block(self, env, ind, n, d=0):
        r = self.r
        out = []
        env = list(env)
        pad = "    " * ind
        for _ in range(n):
            k = r.randrange(9)
            ints = [x for x, t in env if t == "int" and x.startswith(self.prefix + "v")]
            if k < 4 or d > 1:
                t = r.choice(["int", "int", "bytes", "bool", "List[int]"] + [c for c, _ in self.classes[:2]])
                v = self.name("v")
                out.append(f"{pad}{v} = {self.expr(t, env)}")
                env.append((v, t))
            elif k == 4 and ints:
                out.append(f"{pad}if {self.expr('bool', env)}:")
                v = r.choice(ints)
                out.append(f"{pad}    {v} = {self.expr('int', env)}")
                if r.random() < 0.6:
                    out.append(f"{pad}else:")
                    out.append(f"{pad}    {r.choice(ints)} = {self.expr('int', env)}")
            elif k == 5 and ints:
                v, i = r.choice(ints), self.name("i")
                out.append(f"{pad}for {i} in range({r.randrange(1, 5)}):")
                out.append(f"{pad}    {v} = {self.expr('int', env + [(i, 'int')])}")
            elif k == 6:
                v, i = self.name("v"), self.name("x")
                out.append(f"{pad}{v} = [{self.expr('int', env + [(i, 'int')])} for {i} in {self.expr('List[int]', env)}]")
                env.append((v, "List[int]"))
            elif k == 7 and d == 0:
                f, a = self.name("h"), self.name("a")
                inner = [(a, "int")] + env
                out.append(f"{pad}def {f}({a}: int) -> int:")
                b, e2 = self.block(inner, ind + 1, r.randrange(1, 3), d + 2)
                out += b
                out.append(f"{pad}    return {self.expr('int', e2)}")
                v = self.name("v")
                out.append(f"{pad}{v} = {f}({self.expr('int', env)})")
                env.append((v, "int"))
            elif k == 8 and ints:
                out.append(f"{pad}assert {self.expr('bool', env)} or True, \"m{self.n}\"")
            else:
                v = self.name("v")
                out.append(f"{pad}{v} = {self.expr('int', env)}")
                env.append((v, "int"))
        return out, env

    def decls(self, nclasses, nconsts, nfuns):
        r, L = self.r, self.lines
        base = r.randrange(0, 20)
        for i in range(nclasses):
            c = self.name("C")
            fs = [(self.name("f"), r.choice(["int", "int", "bytes", "List[int]"])) for _ in range(r.randrange(1, 5))]
            L += ["@dataclass()", f"class {c}(PlutusData):"]
            if r.random() < 0.85:
                L.append(f"    CONSTR_ID = {base + i}")
            L += [f"    {fn}: {ft}" for fn, ft in fs] + [""]
            self.classes.append((c, fs))
        if len(self.classes) >= 2 and r.random() < 0.8:
            us = r.sample(self.classes, min(len(self.classes), r.randrange(2, 4)))
            u, f = self.name("U"), self.name("pick")
            L.append(f"{u} = Union[{', '.join(c for c, _ in us)}]")
            L.append(f"def {f}(o: {u}) -> int:")
            for i, (c, fs) in enumerate(us):
                kw = "if" if i == 0 else "elif"
                L.append(f"    {kw} isinstance(o, {c}):")
                ints = [fn for fn, ft in fs if ft == "int"]
                L.append(f"        res = {('o.' + r.choice(ints)) if ints else self.lit('int')}")
            L += ["    else:", "        res = 0", "    return res", ""]
            self.union_fun = (f, us)
        else:
            self.union_fun = None
        for _ in range(nconsts):
            t = r.choice(["int", "bytes", "List[int]", "int"])
            n = self.name("K")
            L.append(f"{n} = {self.expr(t, self.consts, 2)}")
            self.consts.append((n, t))
        for _ in range(nfuns):
            f = self.name("fn")
            args = [(self.name("a"), r.choice(["int", "bytes", "int"] + [c for c, _ in self.classes[:1]])) for _ in range(r.randrange(1, 4))]
            ret = r.choice(["int", "int", "bytes"])
            L.append(f"def {f}({', '.join(f'{a}: {t}' for a, t in args)}) -> {ret}:")
            b, env = self.block(args + self.consts, 1, r.randrange(1, 4))
            L += b
            L += [f"    return {self.expr(ret, env)}", ""]
            self.funs.append((f, [t for _, t in args], ret))
        if r.random() < 0.4:
            e, o = self.name("even"), self.name("odd")
            L += [f"def {e}(n: int) -> bool:", f"    return True if n <= 0 else {o}(n - 1)",
                  f"def {o}(n: int) -> bool:", f"    return False if n <= 0 else {e}(n - 1)", ""]
            self.rec = e
        else:
            self.rec = None

    HEADER = ["from dataclasses import dataclass", "from typing import Dict, List, Union", "from pycardano import Datum as Anything, PlutusData", ""]

    def program(self, imports=(), extra_env=(), vname="validator"):
        r = self.r
        s = self.size
        self.decls(r.randrange(0, 1 + int(3 * s)), r.randrange(0, 1 + int(3 * s)), r.randrange(1, 2 + int(3 * s)))
        L = list(imports) + self.HEADER + self.lines
        args = [("p", "int"), ("q", "bytes")][: r.randrange(1, 3)]
        L.append(f"def {vname}({', '.join(f'{a}: {t}' for a, t in args)}) -> int:")
        b, env = self.block(args + self.consts + list(extra_env), 1, r.randrange(1, 3 + int(3 * s)))
        L += b
        tail = self.expr("int", env)
        if self.union_fun:
            f, us = self.union_fun
            tail += f" + {f}({self.lit(r.choice(us)[0])})"
        if self.rec:
            tail += f" + (1 if {self.rec}(p) else 0)"
        L.append(f"    return {tail}")
        return "\n".join(L) + "\n"

    def module(self, imports=()):
        """A helper module: declarations only."""
        r = self.r
        self.decls(r.randrange(0, 2), r.randrange(0, 3), r.randrange(1, 3))
        return "\n".join(list(imports) + self.HEADER + self.lines) + "\n"


def program(r, size=1.0):
    return ProgGen(r, size).program()


# ----------------------------------------------------------------- projects

HELPERS = ["helper", "common", "types_mod", "shared_lib", "ledger_utils", "aux_mod"]


def helper_src(r, tag, fname="bonus", imports=()):
    """Small helper whose meaning depends on `tag`; always defines `<fname>(x: int) -> int` and constant."""
    body = r.choice([f"x + {tag}", f"x * {tag + 2} + {tag}", f"len(b'{'z' * (tag % 5)}') + x + {tag}"])
    K = f"K_{fname}"
    return "\n".join(list(imports) + [f"{K} = {tag}", f"def {fname}(x: int) -> int:", f"    return {body} + {K}", ""])


def contract_src(r, imports, calls):
    """A contract calling the imported helper functions."""
    lines = [f"from {m} import *" for m in imports]
    e = " + ".join(f"{c}(p)" for c in calls) or "p"
    lines += ["def validator(p: int) -> int:", f"    w = p + {r.randrange(100)}", f"    return w + {e}", ""]
    return "\n".join(lines)


# ----------------------------------------------------------------- order-sensitive programs

def closures(r):
    """Functions that capture many outer names, mutually recursive groups, calls through attributes of the closure rewriting."""
    pool = WORDS[:]
    r.shuffle(pool)
    nv = r.randrange(3, 9)
    vs = pool[:nv]
    L = []
    glob = vs[: r.randrange(0, nv)]
    for i, v in enumerate(glob):
        L.append(f"{v} = {r.randrange(50)}")
    loc = vs[len(glob):]
    fns = [f"{w}_fn" for w in pool[nv:nv + r.randrange(2, 6)]]
    top = r.random() < 0.5

    def body(names, calls, ind, me):
        pad = "    " * ind
        e = " + ".join(r.sample(names, r.randrange(1, len(names) + 1)) + ["n"])
        cs = [c for c in calls if c != me]
        c = r.choice(cs) if cs and r.random() < 0.8 else None
        return [f"{pad}if n <= 0:", f"{pad}    return {e}"] + ([f"{pad}return {c}(n - 1) + {e}"] if c else [f"{pad}return {e} * 2"])
    if top and glob:
        for f in fns:
            L.append(f"def {f}(n: int) -> int:")
            L += body(glob, fns, 1, f)
        L += ["def validator(p: int) -> int:", f"    return {fns[0]}(p)"]
    else:
        L.append("def validator(p: int) -> int:")
        for v in loc:
            L.append(f"    {v} = p + {r.randrange(9)}")
        for f in fns:
            L.append(f"    def {f}(n: int) -> int:")
            if r.random() < 0.3:
                x = f"in_{f}"
                L.append(f"        {x} = n + {r.choice(vs)}")
                L.append(f"        def deep_{f}(m: int) -> int:")
                L.append(f"            return {' + '.join(r.sample(vs + [x, 'n'], r.randrange(2, len(vs) + 3)))} + m")
                L.append(f"        n = n + deep_{f}(2) * 0")
            L += body(vs, fns, 2, f)
        L.append(f"    return {' + '.join(f'{f}(p)' for f in fns)}")
    return "\n".join(L) + "\n"


def unions(r):
    """Unions of many classes, narrowing by isinstance, union-typed fields and parameters (union expansion)."""
    n = r.randrange(2, 6)
    cs = r.sample(["Buy", "Sell", "List", "Void", "Mint", "Burn", "Swap", "Cancel"], n)
    cs = [c + "Act" for c in cs]
    ids = r.sample(range(0, 20), n)
    L = ["from dataclasses import dataclass", "from typing import Dict, List, Union", "from pycardano import Datum as Anything, PlutusData", ""]
    shared = r.choice(WORDS)
    anywhere = r.random() < 0.7
    for c, i in zip(cs, ids):
        L += ["@dataclass()", f"class {c}(PlutusData):", f"    CONSTR_ID = {i}"]
        fields = [f"    {w}: {r.choice(['int', 'bytes', 'List[int]'])}" for w in r.sample([x for x in WORDS if x != shared], r.randrange(0, 3))]
        # the position of the common field differs from record to record
        fields.insert(r.randrange(len(fields) + 1) if anywhere else 0, f"    {shared}: int")
        L += fields + [""]
    L.append(f"Act = Union[{', '.join(cs)}]")
    L.append("def pick(o: Act, k: int) -> int:")
    sub = r.sample(cs, r.randrange(1, n + 1))
    for i, c in enumerate(sub):
        L.append(f"    {'if' if i == 0 else 'elif'} isinstance(o, {c}):")
        L.append(f"        res = o.{shared} + {r.randrange(9)}")
    L += ["    else:", "        res = k", "    return res"]
    if r.random() < 0.5:
        a, b = r.sample(cs, 2)
        L += ["def two(o: Act, q: Act) -> int:", f"    if isinstance(o, {a}) or isinstance(o, {b}):", "        x = 1", "    else:", "        x = 2",
              f"    if isinstance(q, {a}) and q.{shared} > 3:", "        x = x + 10", "    return x", ""]
        tail = " + two(o, o)"
    else:
        tail = ""
    L += ["def validator(o: Act, l: List[int], " + f"u: Union[int, bytes]) -> int:", f"    w = pick(o, len(l)) + o.{shared}{tail}",
          "    if isinstance(u, int):", "        w = w + u", "    else:", "        w = w + len(u)", "    return w"]
    return "\n".join(L) + "\n"


FOLDS = ["len({{1, 2, 3}})", "hash('abc')", "str(print)", "[x for x in {{'aa', 'bb', 'cc'}}]", "list({{'aa', 'bb', 'cc'}})[0]", "','.join({{'aa', 'bb', 'cc'}})",
         "sorted({{'aa', 'bb', 'cc'}})", "len(dir())", "str(object())", "id(1)", "repr(validator)", "open('{f}').read()", "len(open('{f}').read())", "max({{'aa', 'bb', 'cc'}})",
         "[k for k in {{'a': 1, 'b': 2}}]", "sum([1, 2, 3])", "hex(255)", "str(1) + 'a'", "b'ab'.hex()", "[i * 2 for i in range(5)]", "{{1: b'a', 2: b'b'}}", "max([3, 1, 2])",
         "pow(3, 5)", "list(range(4))", "int('12')", "bytes([1, 2, 3])", "'a b'.split()", "len(vars())", "frozenset(['aa', 'bb'])", "list(frozenset(['aa', 'bb', 'cc']))[0]",
         "hash(b'x')", "str(len)", "str(type(1))", "repr(lambda_)", "str(helper)", "hash(helper)", "str(Rec(1))", "str([helper])"]


def folding(r, f):
    L = ["from dataclasses import dataclass", "from typing import Dict, List, Union", "from pycardano import Datum as Anything, PlutusData", "@dataclass()", "class Rec(PlutusData):", "    CONSTR_ID = 0", "    a: int", "",
         "def helper(x: int) -> int:", "    return x", ""]
    e = r.choice(FOLDS).format(f=f)
    L.append(f"KONST = {e}")
    if r.random() < 0.5:
        L.append(f"OTHER = {r.choice(FOLDS[-20:]).format(f=f)}")
    k = r.randrange(3)
    if k == 0:
        L += ["def validator(p: int) -> None:", "    print(str(KONST))"]
    elif k == 1:
        L += ["def validator(p: int) -> None:", "    print(KONST)", f"    assert p > len(KONST), {e if r.random() < .3 else repr('m')}"]
    else:
        L += ["def validator(p: int) -> int:", f"    q = {e}", "    print(str(q))", "    return p"]
    return "\n".join(L) + "\n"


def mutate(r, src):
    """A (usually faulty) variant of a program."""
    lines = src.split("\n")
    for _ in range(r.randrange(1, 3)):
        i = r.randrange(len(lines))
        k = r.randrange(7)
        if k == 0:
            del lines[i]
        elif k == 1:
            lines.insert(i, lines[r.randrange(len(lines))])
        elif k == 2:
            lines[i] = lines[i].replace("int", r.choice(["bytes", "str", "Foo"]), 1)
        elif k == 3:
            lines[i] = lines[i].replace("+", r.choice(["-", "/", "@", "and"]), 1)
        elif k == 4:
            import re
            ids = re.findall(r"\b[a-z]\w+\b", src)
            if ids:
                lines[i] = re.sub(r"\b[a-z]\w+\b", lambda m: r.choice(ids), lines[i], count=1)
        elif k == 5:
            lines[i] = lines[i].replace("return", r.choice(["pass #", "yield", "return [", "raise"]), 1)
        else:
            lines[i] = " " * r.randrange(3) + lines[i]
        if not lines:
            lines = ["x = 1"]
    return "\n".join(lines)


# ----------------------------------------------------------------- programs with a diagnostic at a known place

# (lines of the statement, index of the faulty line, text at which the reported position starts or None)
FAULTS = [
    (["bad_z = undefined_z + 1"], 0, "undefined_z"), (["bad_z = 1 + b'x'"], 0, "1 + b"), (["bad_z = 2 .nofield"], 0, None), (["pz = 1", "bad_z = pz.nofield"], 1, "pz.nofield"), (["bad_z = 1 @ 2"], 0, "1 @"),
    (["global pz"], 0, "global"), (["pz = 1", "del pz"], 1, "del"), (["import os"], 0, "import"), (["class Foo_z:", "    pass"], 0, "class"), (["pz = 1", "pz: bytes = pz"], 1, "pz"), (["bad_z = 'a' * b'b'"], 0, "'a' *"),
    (["pz = 1", "for xz in pz:", "    pass"], 1, "for"), (["pz = 1", "bad_z = pz[0]"], 1, "pz[0]"), (["bad_z = f'{undefined_z}'"], 0, None), (["bad_z: int = b'x'"], 0, "bad_z"), (["assert len(3) == 1"], 0, "len"), (["assert 1 + b'x' > 0"], 0, "1 + b"),
    (["with open('x') as qz:", "    pass"], 0, None), (["try:", "    pass", "except:", "    pass"], 0, "try"), (["while 1 + b'x':", "    pass"], 0, "1 + b"), (["if b'x' + 1:", "    pass"], 0, "b'x' + 1"),
    (["bad_z = (1 +", "        b'x')"], 0, "1 +"), (["pz = 1", "bad_z = max([", "        1,", "        pz.nope])"], 3, "pz.nope"), (["pz = 1", "pz += b'x'"], 1, "pz += "), (["pz = 1", "xz, yz = pz"], 1, "xz, yz = pz"), (["pz = (1, 2)", "aaz = 1", "xz, (yz, zz) = pz"], 2, "xz"),
    (["bad_z: Nope_z = 1"], 0, "Nope_z"), (["def inner_z(xz: Nope_z) -> int:", "    return 1"], 0, None), (["assert 1 < b'x'"], 0, "1 < b"), (["bad_z = -b'x'"], 0, "-b'x'"), (["bad_z = [1, 2][1:2].zz"], 0, None),
    (["raise ValueError('x')"], 0, None), (["bad_z = lambda xz: xz"], 0, None), (["pz = 1", "pz.xz = 1"], 1, "pz.xz = 1"), (["bad_z = [xz + b'x' for xz in [1, 2]]"], 0, "xz + b'x'"), (["for iz in range(3):", "    bad_z = iz.c"], 1, "iz.c"),
    (["bad_z = 3", "bad_z = b'x'"], 1, "bad_z"), (["'ä'; bad_z = undefined_z"], 0, "undefined_z"), (["bad_z = undefined_z if undefined_z else undefined_z"], 0, None), (["xz = 1; xz = 2; xz = xz + xz + xz.a"], 0, "xz.a"), (["bad_z = {1, 2}"], 0, "{1"),
    (["def inner_z(xz: int) -> int:", "    yz, wz = xz", "    return 1"], 1, "yz"), (["if 1 == 2:", "    pz = 1", "else:", "    pz = 1 + b'x'"], 3, "1 + b"), (["for xz, yz in {1: 2}.items():", "    pz = xz + b''"], 1, "xz + b''"), (["for xz, yz in [1]:", "    pass"], 0, "xz, yz"),
    (["async def f_z() -> int:", "    return 1"], 0, "async"), (["bad_z: int"], 0, "bad_z"), (["match 1:", "    case 1:", "        pass"], 0, "match"), (["print(str((yz := 3)))"], 0, "yz"),
]
MODULE_FAULTS = [
    (["BAD_Z = undefined_z + 1"], 0, "undefined_z"), (["def bad_z(k: int) -> int:", "    return k + b'x'"], 1, "k + b'x'"), (["@dataclass()", "class ZRec(PlutusData):", "    CONSTR_ID = 3", "    az: Nope_z"], 3, "Nope_z"),
    (["@dataclass()", "class ZRec(PlutusData):", "    CONSTR_ID = 3", "    az: int", "", "    def meth(self, k: int) -> int:", "        return k + b'x'"], 6, "k + b'x'"), (["BAD_Z: int = b'x'"], 0, "BAD_Z"), (["BAD_Z = 1", "BAD_Z += b'x'"], 1, "BAD_Z +="),
    (["AZ, BZ = 5"], 0, "AZ"), (["for iz in 5:", "    pass"], 0, "for"), (["@dataclass()", "class ZRec(PlutusData):", "    az: int", "", "@dataclass()", "class YRec(ZRec):", "    bz: int"], 5, "class"),
    (["@dataclass()", "class ZRec(PlutusData):", "    CONSTR_ID = 3", "    az: int = 1"], 1, "class"), (["@dataclass()", "class ZRec(PlutusData):", "    CONSTR_ID = 3", "    az: int", "", "    def __foo__(self) -> int:", "        return 1"], 5, "def"),
    (["@dataclass()", "class ZRec(PlutusData):", "    az: int", "", "    def meth(self, oz: ZRec) -> int:", "        return 1"], 4, "def"), (["@dataclass()", "class ZRec(PlutusData):", "    az: int", "", "    def meth(self: int) -> int:", "        return 1"], 4, "def"),
    (["def bad_z(k: Dict[int]) -> int:", "    return 1"], 0, "def"), (["def bad_z(k: Union[int, List[int]]) -> int:", "    return 1"], 0, "def"),
    (["@dataclass()", "class ZRec(PlutusData):", "    CONSTR_ID = 3", "    az: int", "", "def bad_z(k: ZRec) -> int:", "    lz = 3", "    return k.az + k.nope_z"], 7, "k.nope_z"), (["assert 1 + b'x' > 2"], 0, "1 + b'x'"), (["if 1 == 2:", "    KZ = 1", "else:", "    KZ = b'x' - 1"], 3, "b'x' - 1"),
]
# snippets at module level that are accepted with a warning: lines, index of the line, word of the message
WARNINGS = [
    (["def warn_z(dz: Anything) -> None:", "    lz = 1", "    print(str(dz))"], 2, "AnyType"), (["def warn_y(dz: List[Union[int, bytes]]) -> int:", "    rz = 0", "    if isinstance(dz[0], int):", "        rz = 1", "    return rz"], 2, "isinstance"),
    (["@dataclass()", "class WRec(PlutusData):", "    CONSTR_ID = 7", "    wz: int", "", "    def meth(this, k: int) -> int:", "        return k + 1"], 5, "self"),
]


def diagnostic(r, fault=True, base=None):
    """A program with at most one planted error and some planted warnings.  Returns {src, line, needle, fault, warn: [[line, word]]}."""
    if base is None:
        base = r.choice([lambda: closures(r), lambda: unions(r), lambda: program(r, 0.6), lambda: program(r, 0.3)])()
    L = [[t, None] for t in base.rstrip("\n").split("\n")]
    tops = [i for i, (t, _) in enumerate(L) if (t.startswith("def ") and not L[i - 1][0].startswith("@")) or t.startswith("@")]
    info = {"fault": None, "line": None, "needle": None, "warn": []}
    planted = []
    full = "from dataclasses" in base
    if full:
        for k in r.sample(range(len(WARNINGS)), r.choice([0, 0, 1, 2])):
            ls, off, word = WARNINGS[k]
            planted.append((r.choice(tops), 0, [[t, ("warn", word) if j == off else None] for j, t in enumerate(ls)]))
    vi = [i for i, (t, _) in enumerate(L) if t.startswith("def validator(")]
    if vi and r.random() < 0.4:   # a constant that only exists after folding
        a, b = r.choice([("a", "bcd"), ("abc", "d"), ("0", "1"), ("f", "eeeee")])
        var = "p" if "(p: int" in L[vi[0]][0] else "len(l)"
        planted.append((vi[0] + 1, 0, [["    assert (", None], [f"        b'{a}' +", ("warn", f"b'{a}{b}'")], [f"        b'{b}') != (b'' if {var} > 3 else b'zz')", None]]))
    if fault:
        if full and r.random() < 0.25:
            ls, off, needle = r.choice(MODULE_FAULTS)
            at, ind = r.choice(tops), 0
        else:
            ls, off, needle = r.choice(FAULTS)
            cand, indef = [], False
            for i, (t, _) in enumerate(L):
                if t and not t.startswith(" "):
                    indef = t.startswith("def ")
                elif indef and t.strip() and not t.strip().startswith(("else", "elif")) and len(t) - len(t.lstrip()) in (4, 8):
                    cand.append(i)
            at = r.choice(cand)
            ind = len(L[at][0]) - len(L[at][0].lstrip())
        info["fault"] = ls
        info["needle"] = needle
        planted.append((at, ind, [[" " * ind + t if t else t, ("fault",) if j == off else None] for j, t in enumerate(ls)]))
    for at, ind, ls in sorted(planted, key=lambda p: -p[0]):
        L[at:at] = ls
    out = []
    for t, tag in L:
        if t and not t.startswith(" ") and not t.startswith(("else", "elif")) and (not out or not out[-1][0].startswith("@")):
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                out.append([r.choice(["", "# comment", "# ünïcode ✓", "    ", "'''doc", "string'''"][:4]), None])
        out.append([t, tag])
    for i, (t, tag) in enumerate(out):
        if tag and tag[0] == "fault":
            info["line"] = i + 1
            info["col"] = None if info["needle"] is None or info["needle"] not in t else len(t[: t.index(info["needle"])].encode())
        elif tag:
            info["warn"].append([i + 1, tag[1]])
    info["src"] = "\n".join(t for t, _ in out) + "\n"
    return info
