"""Seam for unordered collections and object addresses in the compile-time modules of opshin.

An import hook rewrites set displays, set comprehensions and the names set/frozenset/id/hash in every
opshin module to simulated versions.  Iteration order of a set whose elements hash differently from
process to process (strings, bytes, objects, addresses) is drawn from the run's generator; sets of
small integers, booleans and None keep their natural order, which the language fixes."""
import ast, builtins, importlib.machinery, os, random, sys

STATE = {"rng": None, "salt": 0, "draws": 0, "sets": 0}


def seed(n):
    STATE["rng"] = random.Random(f"simset{n}") if n is not None else None
    STATE["draws"] = 0


def _fixed(x):
    if x is None or isinstance(x, bool):
        return True
    if isinstance(x, int):
        return -(2 ** 31) < x < 2 ** 31
    if type(x) is tuple:
        return all(_fixed(y) for y in x)
    return isinstance(x, float)


def _order(natural):
    items = list(natural)
    r = STATE["rng"]
    if r is None or len(items) < 2 or all(_fixed(x) for x in items):
        return items
    STATE["draws"] += 1
    r.shuffle(items)
    return items


class _MetaS(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.set)


class _MetaF(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.frozenset)


def _mk(base, meta, name):
    def wrap(opname):
        f = getattr(base, opname)

        def g(self, *a):
            r = f(self, *a)
            return cls(r) if type(r) is base else r
        g.__name__ = opname
        return g

    def it(self):
        return iter(_order(base.__iter__(self)))

    ns = {"__iter__": it, "__hash__": base.__hash__, "__module__": "builtins"}
    for op in ("__or__", "__and__", "__sub__", "__xor__", "__ror__", "__rand__", "__rsub__", "__rxor__", "union", "intersection",
               "difference", "symmetric_difference", "copy"):
        ns[op] = wrap(op)
    if base is builtins.set:
        def pop(self):
            if not self:
                raise KeyError("pop from an empty set")
            x = _order(builtins.set.__iter__(self))[0]
            self.remove(x)
            return x
        ns["pop"] = pop
    ns["__reduce__"] = lambda self: (base, (list(base.__iter__(self)),))

    def rep(self):
        items = list(self)
        body = "{" + ", ".join(map(repr, items)) + "}" if items else None
        if base is builtins.frozenset:
            return f"frozenset({body or ''})"
        return body or "set()"
    ns["__repr__"] = rep
    cls = meta(name, (base,), ns)
    return cls


SimSet = _mk(builtins.set, _MetaS, "set")
SimFrozenSet = _mk(builtins.frozenset, _MetaF, "frozenset")


def sim_id(x):
    return builtins.id(x) ^ STATE["salt"]


def sim_hash(x):
    h = builtins.hash(x)
    return h if _fixed(x) else h ^ STATE["salt"]


class Rewrite(ast.NodeTransformer):
    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name("__simset__", ast.Load()), node),
                                          [ast.copy_location(ast.List(node.elts, ast.Load()), node)], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name("__simset__", ast.Load()), node),
                                          [ast.copy_location(ast.ListComp(node.elt, node.generators), node)], []), node)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = ast.fix_missing_locations(Rewrite().visit(ast.parse(src, path)))
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        STATE["sets"] += 1
        d = module.__dict__
        d["set"], d["frozenset"], d["__simset__"], d["id"], d["hash"] = SimSet, SimFrozenSet, SimSet, sim_id, sim_hash
        super().exec_module(module)


SKIP = ("opshin.prelude", "opshin.ledger", "opshin.std")


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "opshin" and not name.startswith("opshin.") or name.startswith(SKIP):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return None
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(n):
    # one salt per process: ids and hashes stay the same while the process lives
    STATE["salt"] = random.Random(f"salt{n}").getrandbits(36) << 4
    sys.meta_path.insert(0, Finder)


def uninstall_finder():
    if Finder in sys.meta_path:
        sys.meta_path.remove(Finder)
