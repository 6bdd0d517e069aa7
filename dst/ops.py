"""Operations of a session, executed on the real API inside a run (worker side)."""
import io, json, os, sys
from . import sim
from .sim import call, config, param, digest, mask


def src_of(op):
    if "corpus" in op:
        from .gen import corpus
        return corpus()[op["corpus"]]["src"]
    return op["src"]


def op_compile(op):
    """Library path on in-memory source."""
    from opshin import builder, compiler
    cfg = config(op.get("cfg"), op.get("level"))
    src = src_of(op)

    def go():
        tree = compiler.parse(src, filename=op.get("filename", "<unknown>"))
        return builder.compile(tree, contract_filename=op.get("filename", "<unknown>"),
                               validator_function_name=op.get("vfn", "validator"), config=cfg)
    return call(go)


def op_build(op):
    """Library path on a file."""
    from opshin import builder
    cfg = config(op.get("cfg"), op.get("level"))

    def go():
        return builder.build(op["file"], *[param(a) for a in op.get("args", [])],
                             validator_function_name=op.get("vfn", "validator"), config=cfg)
    return call(go)


def op_buildsrc(op):
    """Writes the source to its own file, then builds it (covers reading and the compile cache)."""
    from opshin import builder
    src = src_of(op)
    with sim.REAL.open(op["file"], "w") as f:
        f.write(src)
    return op_build(op)


def op_load(op):
    from opshin import builder
    return call(lambda: builder.load(op["path"]))


def op_apply(op):
    from opshin import builder

    def go():
        c = builder.load(op["path"])
        return c.apply_parameter(*[param(a) for a in op.get("args", [])])
    return call(go)


def op_dump(op):
    """build + contract + dump; the outcome includes the bytes on disk."""
    from opshin import builder, PlutusContract
    cfg = config(op.get("cfg"), op.get("level"))

    def go():
        s = builder.build(op["file"], config=cfg)
        c = PlutusContract(s, **{k: op[k] for k in ("title", "version", "license", "description") if k in op})
        c.dump(op["dir"])
        return {k: v for k, v in sim.read_tree(op["dir"]).items()}
    return call(go)


def op_dumpc(op):
    """A contract with metadata, written to a directory."""
    from . import contracts
    c = op["spec"]

    def go():
        path = os.path.join(sim.RUN["w"], f"contract_{c['salt']}.py")
        with sim.REAL.open(path, "w", encoding="utf-8") as f:
            f.write(contracts.source(c))
        from opshin import builder
        contracts.realise(c, builder.build(path, config=config({}, c["level"]))).dump(op["dir"])
        return {k: v for k, v in sim.read_tree(op["dir"]).items()}
    return call(go)


def op_cli(op):
    """The command line entry point, in process."""
    import opshin.__main__ as m
    argv = ["opshin"] + op["argv"]
    old = (sys.argv, sys.stdout, sys.stderr, sys.getrecursionlimit())
    out, err = io.StringIO(), io.StringIO()
    from opshin.util import OPSHIN_LOG_HANDLER
    h = (OPSHIN_LOG_HANDLER.stream, OPSHIN_LOG_HANDLER.formatter, OPSHIN_LOG_HANDLER.level)
    sys.argv, sys.stdout, sys.stderr = argv, out, err
    OPSHIN_LOG_HANDLER.stream = err
    try:
        try:
            m.main()
            st = ["exit", 0]
        except SystemExit as e:
            st = ["exit", e.code if isinstance(e.code, int) else (0 if e.code is None else 1)]
        except sim.SimCrash:
            raise
        except BaseException as e:
            st = sim.err_digest(e)
    finally:
        sys.argv, sys.stdout, sys.stderr = old[:3]
        sys.setrecursionlimit(old[3])
        OPSHIN_LOG_HANDLER.stream, OPSHIN_LOG_HANDLER.formatter, OPSHIN_LOG_HANDLER.level = h
    files = {}
    if op.get("outdir") and os.path.isdir(op["outdir"]):
        files = {k: sim.sha(v) for k, v in sim.read_tree(op["outdir"]).items()}
    if "norm" in op:
        import re
        out = io.StringIO(re.sub(op["norm"], "#", out.getvalue()))
    return ["cli", st, mask(out.getvalue()), sim.sha(mask_full(out.getvalue()).encode()), mask(err.getvalue()), files]


def mask_full(s):
    for r in sim.RUN.get("mask", []) + [sim.RUN.get("root", "\0")]:
        s = s.replace(r, "<S>")
    return sim._addr.sub("0xADDR", s)


# ---- world operations (no outcome)

def op_write(op):
    p = op["path"]
    if os.path.dirname(p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
    with sim.REAL.open(p, "w") as f:
        f.write(op["content"])
    if "mtime" in op:
        os.utime(p, (op["mtime"], op["mtime"]))


def op_rm(op):
    import shutil
    p = op["path"]
    if os.path.isdir(p):
        shutil.rmtree(p)
    elif os.path.exists(p):
        os.unlink(p)


def op_mv(op):
    if os.path.exists(op["src"]):
        if os.path.exists(op["dst"]):
            op_rm({"path": op["dst"]})
        os.rename(op["src"], op["dst"])


def op_chdir(op):
    os.makedirs(os.path.join(sim.RUN["w"], op["dir"]), exist_ok=True)
    os.chdir(os.path.join(sim.RUN["w"], op["dir"]))


WORLD = {"write": op_write, "rm": op_rm, "mv": op_mv, "chdir": op_chdir}
API = {"compile": op_compile, "build": op_build, "buildsrc": op_buildsrc, "load": op_load, "apply": op_apply, "dump": op_dump, "dumpc": op_dumpc, "cli": op_cli}


def absolutize(op):
    """Paths in scenarios are relative to the world root unless marked keep-relative."""
    op = dict(op)
    for k in ("file", "path", "dir", "src", "dst", "outdir"):
        if k in op and isinstance(op[k], str) and not op.get("rel") and op["op"] != "chdir" and not (k == "src" and op["op"] in ("compile", "buildsrc")):
            op[k] = os.path.join(sim.RUN["w"], op[k])
    if "argv" in op:
        op["argv"] = [a.replace("@W", sim.RUN["w"]) for a in op["argv"]]
    return op


def fresh_exec(arg):
    """Runs in the fresh process: same call, same files, same working directory."""
    os.chdir(arg["cwd"])
    op = arg["op"]
    if arg.get("redirect"):
        sim.RUN.setdefault("mask", []).extend([arg["redirect"][0], arg["redirect"][1]])
        s = json.dumps(op).replace(arg["redirect"][0], arg["redirect"][1])
        op = json.loads(s)
    return API[op["op"]](op)
