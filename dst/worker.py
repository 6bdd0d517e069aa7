"""Zygote interpreter.  Imports the system under test once, then forks one child per run.
A run is a pure function of (scenario, code under test, flavour)."""
import gc, json, os, signal, sys, time, traceback

FLAVOUR = json.loads(os.environ.get("DST_FLAVOUR", "{}"))


def disable_aslr():
    """Re-exec once without address-space randomisation, so object addresses repeat."""
    if os.environ.get("DST_NOASLR"):
        return
    os.environ["DST_NOASLR"] = "1"
    try:
        import ctypes
        libc = ctypes.CDLL(None)
        if libc.personality(0x0040000) != -1:
            os.execv(sys.executable, [sys.executable, "-B", "-m", "dst.worker"])
    except Exception:
        pass


def child_main(req, wfd):
    from . import sim
    out = {}
    try:
        sim.setup_run(req["scenario"])
        mod = __import__("dst.checks." + req["check"].lower(), fromlist=["execute"])
        out = mod.execute(req["scenario"])
    except BaseException as e:
        out = {"harness_error": "".join(traceback.format_exception(e))[-6000:]}
    finally:
        sim.teardown_run()
    data = json.dumps(out, default=str).encode()
    off = 0
    while off < len(data):
        off += sim.REAL.os_write(wfd, data[off:off + 65536])


def main():
    disable_aslr()
    protocol_out = os.dup(1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    protocol_in = os.fdopen(os.dup(0), "rb")
    os.dup2(devnull, 0)
    sys.stdin = open(os.devnull)
    from . import sim
    sim.boot(FLAVOUR)
    os.write(protocol_out, b'{"ready": true}\n')
    while True:
        line = protocol_in.readline()
        if not line:
            return
        req = json.loads(line)
        gc.collect()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.close(protocol_out)
                os.setpgid(0, 0)
                child_main(req, w)
            except BaseException:
                code = 3
                try:
                    traceback.print_exc()
                except BaseException:
                    pass
            os._exit(code)
        os.close(w)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        buf = bytearray()
        import select
        end = time.monotonic() + req["timeout"]
        timed_out = False
        while True:
            left = end - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            rl, _, _ = select.select([r], [], [], left)
            if rl:
                chunk = os.read(r, 1 << 16)
                if not chunk:
                    break
                buf += chunk
        os.close(r)
        if timed_out:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        _, status = os.waitpid(pid, 0)
        try:
            os.killpg(pid, signal.SIGKILL)  # stragglers of the run
        except OSError:
            pass
        sim.remove_scratch(pid)
        if timed_out:
            res = b'{"timeout": true}'
        elif os.WIFSIGNALED(status):
            res = json.dumps({"died": os.WTERMSIG(status)}).encode()
        elif status != 0 or not buf:
            res = json.dumps({"harness_error": f"run process ended with status {status}"}).encode()
        else:
            res = bytes(buf)
        os.write(protocol_out, res + b"\n")


if __name__ == "__main__":
    main()
