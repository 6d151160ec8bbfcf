"""The Rust library, asked through a child process."""
import json, os, subprocess

from engine import Fail

ROOT = os.environ["VERIF_DIR"]
BIN = os.environ.get("VH_BIN") or f"{ROOT}/harness/target/debug/vh"
_procs = {}


def ask(**req):
    p = _procs.get(os.getpid())
    if p is None:
        p = _procs[os.getpid()] = subprocess.Popen([BIN, "pyserve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    try:
        p.stdin.write(json.dumps(req) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
    except BrokenPipeError:
        line = ""
    except BaseException:
        p.kill()
        del _procs[os.getpid()]
        raise
    if not line:
        code = p.wait()
        del _procs[os.getpid()]
        raise Fail("rust died", f"the Rust side died with {code} on {str(req)[:300]}")
    r = json.loads(line)
    if "sig" in r:
        raise Fail(r["sig"], r["msg"])
    return r
