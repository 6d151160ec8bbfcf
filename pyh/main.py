"""main.py <PROPERTY> | one <PROPERTY> <sub> <index> | replay <file>; VH_NATIVE names the native half of the library."""
import importlib.machinery, importlib.util, json, os, sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VH_PYSRC", "/repo/hugr-py/src")
sys.path.insert(0, SRC)

# The native half is built from /repo's working tree and takes the place of whatever lies beside the package.
loader = importlib.machinery.ExtensionFileLoader("hugr._hugr", os.environ["VH_NATIVE"])
spec = importlib.util.spec_from_file_location("hugr._hugr", os.environ["VH_NATIVE"], loader=loader)
native = importlib.util.module_from_spec(spec)
sys.modules["hugr._hugr"] = native
loader.exec_module(native)
import hugr  # noqa: E402

assert os.path.realpath(hugr.__file__).startswith(os.path.realpath(SRC)), hugr.__file__
hugr._hugr = native

import engine  # noqa: E402


def get(pid):
    return __import__(pid.lower()).prop()


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "replay":
        sys.exit(engine.replay(get(json.load(open(a[1]))["property"]), a[1]))
    if a[0] == "one":
        p = get(a[1])
        sub = next(s for s in p["subs"] if s["name"] == a[2])
        seed = int(os.environ.get("VERIF_SEED", "1"))
        c, f = engine.run_case(sub, engine.Tape(seed=engine.seed_of(seed, a[1], a[2], int(a[3]))))
        for s in c.notes:
            print("  " + s[:2000])
        print(f"{f.sig}: {f.msg}" if f else "the case passes")
        sys.exit(1 if f else 0)
    sys.exit(engine.main(get(a[0])))
