"""C26: Python and Rust agree on every exchanged program."""
import difflib
import json

from engine import Fail, Skip, ensure
from hugr import tys
from hugr.build.dfg import Dfg
from hugr.envelope import EnvelopeConfig, EnvelopeFormat
from hugr.package import Package
from build import Prog
from hugr.ext import Extension
from hugr.std import _load_extension
from hugr.std.collections.array import Array
from rust import ask

STD = {e.name: e for e in map(_load_extension, ["prelude", "logic", "ptr", "arithmetic.int", "arithmetic.int.types", "arithmetic.float", "arithmetic.float.types", "arithmetic.conversions",
       "collections.list", "collections.array", "collections.borrow_arr", "collections.value_array", "collections.static_array"])}
FORMATS = {"json": EnvelopeFormat.JSON, "model": EnvelopeFormat.MODEL, "model-exts": EnvelopeFormat.MODEL_WITH_EXTS}


def drawn(c, fmt, model=False, size=30, copyable=False):
    got = {}

    def make(seed, tape):
        kw = {"seed": seed} if tape is None else {"tape": tape}
        got.update(ask(do="gen", format=fmt, model=model, size=size, copyable=copyable, zstd=got["zstd"], **kw))
        return got["tape"]

    got["zstd"] = c.t.chance(1, 4)
    got["out"] = c.t.below(3)
    c.t.foreign(make)
    c.note(got["show"])
    c.sample(got["show"])
    if got["nodes"] >= 8:
        c.nontrivial(got["key"])
    return bytes.fromhex(got["hex"]), got["out"]


def json_exchange(c):
    """A package written by Rust comes back from Python unchanged."""
    data, how = drawn(c, "json")
    p = Package.from_bytes(data)
    cfg = EnvelopeConfig(EnvelopeFormat.JSON, None if how else 0)
    back = p.to_bytes(cfg)
    ask(do="same", a=data.hex(), b=back.hex(), exts=True)
    # and through Python once more
    again = Package.from_bytes(back)
    ensure(again._to_serial() == p._to_serial(), "python reload", "the Python package differs after another round")


def model_exchange(c):
    """The same through the binary model format."""
    fmt = c.t.pick(["model", "model-exts"])
    data, how = drawn(c, fmt)
    p = Package.from_bytes(data)
    back = p.to_bytes(EnvelopeConfig(FORMATS[fmt], None if how else 0))
    ask(do="same", a=data.hex(), b=back.hex(), model=True, exts=fmt == "model-exts")


def cross_exchange(c):
    """Read from one format and written in the other."""
    fmt = c.t.pick(["json", "model", "model-exts"])
    data, how = drawn(c, fmt, model=True, copyable=fmt != "json")
    c.label(fmt)
    p = Package.from_bytes(data)
    back = p.to_bytes(EnvelopeConfig(FORMATS["model" if fmt == "json" else "json"], None if how else 0))
    ask(do="same", a=data.hex(), b=back.hex(), model=True)


def std(c):
    """The extensions that ship with Python are those of the Rust library."""
    names = sorted(STD)
    theirs = {e["name"]: e for e in ask(do="std")["extensions"]}
    name = names[c.t.below(len(names))]
    c.sample(name)
    c.nontrivial(name)
    ensure(name in theirs, "std unknown", name)
    ours = json.loads(STD[name].to_json())
    want = json.loads(Extension.from_json(json.dumps(theirs[name])).to_json())
    ensure(ours == want, "std differs", name + "\n" + "\n".join(difflib.unified_diff(json.dumps(want, indent=1).split("\n"), json.dumps(ours, indent=1).split("\n"), n=0, lineterm="")))
    # nothing of the definition is lost on the way through Python
    lost = [f"{o}" for o in theirs[name]["operations"] if o not in ours["operations"]] + [t for t in theirs[name]["types"] if t not in ours["types"]]
    ensure(not lost and ours["version"] == theirs[name]["version"], "std lost", str(lost))
    for o, d in theirs[name]["operations"].items():
        sig = d.get("signature")
        if sig is not None:
            ensure(canon_sig(ours["operations"][o]["signature"]) == canon_sig(sig), "std signature", f"{o}: {sig} became {ours['operations'][o]['signature']}")


def canon_sig(x):
    """Without fields that hold their default."""
    if isinstance(x, dict):
        return {k: canon_sig(v) for k, v in x.items() if v is not None and (k, v) != ("t", "G")}
    return [canon_sig(v) for v in x] if isinstance(x, list) else x


def dump(p):
    return json.dumps(json.loads(p._to_serial().model_dump_json()), indent=1).split("\n")


def built(c):
    """A program made with the Python builders."""
    g = Prog(c)
    h = g.hugr()
    c.note("\n".join(f"{n.idx} {d.op} in {d.parent}" for n, d in h.nodes()))
    p = Package([h])
    n = len(list(h.nodes()))
    data = p.to_bytes(EnvelopeConfig(EnvelopeFormat.JSON, None if c.t.flag() else 0))
    r = ask(do="valid", a=data.hex())
    c.sample(r["show"])
    if n >= 10:
        c.nontrivial(hash(r["show"]))
    ensure(r["nodes"] == n, "node count", f"{n} nodes in Python and {r['nodes']} in Rust")
    again = Package.from_bytes(data)
    ensure(dump(again) == dump(p), "python reload", "the program differs after a Python round trip\n" + "\n".join(difflib.unified_diff(dump(p), dump(again), n=0, lineterm="")))
    # through Rust and back
    back = bytes.fromhex(ask(do="convert", a=data.hex(), format="json")["hex"])
    ask(do="same", a=data.hex(), b=Package.from_bytes(back).to_bytes(EnvelopeConfig(EnvelopeFormat.JSON)).hex())
    if not g.fn_consts:
        m = p.to_bytes(EnvelopeConfig(EnvelopeFormat.MODEL))
        ask(do="same", a=data.hex(), b=m.hex(), model=True)
        c.label("model")
        j = Package.from_bytes(m).to_bytes(EnvelopeConfig(EnvelopeFormat.JSON))
        ask(do="same", a=data.hex(), b=j.hex(), model=True)


def model_bound():
    """The model format does not record the bounds of types, and the Python loader takes custom types for copyable."""
    d = Dfg(Array(tys.Qubit, 2))
    d.set_outputs(*d.inputs())
    p = Package.from_bytes(Package([d.hugr]).to_bytes(EnvelopeConfig(EnvelopeFormat.MODEL)))
    try:
        ask(do="valid", a=p.to_bytes(EnvelopeConfig(EnvelopeFormat.JSON)).hex())
    except Fail:
        return True
    return False


def prop():
    return {
        "id": "C26",
        "rule": "random packages generated in Rust (1-30 steps, several modules and packaged extensions) sent to Python and back in JSON, in the model formats and across them, compared with the original by the Rust library; random programs written with the Python builders (nested, inserted and tracked regions, conditionals, loops, control-flow graphs, calls, constants, order edges, every kind of root) validated and compared across formats by the Rust library; the shipped extensions of both sides; non-trivial: at least 8 (Rust) or 10 (Python) nodes, counted by distinct program",
        "assumptions": ["constants of unknown extension types are objects, as the JSON schema says", "programs that go through the model format use its representable part (no function constants, no aliases)", "programs that Python loads from the model format and writes as JSON use only copyable custom types (see the finding)", "constants at module level are not used in separately built regions, whose insertion takes only the descendants of the entrypoint"],
        "subs": [
            {"name": "json", "quick": 800, "thorough": 50000, "f": json_exchange},
            {"name": "model", "quick": 800, "thorough": 50000, "f": model_exchange},
            {"name": "cross", "quick": 500, "thorough": 40000, "f": cross_exchange},
            {"name": "std", "quick": 150, "thorough": 300, "f": std},
            {"name": "built", "quick": 1000, "thorough": 50000, "f": built},
        ],
        "findings": {"model-type-bound": model_bound},
    }
