"""Seeded random search with shrinking, for the properties of the Python library.

A case is a function of a tape of choices; a failing tape is shrunk and becomes the replay file.
"""
import hashlib, json, multiprocessing, os, random, re, signal, sys, time, traceback

ROOT = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Fail(Exception):
    def __init__(self, sig, msg):
        super().__init__(f"{sig}: {msg}")
        self.sig, self.msg = sig, msg


class Skip(Exception):
    """The drawn case is outside the property."""


class Hang(Exception):
    pass


def ensure(cond, sig, msg=""):
    if not cond:
        raise Fail(sig, msg() if callable(msg) else msg)


class Tape:
    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay, self.out = replay, []

    def below(self, n):
        assert n >= 1
        if self.replay is None:
            v = self.rng.randrange(n)
        else:
            i = len(self.out)
            v = self.replay[i] % n if i < len(self.replay) else 0
        self.out.append(v)
        return v

    def range(self, a, b):
        return a + self.below(b - a + 1)

    def chance(self, a, b):
        """True a times in b; 0 on the tape is False."""
        return self.below(b) >= b - a

    def flag(self):
        return self.below(2) == 1

    def foreign(self, make):
        """Hands the rest of the tape to another generator: make(seed or None, choices or None) -> choices."""
        if self.replay is None:
            out = make(self.rng.getrandbits(63), None)
        else:
            out = make(None, self.replay[len(self.out):])
        self.out += out

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def weighted(self, ws):
        k = self.below(sum(ws))
        for i, w in enumerate(ws):
            if k < w:
                return i
            k -= w


class Ctx:
    def __init__(self, tape):
        self.t = tape
        self.notes, self.labels = [], set()
        self.text, self.size = None, 0

    def note(self, s):
        self.notes.append(s)

    def label(self, s):
        self.labels.add(s)

    def sample(self, s):
        self.text = s

    def nontrivial(self, key):
        self.size = hashlib.sha1(str(key).encode()).hexdigest()[:16]


def seed_of(seed, pid, sub, idx):
    return int.from_bytes(hashlib.sha256(f"{seed}/{pid}/{sub}/{idx}".encode()).digest()[:8], "big")


def _where(e):
    """The place inside the library where an exception was raised."""
    frames = traceback.extract_tb(e.__traceback__)
    for f in reversed(frames):
        if "/hugr/" in f.filename and "/pyh/" not in f.filename:
            return f"{os.path.basename(f.filename)}:{f.name}"
    return "harness"


def run_case(sub, tape, limit=20):
    """Returns (ctx, failure or None)."""
    c = Ctx(tape)

    def alarm(*_):
        raise Hang()

    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        sub["f"](c)
        return c, None
    except Skip:
        c.label("skipped")
        return c, None
    except Fail as e:
        return c, e
    except Hang:
        return c, Fail("hang", f"the case does not end within {limit} s")
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # PanicException of native code is a BaseException
        where = _where(e)
        return c, Fail(f"crash:{type(e).__name__}:{where}", "".join(traceback.format_exception(e))[-1500:])
    finally:
        signal.alarm(0)


def shrink(sub, tape, sig, budget=60.0):
    end = time.time() + budget
    best = list(tape)

    def bad(t):
        c, f = run_case(sub, Tape(replay=t), 10)
        if f is not None and f.sig == sig:
            return c.t.out[: len(c.t.out)]
        return None

    improved = True
    while improved and time.time() < end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                t = best[:i] + best[i + size :]
                r = bad(t)
                if r is not None and len(r) < len(best):
                    best, improved = r, True
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            if time.time() > end or i >= len(best):
                break
            for v in (0, best[i] // 2, best[i] - 1):
                if 0 <= v < best[i]:
                    t = best[:i] + [v] + best[i + 1 :]
                    r = bad(t)
                    if r is not None and (len(r), r) < (len(best), best):
                        best, improved = r, True
                        break
    return best


def _worker(prop, jobs, seed, wid, n, end, out):
    subs = {s["name"]: s for s in prop["subs"]}
    with open(out, "w", buffering=1) as o:
        for name, count in jobs:
            for i in range(wid, count, n):
                if time.time() > end:
                    o.write(json.dumps({"cap": name}) + "\n")
                    break
                o.write(json.dumps({"start": [name, i]}) + "\n")
                t = Tape(seed=seed_of(seed, prop["id"], name, i))
                c, f = run_case(subs[name], t)
                r = {"sub": name, "i": i, "labels": sorted(c.labels), "size": c.size}
                if i < 3 and c.text:
                    r["text"] = c.text[:600]
                if f is not None:
                    r["sig"], r["msg"], r["tape"] = f.sig, f.msg[:1500], t.out
                o.write(json.dumps(r) + "\n")
        o.write(json.dumps({"done": wid}) + "\n")


def main(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only, scale = os.environ.get("VH_SUB"), float(os.environ.get("VH_SCALE", "1"))
    t0 = time.time()
    cap = float(os.environ.get("VH_CAP", "700" if thorough else "90"))
    jobs = [(s["name"], max(1, int(s["thorough" if thorough else "quick"] * scale))) for s in prop["subs"] if only in (None, s["name"])]
    n = int(os.environ.get("VH_THREADS", "8"))
    tmp = os.path.join(ROOT, "target", f"py-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    mp = multiprocessing.get_context("fork")
    ps = []
    for w in range(n):
        p = mp.Process(target=_worker, args=(prop, jobs, seed, w, n, t0 + cap, f"{tmp}/{w}"))
        p.start()
        ps.append(p)
    for p in ps:
        p.join()
    rows, capped, failures = [], set(), []
    for w, p in enumerate(ps):
        last, done = None, False
        for line in open(f"{tmp}/{w}"):
            r = json.loads(line)
            if "start" in r:
                last = r["start"]
            elif "cap" in r:
                capped.add(r["cap"])
            elif "done" in r:
                done = True
            else:
                rows.append(r)
                if "sig" in r:
                    failures.append(r)
        if not done:
            name, i = last or (jobs[0][0], 0)
            failures.append({"sub": name, "i": i, "sig": f"died:{p.exitcode}", "msg": f"the process running case {i} of {name} died (exit {p.exitcode})", "tape": None})
        os.remove(f"{tmp}/{w}")
    os.rmdir(tmp)
    known = [k for k in json.load(open(f"{ROOT}/known_findings.json"))["findings"] if k["property"] == prop["id"]]
    hits = {k["id"]: 0 for k in known}
    new = []
    for f in failures:
        k = next((k for k in known if k["signature"] == f["sig"]), None)
        if k:
            hits[k["id"]] += 1
        else:
            new.append(f)
    if os.environ.get("VH_SURVEY"):
        kinds = {}
        for f in new:
            kinds.setdefault(f["sig"], []).append(f)
        for sig, fs in sorted(kinds.items(), key=lambda kv: -len(kv[1])):
            print(len(fs), sig, fs[0]["sub"], fs[0]["i"], "|", re.sub(r"\s+", " ", fs[0]["msg"] if "Traceback" not in fs[0]["msg"] else fs[0]["msg"][-300:])[:900])
    seen = []
    for k in known:
        if prop.get("findings", {}).get(k["id"], lambda: False)():
            print(f"KNOWN-FINDING: property={prop['id']} {k['what']} [{k['id']}; {hits[k['id']]} generated cases hit it]")
            seen.append(k["id"])
    code = 0
    if new:
        f = min(new, key=lambda f: (f["sub"], f["i"]))
        sub = next(s for s in prop["subs"] if s["name"] == f["sub"])
        tape, msg = f["tape"], f["msg"]
        if tape is not None and not os.environ.get("VH_SURVEY"):
            tape = shrink(sub, tape, f["sig"])
            c, g = run_case(sub, Tape(replay=tape))
            msg = g.msg if g else msg
            for s in c.notes[-60:]:
                print("  " + s[:400])
        os.makedirs(f"{ROOT}/replays", exist_ok=True)
        path = f"{ROOT}/replays/{prop['id']}-{f['sub']}.json"
        json.dump({"property": prop["id"], "sub": f["sub"], "index": f["i"], "seed": seed, "tier": tier, "signature": f["sig"], "message": msg[:1500], "tape": tape}, open(path, "w"))
        print(f"[{f['sub']} case {f['i']}] {f['sig']}: {msg[:1500]}")
        print(f"VIOLATION property={prop['id']} replay={path}")
        code = 1
    sub_cov, samples, distinct = {}, [], set()
    for name, _ in jobs:
        rs = [r for r in rows if r["sub"] == name]
        labels = {}
        for r in rs:
            for l in r["labels"]:
                labels[l] = labels.get(l, 0) + 1
        keys = {r["size"] for r in rs if r["size"]}
        distinct |= {(name, k) for k in keys}
        sub_cov[name] = {"evaluations": len(rs), "nontrivial": sum(1 for r in rs if r["size"]), "distinct_nontrivial": len(keys), "labels": labels, "stopped_by_time_cap": name in capped}
        samples += [{"sub": name, "index": r["i"], "case": r["text"]} for r in sorted(rs, key=lambda r: r["i"]) if "text" in r][:2]
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    json.dump(
        {
            "property": prop["id"], "tier": tier, "seed": seed, "level": "exploration", "violations": len(new),
            "assumptions": prop["assumptions"], "wall_s": time.time() - t0,
            "coverage": {"evaluations": len(rows), "distinct_nontrivial": len(distinct), "rule": prop["rule"], "samples": samples, "sub_checks": sub_cov, "known_findings_seen": seen},
        },
        open(f"{ROOT}/evidence/{prop['id']}.json", "w"), indent=1)
    print(f"{prop['id']}: {len(rows)} cases, {len(distinct)} distinct non-trivial, {len(new)} violations, {time.time() - t0:.1f} s")
    return code


def replay(prop, path):
    r = json.load(open(path))
    sub = next(s for s in prop["subs"] if s["name"] == r["sub"])
    t = Tape(replay=r["tape"]) if r["tape"] is not None else Tape(seed=seed_of(r["seed"], prop["id"], r["sub"], r["index"]))
    c, f = run_case(sub, t)
    for s in c.notes:
        print("  " + s[:2000])
    print(f"{f.sig}: {f.msg}" if f else "the case passes")
    return 1 if f else 0
