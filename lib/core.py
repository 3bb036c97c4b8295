"""Shared machinery of the checks: building the harness, running TLC, replaying, reporting."""
import hashlib, json, os, random, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
READERS = ["asf", "cfb", "ebml", "exe", "id3v2", "mp4", "pdf", "rm", "sqlite3", "txt", "xml", "zip"]
ALL = tuple(READERS)
NONE = ()
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    """Something other than the code under test went wrong: the check gives no answer."""


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def tree_hash():
    """Hash of the sources a build depends on."""
    h = hashlib.sha256()
    roots = [(REPO, ["src", "examples"], ["Cargo.toml"]), (os.path.join(VERIF, "harness"), ["src"], ["Cargo.toml"])]
    for root, dirs, files in roots:
        paths = [os.path.join(root, f) for f in files]
        for d in dirs:
            for base, _, names in os.walk(os.path.join(root, d)):
                paths += [os.path.join(base, n) for n in names]
        for p in sorted(paths):
            if os.path.isfile(p):
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()[:16]


_hash = None


def build_dir():
    global _hash
    if _hash is None:
        _hash = tree_hash()
        os.makedirs(BUILD, exist_ok=True)
        # Keep the builds of the two most recent other trees at most.
        old = sorted((d for d in os.listdir(BUILD) if d.startswith("t-") and d != "t-" + _hash),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-2]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    p = os.path.join(BUILD, "t-" + _hash)
    os.makedirs(p, exist_ok=True)
    return p


def cargo(args, cwd, target, extra=None):
    r = subprocess.run(["cargo"] + args + ["--offline", "--target-dir", target], cwd=cwd, env=dict(env(), **(extra or {})),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("cargo " + " ".join(args) + " failed:\n" + r.stdout[-4000:])
    return r.stdout


_locks = {}
_locks_lock = threading.Lock()


def harness(features=ALL, release=False, catalog=None):
    """Builds the harness with the given reader features; returns the binary."""
    with _locks_lock:
        lock = _locks.setdefault((tuple(features), release, catalog), threading.Lock())
    with lock:
        return _harness(features, release, catalog)


def ahead(*features):
    """Starts building harnesses in the background."""
    for f in features:
        threading.Thread(target=lambda f=f: _quiet(f), daemon=True).start()


def _quiet(f):
    try:
        harness(f)
    except Exception:
        pass    # reported by the caller that needs it


def _harness(features, release, catalog):
    feats = [f if f == "group" else "reader-" + f for f in features] + (["catalog"] if catalog else [])
    key = hashlib.sha256((",".join(sorted(feats)) + str(release)).encode()).hexdigest()[:10]
    out = os.path.join(build_dir(), "conform-" + key)
    if os.path.exists(out):
        return out
    target = os.path.join(build_dir(), "target-" + key)
    args = ["build"] + (["--release"] if release else []) + ["--features", ",".join(feats)]
    cargo(args, os.path.join(VERIF, "harness"), target, {"CONFORM_CATALOG": catalog} if catalog else {})
    tmp = out + f".{os.getpid()}"
    shutil.copy2(os.path.join(target, "release" if release else "debug", "conform"), tmp)
    os.replace(tmp, out)
    shutil.rmtree(target, ignore_errors=True)
    return out


def harnesses(sets, **kw):
    with ThreadPoolExecutor(max(1, CPUS // 2)) as ex:
        return list(ex.map(lambda f: harness(f, **kw), sets))


# ---------------------------------------------------------------- TLC

class Tlc:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.runs = []


def run_tlc(module, cfg, stat, extra_env=None, workers=None, heap="6g", timeout=3000):
    """Runs TLC; yields the JSON values that the model prints."""
    work = os.path.join(BUILD, f"tlc-{os.getpid()}-{threading.get_ident()}-{time.time_ns()}")
    os.makedirs(work)
    try:
        conf = os.path.join(work, module + ".cfg")
        open(conf, "w").write(cfg)
        e = env()
        e.update(extra_env or {})
        t0 = time.time()
        p = subprocess.Popen(
            ["java", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JAR, "tlc2.TLC", "-metadir",
             os.path.join(work, "states"), "-workers", str(workers or CPUS), "-noGenerateSpecTE",
             "-config", conf, module + ".tla"],
            cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            encoding="utf-8", errors="replace")
        timer = threading.Timer(timeout, p.kill)
        timer.start()
        log = []
        out = []
        for line in p.stdout:
            if line.startswith('"{'):
                out.append(json.loads(json.loads(line)))
            else:
                log.append(line)
        p.wait()
        timer.cancel()
        text = "".join(log)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", text)
        if p.returncode != 0 or not m or "No error has been found" not in text:
            keep = [l for l in log if not re.match(r"(Parsing|Semantic|Linting|Computed)", l)]
            raise ToolError(f"TLC on {module}: status {p.returncode}\n" + "".join(keep)[-6000:])
        stat.states += int(m.group(2))
        stat.transitions += int(m.group(1))
        stat.runs.append({"module": module, "distinct_states": int(m.group(2)),
                          "generated": int(m.group(1)), "s": round(time.time() - t0, 1)})
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)


def suite(kinds, tier, seed, stat, **kw):
    """The cases of the given kinds, from the Suite model."""
    cfg = "\n".join([
        "INIT SuiteInit", "NEXT SuiteNext", "VIEW View", "CONSTANTS",
        "  Kinds = {" + ", ".join(f'"{k}"' for k in kinds) + "}",
        f'  Tier = "{tier}"', f"  Seed = {seed % 9973}",
        "  Enc <- SuiteEnc", "  Meaning <- SuiteMeaning", "  Extra <- SuiteExtra", "  SigMeaning <- SuiteSigMeaning",
        "INVARIANTS TypeOK BoundedSteps InFamily FeatureLocality EmptyMeansEmpty FindsMeaning ShowsSignature",
        "CHECK_DEADLOCK FALSE", ""])
    cases = run_tlc("Suite", cfg, stat, **kw)
    if not cases:
        raise ToolError(f"no cases of kinds {kinds}")
    seen = {c["c"]["k"] for c in cases}
    missing = set(kinds) - seen
    if missing:
        raise ToolError(f"kinds without cases: {missing}")
    cases.sort(key=lambda c: json.dumps(c["c"], sort_keys=True))
    return [y for c in cases for y in ([c] + stretch(c) if c["x"] else [c])]


def stretch(c):
    """The variants of a case with the gaps enlarged, and the fields that count their bytes (FamStretch)."""
    out = []
    for e, d in sorted(c["x"]["sizes"]):
        gaps = sorted(c["x"]["gaps"], key=lambda o: o["at"])
        g = (1 << e) + d if e else most(c, gaps)
        segs = [[at, bytearray((bytes(b) * (n // len(b) + 1))[:n]) if n < 4000 or n == len(b) else None, n, bytes(b)] for at, n, b in c["s"]]
        for o in gaps:
            for p, w, how, unit in o["f"]:
                s = next(s for s in segs if s[0] <= p and p + w <= s[0] + s[2])
                add_to(s[1], p - s[0], w, how, g // unit)
        new = []
        for at, b, n, per in segs:
            # a segment is cut where gaps lie within it
            cuts = [0] + sorted({o["at"] - at for o in gaps if at < o["at"] < at + n}) + [n]
            for lo, hi in zip(cuts, cuts[1:]):
                shift = sum(g for o in gaps if o["at"] <= at + lo)
                part = bytes(b[lo:hi]) if b is not None else per[lo % len(per):] + per[:lo % len(per)]
                new.append([at + lo + shift, hi - lo, list(part)])
        out.append(dict(c, c=dict(c["c"], gap=f"2^{e}{d:+}" if e else "most"), len=c["len"] + g * len(gaps), s=new, x=[]))
    return out


def most(c, gaps):
    """The greatest number of bytes that all fields of the gaps can count, and that leaves positions below 2^62."""
    fields = [(p, w, how, unit) for o in gaps for p, w, how, unit in o["f"]]
    g = (1 << 62) // len(gaps)
    for p, w, how, unit in fields:
        at, n, b = next(s for s in c["s"] if s[0] <= p and p + w <= s[0] + s[1])
        b = [b[(p - at + i) % len(b)] for i in range(w)]
        if how == "syn":
            room = (1 << 28) - 1 - sum((b[i] & 127) << 7 * (3 - i) for i in range(4))
        elif how == "vint":
            room = (1 << 7 * w) - 2 - (int.from_bytes(bytes(b), "big") & ((1 << 7 * w) - 1))
        else:
            room = (1 << 8 * w) - 1 - int.from_bytes(bytes(b), {"le": "little", "be": "big"}[how])
        g = min(g, room // sum(f[0] == p for f in fields) * unit)
    unit = max([1] + [f[3] for f in fields])
    return g // unit * unit


def add_to(b, p, w, how, v):
    """Adds v to the number of w bytes at b[p:]."""
    if how == "syn":
        old = sum((b[p + i] & 127) << 7 * (3 - i) for i in range(4)) + v
        assert old < 1 << 28
        b[p:p + 4] = bytes((old >> 7 * (3 - i)) & 127 for i in range(4))
    elif how == "vint":
        mark = 1 << 7 * w
        old = (int.from_bytes(b[p:p + w], "big") & (mark - 1)) + v
        assert old < mark - 1
        b[p:p + w] = (old | mark).to_bytes(w, "big")
    else:
        order = {"le": "little", "be": "big"}[how]
        b[p:p + w] = (int.from_bytes(b[p:p + w], order) + v).to_bytes(w, order)


# ---------------------------------------------------------------- replay

def segs_text(s):
    return ",".join(f"{at}:{n}:{bytes(b).hex()}" for at, n, b in s)


def case_line(i, c):
    e = c["e"]
    cols = [str(i), c["r"], e[0], e[1], e[2], e[3], c["t"], str(c["len"]), segs_text(c["s"])]
    if c.get("plans"):
        cols.append(" ".join(c["plans"]))
    return "\t".join(cols)


class Replay:
    """Outcome of a replay."""

    def __init__(self):
        self.cases = self.runs = 0
        self.mismatches = []      # (case index, view, got, want)
        self.records = []         # (case index, view, got)
        self.groups = []          # (case index, class, count, position, got, [changes])
        self.counters = []        # (case index, calls, bytes, heap, got)
        self.observed = {}        # (struck, want, generic, out) -> [count, case index, plan, got]
        self.heap = (0, None)
        self.calls = (0, None)
        self.bytes = (0, None)


def _shard(binary, lines, args, rep, lock):
    """Runs one worker on its lines; restarts it behind a case that kills it."""
    todo = lines
    deaths = 0
    while todo:
        p = subprocess.Popen([binary, "run"] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env(), text=True, errors="replace")

        def feed(p=p, data=todo):
            try:
                for l in data:
                    p.stdin.write(l + "\n")
                p.stdin.close()
            except (BrokenPipeError, ValueError):
                pass

        def drain(p=p, sink=(sink := [])):
            for l in p.stderr:
                sink.append(l)
                del sink[:-20]

        th = threading.Thread(target=feed, daemon=True)
        th.start()
        te = threading.Thread(target=drain, daemon=True)
        te.start()
        last, ended = None, False
        for line in p.stdout:
            c = line.rstrip("\n").split("\t")
            if c[0] == "S":
                last = int(c[1])
            elif c[0] == "M":
                with lock:
                    rep.mismatches.append((int(c[1]), c[2], c[3], c[4]))
            elif c[0] == "R":
                with lock:
                    rep.records.append((int(c[1]), c[2], c[3]))
            elif c[0] == "C":
                n = [int(x) for x in c[2].split()]
                with lock:
                    rep.counters.append((int(c[1]), n[0], n[1], n[2], c[3]))
            elif c[0] == "N":
                with lock:
                    rep.groups.append((int(c[1]), c[2], int(c[3]), int(c[4]), c[5], c[6].split(" ")))
            elif c[0] == "F":
                with lock:
                    o = rep.observed.setdefault(tuple(c[1:5]), [0, int(c[6]), c[7], c[8]])
                    o[0] += int(c[5])
            elif c[0] == "STAT":
                ended = True
                with lock:
                    rep.cases += int(c[1])
                    rep.runs += int(c[2])
                    if int(c[4]) > rep.heap[0]:
                        rep.heap = (int(c[4]), c[5])
                    if int(c[6]) > rep.calls[0]:
                        rep.calls = (int(c[6]), c[7])
                    if int(c[8]) > rep.bytes[0]:
                        rep.bytes = (int(c[8]), c[9])
        p.wait()
        te.join(2)
        if ended and p.returncode == 0:
            return
        if last is None:
            raise ToolError(f"harness failed to start: status {p.returncode}")
        where = " ".join(sink).strip()[-300:]
        why = f"HANG {where}".strip() if p.returncode == 97 else f"DIED(status {p.returncode})"
        with lock:
            rep.mismatches.append((last, "process", why, "a result"))
            rep.cases += 1
        deaths += 1
        k = next(i for i, l in enumerate(todo) if int(l.split("\t", 1)[0]) == last)
        todo = todo[k + 1:]
        if deaths >= 5:
            return


def replay(binary, cases, args=(), shards=None, ids=None, watchdog=30):
    """Replays cases (with case indices ids) on the binary."""
    ids = list(range(len(cases))) if ids is None else ids
    lines = [case_line(i, c) for i, c in zip(ids, cases)]
    return replay_lines(binary, lines, args, shards, watchdog)


def replay_lines(binary, lines, args=(), shards=None, watchdog=30):
    rep = Replay()
    lock = threading.Lock()
    n = max(1, min(shards or CPUS, len(lines)))
    args = list(args) + ["--watchdog", str(watchdog)]
    with ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(_shard, binary, lines[k::n], args, rep, lock) for k in range(n)]
        for f in fs:
            f.result()
    rep.mismatches.sort()
    rep.records.sort()
    rep.counters.sort()
    rep.groups.sort()
    return rep


# ---------------------------------------------------------------- trace validation

def validate(recorded, features, stat, **kw):
    """Validates recorded detections [(id, segs, len, got)] against Trace; returns the rejections."""
    if not recorded:
        return []
    path = os.path.join(BUILD, f"rec-{os.getpid()}-{time.time_ns()}.ndjson")
    with open(path, "w") as f:
        for i, s, n, got in recorded:
            f.write(json.dumps({"id": i, "f": list(features), "got": got, "len": n, "s": s}) + "\n")
    try:
        cfg = "INIT TInit\nNEXT TNext\nVIEW TView\nCHECK_DEADLOCK FALSE\n"
        out = run_tlc("Trace", cfg, stat, {"RECORDING": path}, **kw)
    finally:
        os.remove(path)
    return out


def rle(b):
    """Segments of a byte string; runs of one byte are kept short."""
    out, i, start = [], 0, 0
    for m in re.finditer(rb"(.)\1{47,}", b, re.S):
        if m.start() > start:
            out.append([start, m.start() - start, list(b[start:m.start()])])
        out.append([m.start(), m.end() - m.start(), [b[m.start()]]])
        start = m.end()
    if start < len(b):
        out.append([start, len(b) - start, list(b[start:])])
    return out


def unsegs(c):
    """The bytes of a case's stream."""
    b = bytearray(c["len"])
    for at, n, p in c["s"]:
        p = bytes(p)
        b[at:at + n] = (p * (n // len(p) + 1))[:n]
    return bytes(b)


EDGE = [0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255]


def mutate(rng, b, others):
    """A variant of the byte string b."""
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        n = len(b)
        # positions near the start are more interesting
        at = rng.randrange(n + 1) if rng.random() < 0.5 else rng.randrange(min(n, 200) + 1)
        op = rng.randrange(9)
        if op <= 3 and at < n:
            w = rng.choice([1, 1, 1, 2, 4, 8])
            v = rng.choice([bytes([rng.choice(EDGE)] * w), rng.randbytes(w), rng.choice(EDGE).to_bytes(w, "big"),
                            rng.choice(EDGE).to_bytes(w, "little")])
            b[at:at + w] = v[:max(0, n - at)]
        elif op == 4:
            del b[at:]
        elif op == 5:
            del b[at:at + rng.choice([1, 2, 4, 8, 16, 100])]
        elif op == 6:
            b[at:at] = rng.choice([bytes(rng.choice([1, 2, 4, 8, 64])), rng.randbytes(4)])
        elif op == 7 and n:
            k = rng.choice([4, 8, 16, 32, 64, 100])
            src = rng.randrange(n)
            b[at:at] = b[src:src + k]
        else:
            o = rng.choice(others)
            src = rng.randrange(len(o) + 1)
            b[at:] = o[src:src + 3000]
    return bytes(b)


def changed(b, change):
    """The byte string with bytes at a position replaced ("position:number:hex")."""
    p, n, x = change.split(":")
    return b[:int(p)] + bytes.fromhex(x) + b[int(p) + int(n):]


def fixtures(*prefixes):
    """The fixture files of the repository that start with one of the prefixes."""
    out = []
    root = os.path.join(REPO, "fixtures")
    for base, _, names in sorted(os.walk(root)):
        for n in sorted(names):
            b = open(os.path.join(base, n), "rb").read()
            if len(b) <= 16384 and any(b[o:o + len(p)] == p for o, p in prefixes):
                out.append(b)
    return out


# ---------------------------------------------------------------- reporting

class Check:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.stat = Tlc()
        self.violations = []
        self.replayed = 0
        self.validated = 0
        self.notes = {}
        self.samples = []
        self.assumptions = []
        self.known = known_findings(pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def violate(self, what, data):
        """A difference between the code and the specification."""
        for k in self.known:
            if k["id"] == data.get("finding"):
                if not k.get("shown"):
                    print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
                k["shown"] = True
                return
        n = len(self.violations)
        self.violations.append(what)
        if n >= 5:
            return
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.pid}-{n}.json")
        json.dump(dict(data, property=self.pid, what=what, seed=self.seed, tier=self.tier), open(path, "w"), indent=1)
        print(f"{self.pid}: {what}"[:1500])
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)

    def compare(self, binary, features, cases, args=(), keep=lambda case, view, got, want: True, **kw):
        """Replays cases and reports the differences that keep() selects."""
        if not cases:
            return Replay()
        rep = replay(binary, cases, args, **kw)
        self.replayed += rep.runs
        for i, view, got, want in rep.mismatches:
            c = cases[i]
            if keep(c, view, got, want):
                self.violate(
                    f"case {json.dumps(c['c'])[:400]} through {view} with features [{','.join(features)}]: "
                    f"specified {want}, found {got}",
                    {"case": c, "view": view, "got": got, "want": want, "features": list(features),
                     "args": list(args)})
        return rep

    def traces(self, records, features, keep=lambda rec, rej: True, label=""):
        """Validates recorded detections [(id, segs, len, got)] and reports the rejected ones."""
        by = {r[0]: r for r in records}
        for rej in validate(records, features, self.stat):
            r = by[rej["reject"]]
            if keep(r, rej):
                self.violate(
                    f"recorded detection {label}{r[0]} with features [{','.join(features)}] is not a behaviour "
                    f"of the specification: specified {rej['want']}, recorded {rej['got']}",
                    {"case": {"c": {"trace": r[0]}, "s": r[1], "len": r[2]}, "got": rej["got"],
                     "want": rej["want"], "features": list(features), "view": "trace"})
        self.validated += len(records)

    def record(self, binary, features, streams, keep=lambda rec, rej: True, watchdog=30):
        """Records the detections of streams {id: bytes} and validates them."""
        ids = list(streams)
        segs = {i: rle(streams[i]) for i in ids}
        lines = ["\t".join([str(k), "none", "?", "?", "?", "?", "?", str(len(streams[i])), segs_text(segs[i])])
                 for k, i in enumerate(ids)]
        rep = replay_lines(binary, lines, ["--record"], watchdog=watchdog)
        got = {k: g for k, _, g in rep.records}
        for k, _, why, _ in rep.mismatches:
            got[k] = why
        recs = [(i, segs[i], len(streams[i]), got[k]) for k, i in enumerate(ids) if k in got]
        self.traces(recs, features, keep)
        return recs

    def around(self, binary, features, cases, fams, budget, positions=500, most=400000, same=20, classes=None, keep=lambda rec, rej: True):
        """Examines the neighbourhoods of the cases' streams; samples of all results are judged by Trace."""
        cfg = "\n".join(["INIT AInit", "NEXT APrint", f'CONSTANTS Tier = "{self.tier}"', f"  Seed = {self.seed % 9973}",
                         "  Families = {" + ", ".join(f'"{f}"' for f in fams) + "}", "INVARIANT AAlphabet",
                         "CHECK_DEADLOCK FALSE", ""])
        words = sorted((o["c"], bytes(o["b"]).hex() + ("/" + bytes(o["e"]).hex() if o["e"] else "")) for o in run_tlc("Around", cfg, self.stat, workers=2)
                       if classes is None or o["c"] in classes)
        path = os.path.join(BUILD, f"around-{os.getpid()}")
        with open(path, "w") as f:
            f.write(f"{positions} {most} {self.seed} {same}\n" + "".join(f"{c} {b}\n" for c, b in words))
        try:
            rep = replay(binary, cases, ["--views", "", "--around", path])
        finally:
            os.remove(path)
        rng = random.Random(f"around-{self.pid}-{self.seed}")
        for i, view, got, want in rep.mismatches:
            self.violate(f"case {json.dumps(cases[i]['c'])[:300]}: a neighbour ends with {got}",
                         {"case": cases[i], "got": got, "want": "a format", "features": list(features), "view": view})
        # Groups of single bytes are judged first, small ones above all; then the other kinds of changes by turns.
        piles, groups = {}, 0
        for i, cls, n, at, got, changes in rep.groups:
            if cls == "same":
                piles.setdefault("same", []).extend((rng.random(), i, x, got) for x in changes)
                continue
            groups += 1
            pile = cls + ("-few" if n <= 8 else "")
            piles.setdefault(pile, []).append((rng.random(), i, changes[0], got))
            piles.setdefault("more", []).extend((rng.random(), i, x, got) for x in changes[1:])
        for pile in piles.values():
            pile.sort()
        picked = piles.pop("byte-few", [])[:budget * 2 // 5]
        while len(picked) < budget and piles:
            share = max(1, (budget - len(picked)) // len(piles))
            for name in sorted(piles):
                picked += piles[name][:share]
                del piles[name][:share]
                if not piles[name]:
                    del piles[name]
        picked = [x[1:] for x in picked[:budget]]
        recs, seen = [], set()
        for i, x, got in picked:
            if (i, x) not in seen:
                seen.add((i, x))
                b = changed(unsegs(cases[i]), x)
                recs.append((f"{json.dumps(cases[i]['c'])} with {x[:120]}", rle(b), len(b), got))
        self.replayed += rep.runs
        self.notes["neighbours"] = self.notes.get("neighbours", 0) + rep.runs
        self.notes["neighbour_groups"] = self.notes.get("neighbour_groups", 0) + groups
        self.notes["neighbours_judged"] = self.notes.get("neighbours_judged", 0) + len(recs)
        self.traces(recs, features, keep)

    def sample(self, cases, n=3):
        for c in cases[:: max(1, len(cases) // n)][:n]:
            self.samples.append({"case": c["c"], "stream_length": c["len"], "results": c["e"],
                                 "stream": segs_text(c["s"])[:300]})

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = {"states": self.stat.states, "transitions": self.stat.transitions,
               "traces_validated_against_impl": self.replayed + self.validated,
               "replayed_into_code": self.replayed, "recorded_and_validated_by_tlc": self.validated,
               "tlc_runs": self.stat.runs, "samples": self.samples[:12]}
        cov.update(self.notes)
        json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                   "coverage": cov, "assumptions": self.assumptions,
                   "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)},
                  open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1)
        if self.violations:
            print(f"{self.pid}: {len(self.violations)} violations")
            return 1
        print(f"{self.pid}: held on {self.stat.states} states, {self.replayed} replayed and "
              f"{self.validated} recorded detections ({time.time() - self.t0:.1f} s)")
        return 0


def known_findings(pid):
    """Entries "finding: property=<id> id=<key> <what>" of KNOWN_FINDINGS; "fixed:" lines suppress nothing."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append({"id": m.group(2), "what": m.group(3).strip()})
    return out
