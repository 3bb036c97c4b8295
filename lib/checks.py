"""The checks, one function per property."""
from core import *
import itertools

CHECKS = {}


def check(f):
    CHECKS[f.__name__.upper()] = f
    return f


def no_reader(c):
    return c["r"] == "none"


def signature_only(ck, kinds, keep=lambda c, *a: True):
    """Replays signature cases without readers, and with all readers where none is involved."""
    cases = suite(kinds, ck.tier, ck.seed, ck.stat)
    ck.sample(cases)
    none, full = harnesses([NONE, ALL])
    views = ["--views", "virtual,bytes"]
    ck.compare(none, NONE, cases, views, keep)
    signed = [c for c in cases if no_reader(c) and c["sig"] not in ("none", "Empty")]
    ck.compare(full, ALL, signed, views, keep)
    return cases


@check
def c06(ck):
    cases = suite(["sig.single", "sig.cut", "sig.notail", "sig.trail"], ck.tier, ck.seed, ck.stat)
    cases = [c for c in cases if c["sig"] in ("none", "Empty")]
    ck.sample(cases)
    notxt = tuple(f for f in ALL if f != "txt")
    none, full, rest = harnesses([NONE, ALL, notxt])
    views = ["--views", "virtual,bytes"]
    ck.compare(none, NONE, cases, views)
    ck.compare(rest, notxt, cases, views)
    # With the text reader only its verdict may differ here (C13 decides that).
    ck.compare(full, ALL, cases, views,
               lambda c, v, got, want: got not in ("PlainText", "ArbitraryBinaryData") or want == "Empty")


@check
def c07(ck):
    signature_only(ck, ["sig.exact", "sig.cut", "sig.flip", "sig.move", "sig.lead"])


@check
def c08(ck):
    signature_only(ck, ["sig.pair", "sig.exact"])


@check
def c09(ck):
    cases = signature_only(ck, ["sig.window", "sig.tail", "sig.notail", "sig.trail", "sig.late", "str.sig"])


# ---------------------------------------------------------------- the readers

PREFIX = {
    "asf": [(0, b"\x30\x26\xb2\x75")], "cfb": [(0, b"\xd0\xcf\x11\xe0")], "ebml": [(0, b"\x1a\x45\xdf\xa3")],
    "exe": [(0, b"MZ")], "id3v2": [(0, b"ID3")], "pdf": [(0, b"%PDF")], "rm": [(0, b".RMF")],
    "sqlite3": [(0, b"SQLite")], "xml": [(0, b"<?xml"), (3, b"<?xml")], "zip": [(0, b"PK\3\4"), (0, b"PK\5\6")],
    "mp4": [(4, b"ftyp")], "txt": [],
}


def recorded(ck, reader, cases, quick=250, thorough=6000):
    """Records detections of variants of the cases' streams and of fixtures, and validates them."""
    rng = random.Random(f"{ck.pid}-{ck.seed}")
    small = sorted({unsegs(c) for c in cases if 0 < c["len"] <= 6000})
    rng.shuffle(small)
    bases = small[:400] + fixtures(*PREFIX[reader])
    if not bases:
        return
    total = thorough if ck.thorough else quick
    streams = {f"variant-{k}": mutate(rng, rng.choice(bases), bases) for k in range(total)}
    ck.record(harness(ALL), ALL, streams, lambda rec, rej: rej["r"] == (reader if reader != "txt" else "none"))


def neighbourhood(ck, cases, n, longest=20000):
    """A selection of n cases of all kinds and results, with streams that are not long."""
    rng = random.Random(f"bases-{ck.pid}-{ck.seed}")
    groups = {}
    for c in cases:
        if 8 <= c["len"] <= longest and "gap" not in c["c"] and c["k"] <= 60:
            groups.setdefault((c["c"]["k"], c["e"][0]), []).append(c)
    for l in groups.values():
        rng.shuffle(l)
    out = []
    while len(out) < n and groups:
        for key in rng.sample(sorted(groups), len(groups)):
            out.append(groups[key].pop())
            if not groups[key]:
                del groups[key]
    return out[:n]


def reader_check(ck, reader, kinds, views="virtual,bytes", variants=True):
    """Replays the cases of a reader's family and validates recorded detections."""
    cases = suite(kinds, ck.tier, ck.seed, ck.stat)
    ck.sample(cases)
    ck.compare(harness(ALL), ALL, cases, ["--views", views])
    if variants:
        recorded(ck, reader, cases)
        around(ck, reader, cases)
    return cases


def around(ck, reader, cases):
    """Examines the neighbourhoods of a selection of the cases' streams."""
    fam = {"ebml": "ebm", "rm": "rms", "id3v2": "id3", "sqlite3": "sql"}.get(reader, reader)
    bases = neighbourhood(ck, cases, 150 if ck.thorough else 32, 20000 if ck.thorough else 9500)
    ck.around(harness(ALL), ALL, bases, [fam], *((30000, 700, 2000000, 60) if ck.thorough else (2400, 300, 250000, 12)),
              keep=lambda rec, rej: rej["r"] == (reader if reader != "txt" else "none"))


FAMILY = {
    "c14": ("zip", "zip.name zip.pair zip.tri zip.seq zip.raw zip.near zip.attr zip.len zip.count zip.many zip.rest str.zip"),
    "c15": ("zip", "zip.mime zip.seq zip.notws zip.mnear zip.mloc zip.mpos zip.mcomp zip.msize zip.rest str.zip"),
    "c16": ("zip", "zip.comm zip.look zip.far zip.nest zip.pre zip.start zip.z64 zip.noz64 zip.end zip.many zip.rest zip.count str.zip"),
    "c17": ("ebml", "ebm.seq ebm.doc ebm.vint ebm.unk ebm.other ebm.codec ebm.stereo ebm.more ebm.cword ebm.dword ebm.raw ebm.many str.ebm"),
    "c18": ("mp4", "mp4.seq mp4.brand mp4.ext mp4.size mp4.many mp4.hide mp4.zero mp4.near mp4.reg mp4.box mp4.head mp4.raw mp4.tkhd str.mp4"),
    "c19": ("asf", "asf.seq asf.decl asf.many asf.desc asf.dcnt asf.size asf.guid asf.two asf.obj asf.type asf.word asf.head str.asf"),
    "c20": ("rm", "rms.seq rms.decl rms.many rms.name rms.mime rms.type rms.size rms.word rms.chunk rms.field str.rms"),
    "c21": ("cfb", "cfb.cls cfb.pos cfb.near cfb.name cfb.both cfb.fill cfb.reg cfb.word cfb.entry cfb.head str.cfb"),
    "c22": ("exe", "exe.sig exe.chr exe.ptr exe.out exe.wild exe.low exe.word exe.field exe.pe exe.dos str.exe"),
    "c23": ("id3v2", "id3.pay id3.byte id3.size id3.flag id3.chain id3.mix id3.syn id3.word id3.pad id3.field str.id3"),
    "c24": ("pdf", "pdf.pos pdf.part pdf.flip pdf.limit pdf.rep pdf.fill pdf.end pdf.word pdf.tok str.pdf"),
    "c25": ("xml", "xml.pos xml.limit xml.pair xml.two xml.flip xml.part xml.rep xml.text xml.word xml.root xml.wrap str.xml"),
    "c26": ("sqlite3", "sql.pos sql.part sql.flip sql.limit sql.rep sql.end sql.short sql.head sql.word str.sql"),
}
CHARACTERS = ["chr." + f for f in "zip ebm asf rms mp4 cfb xml pdf sql".split()]
for _pid, (_reader, _kinds) in FAMILY.items():
    CHECKS[_pid.upper()] = lambda ck, r=_reader, k=_kinds.split(): reader_check(ck, r, k + ["mut." + k[-1][4:]] + [c for c in CHARACTERS if c[4:] == k[-1][4:]])


@check
def c13(ck):
    reader_check(ck, "txt", ["txt." + k for k in "utf8 four byte two block line sep head limit cut edge chunk".split()] + ["str.txt"])


# ---------------------------------------------------------------- hostile streams

FAMS = "zip ebm mp4 asf rms cfb exe id3 pdf xml sql txt".split()
BASES = [f + ".base" for f in FAMS]
CRASH = ("PANIC", "DIED", "HANG")


STRETCHED = ["str." + f for f in FAMS]


def stretched(cases, most=1 << 62):
    """The cases with enlarged gaps."""
    return [c for c in cases if "gap" in c["c"] and c["len"] <= most]


def damage_file(ck, combos, cap):
    """The damage alphabet of the specification, for the harness."""
    cfg = "\n".join(["INIT DInit", "NEXT DPrint", f'CONSTANTS Tier = "{ck.tier}"', f"  Seed = {ck.seed % 9973}",
                     "INVARIANT DAlphabet", "CHECK_DEADLOCK FALSE", ""])
    out = run_tlc("Damage", cfg, ck.stat, workers=1)
    path = os.path.join(BUILD, f"damage-{os.getpid()}")
    with open(path, "w") as f:
        f.write(f"{combos} {ck.seed} {cap}\n")
        for o in sorted(out, key=lambda o: o["i"]):
            f.write(bytes(o["b"]).hex() + "\n")
    return path


def damaged(ck, binary, cases, bad, combos, cap=12000, label="", watchdog=30):
    """Runs the damage alphabet over the cases; reports what bad(got) selects."""
    path = damage_file(ck, combos, cap)
    try:
        rep = replay(binary, cases, ["--views", "", "--damage", path], watchdog=watchdog)
    finally:
        os.remove(path)
    ck.replayed += rep.runs
    ck.notes["damaged_streams" + label] = rep.runs
    for i, view, got, want in rep.mismatches:
        if bad(got):
            ck.violate(f"base stream {json.dumps(cases[i]['c'])} with {view}: {got}",
                       {"case": cases[i], "view": view, "got": got, "want": want, "features": list(ALL)})
    return rep


@check
def c01(ck):
    ahead(ALL)
    bad = lambda got: got.startswith(CRASH + ("Err",))
    kinds = ["gro.el", "hug.sz", "brk.txt"] + CHARACTERS + (["gro.len"] + ["mut." + f for f in FAMS] + ["cut." + f for f in FAMS]
                                             if ck.thorough else [])
    cases = suite(BASES + STRETCHED + kinds, ck.tier, ck.seed, ck.stat)
    bases = [c for c in cases if c["c"]["k"] in BASES]
    ck.sample(bases)
    full = harness(ALL)
    far = [c for c in stretched(cases) if c["c"]["n"] == 4096]
    damaged(ck, full, far if ck.thorough else pick(ck, far, 60), bad, *((2000, 20000) if ck.thorough else (200, 1200)),
            label="_of_gigabytes")
    damaged(ck, full, bases, bad, *((60000, 10**9) if ck.thorough else (1000, 9000)))
    if ck.thorough:
        damaged(ck, harness(ALL, release=True), bases, bad, 60000, 10**9, label="_release")
    ck.compare(full, ALL, cases, ["--views", "virtual,bytes"], lambda c, v, got, want: bad(got))
    # Recorded detections of variants of all families: a crash is no behaviour of the specification.
    rng = random.Random(f"{ck.pid}-{ck.seed}")
    small = sorted({unsegs(c) for c in bases if 0 < c["len"] <= 6000})
    small += fixtures(*[x for v in PREFIX.values() for x in v])
    streams = {f"variant-{k}": mutate(rng, rng.choice(small), small) for k in range(20000 if ck.thorough else 1000)}
    ck.record(full, ALL, streams, lambda rec, rej: bad(rej["got"]))


# Work that one step of the specification may cost the implementation, generously: calls and bytes.
CALLS_BASE, CALLS_STEP = 4096, 16
BYTES_BASE, BYTES_STEP = 4 << 20, 64 << 10
PDF_BYTES, PDF_CALLS = 64 << 20, 32768


def counters(ck, binary, cases):
    rep = replay(binary, cases, ["--counters"])
    ck.replayed += rep.runs
    return rep


@check
def c02(ck):
    ahead(ALL)
    kinds = BASES + STRETCHED + ["gro.el", "gro.ty", "gro.len", "hug.sz", "brk.txt"]
    if ck.thorough:
        kinds += ["mut." + f for f in FAMS] + ["zip.many", "ebm.many", "mp4.many", "asf.many", "rms.many", "id3.chain"]
    cases = suite(kinds, ck.tier, ck.seed, ck.stat)
    ck.sample([c for c in cases if c["c"]["fam"] == "gro"])
    full = harness(ALL)
    rep = counters(ck, full, cases)
    for i, _, why, _ in rep.mismatches:
        ck.violate(f"case {json.dumps(cases[i]['c'])}: {why}",
                   {"case": cases[i], "got": why, "want": "termination", "features": list(ALL)})
    worst = {}
    pairs = {}
    for i, calls, nbytes, heap, got in rep.counters:
        c = cases[i]
        # BoundedSteps bounds k, the number of steps that the specified detector takes.
        most = (CALLS_BASE + CALLS_STEP * c["k"] + (PDF_CALLS if c["r"] == "pdf" else 0),
                BYTES_BASE + BYTES_STEP * c["k"] + (PDF_BYTES if c["r"] == "pdf" else 0))
        w = worst.setdefault(c["r"], [0, 0])
        worst[c["r"]] = [max(w[0], calls), max(w[1], nbytes)]
        if calls > most[0] or nbytes > most[1]:
            ck.violate(f"case {json.dumps(c['c'])} takes {calls} calls and {nbytes} bytes, more than {most} for the "
                       f"{c['k']} steps of the specification",
                       {"case": c, "got": [calls, nbytes], "want": most, "features": list(ALL)})
        if c["c"]["fam"] == "gro" or "gap" in c["c"]:
            key = json.dumps({x: v for x, v in c["c"].items() if x not in ("n", "gap")}, sort_keys=True)
            pairs.setdefault(key, []).append((c["len"], calls, nbytes, c))
    # A longer stream with the same structure takes no more work.
    for key, l in pairs.items():
        l.sort(key=lambda x: x[0])
        for a, b in zip(l, l[1:]):
            # Where the shorter one does not end within somebody's buffer.
            if a[0] >= 300000 and (b[1] > a[1] + 64 or b[2] > a[2] + (128 << 10)):
                ck.violate(f"case {key} takes {a[1]} calls and {a[2]} bytes at length {a[0]}, but {b[1]} calls and "
                           f"{b[2]} bytes at length {b[0]}",
                           {"case": b[3], "got": [b[1], b[2]], "want": [a[1], a[2]], "features": list(ALL)})
    ck.notes["most_calls_and_bytes_by_reader"] = worst
    ck.notes["growth_pairs"] = len(pairs)
    # Damaged streams: sizes, counts and offsets of any value.
    bases = [c for c in cases if c["c"]["k"] in BASES]
    rep = damaged(ck, full, bases, lambda got: got.startswith("HANG"),
                  *((60000, 10**9) if ck.thorough else (600, 5000)))
    limit = (1 << 18, 192 << 20)
    if rep.calls[0] > limit[0] or rep.bytes[0] > limit[1]:
        where = rep.calls if rep.calls[0] > limit[0] else rep.bytes
        i, what = where[1].split("@", 1)
        ck.violate(f"base stream {json.dumps(bases[int(i)]['c'])} damaged by {what}: {rep.calls[0]} calls, {rep.bytes[0]} bytes",
                   {"case": bases[int(i)], "got": [rep.calls[0], rep.bytes[0]], "want": limit, "features": list(ALL)})
    ck.notes["damaged_most_calls"] = rep.calls[0]
    ck.notes["damaged_most_bytes"] = rep.bytes[0]


HEAP_LIMIT = 4 << 20


@check
def c03(ck):
    ahead(ALL)
    kinds = BASES + STRETCHED + ["gro.el", "gro.ty", "gro.len", "hug.sz"]
    if ck.thorough:
        kinds += ["mut." + f for f in FAMS] + ["zip.len", "zip.far", "ebm.vint", "mp4.size", "asf.size", "rms.size",
                                               "rms.name", "id3.size", "zip.msize", "zip.comm"]
    cases = suite(kinds, ck.tier, ck.seed, ck.stat)
    ck.sample([c for c in cases if c["c"]["fam"] in ("gro", "hug")])
    full = harness(ALL)
    rep = counters(ck, full, cases)
    worst = {}
    pairs = {}
    for i, calls, nbytes, heap, got in rep.counters:
        c = cases[i]
        worst[c["r"]] = max(worst.get(c["r"], 0), heap)
        if heap >= HEAP_LIMIT:
            ck.violate(f"case {json.dumps(c['c'])} takes {heap} bytes of memory",
                       {"case": c, "got": heap, "want": f"below {HEAP_LIMIT}", "features": list(ALL)})
    for i, _, why, _ in rep.mismatches:
        if why.startswith("DIED"):
            ck.violate(f"case {json.dumps(cases[i]['c'])} exhausts the memory: {why}",
                       {"case": cases[i], "got": why, "want": f"below {HEAP_LIMIT}", "features": list(ALL)})
    ck.notes["peak_heap_by_reader"] = worst
    bases = [c for c in cases if c["c"]["k"] in BASES]
    rep = damaged(ck, full, bases, lambda got: got.startswith("DIED"),
                  *((60000, 10**9) if ck.thorough else (600, 6000)))
    if rep.heap[0] >= HEAP_LIMIT:
        i, what = rep.heap[1].split("@", 1)
        ck.violate(f"base stream {json.dumps(bases[int(i)]['c'])} damaged by {what}: {rep.heap[0]} bytes of memory",
                   {"case": bases[int(i)], "got": rep.heap[0], "want": f"below {HEAP_LIMIT}", "features": list(ALL)})
    ck.notes["damaged_peak_heap"] = rep.heap[0]


def reader_gives_up(c):
    """The specified reader finds the structure broken."""
    return c["r"] != "none" and c["e"][0] == c["t"] and c["e"][1] == "ArbitraryBinaryData"


GENERIC = ("PlainText", "ArbitraryBinaryData")


@check
def c12(ck):
    notxt = tuple(f for f in ALL if f != "txt")
    ahead(ALL, notxt)
    cases = suite(["cut." + f for f in FAMS if f != "txt"] + ["brk.txt", "id3.short"] +
                  ["mut." + f for f in FAMS if f != "txt"], ck.tier, ck.seed, ck.stat)
    cases = [c for c in cases if c["r"] != "none"]
    ck.sample([c for c in cases if reader_gives_up(c)])
    ck.notes["broken"] = sum(map(reader_gives_up, cases))
    ck.notes["decided_before_the_damage"] = len(cases) - ck.notes["broken"]
    base = {r: next(c["sig"] for c in cases if c["r"] == r) for r in {c["r"] for c in cases}}

    def keep(c, view, got, want):
        if got.startswith(CRASH):
            return False        # C01
        # broken, but not generic - or decided, but lost
        return want in GENERIC or (want != base[c["r"]] and got in GENERIC)
    ck.compare(harness(ALL), ALL, cases, ["--views", "virtual,bytes"], keep)
    ck.compare(harness(notxt), notxt, cases, ["--views", "virtual"], keep)


# ---------------------------------------------------------------- delivery, sessions, faults

def pick(ck, cases, n, key=lambda c: True):
    """A sample of n cases."""
    l = [c for c in cases if key(c)]
    return random.Random(f"{ck.pid}-{ck.seed}").sample(l, min(n, len(l)))


# Kinds in which buffers, windows and boundaries matter.
BOUNDARY = ["sig.window", "txt.chunk", "txt.edge", "txt.cut", "pdf.pos", "pdf.part", "pdf.rep", "xml.pos", "xml.limit",
            "sql.pos", "sql.limit", "sql.part", "zip.comm", "zip.far", "zip.mpos", "asf.size", "rms.size", "cfb.pos",
            "exe.ptr", "id3.size", "ebm.vint", "mp4.size"]


@check
def c04(ck):
    ahead(ALL)
    cfg = "\n".join(["INIT DeInit", "NEXT DeNext", f"CONSTANTS WordLen = {4 if ck.thorough else 3}", "  Limit = 5",
                     "INVARIANTS Filled Progress", "CHECK_DEADLOCK FALSE", ""])
    words = sorted(",".join(o["w"]) for o in run_tlc("Delivery", cfg, ck.stat))
    plans = ["read:" + w.replace("B", ",".join("I" * 12)) for w in words]
    plans += ["first:" + w.replace("B", ",".join("I" * 40)) for w in words if len(w) <= 3 or "B" in w]
    plans += ["first:" + ",".join("I" * n) for n in (17, 65, 257, 1025, 5000)]
    plans += [f"chunk:{n}" for n in (1, 2, 3, 5, 16, 64, 100, 255, 511, 512, 513, 1000, 1024, 4095, 4096, 4097, 8191,
                                     8192, 8193, 32768, 36869)]
    plans += [f"int:{k}" for k in range(1, 13)]
    plans += ["int:1;chunk:512", "int:2;chunk:4096", "first:I,512", "first:4096,I", "read:512,I", "read:8192,I,1"]
    ck.notes["plans"] = len(plans)
    cases = suite(BASES + BOUNDARY + STRETCHED + ["sig.exact"], ck.tier, ck.seed, ck.stat)
    cases = [c for c in cases if c["len"] <= 400000 or "gap" in c["c"] and c["r"] != "pdf"]
    bases = [c for c in cases if c["c"]["k"] in BASES]
    ck.sample(bases)
    full = harness(ALL)
    rng = random.Random(f"C04-{ck.seed}")
    jobs = []
    for c in bases:
        ps = plans if c["len"] <= 4000 or ck.thorough else rng.sample(plans, 60)
        spots = sorted({p for at, n, b in c["s"] for p in (at, at + 1, at + n - 1, at + len(b))} | {1, 36869, 36870, 36871})
        extra = [f"stop:{p}" for p in spots if 0 < p < c["len"]]
        jobs.append(dict(c, plans=ps + (extra if len(extra) < 80 else rng.sample(extra, 80))))
    per = {}
    others = []
    for c in cases:
        if c["c"]["k"] not in BASES:
            per.setdefault(c["c"]["k"], []).append(c)
    for k in sorted(per):
        others += rng.sample(per[k], min(len(per[k]), 2000 if ck.thorough else (400 if k == "sig.window" else 120)))
    for c in others:
        jobs.append(dict(c, plans=rng.sample(plans, 40 if ck.thorough else 8) + ["chunk:512", "chunk:4096"]))
    rep = replay(full, jobs, ["--views", "virtual"])
    wrong = {i for i, view, *_ in rep.mismatches if view == "virtual"}
    ck.replayed += rep.runs
    for i, view, got, want in rep.mismatches:
        if i in wrong or got.startswith(("HANG", "DIED")):
            continue        # wrong however it is delivered
        ck.violate(f"case {json.dumps(jobs[i]['c'])[:300]} delivered as {view}: specified {want}, found {got}",
                   {"case": {x: v for x, v in jobs[i].items() if x != "plans"}, "view": view, "got": got, "want": want,
                    "features": list(ALL)})


@check
def c05(ck):
    ahead(ALL)
    cases = suite(BASES + ["sig.exact", "brk.txt", "pad.eq", "hug.sz", "zip.far"] + STRETCHED, ck.tier, ck.seed, ck.stat)
    bases = [c for c in cases if c["c"]["k"] in BASES and c["len"] <= 400000]
    sigs = [c for c in cases if c["c"]["k"] == "sig.exact" and c["len"] <= 40000]
    rest = pick(ck, sigs, 60) + pick(ck, [c for c in cases if c["c"]["k"] == "brk.txt" and c["len"] < 4000], 20)
    contents = bases + rest
    # Contents of one and the same length: neither length nor position identifies a content.
    contents += [c for c in cases if c["c"]["k"] == "pad.eq"]
    ck.sample(contents)
    # Long contents, in which something decisive lies far from the start.
    far = [c for c in cases if c["c"]["k"] == "hug.sz" and c["len"] <= (6000000 if ck.thorough else 100000)]
    far += [c for c in cases if c["c"]["k"] == "zip.far" and c["len"] > 100000]
    full = harness(ALL)
    work = os.path.join(BUILD, f"files-{os.getpid()}")
    os.makedirs(work)
    try:
        ck.compare(full, ALL, contents + far + (sigs if ck.thorough else pick(ck, sigs, 300)),
                   ["--views", "memory,files", "--dir", work])
        # Files of gigabytes (sparse ones).
        long = stretched(cases, 1 << 34)
        ck.compare(full, ALL, long if ck.thorough else pick(ck, long, 150), ["--views", "sparse", "--dir", work])
        n, m = len(contents), 29      # 18 ways in memory, 11 from files
        cfg = "\n".join(["INIT SInit", "NEXT SNext", "CONSTANTS", f"  N = {n}", f"  M = {m}",
                         f"  Stride = {1 if ck.thorough else 5}", f"  Seed = {ck.seed % 997}",
                         "INVARIANTS Deterministic Agree", "CHECK_DEADLOCK FALSE", ""])
        hs = run_tlc("Session", cfg, ck.stat)
        hs.sort(key=lambda o: o["h"])
        path = os.path.join(work, "histories")
        open(path, "w").write("".join(" ".join(f"{a}:{e}" for a, e in o["h"]) + "\n" for o in hs))
        lines = [case_line(i, c) for i, c in enumerate(contents)]
        try:
            r = subprocess.run([full, "sessions", path, work], input="\n".join(lines) + "\n", stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, errors="replace", env=env(), timeout=600)
        except subprocess.TimeoutExpired:
            raise ToolError("sessions took too long")
        ok = False
        for line in r.stdout.splitlines():
            c = line.split("\t")
            if c[0] == "M":
                h = hs[int(c[1])]["h"] if hs else []
                ck.violate(f"history {h}, step {c[2]} ({c[3]}): specified {c[5]}, found {c[4]}",
                           {"history": h, "contents": [contents[a]["c"] for a, _ in h], "case": contents[int(c[6])],
                            "got": c[4], "want": c[5], "features": list(ALL)})
            elif c[0] == "STAT":
                ok = True
                ck.notes["histories"] = int(c[1])
                ck.replayed += int(c[2])
        if not ok:
            ck.violate(f"the process of the histories ended early: status {r.returncode}",
                       {"history": [], "got": r.stderr[-500:], "want": "results", "features": list(ALL)})
        interleaved(ck, full, bases, work)
        nested(ck, full, bases, work)
        special(ck, full)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def interleaved(ck, binary, contents, work):
    """Detections of two contents at the same time, interleaved as the specification enumerates."""
    cfg = "\n".join(["INIT IInit", "NEXT INext", f"CONSTANTS Length = {10 if ck.thorough else 7}", "  Calls = 6",
                     "INVARIANTS Private Undisturbed CountsOwnCalls", "CHECK_DEADLOCK FALSE", ""])
    words = sorted("".join(map(str, o["w"])) for o in run_tlc("Interleave", cfg, ck.stat))
    rng = random.Random(f"interleave-{ck.seed}")
    # Contents of one reader share the most code; its state would be shared by other contents as well.
    pairs = []
    for r in sorted({c["r"] for c in contents}):
        same = [i for i, c in enumerate(contents) if c["r"] == r and c["len"] < 200000]
        pairs += [(a, b) for a in same for b in same if contents[a]["e"][0] != contents[b]["e"][0]]
    if not ck.thorough:
        pairs = rng.sample(pairs, min(len(pairs), 700))
    pairs += [(rng.randrange(len(contents)), rng.randrange(len(contents))) for _ in range(100)]
    jobs = [(a, b, w) for a, b in pairs for w in rng.sample(words, min(len(words), 64 if ck.thorough else 12))]
    lines = "\n".join(case_line(i, c) for i, c in enumerate(contents)) + "\n"

    def one(k):
        mine = jobs[k::CPUS]
        path = os.path.join(work, f"schedules-{k}")
        open(path, "w").write("".join(f"{a} {b} {w}\n" for a, b, w in mine))
        try:
            r = subprocess.run([binary, "interleave", path], input=lines, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors="replace", env=env(), timeout=600)
        except subprocess.TimeoutExpired:
            raise ToolError("interleaved detections took too long")
        return mine, r
    with ThreadPoolExecutor(CPUS) as ex:
        results = list(ex.map(one, range(CPUS)))
    for mine, r in results:
        ok = False
        for line in r.stdout.splitlines():
            c = line.split("\t")
            if c[0] == "M":
                a, b, w = mine[int(c[1])]
                x = (a, b)[int(c[2])]
                ck.violate(f"two detections with calls in the order {w}: {json.dumps(contents[x]['c'])} beside "
                           f"{json.dumps(contents[a + b - x]['c'])}: specified {c[4]}, found {c[3]}",
                           {"case": contents[x], "other": contents[a + b - x]["c"], "order": w, "got": c[3], "want": c[4],
                            "features": list(ALL)})
            elif c[0] == "STAT":
                ok = True
                ck.replayed += 2 * int(c[1])
                ck.notes["interleaved_pairs"] = ck.notes.get("interleaved_pairs", 0) + int(c[1])
        if not ok:
            ck.violate(f"the process of the interleaved detections ended early: status {r.returncode}",
                       {"got": r.stderr[-500:], "want": "results", "features": list(ALL)})


def nested(ck, binary, contents, work):
    """Detections inside of detections, in the shapes that the specification enumerates."""
    cfg = "\n".join(["INIT NInit", "NEXT NNext", f"CONSTANTS Depth = {4 if ck.thorough else 3}", "  Calls = 3",
                     f"  Inner = {4 if ck.thorough else 3}", "INVARIANTS Undisturbed AllEnd Nested", "CHECK_DEADLOCK FALSE", ""])
    shapes = sorted(o["n"] for o in run_tlc("Nest", cfg, ck.stat))
    rng = random.Random(f"nest-{ck.seed}")
    small = [i for i, c in enumerate(contents) if c["len"] < 50000]
    by = {}
    for i in small:
        by.setdefault(contents[i]["r"], []).append(i)
    jobs = []
    for shape in shapes:
        for k in range(60 if ck.thorough else 12):
            # The calls of the model, spread over the ones that real detections make.
            spread = rng.choice((1, 1, 2, 3, 5, 9))
            pool = small if k % 3 else by[rng.choice(sorted(by))]       # often of one reader
            jobs.append(([rng.choice(pool) for _ in range(len(shape) + 1)], [(d, 1 + (c - 1) * spread) for d, c in shape]))
    path = os.path.join(work, "plans")
    open(path, "w").write("".join(",".join(map(str, cs)) + " " + ",".join(f"{d}:{c}" for d, c in sh) + "\n" for cs, sh in jobs))
    lines = "\n".join(case_line(i, c) for i, c in enumerate(contents)) + "\n"
    try:
        r = subprocess.run([binary, "nest", path], input=lines, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", env=env(), timeout=300)
    except subprocess.TimeoutExpired:
        ck.violate("detections inside of detections do not end", {"got": "a process of 300 s", "want": "results", "features": list(ALL)})
        return
    ok = False
    for line in r.stdout.splitlines():
        c = line.split("\t")
        if c[0] == "M":
            cs, sh = jobs[int(c[1])]
            x = contents[int(c[2])]
            ck.violate(f"detections inside of detections {sh}: {json.dumps(x['c'])}: specified {c[4]}, found {c[3]}",
                       {"case": x, "contents": [contents[i]["c"] for i in cs], "starts": sh, "got": c[3], "want": c[4],
                        "features": list(ALL)})
        elif c[0] == "STAT":
            ok = True
            ck.replayed += int(c[2])
            ck.notes["nested_detections"] = [int(c[1]), int(c[2])]
    if not ok:
        ck.violate(f"the process of the nested detections ended early: status {r.returncode}",
                   {"got": r.stderr[-500:], "want": "results", "features": list(ALL)})


def special(ck, binary):
    """Files whose length their metadata do not tell, validated as recorded detections."""
    r = subprocess.run([binary, "special"], stdout=subprocess.PIPE, text=True, errors="replace", env=env(), timeout=60)
    recs = []
    for line in r.stdout.splitlines():
        name, content, *found = line.split("\t")
        b = bytes.fromhex(content)
        recs += [(f"{name} as {k}", rle(b), len(b), got) for k, got in enumerate(found)]
    if r.returncode != 0:
        raise ToolError(f"special: status {r.returncode}")
    ck.notes["files_of_the_kernel"] = len(recs)
    if recs:
        ck.traces(recs, ALL, lambda rec, rej: True)


@check
def c10(ck):
    notxt = tuple(f for f in ALL if f != "txt")
    ahead(ALL, notxt)
    cfg = "\n".join(["INIT FInit", "NEXT FNext", "INVARIANTS WindowFaultIsReported LaterFaultDegrades NoFaultNoChange "
                     "NeverAnotherFormat ObservationsComplete", "CHECK_DEADLOCK FALSE", ""])
    run_tlc("Faults", cfg, ck.stat, {"RECORDING": "/dev/null"}, workers=1)
    kinds = BASES + ["sig.exact", "brk.txt", "txt.two", "id3.chain", "zip.mpos", "pdf.limit", "zip.z64", "zip.name", "zip.len", "zip.far",
                     "ebm.seq", "ebm.stereo", "mp4.seq", "mp4.ext", "asf.desc", "asf.two", "rms.seq", "cfb.name", "exe.chr", "xml.two"]
    if ck.thorough:
        kinds += ["cut." + f for f in FAMS] + ["zip.mime", "cfb.cls", "exe.ptr", "xml.pos", "sql.pos", "txt.chunk"]
    cases = suite(kinds, ck.tier, ck.seed, ck.stat)
    bases = [c for c in cases if c["c"]["k"] in BASES]
    ck.sample(bases)
    per = {}
    for c in cases:
        if c["c"]["k"] not in BASES and c["len"] < 5000000:
            per.setdefault(c["c"]["k"], []).append(c)
    rng = random.Random(f"C10-{ck.seed}")
    jobs = list(bases)
    for k in sorted(per):
        jobs += rng.sample(per[k], min(len(per[k]), 600 if ck.thorough else 40))
    for feats in (ALL, notxt):
        rep = replay(harness(feats), jobs, ["--views", "virtual", "--sweep", "400" if ck.thorough else "60"])
        ck.replayed += rep.runs
        for i, view, got, want in rep.mismatches:
            if view == "process":
                ck.violate(f"case {json.dumps(jobs[i]['c'])} under injected failures: {got}",
                           {"case": jobs[i], "got": got, "want": want, "features": list(feats)})
        # Every distinct observation is judged by the specification.
        obs = sorted(rep.observed.items())
        path = os.path.join(BUILD, f"obs-{os.getpid()}.ndjson")
        with open(path, "w") as f:
            for (struck, want, generic, out), _ in obs:
                f.write(json.dumps({"struck": struck, "want": want, "generic": generic, "out": out}) + "\n")
        try:
            bad = run_tlc("FaultTrace", "INIT FTInit\nNEXT FTNext\nCHECK_DEADLOCK FALSE\n", ck.stat,
                          {"RECORDING": path}, workers=1)
        finally:
            os.remove(path)
        ck.validated += len(obs)
        ck.notes.setdefault("observations", []).append(
            [{"features": "all" if feats == ALL else "all but txt", "struck": k[0], "want": k[1], "generic": k[2],
              "out": k[3], "runs": v[0]} for k, v in obs])
        for b in bad:
            k, v = obs[b["reject"] - 1]
            if k[0] == "no":
                continue        # wrong without a fault: for other checks
            ck.violate(f"case {json.dumps(jobs[v[1]]['c'])[:300]} with injected failure {v[2]} (struck: {k[0]}): found {v[3]}",
                       {"case": jobs[v[1]], "view": v[2], "got": v[3], "want": k[1:3], "features": list(feats)})
    # Files that cannot be opened or read.
    work = os.path.join(BUILD, f"files-{os.getpid()}")
    os.makedirs(work)
    try:
        r = subprocess.run([harness(ALL), "open", work], stdout=subprocess.PIPE, text=True, env=env(), timeout=60)
        n = 0
        for line in r.stdout.splitlines():
            n += 1
            what, got, want = line.split("\t")
            if not got.startswith(want):
                ck.violate(f"{what}: specified {want}, found {got}",
                           {"got": got, "want": want, "what": what, "features": list(ALL)})
        if n < 5:
            raise ToolError(f"open: {n} lines, status {r.returncode}")
        ck.replayed += n
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------- features

def covering(k, t, have, rng):
    """Rows of k bits which, with those at hand, hold every combination of values of every t columns."""
    groups = list(itertools.combinations(range(k), t))
    hit = lambda row: {(g, tuple(row[i] for i in g)) for g in groups}
    left = {(g, v) for g in groups for v in itertools.product((0, 1), repeat=t)}
    for row in have:
        left -= hit(row)
    rows = []
    while left:
        pool = sorted(left)
        best = (0, None)
        for _ in range(60):
            row = [rng.randint(0, 1) for _ in range(k)]
            for i, x in zip(*rng.choice(pool)):
                row[i] = x
            best = max(best, (len(hit(row) & left), row))
        rows.append(best[1])
        left -= hit(best[1])
    return rows


@check
def c11(ck):
    singles = [(f,) for f in READERS]
    minus = [tuple(x for x in READERS if x != f) for f in READERS]
    rng = random.Random(f"C11-{ck.seed}")
    builds = [NONE, ALL, ("group",), minus[READERS.index("txt")]] + singles
    if ck.thorough:
        builds += [b for b in minus if b not in builds] + [tuple(sorted((a, b))) for a in READERS for b in READERS if a < b]
    rows = [[int(x in b) for x in READERS] for b in builds if b != ("group",)]
    builds += [tuple(x for x, on in zip(READERS, row) if on) for row in covering(len(READERS), 4 if ck.thorough else 3, rows, rng)]
    for b in builds[:CPUS]:
        ahead(b)
    kinds = BASES + ["dec.oy", "sig.single", "zip.name", "zip.mime", "ebm.doc", "ebm.seq", "mp4.seq", "asf.seq", "rms.seq", "cfb.cls",
                     "exe.sig", "exe.chr", "id3.pay", "pdf.pos", "xml.pos", "xml.pair", "sql.pos", "txt.byte", "txt.two", "brk.txt"]
    if ck.thorough:
        kinds += ["cut." + f for f in FAMS] + ["mut." + f for f in FAMS] + ["sig.exact"]
    cases = suite(kinds, ck.tier, ck.seed, ck.stat)
    cases = [c for c in cases if c["len"] < 3000000]
    if not ck.thorough:
        per = {}
        for c in cases:
            per.setdefault(c["c"]["k"], []).append(c)
        cases = [c for k in sorted(per) for c in (per[k] if k in BASES + ["dec.oy"] else rng.sample(per[k], min(len(per[k]), 90)))]
    ck.sample(cases)
    families = run_tlc("FamilyList", "INIT FlInit\nNEXT FlNext\nCHECK_DEADLOCK FALSE\n", ck.stat, workers=1)
    family = {o["r"]: set(o["f"]) for o in families}
    bins = harnesses(builds)
    wrong = {}
    for b, binary in zip(builds, bins):
        on = set(READERS) if b == ("group",) else set(b)
        r = subprocess.run([binary, "features"], stdout=subprocess.PIPE, text=True, env=env())
        if set(r.stdout.split()) != on:
            raise ToolError(f"features of {b}: {r.stdout}")
        rep = replay(binary, cases, ["--views", "virtual"])
        ck.replayed += rep.runs
        wrong[b] = {i: (got, want) for i, view, got, want in rep.mismatches}
    # Builds that agree on the reader of a case and on text must agree on the case.
    for b in builds:
        on = set(READERS) if b == ("group",) else set(b)
        for i, (got, want) in sorted(wrong[b].items()):
            c = cases[i]
            mine = (c["r"] in on, "txt" in on)
            peers = [x for x in builds if x != b and
                     (c["r"] in (set(READERS) if x == ("group",) else set(x)), "txt" in x or x == ("group",)) == mine]
            disagree = any(wrong[x].get(i, (want,))[0] != got for x in peers)
            may = family.get(c["r"], set()) if mine[0] else {want}
            may = may | {"PlainText" if "txt" in on else "", "ArbitraryBinaryData"}
            unsigned = c["r"] == "none"
            if disagree or (got not in may and not unsigned) or (not mine[0] and not unsigned):
                ck.violate(f"case {json.dumps(c['c'])[:300]} with features {list(b)}: specified {want}, found {got}",
                           {"case": c, "view": "virtual", "got": got, "want": want, "features": list(b)})
    ck.notes["builds"] = len(builds)
    ck.notes["cases_per_build"] = len(cases)


# ---------------------------------------------------------------- metadata

@check
def c27(ck):
    rows = run_tlc("Metadata", "INIT MdInit\nNEXT MdShow\nINVARIANTS WellFormed UniqueNames IsDocumented\n"
                   "CHECK_DEADLOCK FALSE\n", ck.stat)
    variants = sorted(r["v"] for r in rows)
    path = os.path.join(BUILD, "catalog.rs")
    text = "&[" + ", ".join(f'("{v}", FileFormat::{v})' for v in variants) + "]"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    base = harness(ALL)
    try:
        binary = harness(ALL, catalog=path)
    except ToolError as e:
        gone = [v for v in variants if f"`{v}`" in str(e)]
        if not gone:
            raise
        ck.violate(f"formats {gone} are gone", {"got": str(e)[-2000:], "want": gone, "features": list(ALL)})
        return
    cases = suite(["sig.single", "sig.exact"] + BASES, ck.tier, ck.seed, ck.stat)
    seen, some = set(), []
    for c in cases:
        if c["len"] < 100000 and c["e"][0] not in seen:
            seen.add(c["e"][0])
            some.append(c)
    ck.sample(some)
    lines = [case_line(i, c) for i, c in enumerate(some)]
    r = subprocess.run([binary, "catalog"], input="\n".join(lines) + "\n", stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, errors="replace", env=env(), timeout=300)
    recs, hows = [], []
    for line in r.stdout.splitlines():
        c = line.split("\t")
        if len(c) != 8:
            raise ToolError(f"catalog: {line}")
        if c[1] == "default":
            if c[2] != c[0]:
                ck.violate(f"the default format is {c[2]}", {"got": c[2], "want": c[0], "features": list(ALL)})
            continue
        if c[0].startswith("?"):
            continue            # a format that is not in the catalogue (an addition)
        hows.append(c[1])
        recs.append(dict(v=c[0], n=c[2], s=c[3], m=c[4], e=c[5], k=c[6], d=c[7]))
    if r.returncode != 0:
        ck.violate(f"showing the metadata ended early: status {r.returncode}",
                   {"got": r.stderr[-1000:], "want": "rows", "features": list(ALL)})
    if len(recs) < len(variants) and r.returncode == 0:
        raise ToolError("catalog: rows are missing")
    path = os.path.join(BUILD, f"meta-{os.getpid()}.ndjson")
    open(path, "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in recs))
    try:
        bad = run_tlc("MetadataTrace", "INIT MtInit\nNEXT MtNext\nCHECK_DEADLOCK FALSE\n", ck.stat, {"RECORDING": path})
    finally:
        os.remove(path)
    ck.validated += len(recs)
    ck.notes["formats"] = len(variants)
    ck.notes["rows_of_detected_values"] = hows.count("detected")
    for b in bad:
        x = recs[b["reject"] - 1]
        ck.violate(f"metadata of {x['v']} ({hows[b['reject'] - 1]}): specified {b['want']}, found {x}",
                   {"got": x, "want": b["want"], "features": list(ALL)})


# ---------------------------------------------------------------- the lefi example

@check
def c28(ck):
    cfg = "\n".join(["INIT LInit", "NEXT LNext", "CONSTANTS", f"  MaxArgs = {3}", f'  Tier = "{ck.tier}"',
                     f"  Seed = {ck.seed % 997}", "INVARIANTS LinesSoFar Wide", "CHECK_DEADLOCK FALSE", ""])
    out = run_tlc("Lefi", cfg, ck.stat)
    pool = next(o["pool"] for o in out if "pool" in o)
    raw = {n: bytes.fromhex(x) for n, x in next(o["raw"] for o in out if "raw" in o).items()}
    name = lambda p: raw.get(p, p.encode())
    runs = sorted((o for o in out if "a" in o), key=lambda o: o["a"])
    target = os.path.join(build_dir(), "target-lefi")
    binary = os.path.join(build_dir(), "lefi")
    if not os.path.exists(binary):
        cargo(["build", "--example", "lefi", "--features", "reader"], REPO, target)
        shutil.copy2(os.path.join(target, "debug", "examples", "lefi"), binary)
        shutil.rmtree(target, ignore_errors=True)
    work = os.path.join(BUILD, f"lefi-{os.getpid()}")
    os.makedirs(work)
    try:
        for p in pool:
            path = os.path.join(work.encode(), name(p["p"]))
            if p["to"] == "-":
                continue        # another name of something
            if p["f"] == "dir":
                os.mkdir(path)
            elif p["f"] == "link":
                os.symlink(p["to"], path)
            elif p["f"] != "missing":
                open(path, "wb").write(bytes.fromhex(p["to"]))

        def one(o):
            return subprocess.run([binary] + [name(a) for a in o["a"]], cwd=work, env=env(), stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, timeout=60)
        with ThreadPoolExecutor(CPUS) as ex:
            results = list(ex.map(one, runs))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ck.replayed += len(runs)
    ck.samples += [{"arguments": o["a"], "lines": o["o"], "success": o["ok"]} for o in runs[:: max(1, len(runs) // 4)]]
    for o, r in zip(runs, results):
        want = "".join(l + "\n" for l in o["o"])
        got = r.stdout.decode("utf-8", "replace")
        if got != want or (r.returncode == 0) != o["ok"]:
            # What is known to happen to an argument that is not valid UTF-8, and nothing else.
            panics = (any(a in raw for a in o["a"]) and got == "" and r.returncode == 101
                      and b"std/src/env.rs" in r.stderr.replace(b"\\", b"/") and b"Result::unwrap()" in r.stderr)
            ck.violate(f"lefi {o['a']}: specified {want!r} and {'success' if o['ok'] else 'failure'}, "
                       f"found {got!r} and status {r.returncode}",
                       {"arguments": o["a"], "got": [got, r.returncode], "want": [want, o["ok"]], "pool": pool,
                        "finding": "non-utf8-argument" if panics else ""})
