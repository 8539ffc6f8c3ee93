"""C13: the header decides version, size, clocks and where the music starts - and nothing else does."""
from lib import model, sut
from lib.sut import check

ID, LEVEL = "C13", "exploration"
ROUNDS = 8
RULE = ("Headers over all versions around 1.10 and 1.50 (and every two-digit version), clock fields, file sizes, data offsets from "
        "inside the header to megabytes, random bytes in every other field and in the gap before the data; several readers open at "
        "once and read alternately. Reported values and decoded commands are compared with the header layout of the format.")
REQUIRE = {"headers": 2500, "versions": 200, "offsets": 100, "interleaved": 200}


def tasks(tier):
    t = [{"kind": "versions", "i": i} for i in range(4)]
    t += [{"kind": "random", "i": i, "weight": 2} for i in range(8 if tier == "quick" else 64)]
    t += [{"kind": "many", "i": i} for i in range(4 if tier == "quick" else 32)]
    return t


def spec(g, version=None):
    """A header and the bytes behind it."""
    r = g.r
    if version is None:
        version = r.choice((100, 101, 102, 109, 110, 111, 119, 120, 149, 150, 151, 152, 159, 160, 161, 170, 171, 172, 180, 199,
                            200, 1000, 0, 10, 15, 50, 99, r.randrange(400), r.randrange(100000000)))
    clock = lambda: r.choice((0, 0, 1, 3579545, 4000000, 3579580, 0x40000000 | 3579545, 0x80000000 | 4000000, 0xFFFFFFFF, 255, 256,
                              65536, 1 << 24, 1 << 30, 1 << 31, 3 << 30, 1 << r.randrange(32), r.randrange(1 << 32)))
    if version >= 150:
        offset = r.choice((0x0C, 0x0C, 0x4C, 0x8C, 0xCC, 0x0D, 0x0F, 0x10, 0x1C, r.randrange(12, 400), g.edge(12, 5000)))
        if r.random() < 0.1:
            offset = r.choice((0, 0, 1, 2, 3, 4, 5, 8, 11, r.randrange(12)))  # the music starts in the header itself
        if r.random() < 0.02:
            offset = r.choice((65536, 1 << 20)) + r.randrange(-20, 20)
        start = 0x34 + offset
    else:
        offset = r.choice((0, 0, 0x0C, 0x4C, r.randrange(1 << 32)))
        start = 0x40
    return {"version": version, "ym2151": clock(), "ym2413": clock(), "offset": offset, "start": start,
            "size": r.choice((0, 1, 252, 0xFFFFFFFB, 0xFFFFFFFF, r.randrange(1 << 32))),
            "tail": r.choice((b"", b"", b"\x70", b"\x66", b"\x70\x54\x08\x79\x66", b"Gd3 ")), "noise": r.choice((b"\0", b"\xff", b"\x66", b"\x54", b"", b"real", b"real", b"real")), "seed": r.randrange(1 << 30),
            "ops": g.music(r.choice((1, 3, 10)), dense=0.2, channels=[r.randrange(8)])}


def build(sp):
    import random

    r = random.Random(sp["seed"])
    n = max(0x40, sp["start"])
    h = bytearray(r.randbytes(n) if not sp["noise"] else sp["noise"][:1] * n)
    h[0:4] = b"Vgm "
    h[4:8] = sp["size"].to_bytes(4, "little")
    h[8:12] = bytes.fromhex(f"{sp['version']:08d}")[::-1]
    h[0x10:0x14] = sp["ym2413"].to_bytes(4, "little")
    h[0x30:0x34] = sp["ym2151"].to_bytes(4, "little")
    h[0x34:0x38] = sp["offset"].to_bytes(4, "little")
    body = b"".join(map(model.op_bytes, sp["ops"])) + b"\x66" + sp["tail"]
    n = max(0x38, sp["start"])
    if sp["noise"] == b"real":
        h = bytearray(max(0x40, n))[:0x40] + bytearray(max(0, n - 0x40))
        for at, v, k in ((0, b"Vgm ", 4), (4, sp["size"], 4), (0x10, sp["ym2413"], 4), (0x30, sp["ym2151"], 4), (0x34, sp["offset"], 4)):
            h[at:at + k] = v if isinstance(v, bytes) else v.to_bytes(k, "little")
        h[8:12] = bytes.fromhex(f"{sp['version']:08d}")[::-1]
        if n >= 0x40:
            h = bytearray(model.lifelike(h[:n], body, sp["seed"]))
    return bytes(h[:n]) + body, bytes(h[sp["start"]:n]) + body


def facts(r, sp):
    """Everything a reader says about its header."""
    with sut.call("asking for header facts"):
        got = {"version": r.version, "size": r.size(), "data_start": r.data_start, "ym2151": r.clock("ym2151"),
               "supports": r.supports("ym2151"), "ym2413": r.clock("ym2413"), "other": r.supports("no such chip"),
               "ym2413?": r.supports("ym2413")}
    clock = sp["ym2151"] if sp["version"] >= 110 else sp["ym2413"]
    want = {"version": sp["version"], "size": sp["size"] + 4, "data_start": sp["start"], "ym2151": clock, "supports": clock > 0,
            "ym2413": sp["ym2413"], "other": False, "ym2413?": sp["ym2413"] > 0}
    sut.same(got, want, f"header facts of a version {sp['version']} file")


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "versions":
        for v in range(task["i"], 330, 4):
            yield "one", spec(g, v)
            for _ in range(3):
                yield "one", spec(g, v + 100 * r.randrange(3, 1000))
    elif k == "random":
        for _ in range(g.n(250, 1500)):
            yield "one", spec(g)
    else:
        for _ in range(g.n(20, 100)):
            yield "many", {"ops": [spec(g) for _ in range(r.randint(2, 6))], "order": r.randrange(1 << 30)}


def run_one(sp, ctx):
    data, body = build(sp)
    r = sut.open_reader(data)
    facts(r, sp)
    want = [c for _, c in model.decode(body)[0]]
    got = []
    with sut.call("decoding"):
        for c in r:
            got.append(sut.norm(c))
            check(len(got) <= len(want), "more commands than the data holds")
    sut.same(got, want, f"commands of a version {sp['version']} file with data at {sp['start']:#x}")
    facts(r, sp)
    # the fields that mean nothing here, changed
    other = dict(sp, noise=b"" if sp["noise"] else b"\x5a", seed=sp["seed"] + 1)
    sut.same(sut.decode(build(other)[0]), want, "commands after changing unrelated header bytes")
    chip = model.Chip().feed(sp["ops"])
    st = sut.process(data)
    sut.same(sut.all_events(st), chip.events, f"key events of a version {sp['version']} file, data at {sp['start']:#x}")
    sut.same(sut.instruments(st), chip.instruments, f"instruments of a version {sp['version']} file")
    ctx.counts["headers"] += 1
    ctx.seen["versions"].add(sp["version"])
    ctx.seen["offsets"].add(sp["start"])


def run_many(case, ctx):
    import random

    r = random.Random(case["order"])
    specs = case["ops"]
    built = [build(s) for s in specs]
    readers, its, got = {}, {}, {}
    todo = list(range(len(specs)))
    r.shuffle(todo)
    live = []
    steps = 0
    while (todo or live) and steps < 5000:
        steps += 1
        if todo and (not live or r.random() < 0.4):
            i = todo.pop()
            readers[i] = sut.open_reader(built[i][0])
            its[i] = iter(readers[i])
            got[i] = []
            live.append(i)
        else:
            i = r.choice(live)
            with sut.call("decoding"):
                for _ in range(r.randint(1, 6)):
                    c = next(its[i], None)
                    if c is None:
                        live.remove(i)
                        break
                    got[i].append(sut.norm(c))
        for i in readers:
            facts(readers[i], specs[i])
    for i, (_, body) in enumerate(built):
        if i in got and i not in live:
            sut.same(got[i], [c for _, c in model.decode(body)[0]], f"commands of reader {i} of {len(specs)} open at once")
    ctx.counts["interleaved"] += len(specs)


ORACLES = {"one": run_one, "many": run_many}
