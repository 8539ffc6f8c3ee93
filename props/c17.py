"""C17: nothing behind the end of the sound data matters."""
import gzip
import os
import struct

from lib import model, sut, xrns
from lib.sut import check

ID, LEVEL = "C17", "exploration"
ROUNDS = 4  # of the tasks in a quick run, each with fresh random choices
RULE = ("Songs followed, after the end marker, by GD3 tags, other songs, key events, part commands, bytes that fit no command, long "
        "junk and further markers; plain and gzipped, by name and pipe. Events, instruments, estimate and exported files are "
        "compared with those of the song alone. Every opcode is tried as first byte behind the marker. Distinct by (song, tail).")
REQUIRE = {"tails": 800, "first_opcode": 256, "cli": 120, "gzip": 100}


def tasks(tier):
    t = [{"kind": "ops", "i": i} for i in range(4)]
    t += [{"kind": "random", "i": i} for i in range(8 if tier == "quick" else 64)]
    t += [{"kind": "long", "i": i, "weight": 4, "once": True} for i in range(2)]
    t += [{"kind": "cli", "i": i, "weight": 2} for i in range(4 if tier == "quick" else 32)]
    return t


def gd3(g):
    texts = "\0".join(g.r.choice(("Title", "タイトル", "", "fTh", "a" * 200)) for _ in range(11)) + "\0"
    b = texts.encode("utf-16-le")
    return b"Gd3 " + struct.pack("<II", 0x100, len(b)) + b


def broken_gd3(g):
    """A tag that is not quite one."""
    r = g.r
    t = bytearray(gd3(g))
    for _ in range(r.choice((1, 1, 3))):
        k = r.randrange(7)
        if k == 0:  # half a character, lone surrogates
            at = 12 + 2 * r.randrange(max(1, (len(t) - 12) // 2))
            t[at:at + 2] = r.choice((b"\x00\xd8", b"\xff\xdf", b"\x00\xdc\x00\xd8"))
        elif k == 1:
            struct.pack_into("<I", t, 8, r.choice((0, 1, 2, 3, 0xFFFFFFFF, 0x7FFFFFFF, len(t) - 13, len(t) + 100)))
        elif k == 2:
            struct.pack_into("<I", t, 4, r.choice((0, 0x200, 0xFFFFFFFF)))
        elif k == 3:
            del t[max(12, r.randrange(len(t))):]
        elif k == 4:
            t = t[:12] + bytearray(r.randbytes(r.randrange(60)))
        elif k == 5:  # no end of text, or nothing but ends
            t = t[:12] + bytearray(r.choice((b"a\0" * 40, b"\0\0" * 3, b"")))
        else:
            t += r.randbytes(r.randrange(9))
        if len(t) < 14:
            break
    return bytes(t)


def tail(g):
    r = g.r
    k = r.random()
    if k < 0.07:
        return gd3(g)
    if k < 0.15:
        return broken_gd3(g)
    if k < 0.3:
        return g.body(g.music(r.choice((1, 10))), foreign=0.2, end=r.random() < 0.5)
    if k < 0.4:
        return b"\x66" * r.randint(1, 5) + g.body(g.music(2), end=False)
    if k < 0.55:
        c = g.command(r.choice((0x54, 0x61, 0x67, 0x68, 0x93, 0x90, 0xC0, 0xE0, 0x4F)))
        return c[: r.randint(1, max(1, len(c) - 1))]
    if k < 0.65:
        return b"\x67\x66\0" + struct.pack("<I", r.choice((0, 1, 100, 0x7FFFFFFF, 0xFFFFFFFF))) + g.data(r.randrange(20))
    if k < 0.75:
        return model.program_vgm(g.music(5))
    if k < 0.8:
        return g.data(r.choice((5000, 100000)))
    return g.data(r.choice((1, 2, 5, 40, 300)))


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "ops":
        for op in range(task["i"], 256, 4):
            ops = g.music(2, dense=0.2)
            yield "state", {"ops": ops, "tails": [bytes([op]), g.command(op), g.command(op)[:3], bytes([op]) + b"\x54\x08\x79" * 3,
                                                   bytes([op]) * 20], "op": op, "size": None}
    elif k == "random":
        for _ in range(g.n(25, 150)):
            yield "state", {"ops": g.music(r.choice((0, 1, 5, 30)), dense=0.3), "tails": [tail(g) for _ in range(5)], "op": None,
                            "size": r.choice((None, 0, 0x40, 0xFFFFFFFF))}
    elif k == "long":
        ops = g.music(10)
        if task["i"]:
            ops = [["raw", b"\x54\x12\x34\x70" * 30000]] + ops
        yield "state", {"ops": ops, "tails": [r.randbytes(2 << 20), b"\x66" * 300000, b"\x54\x08\x79\x70" * 60000, b"\0" * 1500000],
                        "op": None, "size": None}
    else:
        for _ in range(g.n(10, 40)):
            yield "cli", {"ops": g.music(r.choice((1, 5)), dense=0.3, lead=r.choice((0, 735))), "tails": [tail(g) for _ in range(4)],
                          "tpn": r.choice((None, 70000))}


def pointed(data, at, i):
    """The header may say where the tag is, and where the music loops."""
    if i % 3 == 0:
        return data
    data = bytearray(data)
    struct.pack_into("<I", data, 0x14, at - 0x14)
    if i % 3 == 2:
        struct.pack_into("<II", data, 0x1C, max(0x40, at - (i % 4)) - 0x1C, 735)
    return bytes(data)


def run_state(case, ctx):
    chip = model.Chip().feed(case["ops"])
    est = model.estimate(chip.onsets)
    first = True
    for i, t in enumerate(case["tails"]):
        for z in (False, True):
            kw = {"size": case["size"]} if case["size"] is not None else {}
            data = model.vgm(b"".join(map(model.op_bytes, case["ops"])) + b"\x66" + t, **kw)
            data = pointed(data, len(data) - len(t), i)
            st = sut.process(gzip.compress(data, 1) if z else data)
            what = f"with {len(t)} bytes behind the end marker ({t[:12].hex()})"
            for ch in range(8):
                got = sut.events(st, ch)
                if got != chip.events[ch]:
                    sut.same(got, chip.events[ch], f"{what}: key events of channel {ch}")
            sut.same(sut.instruments(st), chip.instruments, f"{what}: instruments")
            if first and est is not None:
                got = sut.estimate(st)
                check(got == est, lambda: f"{what}: estimate {got}, expected {est}")
            with sut.call("reading the onsets"):
                check(list(st.ticks()) == sorted(chip.onsets), f"{what}: onsets differ")
            ctx.counts["gzip" if z else "plain"] += 1
            first = False
        ctx.counts["tails"] += 1
        if t:
            ctx.seen["first_opcode"].add(t[0])


def run_cli(case, ctx):
    chip = model.Chip().feed(case["ops"])
    tpn = case["tpn"]
    if tpn is None:
        tpn = model.estimate(chip.onsets)
        if tpn is None or max(e[0] for evs in chip.events for e in evs) // 64 // tpn > 200:
            return
    d = ctx.scratch
    ij, tx, src = (os.path.join(d, n) for n in ("i.json", "t.xrns", "a.vgm"))
    for i, t in enumerate([b""] + case["tails"]):
        data = model.program_vgm(case["ops"])
        data = pointed(data, len(data), i if t else 0) + t
        if i % 2:
            data = gzip.compress(data, 6)
        for p in (ij, tx):
            if os.path.exists(p):
                os.remove(p)
        args = ["-i", ij, "-t", tx] + (["-tn", tpn] if case["tpn"] else [])
        if i % 3 == 2:
            sut.cli_ok(["-"] + args, stdin=data, pipe=True)
        else:
            with open(src, "wb") as f:
                f.write(data)
            sut.cli_ok([src] + args)
        what = f"with {len(t)} bytes behind the end marker ({t[:12].hex()})"
        for p in (ij, tx):
            check(os.path.exists(p), f"{what}: {os.path.basename(p)} was not written")
        sut.same(sut.read_json(sut.read_file(ij)), chip.instruments, f"{what}: instrument file")
        doc = xrns.parse(sut.read_file(tx))
        xrns.check_song(doc, chip.events, len(chip.instruments), tpn)
        n = model.pattern_count(chip.events, tpn)
        check(len(doc["patterns"]) == n, lambda: f"{what}: {len(doc['patterns'])} patterns, expected {n}")
        if not t:
            alone = doc
        sut.same(doc["whole"], alone["whole"], f"{what}: the song file as a whole")
        ctx.counts["cli"] += 1


ORACLES = {"state": run_state, "cli": run_cli}
