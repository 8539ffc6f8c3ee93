"""C21: commands for other chips leave no trace."""
import os

from lib import model, sut, xrns
from lib.sut import check

ID, LEVEL = "C21", "exploration"
ROUNDS = 6  # of the tasks in a quick run, each with fresh random choices
RULE = ("Songs with other chips' commands put in: every such opcode with operands that look like key events, every data block type "
        "with contents that look like commands, a second YM2151, at every position of a short song and everywhere in long ones. The "
        "waits and writes decoded, the chip, its history, the estimate and the files must equal those of the song without them.")
REQUIRE = {"inserted": 20000, "opcodes": 210, "block_types": 256, "songs": 500, "positions": 250, "files": 16}


def tasks(tier):
    t = [{"kind": "opcodes", "i": i} for i in range(8)]
    t += [{"kind": "blocks", "i": i} for i in range(4)]
    t += [{"kind": "positions", "i": i, "weight": 2} for i in range(4 if tier == "quick" else 32)]
    t += [{"kind": "dense", "i": i, "weight": 2} for i in range(8 if tier == "quick" else 64)]
    t += [{"kind": "huge", "i": i, "weight": 9, "once": True} for i in range(2)]
    t += [{"kind": "files", "i": i} for i in range(4 if tier == "quick" else 24)]
    return t


def lookalike(g, op):
    """The opcode with operands that would matter to a YM2151, or to a reader out of step."""
    r = g.r
    n = model.FIXED[op]
    k = r.random()
    if k < 0.4:
        opr = bytes((0x08, 0x78 | r.randrange(8)))
    elif k < 0.5:
        opr = bytes((0x54, 0x08, 0x79))
    elif k < 0.7:
        opr = bytes((r.choice((0x20, 0x28, 0x18, 0x1B, 0x60, 0xE0)) + r.randrange(8), g.byte()))
    else:
        opr = bytes(g.byte() for _ in range(n))
    return bytes([op]) + (opr * 11)[:n]


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "opcodes":
        for op in model.FOREIGN[task["i"]::8]:
            base = g.music(4, dense=0.2, lead=r.choice((0, 5)))
            for _ in range(g.n(2, 8)):
                ops = []
                for o in base:
                    ops += [["raw", lookalike(g, op)] for _ in range(r.randint(0, 3))] + [o]
                if op >> 4 == 9 and r.random() < 0.5:
                    ops = [x for o in ops for x in (["raw", g.stream_control()], o)]
                yield "song", {"ops": ops + [["raw", lookalike(g, op)]], "files": False}
    elif k == "blocks":
        for kind in range(task["i"], 256, 4):
            base = g.music(3, dense=0.2)
            ops = []
            for o in base:
                if r.random() < 0.3:
                    ops.append(["raw", model.block(kind, g.data(r.choice((0, 1, 2, 3, 6, 16, 255, 256, 300))), r.random() < 0.3)])
                ops.append(o)
            big = model.block(kind, g.data(r.choice((4096, 65535, 65536, 70000)))) if r.random() < 0.2 else model.block(kind, g.data(9))
            yield "song", {"ops": [["raw", big]] + ops + [["raw", g.command(0x68)]], "files": False}
    elif k == "positions":
        for _ in range(g.n(8, 12)):
            base = g.music(r.choice((2, 4)), dense=0.15, channels=[r.randrange(8)])[:60]
            for at in range(len(base) + 1):
                ops = base[:at] + [["raw", g.foreign()] for _ in range(r.choice((1, 1, 4)))] + base[at:]
                yield "song", {"ops": ops, "files": False, "at": at}
    elif k == "dense":
        for _ in range(g.n(18, 60)):
            base = g.music(r.choice((3, 15, 40))) if r.random() < 0.7 else g.chaos(80, keys=0.2)
            ops = []
            for o in base:
                ops += [["raw", g.foreign()] for _ in range(r.choice((0, 0, 1, 2)))] + [o]
            yield "song", {"ops": ops, "files": False}
    elif k == "huge":
        # blocks of many megabytes, and tens of thousands of commands between two of our own
        base = g.music(6, dense=0.2)
        if task["i"] == 0:
            for size in (1 << 20, (1 << 23) + 17, (1 << 24) + 5):
                unit = bytes((0x54, 0x08, 0x78, 0x61, 0x10, 0x27, 0x66))
                at = r.randrange(len(base) + 1)
                yield "huge", {"ops": base, "at": at, "unit": unit, "size": size, "kind": r.randrange(256)}
        else:
            ops = []
            for o in base:
                ops += [["raw", b"".join(g.foreign() for _ in range(r.choice((0, 300, 3000))))], o]
            yield "song", {"ops": [o for o in ops if o[1] != b""], "files": False}
    else:
        for _ in range(g.n(4, 12)):
            base = g.music(r.choice((2, 10)), dense=0.3)
            ops = []
            for o in base:
                ops += [["raw", g.foreign()] for _ in range(r.choice((0, 1, 2)))] + [o]
            yield "song", {"ops": ops, "files": True}


def run_song(case, ctx):
    own = [o for o in case["ops"] if o[0] != "raw"]
    with_others = model.program_vgm(case["ops"])
    alone = model.program_vgm(own)
    kinds = ("wait", "ym", "eos")
    a = [c for c in sut.decode(with_others) if c[1] in kinds]
    b = [c for c in sut.decode(alone) if c[1] in kinds]
    sut.same(a, b, "waits, YM2151 writes and end marker decoded")
    x, y = sut.process(with_others), sut.process(alone)
    chip = model.Chip().feed(own)
    for ch in range(8):
        ev = sut.events(x, ch)
        sut.same(ev, sut.events(y, ch), f"key events of channel {ch}")
        sut.same(ev, chip.events[ch], f"key events of channel {ch} (model)")
    sut.same(sut.instruments(x), sut.instruments(y), "instruments")
    sut.same(sut.instruments(x), chip.instruments, "instruments (model)")
    from props.c03 import observe

    sut.same(observe(x), observe(y), "chip state at the end")
    with sut.call("reading the onsets"):
        check(list(x.ticks()) == list(y.ticks()) == sorted(chip.onsets), "onsets")
    if case["files"]:
        tpn = model.estimate(chip.onsets)
        if tpn and max(e[0] for evs in chip.events for e in evs) // 64 // tpn < 150:
            src = os.path.join(ctx.scratch, "a.vgm")
            res = []
            for data in (with_others, alone):
                with open(src, "wb") as f:
                    f.write(data)
                ij, tx = os.path.join(ctx.scratch, "i"), os.path.join(ctx.scratch, "t")
                sut.cli_ok([src, "-i", ij, "-t", tx])
                res.append((sut.read_json(sut.read_file(ij)), xrns.parse(sut.read_file(tx))))
            sut.same(res[0], res[1], "exported files")
            xrns.check_song(res[0][1], chip.events, len(chip.instruments), tpn)
            ctx.counts["files"] += 2
    for o in case["ops"]:
        if o[0] == "raw":
            ctx.counts["inserted"] += 1
            ctx.seen["opcodes"].add(o[1][0])
            if o[1][0] == 0x67:
                ctx.seen["block_types"].add(o[1][2])
    ctx.counts["songs"] += 1
    ctx.counts["positions"] += "at" in case


def run_huge(case, ctx):
    data = (case["unit"] * (case["size"] // len(case["unit"]) + 1))[: case["size"]]
    ops = list(case["ops"])
    ops.insert(case["at"], ["raw", model.block(case["kind"], data)])
    run_song({"ops": ops, "files": False}, ctx)


ORACLES = {"huge": run_huge, "song": run_song}
