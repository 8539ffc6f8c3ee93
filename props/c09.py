"""C09: the note column says what was keyed: pitch, instrument, panning, or a key-off."""
import os

from lib import model, sut, xrns
from lib.sut import check
from props.c08 import at_times

ID, LEVEL = "C09", "exploration"
ROUNDS = 4  # of the tasks in a quick run, each with fresh random choices
RULE = ("Every octave x chip note code x output side x key-on/off x channel, each with several instruments and fractions; ids up to "
        "beyond 255 (and 4095 in thorough); undefined note codes only have to give a well-formed note. Each cell of the written "
        "song is compared with the data-sheet pitch, hexadecimal instrument number and Renoise panning.")
REQUIRE = {"cells": 6000, "pitch_side": 500, "offs": 800, "high_ids": 200, "ids": 300}


def tasks(tier):
    t = [{"kind": "pitch", "ch": ch, "weight": 2} for ch in range(8)]
    t += [{"kind": "ids", "i": i, "weight": 5} for i in range(3 if tier == "quick" else 8)]
    t += [{"kind": "fractions", "i": i, "weight": 2} for i in range(4)]
    t += [{"kind": "context", "i": i, "weight": 2} for i in range(2 if tier == "quick" else 16)]
    t += [{"kind": "random", "i": i} for i in range(5 if tier == "quick" else 48)]
    return t


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "pitch":
        ch = task["ch"]
        combos = [(o, n, s) for o in range(8) for n in range(16) for s in range(4)]
        r.shuffle(combos)
        for part in range(0, len(combos), 64):
            ops = [["w", 8, 0x78 | (ch + 1) % 8]]
            for o, n, s in combos[part:part + 64]:
                ops += [["w", 0x20 + ch, s << 6 | r.randrange(2)], ["w", 0x28 + ch, o << 4 | n | r.choice((0, 128))],
                        ["w", 0x30 + ch, g.byte()], ["w", 0x28 + (ch ^ 1), g.byte()], ["w", 0x20 + (ch ^ 1), g.byte()]]
                ops += [["wait", 10], ["w", 8, r.choice((0x78, 0x78, 0x08, 0x40)) | ch]]
                if r.random() < 0.4:
                    if r.random() < 0.5:
                        ops += [["w", 0x20 + ch, r.randrange(4) << 6 | 1], ["w", 0x28 + ch, g.byte()]]
                    ops += [["wait", 10], ["w", 8, ch]]
            yield "song", {"ops": ops, "tpn": 10}
    elif k == "ids":
        n = g.n((270, 1050, 4200), (300, 530, 1200, 2000, 300, 4200, 4400, 700))[task["i"]]
        ops = [["w", 0x20 + c, 0xC0] for c in range(8)] + [["w", 0x28 + c, 0x4A] for c in range(8)]
        ids = list(range(n))
        for i in ids:
            ch = r.randrange(8)
            ops += [["w", 0x18, i & 255], ["w", 0x19, i >> 8 & 127], ["w", 8, 0x78 | ch], ["wait", 5]]
        for i in r.sample(ids, 40):
            ops += [["w", 0x18, i & 255], ["w", 0x19, i >> 8 & 127], ["w", 8, 0x78 | r.randrange(8)], ["wait", 5]]
        # some of them again, each on every row of a pattern
        for i in {0, 1, r.choice((9, 10, 15, 16, 99, 100)), r.choice((127, 128, 255, 256)), r.randrange(n)}:
            ops += [["w", 0x18, i & 255], ["w", 0x19, i >> 8 & 127]]
            for _ in range(64):
                ch = r.randrange(8)
                ops += [["w", 0x20 + ch, r.choice((0, 0x40, 0x80, 0xC0, 0xC0))]] * (r.random() < 0.2) + [["w", 8, 0x78 | ch], ["wait", 5]]
                if r.random() < 0.05:
                    ops += [["w", 8, ch]] + [["wait", 5]] * 64
        yield "song", {"ops": ops, "tpn": 5}
    elif k == "fractions":
        # every key code with the extreme fractions and some others
        combos = [(v, f) for v in range(task["i"], 128, 4) for f in (0, 1, 2, 31, 32, 61, 62, 63, r.randrange(64), r.randrange(64))]
        r.shuffle(combos)
        ch, ops = r.randrange(8), []
        for v, f in combos:
            ops += [["w", 0x20 + ch, r.choice((0, 0x40, 0x80, 0xC0, 0xC0))], ["w", 0x28 + ch, v], ["w", 0x30 + ch, f << 2 | r.randrange(4)],
                    ["w", 8, 0x78 | ch], ["wait", 10]]
        yield "song", {"ops": ops, "tpn": 10}
    elif k == "context":
        for _ in range(g.n(3, 8)):
            tpn = g.edge(1, 8000)
            yield "song", {"ops": g.context(tpn, 100) + at_times(g, [r.randrange(1, 130 * tpn) for _ in range(80)]), "tpn": tpn}
    else:
        for _ in range(g.n(15, 60)):
            ops = g.music(r.choice((5, 40, 120)), base_changes=0.1) if r.random() < 0.7 else g.chaos(200, keys=0.4)
            last = sum(o[1] for o in ops if o[0] == "wait")
            yield "song", {"ops": ops, "tpn": max(1, g.edge(1, 8000), last // 64 // 300)}


def run_song(case, ctx):
    tpn = case["tpn"]
    chip = model.Chip()
    if len(case["ops"]) % 2:
        # out of a file, with whatever its header says
        st = sut.process(model.program_vgm(case["ops"]))
    else:
        st = sut.new_state()
        sut.feed(st, case["ops"])
    chip.feed(case["ops"])
    doc = xrns.parse(sut.export_song(st, os.path.join(ctx.scratch, "s.xrns"), tpn))
    got = xrns.lines_of(doc)
    undefined = {}
    for key, lines in model.grid(chip.events, tpn).items():
        for i, ev in lines.items():
            cell = got.get(key, {}).get(i)
            where = f"pattern {key[0]} track {key[1]} line {i}"
            check(cell is not None, lambda: f"{where}: nothing there, expected {model.song_note(ev)}")
            xrns.check_cell(ev, cell, where)
            ctx.counts["cells"] += 1
            if ev[1] >= 0 and ev[5] not in model.NAMES:
                # no pitch of the chip: any note may stand for it, but always the same
                first = undefined.setdefault(ev[4:6], cell[0])
                check(cell[0] == first, lambda: f"{where}: octave {ev[4]} code {ev[5]} is {cell[0]!r} here and {first!r} elsewhere")
            if ev[1] < 0:
                ctx.counts["offs"] += 1
            else:
                ctx.seen["pitch_side"].add(ev[2:6])
                ctx.seen["ids"].add(ev[1])
                ctx.counts["high_ids"] += ev[1] > 255


ORACLES = {"song": run_song}
