"""C20: the track table lists every row of the song once, with the last event of each channel."""
import contextlib
import io
import os
import re

from lib import model, sut
from lib.sut import check

ID, LEVEL = "C20", "exploration"
ROUNDS = 6  # of the tasks in a quick run, each with fresh random choices
RULE = ("Tables of key histories with collisions, boundary events, gaps, trailing single events, silent channels, all pitches, sides "
        "and fractions, ids beyond 255; every line of the table is parsed and compared with the grid of the model: numbering, "
        "patterns, and each channel's cell. Distinct by history and ticks per note.")
REQUIRE = {"tables": 250, "rows": 20000, "cells": 4000, "collisions": 300, "pitches": 90}
HEADER = ["Samples", "Row", "Pattern", "Total Row", "Fraction"] + [f"Channel {i}" for i in range(1, 9)]


def tasks(tier):
    return ([{"kind": "random", "i": i} for i in range(8 if tier == "quick" else 64)]
            + [{"kind": "boundary", "i": i} for i in range(8 if tier == "quick" else 32)]
            + [{"kind": "pitch", "ch": i} for i in range(8)] + [{"kind": "fractions", "i": i} for i in range(4)] + [{"kind": "context", "i": i, "weight": 2} for i in range(4)]
            + [{"kind": "ids", "i": 0}, {"kind": "long", "weight": 5, "once": True}])


def cases(task, g):
    from props.c08 import at_times

    r = g.r
    k = task["kind"]
    if k == "random":
        for _ in range(g.n(20, 60)):
            ops = g.music(r.choice((1, 3, 30, 120)), base_changes=0.05) if r.random() < 0.8 else g.chaos(150, keys=0.3)
            last = sum(o[1] for o in ops if o[0] == "wait")
            yield "table", {"ops": ops, "tpn": max(1, last // 3000, g.edge(1, 9000))}
        yield "table", {"ops": [], "tpn": 735}
        yield "table", {"ops": [["w", 8, 0], ["wait", 5000]], "tpn": 735}
        yield "table", {"ops": [["wait", r.randrange(9)], ["w", 8, 0x78 | r.randrange(8)]], "tpn": r.choice((1, 2, 735))}
    elif k == "boundary":
        for _ in range(g.n(12, 40)):
            tpn = r.choice((1, 2, 3, 735, 1000, 5512, g.edge(1, 20000)))
            ts = {max(0, r.choice((0, 1, 2, 63, 64, 65, 127, 128, r.randrange(400))) * tpn + r.choice((-1, 0, 0, 1, tpn - 1)))
                  for _ in range(r.choice((1, 2, 5, 60)))}
            yield "table", {"ops": at_times(g, ts, r.choice((None, [0], [7], [3, 4]))), "tpn": tpn}
        for _ in range(g.n(2, 8)):
            # times beyond 32 bits
            tpn = r.choice((1 << 24, 1 << 29, r.randrange(1 << 24, 1 << 34), g.edge(1 << 20, 1 << 32)))
            ts = {r.randrange(200) * tpn + r.choice((-1, 0, 1, r.randrange(tpn))) for _ in range(r.choice((2, 30)))}
            yield "table", {"ops": at_times(g, [max(0, t) for t in ts]), "tpn": tpn}
        for _ in range(g.n(4, 12)):
            tpn = r.randrange(20, 3000)
            yield "table", {"ops": at_times(g, [r.randrange(4 * tpn) for _ in range(80)]), "tpn": tpn}
    elif k == "pitch":
        ch = task["ch"]
        ops = [["w", 8, 0x78 | (ch + 1) % 8]]
        for v in r.sample(range(128), 128):
            ops += [["w", 0x28 + ch, v], ["w", 0x30 + ch, g.byte()], ["w", 0x20 + ch, r.choice((0x40, 0x80, 0xC0)) | r.randrange(2)],
                    ["wait", 10], ["w", 8, 0x78 | ch]]
        yield "table", {"ops": ops, "tpn": 10}
    elif k == "fractions":
        combos = [(v, f) for v in range(task["i"], 128, 4) for f in (0, 1, 2, 31, 32, 61, 62, 63, *r.sample(range(64), 4))]
        r.shuffle(combos)
        ch, ops = r.randrange(8), []
        for v, f in combos:
            ops += [["w", 0x20 + ch, r.choice((0x40, 0x80, 0xC0, 0xC0))], ["w", 0x28 + ch, v], ["w", 0x30 + ch, f << 2 | r.randrange(4)],
                    ["w", 8, 0x78 | ch], ["wait", 10]]
        yield "table", {"ops": ops, "tpn": 10}
    elif k == "context":
        for _ in range(g.n(2, 8)):
            tpn = g.edge(1, 9000)
            yield "table", {"ops": g.context(tpn, 300) + at_times(g, [r.randrange(1, 130 * tpn) for _ in range(80)]), "tpn": tpn}
    else:
        ops = []
        if k == "long":
            # tens of thousands of rows
            tpn = r.choice((1, 3))
            n = r.randrange(20000, 30000) * tpn
            yield "table", {"ops": at_times(g, [0, n] + [r.randrange(n) for _ in range(300)]), "tpn": tpn}
            yield "table", {"ops": at_times(g, range(0, 5000), [0, 0, 6]), "tpn": 2}
            # and rests of all lengths
            for rest in (r.randrange(2000, 10000), r.randrange(10000, 40000), 65536 + r.randrange(-2, 3), r.randrange(40000, 80000)):
                at = r.randrange(100)
                yield "table", {"ops": at_times(g, [at, at + rest * tpn, at + rest * tpn + r.randrange(9)]), "tpn": tpn}
        for i in range(300 if k == "ids" else 1100):
            ops += [["w", 0x18, i & 255], ["w", 0x19, i >> 8], ["w", 8, 0x78 | r.randrange(8)], ["wait", 7]]
        yield "table", {"ops": ops, "tpn": 7}


def check_cell(ev, text, where, names):
    if ev is None:
        check(text == "", lambda: f"{where}: {text!r}, expected nothing")
        return
    if ev[1] < 0:
        check(text.strip() == "Key Off", lambda: f"{where}: {text!r}, expected a key-off")
        return
    check(f"[{ev[1]}]" in text, lambda: f"{where}: {text!r}, expected instrument {ev[1]}")
    if ev[2] or ev[3]:
        pan = "" if ev[2] and ev[3] else "Pan R" if ev[2] else "Pan L"
        got = text.partition("]")[2].strip()
        check(got == pan, lambda: f"{where}: {text!r}, expected {pan or 'no panning'!r}")
    m = re.fullmatch(r"([A-G][ #?]?)-(\d+)(?:-(\d+))?", text.partition("[")[0].strip())
    check(m, lambda: f"{where}: {text!r} is no note")
    # a code the chip leaves undefined may have any name, but only one
    name = model.NAMES.get(ev[5]) or names.setdefault(ev[5], m[1].strip())
    check(m[1].strip() == name and int(m[2]) == ev[4], lambda: f"{where}: {text!r}, expected {name} in octave {ev[4]}")
    cents = ev[6] * 100 / 64
    if m[3] or ev[6] > 1:
        check(m[3] and abs(int(m[3]) - cents) <= 3, lambda: f"{where}: {text!r}, expected {cents:.1f} cents more")


def run_table(case, ctx):
    tpn = case["tpn"]
    st, chip = sut.new_state(), model.Chip()
    sut.feed(st, case["ops"])
    chip.feed(case["ops"])
    text = sut.export_table(st, os.path.join(ctx.scratch, "t.csv"), tpn)
    if len(case["ops"]) % 4 == 1:
        out = io.StringIO()
        with sut.call("exporting the track table to standard output"), contextlib.redirect_stdout(out):
            sut.S.extractors.extract_tracks(st, "-", tpn)
        check(out.getvalue().endswith("\n" + text), "the table on standard output is not the one in the file")
        ctx.counts["on_stdout"] += 1
    check(text.endswith("\n"), "the table does not end with a line end")
    lines = [ln.split(",") for ln in text.split("\n")[:-1]]
    check(lines and lines[0] == HEADER, lambda: f"the header is {lines[:1]}")
    last = max((e[0] // tpn for evs in chip.events for e in evs), default=-1)
    rows = lines[1:]
    check(len(rows) == last + 1, lambda: f"{len(rows)} rows, expected {last + 1}; last is {rows[-1] if rows else None}")
    grid, names = model.grid(chip.events, tpn), {}
    for i, row in enumerate(rows):
        check(len(row) == 13, lambda: f"row {i} has {len(row)} columns: {row}")
        check(row[1:4] == [str(i % 64), str(i // 64), str(i)], lambda: f"row {i} is numbered {row[1:4]} (row, pattern, total row)")
        for ch in range(8):
            ev = grid.get((i // 64, ch), {}).get(i % 64)
            check_cell(ev, row[5 + ch], f"row {i} channel {ch + 1}", names)
            if ev:
                ctx.counts["cells"] += 1
                if ev[1] >= 0:
                    ctx.seen["pitches"].add(ev[4:6])
    ctx.counts["tables"] += 1
    ctx.counts["rows"] += len(rows)
    ctx.counts["collisions"] += sum(map(len, chip.events)) - sum(map(len, grid.values()))


ORACLES = {"table": run_table}
