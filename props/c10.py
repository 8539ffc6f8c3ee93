"""C10: the song file is a complete, consistent Renoise song."""
import os

from lib import model, sut, xrns
from lib.sut import check
from props.c08 import at_times

ID, LEVEL = "C10", "exploration"
ROUNDS = 5  # of the tasks in a quick run, each with fresh random choices
RULE = ("Songs from key histories (empty, one event, thousands of rows, 0 to hundreds of instruments, all channel subsets, gaps of "
        "many patterns), written by function and command line; each archive is parsed and its structure (archive, document, "
        "tracks, instruments, patterns, line order and range, sequence, global fields) checked against the key history.")
REQUIRE = {"songs": 200, "patterns": 2000, "instrument_counts": 15, "pattern_counts": 15, "cli": 15}


def tasks(tier):
    t = [{"kind": "random", "i": i, "weight": 2} for i in range(8 if tier == "quick" else 64)]
    t += [{"kind": "sizes", "i": i, "weight": 2} for i in range(8 if tier == "quick" else 24)]
    t += [{"kind": "long", "i": i, "weight": 9, "once": True} for i in range(2)]
    t += [{"kind": "context", "i": i, "weight": 3} for i in range(4 if tier == "quick" else 16)]
    t += [{"kind": "edges", "i": i} for i in range(2 if tier == "quick" else 16)]
    t += [{"kind": "cli", "i": i} for i in range(4 if tier == "quick" else 16)]
    return t


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k in ("random", "cli"):
        for _ in range(g.n(18, 100) if k == "random" else g.n(6, 20)):
            ops = g.music(r.choice((1, 2, 10, 80)), base_changes=r.choice((0.0, 0.3))) if r.random() < 0.8 else g.chaos(200, keys=0.2)
            last = sum(o[1] for o in ops if o[0] == "wait")
            yield k, {"ops": ops, "tpn": max(1, g.edge(1, 9000), last // 64 // 300)}
    elif k == "long":
        # over 1000 patterns, over 1000 instruments
        if task["i"]:
            n = r.randrange(1010, 1200) * 64
            ops = [["w", 8, 0x78], ["wait", n - 70], ["w", 8, 0x79], ["wait", 70], ["w", 8, 1]]
            # and then dense patterns
            ops += [x for i in range(150) for x in (["wait", 1], ["w", 8, r.choice((0x78, 0)) | i % 3], ["w", 8, 0x78 | i % 3])]
            yield "random", {"ops": ops, "tpn": 1}
        else:
            yield "random", {"ops": g.growth(1040, wait=0.1), "tpn": r.choice((700, 6000))}
    elif k == "context":
        for _ in range(g.n(2, 8)):
            tpn = g.edge(1, 9000)
            n = r.randrange(1, 130 * tpn)
            ops = g.context(tpn, g.n(200, 1100), 0.5) + at_times(g, [r.randrange(1, n + 1) for _ in range(60)])
            yield "random", {"ops": ops, "tpn": tpn}
    elif k == "edges":
        # several events on the first and last lines of patterns, their neighbours empty
        for _ in range(g.n(12, 40)):
            tpn = r.choice((2, 5, 100, 735, r.randrange(2, 4000)))
            ts = []
            for p in range(r.randint(1, 6)):
                for line in r.sample((0, 1, 31, 32, 62, 63, 63, 0), r.randint(1, 5)):
                    ts += [(p * 64 + line) * tpn + r.choice((0, tpn - 1, r.randrange(tpn))) for _ in range(r.choice((1, 2, 3)))]
            yield "random", {"ops": at_times(g, ts, r.choice(([3], [0, 7], None))), "tpn": tpn}
    else:
        # chosen pattern counts and instrument counts
        for _ in range(g.n(8, 40)):
            pats = r.choice((0, 1, 1, 2, 3, 9, 10, 11, 16, 17, 64, 99, 100, 101, 128, r.randrange(1, 260)))
            insts = r.choice((0, 1, 2, 9, 10, 16, 17, 64, 99, 100, 127, 128, 129, 255, 256, 257, r.randrange(1, 300)))
            tpn = r.choice((1, 100, 735, 6000))
            ops = [["wait", r.randrange(3)]] if r.random() < 0.5 else []
            if pats:
                total = pats * 64 * tpn - 1 - (ops[0][1] if ops else 0)
                last = r.choice((total, total - 63 * tpn, total - r.randrange(64 * tpn - 2) if tpn > 2 else total))
                last = max(0, last)
                insts = max(1, insts)
                for i in range(insts):
                    ch = r.randrange(8)
                    ops += [["w", 0x18, i & 255], ["w", 0x19, i >> 8], ["w", 8, 0x78 | ch]]
                ops += [["wait", last], ["w", 8, r.randrange(8)]]
            yield "random", {"ops": ops, "tpn": tpn}


def verify(data, chip, tpn, ctx):
    doc = xrns.parse(data)
    xrns.check_structure(doc, chip.events, len(chip.instruments), tpn)
    xrns.check_skeleton(data)
    for i, t in enumerate(doc["SequencerTrack"]):
        check(t["name"] == f"Track {i + 1}", lambda: f"track {i} is named {t['name']!r}")
        check(t["state"] == "Active" and t["soloed"] == "false", lambda: f"track {i} is {t['state']}, soloed {t['soloed']}")
    for i, p in enumerate(doc["patterns"]):
        check(p["lines"] in (None, "64"), lambda: f"pattern {i} has {p['lines']} lines")
    ctx.counts["songs"] += 1
    ctx.counts["patterns"] += len(doc["patterns"])
    ctx.seen["instrument_counts"].add(len(chip.instruments))
    ctx.seen["pattern_counts"].add(len(doc["patterns"]))


def run_random(case, ctx):
    st, chip = sut.new_state(), model.Chip()
    sut.feed(st, case["ops"])
    chip.feed(case["ops"])
    verify(sut.export_song(st, os.path.join(ctx.scratch, "s.xrns"), case["tpn"]), chip, case["tpn"], ctx)


def run_cli(case, ctx):
    chip = model.Chip().feed(case["ops"])
    src, dst = os.path.join(ctx.scratch, "a.vgm"), os.path.join(ctx.scratch, "a.xrns")
    with open(src, "wb") as f:
        f.write(model.program_vgm(case["ops"]))
    if os.path.exists(dst):
        os.remove(dst)
    sut.cli_ok([src, "-t", dst, "-tn", case["tpn"]])
    check(os.path.exists(dst), "no song file was written")
    verify(sut.read_file(dst), chip, case["tpn"], ctx)
    ctx.counts["cli"] += 1


ORACLES = {"random": run_random, "cli": run_cli}
