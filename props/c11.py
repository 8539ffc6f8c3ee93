"""C11: the song's tempo is the one its ticks per note stand for."""
import os

from lib import model, sut, xrns
from lib.sut import check

ID, LEVEL = "C11", "exploration"
ROUNDS = 3  # of the tasks in a quick run, each with fresh random choices
RULE = ("One song per ticks-per-note value: quick walks the values where floor(661500/n) steps, their neighbours and hundreds more up to 2^40; thorough "
        "walks every n up to 33000 and every step of the quotient above. Tempo and lines per beat are read back from the archive; "
        "long runs reuse one chip state, others use the command line with a given and with an estimated value. Distinct by value.")
REQUIRE = {"tempo": 2000, "steps": 800, "cli": 10, "estimated": 4}
TOTAL = 60 * 44100 // 4  # samples per minute / 4 rows per beat


def interesting():
    """Values where the quotient changes, and their neighbours."""
    out = set()
    q = 1
    for q in range(1, 820):
        n = TOTAL // q
        out.update(x for x in (n - 1, n, n + 1) if x > 0)
    out.update(n for n in range(1, 1200) if TOTAL % n == 0)
    return sorted(out)


def tasks(tier):
    if tier == "quick":
        return [{"kind": "walk", "i": i, "of": 8, "weight": 3} for i in range(8)] + [{"kind": "cli", "i": i} for i in range(4)] + [{"kind": "context", "i": i, "weight": 2} for i in range(4)]
    return ([{"kind": "context", "i": i, "weight": 2} for i in range(16)] + [{"kind": "all", "lo": lo, "hi": lo + 500, "weight": 3} for lo in range(1, 33001, 500)]
            + [{"kind": "walk", "i": i, "of": 8, "weight": 3} for i in range(8)] + [{"kind": "cli", "i": i} for i in range(16)])


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "all":
        for lo in range(task["lo"], task["hi"], 50):
            yield "values", {"ops": [], "values": list(range(lo, min(lo + 50, 33001)))}
    elif k == "context":
        # songs with many instruments, patterns, events; slow and fast ones
        for _ in range(g.n(3, 8)):
            tpn = r.choice((1, 2, 49, 100, 331, 661, 662, 735, 1000, 5512, 20672, 20671, 33000, g.edge(1, 40000)))
            ops = g.context(tpn, 100, 0.6) + g.music(3, period=max(1, tpn), lead=0)
            yield "values", {"ops": ops, "values": [tpn, tpn + 1]}
        # thousands of onsets, in the window of an estimate and out of it; hundreds of instruments
        n, gap = r.choice((1100, 2500, 5000)), r.choice((1, 5, 100, 3000))
        ops = []
        for i in range(n):
            ops += [["w", 0x18, i & 255]] * (i < 400 and r.random() < 0.7) + [["w", 8, r.choice((0x78, 0x78, 0x78, 0)) | r.randrange(8)], ["wait", gap]]
        low = max(1, n * gap // 64 // 100)
        yield "values", {"ops": ops, "values": sorted({max(low, v) for v in (1, 49, 331, 500, 662, 1000, 1323, 5512, 20671, g.edge(1, 40000))})}
    elif k == "walk":
        vs = interesting() + [735, 882, 1000, 1470, 1500, 2205, 3000, 4410, 5512, 6000, 6615, 7999, TOTAL - 1, TOTAL, TOTAL + 1,
                              1 << 31, 1 << 40]
        vs = sorted(set(vs))[task["i"]::task["of"]] + [g.edge(1, 700000) for _ in range(g.n(60, 600))]
        vs = sorted(set(vs))
        for i in range(0, len(vs), 40):
            ops = [] if r.random() < 0.7 else g.music(5, lead=0)
            yield "values", {"ops": ops if sum(o[1] for o in ops if o[0] == "wait") < 64 * 40 * vs[i] else [], "values": vs[i:i + 40]}
    else:
        for _ in range(g.n(4, 20)):
            yield "cli", {"ops": g.music(6), "tpn": max(400, g.edge(400, 9000))}
        for _ in range(g.n(2, 8)):
            p = r.randint(1000, 7999)
            yield "cli", {"ops": [x for i in range(40000 // p + 1) for x in (["w", 8, 0x78 | i % 8], ["wait", p])], "tpn": None}


def verify(data, tpn, ctx):
    g = xrns.parse(data)["globals"]
    want = TOTAL // tpn
    check(g["BeatsPerMin"] == str(want),
          lambda: f"{tpn} ticks per note: {g['BeatsPerMin']} beats per minute, expected {want}")
    check(g["LinesPerBeat"] == "4", lambda: f"{tpn} ticks per note: {g['LinesPerBeat']} lines per beat, expected 4")
    ctx.seen["tempo"].add(tpn)
    ctx.seen["steps"].add(want)


def run_values(case, ctx):
    if len(case["ops"]) % 2:
        st = sut.process(model.program_vgm(case["ops"]))
    else:
        st = sut.new_state()
        sut.feed(st, case["ops"])
    p = os.path.join(ctx.scratch, "s.xrns")
    for n in case["values"]:
        verify(sut.export_song(st, p, n), n, ctx)


def run_cli(case, ctx):
    src, dst = os.path.join(ctx.scratch, "a.vgm"), os.path.join(ctx.scratch, "a.xrns")
    with open(src, "wb") as f:
        f.write(model.program_vgm(case["ops"]))
    chip = model.Chip().feed(case["ops"])
    tpn = case["tpn"]
    if tpn is None:
        if not chip.onsets:
            return
        tpn = model.estimate(chip.onsets)
        sut.cli_ok([src, "-t", dst])
        ctx.counts["estimated"] += 1
    else:
        sut.cli_ok([src, "-t", dst, "-tn", tpn])
    verify(sut.read_file(dst), tpn, ctx)
    ctx.counts["cli"] += 1


ORACLES = {"values": run_values, "cli": run_cli}
