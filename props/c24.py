"""C24: the report lists the ten best shifts and the ticks per note really used."""
import contextlib
import fractions
import io
import os
import re

from lib import model, sut, xrns
from lib.sut import check
from props import c12

ID, LEVEL = "C24", "exploration"
ROUNDS = 2  # of the tasks in a quick run, each with fresh random choices
RULE = ("The onset histories of C12 (grids, ties, window edges, one onset, hundreds of them, long leads) are estimated with and without "
        "progress display, and by the command line with given and estimated ticks per note. Monitor: the printed candidates and their percentages "
        "against the exact scores of all 7000 shifts, the reported ticks against the argument, the list, and tempo and lines of the song written.")
REQUIRE = {"reports": 400, "candidates": 4000, "ties": 100, "cli": 60, "given": 20, "estimated": 20, "percentages": 300}


def tasks(tier):
    return c12.tasks(tier) + [{"kind": "used", "i": i} for i in range(4 if tier == "quick" else 24)]


def cases(task, g):
    r = g.r
    if task["kind"] == "used":
        for _ in range(g.n(10, 30)):
            p = r.randint(1000, 7999)
            ops = r.choice((lambda: c12.program(g, {p * j for j in range(40) if j == 0 or r.random() < 0.85}, r.choice((0, 5000, 99999))),
                            lambda: g.music(r.choice((1, 8, 30)))))()
            yield "cli", {"ops": ops, "tpn": r.choice((None, g.edge(100, 9000), g.edge(3, 1 << 33))), "what": r.choice(("-i", "-t", "-t", "-it"))}
        return
    for _, case in c12.cases(task, g):
        yield ("cli" if task["kind"] == "cli" else "report"), {"ops": case["ops"], "tpn": None, "what": "-t"}


LINE = re.compile(r"\s*(\d+): *(-?\d+(?:\.\d+)?) ?%\s*")


def candidates(out):
    return [(int(m[1]), m[2]) for m in map(LINE.fullmatch, out.splitlines()) if m]


def compare(got, chip, ctx):
    score = model.scores(chip.onsets)
    first = min(chip.onsets)
    n = sum(t - first < 32000 for t in chip.onsets)
    want = sorted(score, key=lambda d: (score[d], d))[:10]
    check([d for d, _ in got] == want, lambda: f"the report lists {[d for d, _ in got]}, the best shifts are {want}; onsets {sorted(chip.onsets)[:12]}")
    for d, text in got:
        exact = 100 * (1 - fractions.Fraction(score[d], 2 * n - 1))
        # two digits, however ties are rounded
        check(re.fullmatch(r"-?\d+\.\d\d", text) and abs(fractions.Fraction(text) - exact) <= fractions.Fraction(51, 10000),
              lambda: f"the report gives {text}% for a shift of {d}, of {2 * n - 1} onsets compared {score[d]} differ")
        ctx.saw("percentages", text)
    ctx.counts["reports"] += 1
    ctx.counts["candidates"] += len(got)
    ctx.counts["ties"] += len({score[d] for d in want}) < 10
    return want[0]


def run_report(case, ctx):
    st, chip = sut.new_state(), model.Chip().feed(case["ops"])
    if not chip.onsets:
        return
    sut.feed(st, case["ops"])
    for kw in ({}, {"show_progress": True}):
        out = io.StringIO()
        with sut.call("estimating ticks per note"), contextlib.redirect_stdout(out):
            est = st.ticks_per_note(**kw)
        best = compare(candidates(out.getvalue()), chip, ctx)
        check(est == best, lambda: f"the estimate is {est}, the first of the list {best}")


def run_cli(case, ctx):
    chip = model.Chip().feed(case["ops"])
    if not chip.onsets:
        return
    end = max(e[0] for evs in chip.events for e in evs)
    tpn = case["tpn"]
    if tpn is not None:
        tpn = max(tpn, end // 64 // 50 + 1)
    src, ij, tx = (os.path.join(ctx.scratch, n) for n in ("a.vgm", "a.json", "a.xrns"))
    with open(src, "wb") as f:
        f.write(model.program_vgm(case["ops"]))
    args = [src]
    song = "t" in case["what"] and (tpn is not None or end // 64 // model.estimate(chip.onsets) < 400)
    if song:
        args += ["-t", tx]
    if "i" in case["what"]:
        args += ["-i", ij]
    out = sut.cli_ok(args + (["-tn", tpn] if tpn else []))
    lines = candidates(out)
    if tpn is None:
        tpn = compare(lines, chip, ctx)
        ctx.counts["estimated"] += 1
    else:
        # what is not asked for need not be said, but must be right
        if lines:
            compare(lines, chip, ctx)
        ctx.counts["given"] += 1
    said = re.findall(r"^Ticks per Note: *(.*)$", out, re.M | re.I)
    check(said == [str(tpn)], lambda: f"the report says 'Ticks per Note: {said}', used are {tpn}")
    if song:
        doc = xrns.parse(sut.read_file(tx))
        xrns.check_song(doc, chip.events, len(chip.instruments), tpn, content=False)
        check(doc["globals"]["BeatsPerMin"] == str(661500 // tpn), lambda: f"{tpn} ticks per note reported, the song has a tempo of {doc['globals']['BeatsPerMin']}")
    ctx.counts["cli"] += 1


ORACLES = {"report": run_report, "cli": run_cli}
