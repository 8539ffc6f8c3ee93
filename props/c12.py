"""C12: the estimated ticks per note is the best-matching shift of the onsets."""
import os

from lib import model, sut
from lib.sut import check

ID, LEVEL = "C12", "exploration"
ROUNDS = 2  # of the tasks in a quick run, each with fresh random choices
RULE = ("Onset histories: regular grids of every kind of period, grids with gaps, jitter and noise, ties between shifts, one or two "
        "onsets, onsets straddling the end of the analysed window, repeated onsets and key-offs, any lead silence; the estimate is "
        "compared with a closed-form evaluation of all 7000 shifts, and must not depend on silence before the first note.")
REQUIRE = {"estimates": 400, "grids": 60, "ties": 20, "shifted": 100, "window_edge": 8, "cli": 8}


def tasks(tier):
    t = [{"kind": "grid", "i": i} for i in range(8 if tier == "quick" else 80)]
    t += [{"kind": "random", "i": i, "weight": 2} for i in range(8 if tier == "quick" else 80)]
    t += [{"kind": "edge", "i": i} for i in range(8 if tier == "quick" else 40)]
    t += [{"kind": "dense", "i": i, "weight": 3} for i in range(4 if tier == "quick" else 24)]
    t += [{"kind": "crowd", "i": i, "weight": 9, "once": True} for i in range(1 if tier == "quick" else 8)]
    t += [{"kind": "cli", "i": i} for i in range(4 if tier == "quick" else 12)]
    return t


def program(g, onsets, lead):
    """Key-ons at the given times, with key-offs, repeats and other writes that must not count."""
    r = g.r
    ops, now = [], 0
    if lead and r.random() < 0.5:
        ops += [["w", 8, r.randrange(8)]]
    for i, t in enumerate(sorted(onsets)):
        d = t + lead - now
        if d and i and r.random() < 0.5:
            a = r.randrange(d + 1)
            ops += [["wait", a], ["w", 8, r.randrange(8)], ["wait", d - a]]
        elif d:
            ops += [["wait", d]]
        now += d
        ch = r.randrange(8)
        if r.random() < 0.3:
            ops += [["w", 0x60 + ch, g.byte()]]
        ops += [["w", 8, r.choice((0x78, 0x78, 8)) | ch]]
        if r.random() < 0.2:
            ops += [["w", 8, 0x78 | (ch + 1) % 8]]
        if r.random() < 0.2:
            ops += [["w", 8, ch]]
    if r.random() < 0.3:
        ops += [["wait", r.randrange(5000)], ["w", 8, r.randrange(8)]]
    return ops


def lead_of(g):
    return g.r.choice((0, 0, 1, 735, 7999, 8000, 31999, 32000, 32001, 44100 * 60, g.edge(0, 1 << 21)))


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "grid":
        ps = [1000, 1001, 7999, 7998, 2000, 4000, 3999, 5512, 735 * 2, 882 * 2, 6000, 3000, 1500, 2205]
        for i in range(g.n(12, 30)):
            p = r.choice(ps) if r.random() < 0.4 else r.randint(1000, 7999)
            n = r.choice((32000 // p + 1, 32000 // p + 40, 200))
            yield "grid", {"ops": program(g, [p * j for j in range(n)], lead_of(g)), "period": p}
    elif k == "random":
        for _ in range(g.n(22, 40)):
            x = r.random()
            if x < 0.3:
                on = {r.randrange(45000) for _ in range(r.choice((1, 2, 3, 8, 40)))}
            elif x < 0.5:  # a rhythm over a grid, with rests and fast notes
                p = r.randint(400, 9000)
                on = {p * j // r.choice((1, 1, 1, 2, 3)) for j in range(60) if r.random() < 0.7} | {0}
            elif x < 0.65:  # frame-quantised
                f = r.choice((735, 882))
                p = r.randint(1000, 7999)
                on = {p * j // f * f for j in range(40)}
            elif x < 0.8:  # jitter of a sample or two
                p = r.randint(1000, 7999)
                on = {max(0, p * j + r.randint(-2, 2)) for j in range(40) if r.random() < 0.9}
            else:  # two voices at different speeds
                p, q = r.randint(800, 7999), r.randint(800, 7999)
                on = {p * j for j in range(30)} | {q * j + r.choice((0, r.randrange(q))) for j in range(30)}
            yield "one", {"ops": program(g, on, lead_of(g))}
        for _ in range(g.n(3, 10)):
            yield "one", {"ops": g.music(r.choice((2, 10, 60)))}
    elif k == "edge":
        for _ in range(g.n(10, 30)):
            x = r.random()
            if x < 0.35:  # what is just inside and outside of the window
                on = {0} | {r.randrange(32000) for _ in range(r.choice((1, 3, 8)))}
                on |= {32000 + d for d in r.sample((-2, -1, 0, 1, 2, 500), 3)}
            elif x < 0.7:  # equally good shifts: the smallest is taken
                a, b = sorted(r.sample(range(1000, 8000), 2))
                on = r.choice(({0, a, a + b}, {0, a, b}, {0, a, b, a + b}, {0, b, a + b}, {0, a}, {0, 500, a, a + 500, b, b + 500}))
            elif x < 0.85:  # at the ends of the range of shifts
                p = r.choice((999, 1000, 1001, 7998, 7999, 8000, 8001, 500, 250, 16000))
                on = {p * j for j in range(r.choice((2, 3, 40)))}
            else:
                on = {r.choice((0, 1, 5, 31999))} | {r.choice((999, 1000, 7999, 8000)) + r.choice((0, 1))}
            yield "one", {"ops": program(g, on, lead_of(g))}
    elif k == "dense":
        # hundreds of onsets in the window, thousands behind it
        for _ in range(g.n(2, 4)):
            x = r.random()
            if x < 0.4:
                on = {r.randrange(32000) for _ in range(r.choice((300, 1000)))} | {0}
            elif x < 0.7:
                p, n = r.randrange(1000, 8000), r.choice((8, 30))
                on = {p * j + r.randrange(n) * 10 for j in range(40) for _ in range(n)}
            else:
                p = r.randrange(20, 300)
                on = {p * j for j in range(33000 // p) if r.random() < 0.97} | {0}
            on |= {32000 + r.randrange(5000000) for _ in range(r.choice((0, 100, 2500)))}
            yield "one", {"ops": program(g, on, lead_of(g))}
    elif k == "crowd":
        # thousands of onsets in the window: two halves with beats of their own
        p, q = r.randrange(1000, 3000), r.randrange(1000, 6000)
        a, b = {x for x in range(p) if r.random() < 0.3}, {x for x in range(q) if r.random() < 0.3}
        cut = r.randrange(6000, 14000)
        on = {0} | {t for t in range(cut) if t % p in a} | {t for t in range(cut, 32400) if t % q in b}
        yield "crowd", {"ops": program(g, on, lead_of(g))}
    else:
        for _ in range(g.n(3, 10)):
            p = r.randint(1000, 7999)
            yield "cli", {"ops": program(g, {p * j for j in range(40) if j == 0 or r.random() < 0.85}, lead_of(g))}


def estimate(ops, ctx):
    st, chip = sut.new_state(), model.Chip()
    sut.feed(st, ops)
    chip.feed(ops)
    with sut.call("reading the onsets"):
        ticks = list(st.ticks())
    check(ticks == sorted(chip.onsets), lambda: f"onsets {sut.first_diff(ticks, sorted(chip.onsets))}")
    got = sut.estimate(st)
    # with its progress shown or not
    again = sut.estimate(st, show_progress=True) if len(ops) % 2 else sut.estimate(st)
    check(again == got, lambda: f"a second estimate gave {again}, the first {got}")
    ctx.counts["estimates"] += 1
    return got, chip


def run_one(case, ctx):
    got, chip = estimate(case["ops"], ctx)
    want = model.estimate(chip.onsets)
    if want is None:
        check(1000 <= got < 8000, lambda: f"estimate {got} for a song without notes")
        return
    check(got == want, lambda: f"estimated {got} ticks per note, the best shift is {want}; onsets {sorted(chip.onsets)[:12]}")
    score = model.scores(chip.onsets)
    ctx.counts["ties"] += sum(s == score[want] for s in score.values()) > 1
    t0 = min(chip.onsets)
    ctx.counts["window_edge"] += any(31990 <= t - t0 <= 32010 for t in chip.onsets)
    # silence before the first note must not matter
    ops = [["wait", 31999 + len(case["ops"]) * 731]] + case["ops"]
    moved, _ = estimate(ops, ctx)
    check(moved == got, lambda: f"{ops[0][1]} samples of silence in front change the estimate from {got} to {moved}")
    ctx.counts["shifted"] += 1


def run_crowd(case, ctx):
    st, chip = sut.new_state(), model.Chip().feed(case["ops"])
    sut.feed(st, case["ops"])
    got, want = sut.estimate(st, show_progress=len(case["ops"]) % 2 == 0), model.estimate(chip.onsets)
    check(got == want, lambda: f"estimated {got} ticks per note, the best shift is {want}; {len(chip.onsets)} onsets")
    with sut.call("reading the onsets"):
        check(list(st.ticks()) == sorted(chip.onsets), "the onsets are others than before the estimate")
    ctx.counts["estimates"] += 1


def run_grid(case, ctx):
    got, chip = estimate(case["ops"], ctx)
    check(got == case["period"], lambda: f"notes every {case['period']} samples are estimated at {got} ticks per note")
    check(model.estimate(chip.onsets) == got, "the model disagrees about a regular grid")
    ctx.counts["grids"] += 1
    run_one(case, ctx)


def run_cli(case, ctx):
    chip = model.Chip().feed(case["ops"])
    if not chip.onsets:
        return
    want = model.estimate(chip.onsets)
    src, dst = os.path.join(ctx.scratch, "a.vgm"), os.path.join(ctx.scratch, "a.json")
    with open(src, "wb") as f:
        f.write(model.program_vgm(case["ops"]))
    out = sut.cli_ok([src, "-i", dst])
    check(f"Ticks per Note: {want}" in out.splitlines(), lambda: f"the command line reports {out[-300:]!r}, expected {want}")
    ctx.counts["cli"] += 1


ORACLES = {"crowd": run_crowd, "one": run_one, "grid": run_grid, "cli": run_cli}
