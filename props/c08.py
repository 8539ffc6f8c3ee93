"""C08: every key event lands on its own row of the song, and nothing else does."""
import os

from lib import model, sut, xrns
from lib.sut import check

ID, LEVEL = "C08", "exploration"
ROUNDS = 5  # of the tasks in a quick run, each with fresh random choices
RULE = ("Songs built from key histories with events on, one sample before and one after row and pattern boundaries, colliding "
        "rows, long gaps, one and eight channels, ticks per note from 1 to beyond the song; the written archive is read back and "
        "its set of (pattern, track, line) cells and each cell's content compared with the grid of the model.")
REQUIRE = {"cells": 2500, "collisions": 300, "boundary_events": 300, "patterns": 300, "songs": 150}


def tasks(tier):
    t = [{"kind": "boundary", "i": i, "weight": 2} for i in range(8 if tier == "quick" else 32)]
    t += [{"kind": "random", "i": i, "weight": 2} for i in range(8 if tier == "quick" else 64)]
    t += [{"kind": "long", "i": i, "weight": 9, "once": True} for i in range(2)]
    t += [{"kind": "context", "i": i, "weight": 3} for i in range(4 if tier == "quick" else 16)]
    t += [{"kind": "exact", "i": i, "weight": 2} for i in range(4 if tier == "quick" else 16)]
    t += [{"kind": "far", "i": i} for i in range(4 if tier == "quick" else 16)]
    return t


def at_times(g, times, chans=None):
    """A program with a key event at each time (sorted), several voices."""
    r = g.r
    chans = chans or list(range(8))
    ops, now = [["w", 0x20 + c, r.choice((0xC0, 0xC0, 0x40, 0x80)) | r.randrange(64)] for c in range(8)], 0
    first = True
    for t in sorted(times):
        if t > now:
            ops.append(["wait", t - now])
            now = t
        c = r.choice(chans)
        x = r.random()
        if x < 0.4:
            ops.append(["w", 0x28 + c, r.randrange(8) << 4 | r.choice(model.LEGAL_NOTES)])
        elif x < 0.5:
            ops.append(["w", 0x60 + c, r.randrange(128)])
        on = first or r.random() < 0.65
        ops.append(["w", 8, (r.choice((0x78, 0x78, 0x38, 8)) if on else 0) | c])
        first = False
    return ops


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "boundary":
        for _ in range(g.n(10, 40)):
            tpn = r.choice((1, 2, 3, 64, 735, 882, 1000, 1500, 5512, 7999, 44100, g.edge(1, 20000)))
            ts = set()
            for _ in range(r.choice((4, 30, 90))):
                row = r.choice((0, 1, 2, 62, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, r.randrange(600)))
                ts.add(max(0, row * tpn + r.choice((-1, 0, 0, 1, tpn - 1, tpn // 2))))
            yield "song", {"ops": at_times(g, ts, r.choice((None, [0], [7], [2, 5]))), "tpn": tpn, "stream": r.random() < 0.3}
    elif k == "random":
        for _ in range(g.n(14, 80)):
            x = r.random()
            if x < 0.6:
                ops = g.music(r.choice((3, 30, 120)), base_changes=0.03)
            else:
                tpn = g.edge(1, 8000)
                n = r.choice((1, 2, 10, 150))
                ops = at_times(g, [r.randrange(1, 1 + r.choice((n, 64, 5000, n * tpn))) for _ in range(n)])
            last = sum(o[1] for o in ops if o[0] == "wait")
            lo = max(1, last // 64 // 200)
            tpn = r.choice([t for t in (735, 882, 1470, 1764, 5512, 6000, 441) if t >= lo] or [lo])
            if r.random() < 0.5:
                tpn = g.edge(lo, max(lo, min(last + 2, 70000)))
            yield "song", {"ops": ops, "tpn": max(1, tpn), "stream": r.random() < 0.3}
        for _ in range(g.n(4, 20)):
            # everything on few rows: the last event of a row wins
            tpn = r.randrange(20, 3000)
            ops = at_times(g, [r.randrange(4 * tpn) for _ in range(80)], r.choice(([0], [3, 4], None)))
            yield "song", {"ops": ops, "tpn": tpn, "stream": False}
    elif k == "context":
        for _ in range(g.n(2, 8)):
            tpn = r.choice((1, 10, 735, 6000, g.edge(1, 9000)))
            pre = g.context(tpn, g.n(150, 1100), 0.5)
            yield "song", {"ops": pre + at_times(g, [r.randrange(1, 130 * tpn) for _ in range(60)]), "tpn": tpn, "stream": False}
        # full tracks: an event on every line of a pattern, several on some
        tpn = r.choice((2, 10, 735))
        lo = r.choice((0, 0, r.randrange(40))) * 64 * tpn
        ts = [lo + i * tpn + r.randrange(tpn) for i in range(64 * r.choice((1, 2))) for _ in range(r.choice((1, 1, 2, 3)))]
        yield "song", {"ops": at_times(g, ts, r.choice(([0], [7], [3, 4]))), "tpn": tpn, "stream": False}
        ops = []
        for i in range(64):
            ops += [["w", 8, 0x78 | c] for c in (0, 5)] + [["wait", tpn // 2], ["w", 8, 0 | r.choice((0, 5))], ["wait", tpn - tpn // 2]]
        yield "song", {"ops": ops, "tpn": tpn, "stream": False}
    elif k == "exact":
        # exact multiples that other arithmetic than whole numbers takes for the row before or behind
        for _ in range(g.n(2, 6)):
            tpn = r.choice([t for t in range(3, 9000) if int(t * 1.0) and any(int(q * t * (1.0 / t)) != q for q in range(1, 200))])
            hi = r.choice((300, 6000, 19000)) if g.tier == "quick" else r.choice((300, 19000, 80000))
            bad = [q for q in range(1, hi) if int(q * tpn * (1.0 / tpn)) != q or int(q * tpn / 44100 / (tpn / 44100)) != q]
            ts = sorted(r.sample(bad, min(len(bad), 40)) + bad[-10:])
            ts = sorted({q * tpn for q in ts} | {q * tpn - 1 for q in ts[-10:]})
            yield "song", {"ops": at_times(g, ts), "tpn": tpn, "stream": False}
    elif k == "long":
        # well over 1000 patterns, or over 1000 events in one track
        tpn = r.choice((1, 3))
        if task["i"]:
            n = r.randrange(1100, 1300) * 64 * tpn
            yield "song", {"ops": at_times(g, [0, 64 * tpn * 999, 64 * tpn * 1000 - 1] + [r.randrange(n) for _ in range(40)] + [n]),
                           "tpn": tpn, "stream": False}
            # rows beyond a million
            if task["i"] == 1:
                tpn = r.choice((1, 2, 735))
                lo = r.choice(((1 << 20) - 40, 1000000 - 20)) if g.tier == "quick" else r.choice(((1 << 20) - 40, (1 << 21) - 20))
                yield "song", {"ops": at_times(g, [0] + [(lo + k) * tpn for k in sorted(r.sample(range(100), 30))], [0, 7]), "tpn": tpn, "stream": False}
            # exact multiples beyond row 65536
            tpn = r.choice((49, 98, 103, 107, 161, 187, 197, 735, 919))
            bad = [q for q in range(65500, 67000) if int(q * tpn * (1.0 / tpn)) != q] or [65600]
            yield "song", {"ops": at_times(g, [q * tpn for q in bad[:40] + [65535, 65536, 65537]]), "tpn": tpn, "stream": False}
        else:
            yield "song", {"ops": at_times(g, range(0, 4500 * tpn, tpn), [0, 0, 0, 5]), "tpn": tpn, "stream": True}
            # a silence that needs more than 2**24 samples, and one beyond 2**32
            for total in (1 << 24, 1 << 32):
                tpn = total // 6400 + r.randrange(5)
                ts = [total + r.choice((-1, 0, 1, r.randrange(tpn * 100))) for _ in range(20)]
                yield "song", {"ops": at_times(g, [r.randrange(9)] + ts), "tpn": tpn, "stream": False}
    else:
        for _ in range(g.n(3, 10)):
            # long silences: many empty patterns in between
            tpn = r.choice((1, 7, 735, 6000))
            gap = r.randrange(1, g.n(300, 1200)) * 64 * tpn + r.randrange(64 * tpn)
            t0 = r.randrange(5)
            yield "song", {"ops": at_times(g, [t0, t0 + gap, t0 + gap + 1, t0 + gap + tpn]), "tpn": tpn, "stream": False}
        # no event at all, one event, ticks per note beyond the song
        yield "song", {"ops": [], "tpn": 735, "stream": True}
        yield "song", {"ops": [["w", 8, 0], ["wait", 99999]], "tpn": 735, "stream": True}
        yield "song", {"ops": [["w", 8, 0x78]], "tpn": g.edge(1, 100000), "stream": True}
        yield "song", {"ops": g.music(20), "tpn": 1 << 40, "stream": False}


def run_song(case, ctx):
    tpn = case["tpn"]
    chip = model.Chip().feed(case["ops"])
    if case["stream"]:
        st = sut.process(model.program_vgm(case["ops"]))
    else:
        st = sut.new_state()
        sut.feed(st, case["ops"])
    doc = xrns.parse(sut.export_song(st, os.path.join(ctx.scratch, "s.xrns"), tpn))
    n = xrns.check_song(doc, chip.events, len(chip.instruments), tpn)
    last = max((e[0] for evs in chip.events for e in evs), default=None)
    check(len(doc["patterns"]) >= (0 if last is None else last // tpn // 64 + 1), "the last event's pattern is missing")
    ctx.counts["songs"] += 1
    ctx.counts["cells"] += n
    ctx.counts["collisions"] += sum(map(len, chip.events)) - n
    ctx.counts["patterns"] += len(doc["patterns"])
    ctx.counts["boundary_events"] += sum(e[0] % tpn in (0, tpn - 1) for evs in chip.events for e in evs)


ORACLES = {"song": run_song}
