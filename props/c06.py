"""C06: every key event is recorded exactly once."""
import itertools

from lib import model, sut
from lib.model import encode_wait
from lib.sut import check

ID, LEVEL = "C06", "exploration"
ROUNDS = 8  # of the tasks in a quick run, each with fresh random choices
RULE = ("Key histories: every channel x operator mask after every mask, on every channel before; every ordering of up to four key "
        "events at one sample; repeated key-ons and key-offs, leading key-offs, thousands of events, times from 0 past 2^33; fed "
        "directly and as a stream. The recorded (time, instrument, sides, pitch) lists are compared with the model, event by event.")
REQUIRE = {"recorded": 15000, "leading_dropped": 100, "mask_pair": 2000, "orderings": 200}


def tasks(tier):
    t = [{"kind": "pairs", "ch": ch} for ch in range(8)]
    t += [{"kind": "orders", "i": i} for i in range(4)]
    t += [{"kind": "random", "i": i, "weight": 2} for i in range(8 if tier == "quick" else 48)]
    t += [{"kind": "long", "i": i, "weight": 3} for i in range(4 if tier == "quick" else 12)]
    t += [{"kind": "huge", "i": i, "weight": 6, "once": True} for i in range(2)]
    t += [{"kind": "context", "i": i, "weight": 2} for i in range(4 if tier == "quick" else 24)]
    t += [{"kind": "pitch", "i": i} for i in range(4)]
    return t


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "pairs":
        ch = task["ch"]
        for a in range(16):
            for lead in (0, 1):
                ops = [["wait", lead]] if lead else []
                if r.random() < 0.5:
                    ops += [["w", 8, 0x40 | (ch + 3) % 8]]
                for b in range(16):
                    ops += [["w", 8, a << 3 | ch], ["w", 8, b << 3 | ch | r.choice((0, 128))], ["wait", r.randrange(4)]]
                yield "keys", {"ops": ops, "start": 0, "tag": [ch, a]}
    elif k == "orders":
        alphabet = [0x78, 0x00, 0x79, 0x01, 0x08, 0x7F]
        for i, seq in enumerate(itertools.product(alphabet, repeat=4)):
            if i % 4 != task["i"]:
                continue
            if g.tier == "quick" and r.random() < 0.6:
                continue
            pre = r.choice(([], [["w", 8, 0x7A]], [["wait", 1]], [["w", 8, 0x7A], ["wait", 5]]))
            ops = pre + [["w", 8, v] for v in seq[:2]]
            ops += r.choice(([], [["wait", 1]], [["w", 0x28, g.byte()]])) + [["w", 8, v] for v in seq[2:]]
            yield "keys", {"ops": ops, "start": 0, "tag": "order"}
    elif k == "pitch":
        # pitch, fraction and sides of every channel at every key event
        for ch in range(task["i"], 8, 4):
            ops = [["w", 8, 0x78 | (ch + 1) % 8], ["wait", 1]]
            for v in range(256):
                a = r.choice((0x28, 0x30, 0x20))
                ops += [["w", 0x28 + ch, v & 127], ["w", a + ch, g.byte()], ["w", r.choice((0x20, 0x28, 0x30)) + (ch ^ 1), g.byte()],
                        ["w", 8, r.choice((0x78, 0x78, 0)) | ch], ["wait", r.randrange(2)]]
                if v % 64 == 63:
                    yield "keys", {"ops": ops, "start": 0, "tag": None}
                    ops = ops[:2]
    elif k == "random":
        for _ in range(g.n(40, 300)):
            x = r.random()
            if x < 0.4:
                ops = g.music(r.choice((4, 30, 120)), off=r.choice((0.2, 1.0)), same=r.choice((0.1, 0.7)))
            elif x < 0.7:
                ops = g.chaos(r.choice((30, 200)), keys=0.5, waits=r.choice((0.0, 0.1, 0.4)))
            else:
                ops = [["w", 8, r.choice((0, 0, 0x78, 0x78, 8 * r.randrange(16))) | r.choice((0, 0, r.randrange(8)))]
                       if r.random() < 0.7 else ["wait", g.gap()] for _ in range(r.choice((3, 10, 80)))]
            yield "keys", {"ops": ops, "start": r.choice((0, 0, 0, 1, g.edge(0, 1 << 33))), "tag": None}
    elif k == "context":
        for _ in range(g.n(3, 16)):
            ops = g.context(None if r.random() < 0.5 else 100)
            for _ in range(60):
                ops += [["w", 8, r.choice((0, 0x78, 0x78, 8 * r.randrange(16))) | r.choice((0, 0, 7, r.randrange(8)))]] * r.choice((1, 1, 2, 3))
                if r.random() < 0.4:
                    ops += [["wait", g.gap()]]
            yield "keys", {"ops": ops, "start": 0, "tag": None}
    elif k == "huge":
        # more events on one channel than 16 bits count
        ch = r.randrange(8)
        ops = [["w", 8, 0x78 | (ch + 1) % 8]]
        for i in range(66500):
            ops.append(["w", 8, (0x78 if r.random() < 0.6 else 0) | ch])
            if i & 7 == 0:
                ops.append(["wait", r.choice((0, 1, 735))] if task["i"] else ["w", 0x28 + ch, r.choice(model.LEGAL_NOTES)])
        yield "keys", {"ops": ops, "start": 0, "tag": None}
    else:
        n = g.edge(2000, g.n(12000, 60000))
        ops = []
        for _ in range(n):
            ops += [["w", 8, r.choice((0x78, 0)) | r.choice((0, 0, 5, r.randrange(8)))]]
            if r.random() < 0.4:
                ops += [["wait", r.choice((0, 1, 735, r.randrange(65536)))]]
        yield "keys", {"ops": ops, "start": r.choice((0, 1 << 31, (1 << 32) - 70000, 1 << 53)), "tag": None}


def run_keys(case, ctx):
    chip = model.Chip()
    if case["start"]:
        chip.now = case["start"]
    chip.feed(case["ops"])
    st = sut.new_state()
    if case["start"]:
        sut.wait(st, case["start"])
    sut.feed(st, case["ops"])
    compare(st, chip, "fed directly")
    if case["start"] < 1 << 20:
        ops = [["wait", case["start"]]] * bool(case["start"]) + case["ops"]
        compare(sut.process(model.program_vgm(ops)), chip, "decoded from a stream")
    ctx.counts["recorded"] += sum(map(len, chip.events))
    ctx.counts["leading_dropped"] += chip.dropped
    if case["tag"] == "order":
        ctx.counts["orderings"] += 1
    elif case["tag"]:
        for b in range(16):
            ctx.seen["mask_pair"].add((case["tag"][0] << 4 | case["tag"][1]) << 4 | b)


def compare(st, chip, how):
    for ch in range(8):
        got, want = sut.events(st, ch), chip.events[ch]
        if got != want:
            names = "(time, instrument, right, left, octave, note, fraction)"
            if len(got) != len(want):
                ts = [e[0] for e in got], [e[0] for e in want]
                raise sut.Mismatch(f"{how}: channel {ch} has {len(got)} key events, {len(want)} key writes count; "
                                   f"times {sut.first_diff(*ts)}")
            raise sut.Mismatch(f"{how}: channel {ch} {names}: {sut.first_diff(got, want)}")
        for a, b in zip(got, got[1:]):
            check(a[0] <= b[0], f"{how}: channel {ch} events out of order")


ORACLES = {"keys": run_keys}
