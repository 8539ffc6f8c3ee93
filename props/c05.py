"""C05: the instrument list is free of duplicates and loses no distinction."""
import os

from lib import model, sut
from lib.sut import check
from lib.gen import SOUND_REGS

ID, LEVEL = "C05", "exploration"
ROUNDS = 8  # of the tasks in a quick run, each with fresh random choices
RULE = ("Key-ons whose captured sound differs in exactly one bit, one field, a swap or a compensated sum of two fields, or not at "
        "all (other channel, other pan/pitch, undefined bits), in every register bit x channel x operator mask class; plus songs "
        "and lists of over a thousand instruments. Ids, list and order are compared with a raw-register identity model.")
REQUIRE = {"keyons": 12000, "single_bit": 1100, "same_sound_elsewhere": 300, "lists_over_250": 3}


def tasks(tier):
    t = [{"kind": "bits", "ch": ch, "weight": 2} for ch in range(8)]
    t += [{"kind": "masks", "i": i} for i in range(4)]
    t += [{"kind": "twist", "i": i, "weight": 2} for i in range(8 if tier == "quick" else 48)]
    t += [{"kind": "songs", "i": i} for i in range(4 if tier == "quick" else 32)]
    t += [{"kind": "context", "i": i, "weight": 2} for i in range(4 if tier == "quick" else 24)]
    t += [{"kind": "many", "i": i, "weight": 6} for i in range(3 if tier == "quick" else 10)]
    return t


def regs_of(ch):
    return [0x0F, 0x18, 0x19, 0x1B, 0x20 + ch, 0x28 + ch, 0x30 + ch, 0x38 + ch] + list(range(0x40 + ch, 0x100, 8))


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "bits":
        ch = task["ch"]
        for reg in regs_of(ch):
            base = [["w", a, g.byte()] for a in regs_of(ch)]
            v = g.byte()
            ops = base + [["w", reg, v], ["w", 8, 0x78 | ch]]
            for bit in range(8):
                ops += [["w", reg, v ^ 1 << bit], ["w", 8, 0x78 | ch], ["wait", 3], ["w", 8, ch],
                        ["w", reg, v], ["w", 8, 0x78 | ch]]
            yield "list", {"ops": ops, "tag": [reg, ch]}
    elif k == "masks":
        # the same voice under every pair of operator masks, on every channel
        for ch in range(8):
            p = g.patch()
            for a in range(task["i"], 16, 4):
                ops = [["w", x + c, v] for c in range(8) for x, v in p]
                for b in range(16):
                    ops += [["w", 8, a << 3 | ch], ["w", 8, b << 3 | ch], ["wait", r.randrange(3)],
                            ["w", 8, b << 3 | (ch + 1) % 8]]
                yield "list", {"ops": ops, "tag": None}
    elif k == "twist":
        for _ in range(g.n(40, 300)):
            ch = r.randrange(8)
            regs = [a for a in regs_of(ch)]
            file = {a: g.byte() for a in regs}
            ops = [["w", a, v] for a, v in file.items()] + [["w", 8, 0x78 | ch]]
            for _ in range(r.choice((6, 20))):
                x = r.random()
                a, b = r.sample(regs, 2)
                if x < 0.25:  # swap two registers
                    na, nb = file[b], file[a]
                elif x < 0.45:  # sum kept
                    d = r.choice((1, 1, 2, 16, 64))
                    na, nb = (file[a] + d) & 255, (file[b] - d) & 255
                elif x < 0.6:  # same change in two registers (exclusive or kept)
                    d = 1 << r.randrange(8)
                    na, nb = file[a] ^ d, file[b] ^ d
                elif x < 0.75:  # neighbouring operators
                    a = r.choice(range(0x40 + ch, 0x100, 8))
                    b = a ^ r.choice((8, 16, 24, 32))
                    b = b if b in file else a
                    na, nb = file[b], file[a]
                else:
                    na, nb = g.byte(), file[b]
                old = file[a], file[b]
                file[a], file[b] = na, nb
                ops += [["w", a, file[a]], ["w", b, file[b]], ["w", 8, 8 * r.choice((15, 15, 15, r.randrange(16))) | ch]]
                if r.random() < 0.3:
                    other = r.randrange(8)
                    ops += [["w", (x & ~7) | other if x >= 0x20 else x, v] for x, v in file.items()]
                    ops += [["w", 8, 0x78 | other]]
                if r.random() < 0.5:
                    file[a], file[b] = old
                    ops += [["w", a, file[a]], ["w", b, file[b]], ["w", 8, 0x78 | ch]]
            yield "list", {"ops": ops, "tag": None}
    elif k == "songs":
        for _ in range(g.n(12, 100)):
            x = r.random()
            if x < 0.5:
                ops = g.music(r.choice((10, 50, 150)), base_changes=0.15, patches=r.choice((1, 3, 8)))
            else:
                ops = g.chaos(r.choice((60, 300)), keys=0.3)
            yield "list", {"ops": ops, "tag": None}
    elif k == "context":
        for _ in range(g.n(3, 16)):
            ch = r.randrange(8)
            ops = g.context()
            for _ in range(30):
                ops += [["w", r.choice(regs_of(ch)), g.byte()], ["w", 8, 8 * r.choice((15, 15, 15, r.randrange(16))) | ch]]
                if r.random() < 0.3:
                    ops += [["w", 8, 0x78 | ch], ["wait", g.gap()]]
            yield "list", {"ops": ops + g.music(20), "tag": None}
    else:
        # a long list, then every instrument again in another order
        n = (300, 520, 1100)[task["i"] % 3]
        ch = r.randrange(7)
        pick = r.choice(([0x60 + ch, 0x18], [0x40 + ch, 0x80 + ch], [0x18, 0x19], [0xE0 + ch, 0xF8 + ch], [0x38 + ch, 0x68 + ch, 0xC8 + ch]))
        vals = set()
        while len(vals) < n:
            vals.add(tuple(r.randrange(128) for _ in pick))
        vals = sorted(vals)
        r.shuffle(vals)
        ops = []
        for vs in vals:
            ops += [["w", a, v] for a, v in zip(pick, vs)] + [["w", 8, 0x78 | ch], ["wait", r.randrange(50)]]
        again = r.sample(vals, min(n, g.n(150, 600)))
        for vs in again:
            ops += [["w", a, v] for a, v in zip(pick, vs)] + [["w", 8, 0x78 | ch]]
        yield "list", {"ops": ops, "tag": None}


def run_list(case, ctx):
    st, chip = sut.new_state(), model.Chip()
    sut.feed(st, case["ops"])
    chip.feed(case["ops"])
    got, want = sut.instruments(st), chip.instruments
    ids = [i["id"] for i in got]
    check(ids == list(range(len(got))), lambda: f"instrument ids are not consecutive: {ids[:40]}")
    seen = {}
    for i in got:
        key = repr({k: v for k, v in i.items() if k != "id"})
        check(key not in seen, lambda: f"instruments {seen[key]} and {i['id']} are the same sound")
        seen[key] = i["id"]
    # which key-ons share an instrument
    evs = sut.all_events(st)
    for ch in range(8):
        a, b = [e[1] for e in evs[ch]], [e[1] for e in chip.events[ch]]
        check(a == b, lambda: f"channel {ch}: instruments of the key events: {sut.first_diff(a, b)}")
        used = [x for x in a if x >= 0]
        check(all(x < len(got) for x in used), lambda: f"channel {ch} uses an instrument beyond the list of {len(got)}")
        ctx.counts["keyons"] += len(used)
    check({x for e in evs for x in (y[1] for y in e) if x >= 0} == set(range(len(got))), "an instrument no key-on uses")
    sut.same(got, want, "instrument list")
    exported = sut.read_json(sut.export_instruments(st, os.path.join(ctx.scratch, "i.json")))
    sut.same(exported, want, "exported instrument list")
    if case["tag"]:
        for bit in range(8):
            ctx.seen["single_bit"].add((case["tag"][0] << 4 | case["tag"][1]) << 3 | bit)
    ctx.counts["lists_over_250"] += len(got) > 250
    where = {}
    for ch in range(8):
        for e in evs[ch]:
            if e[1] >= 0:
                where.setdefault(e[1], set()).add(ch)
    ctx.counts["same_sound_elsewhere"] += sum(len(v) > 1 for v in where.values())


ORACLES = {"list": run_list}
