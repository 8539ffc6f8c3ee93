"""C27: the extracted files are enough to play the music again."""
import os

from lib import model, sut, xrns
from lib.sut import check
from props.c07 import writes_for

ID, LEVEL = "C27", "exploration"
ROUNDS = 2  # of the tasks in a quick run, each with fresh random choices
RULE = ("Songs with at most one event per channel and line (structured ones over all instruments, sides, octaves and notes; random grids; "
        "sparse and dense; hundreds of patterns) are extracted, then rebuilt as a VGM stream from the two files alone and extracted again. "
        "Monitor: the events of the rebuilt stream in an independent chip model against those of the original, and both files again.")
REQUIRE = {"songs": 120, "events": 6000, "cli": 12, "instruments_rebuilt": 400, "patterns": 300, "note_side": 200}


def tasks(tier):
    t = [{"kind": "grid", "i": i} for i in range(8 if tier == "quick" else 64)]
    t += [{"kind": "music", "i": i} for i in range(6 if tier == "quick" else 48)]
    t += [{"kind": "cli", "i": i} for i in range(4 if tier == "quick" else 24)]
    t += [{"kind": "large", "i": i, "weight": 6, "once": True} for i in range(2)]
    return t


CODES = (0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14)


def grid_ops(g, tpn, rows, fill, patches, offs):
    """Events on a grid of rows, one per channel and row, somewhere within their row."""
    r = g.r
    sounds = [g.patch(r.choice((0.1, 1.0))) for _ in range(patches)]
    ops, now, first = [], 0, True
    for row in rows:
        at = sorted((row * tpn + r.choice((0, 0, tpn - 1, r.randrange(tpn))), r.random(), ch) for ch in range(8) if r.random() < fill)
        for t, _, ch in at:
            if t > now:
                ops.append(["wait", t - now])
                now = t
            if not first and r.random() < offs:
                ops.append(["w", 8, ch])
                continue
            first = False
            if r.random() < 0.7:
                ops += load(r.choice(sounds), ch)
            if r.random() < 0.1:
                ops.append(["w", r.choice((0x18, 0x19, 0x1B)), g.byte()])
            elif r.random() < 0.05:
                ops.append(["w", 0x0F, g.byte()])
            if r.random() < 0.9:
                ops += [["w", 0x28 + ch, r.randrange(8) << 4 | r.choice(CODES)]]
            ops += [["w", 0x20 + ch, r.choice((0x40, 0x80, 0xC0, 0xC0)) | r.randrange(64)]] if r.random() < 0.8 else []
            ops.append(["w", 8, r.choice((0x78, 0x78, 8 * r.randrange(1, 16))) | ch])
    return tidy(ops, r)


def load(patch, ch):
    return [["w", reg + ch, v] for reg, v in patch]


def tidy(ops, r):
    """The same with every note somewhere to be heard, at a pitch that has a name."""
    out = [["w", 0x20 + ch, r.choice((0x40, 0x80, 0xC0))] for ch in range(8)]
    for op in ops:
        if op[0] == "w" and op[1] & 0xF8 == 0x20 and not op[2] & 0xC0:
            op = ["w", op[1], op[2] | r.choice((0x40, 0x80, 0xC0))]
        elif op[0] == "w" and op[1] & 0xF8 == 0x28 and op[2] & 15 not in CODES:
            op = ["w", op[1], op[2] ^ 1]
        out.append(op)
    return out


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "grid":
        for _ in range(g.n(6, 16)):
            tpn = g.edge(1, 9000)
            n = r.choice((1, 3, 20, 70, 130))
            start = r.choice((0, 0, 1, 63, 64, 700, 64 * g.edge(1, 600) + r.randrange(64)))
            rows = sorted(r.sample(range(start, start + n * r.choice((1, 3))), n))
            yield "song", {"ops": grid_ops(g, tpn, rows, r.choice((0.1, 0.5, 1.0)), r.choice((1, 4, 20)), r.choice((0, 0.3, 0.6))), "tpn": tpn}
    elif k == "large":
        tpn = r.randrange(500, 8000)
        rows = range(1500) if task["i"] else sorted(r.sample(range(20000), 300))
        yield "song", {"ops": grid_ops(g, tpn, rows, 0.3, 300, 0.2), "tpn": tpn}
    elif k == "music":
        for _ in range(g.n(6, 16)):
            ops = g.music(r.choice((3, 20, 60)), base_changes=r.choice((0.05, 0.5)))
            # a step between any two events
            ops = [x for o in tidy(ops, r) for x in ((o, ["wait", 17]) if o[1] == 8 else (o,))]
            yield "song", {"ops": ops, "tpn": r.choice((17, 17, 16, 13))}
    else:
        for _ in range(g.n(4, 10)):
            tpn = g.edge(100, 9000)
            yield "cli", {"ops": grid_ops(g, tpn, range(r.choice((1, 30, 80))), 0.4, 4, 0.3), "tpn": tpn}


def well_posed(chip, tpn):
    """No line swallows an event, every sound is heard somewhere, every pitch has a name."""
    n = 0
    for evs in chip.events:
        rows = [e[0] // tpn for e in evs]
        if len(set(rows)) != len(rows):
            return False
        if any(e[1] >= 0 and model.song_note(e) is None for e in evs) or any(not e[2] and not e[3] for e in evs):
            return False
        n += len(evs)
    return n > 0 and max(e[0] for evs in chip.events for e in evs) // tpn < 64 * 4000


def rebuild(js, doc, tpn):
    """The operations that play what the two files say."""
    rows = {}
    for (p, ch), lines in xrns.lines_of(doc).items():
        for i, (note, instr, pan) in lines.items():
            rows.setdefault(p * 64 + i, []).append((instr is None, int(instr or "0", 16), ch, note, pan))
    ops, now = [], 0
    for row in sorted(rows):
        if row * tpn > now:
            ops.append(["wait", row * tpn - now])
            now = row * tpn
        for off, inst, ch, note, pan in sorted(rows[row], key=lambda c: c[:3]):
            sides = {None: 0xC0, "00": 0x40, "80": 0x80}.get(pan)
            check(sides is not None, lambda: f"line {row} of track {ch} has panning {pan!r}")
            if off:
                check((note or "").upper() == "OFF", lambda: f"line {row} of track {ch} has no instrument but note {note!r}")
                ops.append(["w", 8, ch])
                continue
            check(inst < len(js), lambda: f"line {row} of track {ch} plays instrument {inst} of {len(js)}")
            name, octave = note[:-1].rstrip("-"), int(note[-1])
            code = {v: k for k, v in model.NAMES.items()}.get(name)
            check(code is not None, lambda: f"line {row} of track {ch} has note {note!r}")
            ops.append(["w", 0x28 + ch, octave - (code == 14) << 4 | code])
            w = writes_for(js[inst], ch)
            c = js[inst]["channel"]
            check(ch == 7 or not (c["noise"] or c["noise_freq"]), lambda: f"track {ch} plays instrument {inst}, which needs the noise of channel 8")
            for reg, v in w:
                ops.append(["w", reg, v | sides if reg == 0x20 + ch else v])
    return ops


def heard(chip, tpn):
    """What the files can tell about each event."""
    return [[(e[0] // tpn, chip.instruments[e[1]] if e[1] >= 0 else None, *((e[2], e[3], e[4], e[5]) if e[1] >= 0 else ())) for e in evs]
            for evs in chip.events]


def verify(case, ctx, extract):
    tpn = case["tpn"]
    chip = model.Chip().feed(case["ops"])
    if not well_posed(chip, tpn):
        ctx.counts["skipped"] += 1
        return
    inst, song = extract(case["ops"], tpn)
    js, doc = sut.read_json(inst), xrns.parse(song)
    ops = rebuild(js, doc, tpn)
    again = model.Chip().feed(ops)
    sut.same(heard(again, tpn), heard(chip, tpn), "the music rebuilt from the files")
    inst2, song2 = extract(ops, tpn)
    sut.same(sut.read_json(inst2), js, "instruments extracted from the rebuilt music")
    doc2 = xrns.parse(song2)
    sut.same(doc2["patterns"] and [[t["lines"] for t in p["tracks"]] for p in doc2["patterns"]],
             doc["patterns"] and [[offs_unpanned(t["lines"], u["lines"]) for t, u in zip(p["tracks"], q["tracks"])]
                                  for p, q in zip(doc["patterns"], doc2["patterns"])], "song extracted from the rebuilt music")
    for k in ("globals", "instruments", "sequence"):
        sut.same(doc2[k], doc[k], f"{k} of the song extracted from the rebuilt music")
    sut.same(len(doc2["patterns"]), len(doc["patterns"]), "patterns of the rebuilt music")
    ctx.counts["songs"] += 1
    ctx.counts["events"] += sum(map(len, chip.events))
    ctx.counts["instruments_rebuilt"] += len(js)
    ctx.counts["patterns"] += len(doc["patterns"])
    for evs in chip.events:
        for e in evs:
            ctx.saw("note_side", (e[4], e[5], e[2], e[3]))


def offs_unpanned(lines, other):
    """Key-offs carry the sides of a moment nobody hears: take those from the other song."""
    return {i: (n, k, other[i][2] if k is None and i in other else p) for i, (n, k, p) in lines.items()}


def run_song(case, ctx):
    ij, tx = os.path.join(ctx.scratch, "i.json"), os.path.join(ctx.scratch, "t.xrns")

    def extract(ops, tpn):
        st = sut.new_state()
        sut.feed(st, ops)
        return sut.export_instruments(st, ij), sut.export_song(st, tx, tpn)

    verify(case, ctx, extract)


def run_cli(case, ctx):
    src, ij, tx = (os.path.join(ctx.scratch, n) for n in ("a.vgm", "i.json", "t.xrns"))

    def extract(ops, tpn):
        with open(src, "wb") as f:
            f.write(model.program_vgm(ops))
        sut.cli_ok([src, "-i", ij, "-t", tx, "-tn", tpn])
        ctx.counts["cli"] += 1
        return sut.read_file(ij), sut.read_file(tx)

    verify(case, ctx, extract)


ORACLES = {"song": run_song, "cli": run_cli}
