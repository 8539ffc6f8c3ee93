"""C07: the instrument file is complete and faithful, and can be played back."""
import json
import os

from lib import model, sut
from lib.sut import check

ID, LEVEL = "C07", "exploration"
ROUNDS = 4  # of the tasks in a quick run, each with fresh random choices
RULE = ("Programs whose key-ons capture every value of every sound field of every operator, every operator mask and every "
        "chip-wide value; the exported JSON text (function and command line) is parsed and compared field by field, type by type "
        "with the data-sheet reading, then each instrument is written back to a fresh chip and must export identically.")
REQUIRE = {"instruments": 5000, "roundtrips": 3000, "field_value": 1100, "masks": 15, "cli_files": 20}


def tasks(tier):
    t = [{"kind": "fields", "i": i, "weight": 2} for i in range(8)]
    t += [{"kind": "random", "i": i} for i in range(8 if tier == "quick" else 48)]
    t += [{"kind": "long", "n": n, "weight": 5, "once": True} for n in (258, 1030, 2100)]
    t += [{"kind": "cli", "i": i} for i in range(4 if tier == "quick" else 16)]
    return t


FIELDS = {"dt1": 8, "mul": 16, "tl": 128, "ks": 4, "ar": 32, "ase": 2, "d1r": 32, "dt2": 4, "d2r": 32, "d1l": 16, "rr": 16}


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "fields":
        # every value of every register in a song of its own
        regs = [0x0F, 0x18, 0x19, 0x1B, 0x20, 0x38] + list(range(0x40, 0x100, 8))
        for reg in regs[task["i"]::8]:
            ch = 7 if reg == 0x0F else r.randrange(8)
            a = reg + ch if reg >= 0x20 else reg
            ops = [["w", x + ch, v] for x, v in g.patch()] + [["wait", 7]]
            for v in range(256):
                ops += [["w", a, v], ["w", 8, (0x78 if v % 3 else 8 * r.randrange(1, 16)) | ch]]
            yield "export", {"ops": ops}
    elif k == "random":
        yield "export", {"ops": []}
        yield "export", {"ops": [["w", 0x20, 255], ["w", 8, 0], ["wait", 100], ["w", 8, 3]]}
        for _ in range(g.n(12, 100)):
            yield "export", {"ops": g.music(r.choice((1, 5, 40)), base_changes=0.2, dense=1.0)}
        for _ in range(g.n(8, 60)):
            yield "export", {"ops": g.chaos(r.choice((20, 150)), keys=0.3)}
        for _ in range(g.n(2, 16)):
            yield "export", {"ops": g.context() + g.music(20, base_changes=0.2, dense=1.0)}
        for _ in range(g.n(2, 16)):
            # all distinct values of one voice: a field in the wrong place shows
            ch = r.randrange(8)
            ops = [["w", a, g.r.randrange(256)] for a in range(0x18, 0x100)]
            yield "export", {"ops": ops + [["w", 8, 8 * m | c] for m in range(1, 16) for c in (ch, 7)]}
    elif k == "long":
        yield "export", {"ops": g.growth(task["n"], base_changes=0.01)}
    else:
        for _ in range(g.n(6, 40)):
            yield "cli", {"ops": g.music(r.choice((1, 10, 60)), base_changes=0.3), "stdout": r.random() < 0.3}


def compare(js, want):
    check(isinstance(js, list), lambda: f"the instrument file holds a {type(js).__name__}, not a list")
    sut.same(js, want, "instrument file")
    # 1 == True: the types too
    typed(js, want, "")


def typed(a, b, at):
    if isinstance(b, dict):
        for k in b:
            typed(a[k], b[k], f"{at}.{k}")
    elif isinstance(b, list):
        for i, x in enumerate(b):
            typed(a[i], x, f"{at}[{i}]")
    elif type(a) is not type(b):
        raise sut.Mismatch(f"instrument file: {at} is {a!r}, expected {b!r}")


def writes_for(inst, ch):
    """Register writes that load an exported instrument into a channel and key it."""
    b, c = inst["base"], inst["channel"]
    w = [[0x18, b["lfo"]], [0x19, 0x80 | b["phs_md"]], [0x19, b["amp_md"]], [0x1B, model.WAVES.index(b["waveform"])],
         [0x20 + ch, c["feedback"] << 3 | c["connection"]], [0x38 + ch, c["pms"] << 4 | c["ams"]]]
    if ch == 7:
        w.append([0x0F, c["noise"] << 7 | c["noise_freq"]])
    for name, slot in model.SLOT.items():
        o, a = c[name], slot * 8 + ch
        w += [[0x40 + a, o["dt1"] << 4 | o["mul"]], [0x60 + a, o["tl"]], [0x80 + a, o["ks"] << 6 | o["ar"]],
              [0xA0 + a, o["ase"] << 7 | o["d1r"]], [0xC0 + a, o["dt2"] << 6 | o["d2r"]], [0xE0 + a, o["d1l"] << 4 | o["rr"]]]
    mask = sum(bit for bit, n in model.OPNAMES if n in inst["operators"].split("|"))
    return w + [[8, mask << 3 | ch]]


def roundtrip(js, ctx, path):
    st = sut.new_state()
    sut.wait(st, 1)
    for inst in js:
        c = inst["channel"]
        ch = 7 if c["noise"] or c["noise_freq"] else (inst["id"] * 3) % 7
        for reg, v in writes_for(inst, ch):
            sut.write(st, reg, v)
    back = sut.read_json(sut.export_instruments(st, path))
    sut.same(back, js, "instruments written back to a chip and exported again")
    ctx.counts["roundtrips"] += len(js)


def note_values(js, ctx):
    for i in js:
        ctx.seen["masks"].add(i["operators"])
        for name in model.SLOT:
            for f in FIELDS:
                ctx.seen["field_value"].add(f"{name}.{f}={i['channel'][name][f]}")
    ctx.counts["instruments"] += len(js)


def run_export(case, ctx):
    st, chip = sut.new_state(), model.Chip()
    sut.feed(st, case["ops"])
    chip.feed(case["ops"])
    p = os.path.join(ctx.scratch, "i.json")
    js = sut.read_json(sut.export_instruments(st, p))
    compare(js, chip.instruments)
    roundtrip(js, ctx, p)
    note_values(js, ctx)


def run_cli(case, ctx):
    chip = model.Chip().feed(case["ops"])
    src, dst = os.path.join(ctx.scratch, "a.vgm"), os.path.join(ctx.scratch, "a.json")
    with open(src, "wb") as f:
        f.write(model.program_vgm(case["ops"]))
    if os.path.exists(dst):
        os.remove(dst)
    if case["stdout"]:
        out = sut.cli_ok([src, "-i", "-", "-tn", "735"])
        at = out.index("\n[") + 1 if "\n[" in out else 0
        try:
            data = out[at: at + json.JSONDecoder().raw_decode(out[at:])[1]].encode()
        except ValueError as e:
            raise sut.Mismatch(f"no JSON on standard output: {e}")
    else:
        sut.cli_ok([src, "-i", dst, "-tn", "735"])
        data = sut.read_file(dst)
    js = sut.read_json(data)
    compare(js, chip.instruments)
    roundtrip(js, ctx, dst)
    note_values(js, ctx)
    ctx.counts["cli_files"] += 1


ORACLES = {"export": run_export, "cli": run_cli}
