"""C03: chip state follows the YM2151 register map."""
from lib import model, sut
from lib.sut import check

ID, LEVEL = "C03", "exploration"
ROUNDS = 2  # of the tasks in a quick run, each with fresh random choices
RULE = ("Histories of register writes: every register x value from three base states, every ordered register pair, random "
        "histories with keys and waits in between; after the writes every reported parameter of the chip and all 8 channels "
        "(and, through key-ons, pitch, sides and the captured voice) is compared with a raw register file. Distinct by history.")
REQUIRE = {"writes": 100000, "probes": 60000, "reg_value": 60000, "key_probes": 3000, "late_probes": 10000, "streams": 200}

CH = ("fb", "feedback"), ("connection", "connection"), ("ams", "ams"), ("pms", "pms"), ("noise", "noise"), ("noise_freq", "noise_freq")
OP = (("total_level", "tl"), ("attack_rate", "ar"), ("first_decay_rate", "d1r"), ("first_decay_level", "d1l"),
      ("second_decay_rate", "d2r"), ("release_rate", "rr"), ("key_scale", "ks"), ("multiply", "mul"),
      ("first_detune", "dt1"), ("second_detune", "dt2"), ("ase", "ase"))


def tasks(tier):
    t = [{"kind": "each", "first": i, "last": i + 16, "base": b, "weight": 3} for i in range(0, 256, 16) for b in range(3)]
    t += [{"kind": "pairs", "first": i, "last": i + 16, "weight": 4} for i in range(0, 256, 16)]
    t += [{"kind": "random", "i": i, "weight": 2} for i in range(8 if tier == "quick" else 64)]
    t += [{"kind": "stream", "i": i} for i in range(4 if tier == "quick" else 32)]
    t += [{"kind": "late", "i": i, "weight": 9, "once": True} for i in range(5)]
    return t


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "each":
        for reg in range(task["first"], task["last"]):
            base = [["w", a, (0, 0xFF, None)[task["base"]] if task["base"] < 2 else g.byte()]
                    for a in range(256) if a != 8] if task["base"] else []
            if task["base"] == 2:
                r.shuffle(base)
            yield "each", {"ops": base, "reg": reg}
    elif k == "pairs":
        for a in range(task["first"], task["last"]):
            base = [["w", x, g.byte()] for x in range(256) if x != 8]
            ops = base
            for b in range(256):
                ops = ops + [["w", a, g.byte()], ["w", b, g.byte()]]
                if b % 16 == 15:
                    yield "history", {"ops": ops, "every": 0, "tail": 34}
                    ops = [["w", x, g.byte()] for x in r.sample(range(9, 256), 40)]
    elif k == "stream":
        for _ in range(g.n(60, 250)):
            ops = g.chaos(r.choice((5, 60, 200)), keys=0.15) if r.random() < 0.6 else g.music(r.choice((3, 30)), base_changes=0.3)
            yield "stream", {"ops": ops, "version": r.choice((0x100, 0x101, 0x110, 0x150, 0x150, 0x151, 0x161, 0x171, 0x172)), "salt": r.randrange(1 << 30)}
    elif k == "late":
        # the register map after a long life: many keys, many instruments, a late hour, many writes
        i = task["i"]
        if i == 0:
            ops = g.music(g.n(5000, 30000), channels=list(range(8)), patches=3, base_changes=0)
        elif i == 1:
            ops = [["wait", 1]] + [["w", 8, r.choice((0, 0x78)) | c] for c in range(8) for _ in range(g.n(1500, 9000))]
        elif i == 2:
            ops = g.growth(g.n(300, 1100), wait=0.1)
        elif i == 3:
            ops = [["wait", 1 << 31], ["w", 8, 0x78], ["wait", 1 << 31], ["w", 8, 0x79], ["wait", 1 << 32], ["w", 8, 0x7A]]
        else:
            ops = g.chaos(g.n(30000, 200000), keys=0, waits=0.01) + [["w", 8, 0x78 | c] for c in range(8)]
        yield "late", {"ops": ops, "values": [[0xFF, 0x80, 0] + [g.byte() for _ in range(4)] + [r.randrange(256) for _ in range(5)] for _ in range(256)], "every": 64}
    else:
        for _ in range(g.n(12, 120)):
            n = r.choice((5, 30, 120, 400))
            yield "history", {"ops": g.chaos(n, keys=0.1), "every": 1, "tail": 0}
        for _ in range(g.n(2, 10)):
            yield "history", {"ops": g.context() + g.chaos(150, keys=0.1), "every": 0, "tail": 140}
        for _ in range(g.n(4, 40)):
            yield "history", {"ops": g.music(r.choice((10, 60))), "every": 3, "tail": 0}
        for _ in range(g.n(8, 60)):
            # same value written again and again, alternating neighbours
            a = r.choice(range(0x20, 0x100))
            near = [a, a ^ 1, a ^ 8, a ^ 16, a ^ 32, a ^ 64, a ^ 128, (a + 1) & 255, (a - 1) & 255]
            near = [x for x in near if x >= 0x10]
            yield "history", {"ops": [["w", r.choice(near), g.byte()] for _ in range(120)], "every": 1, "tail": 0}


def observe(st, chans=range(8)):
    with sut.call("reading the chip state"):
        base = {"lfo": st.lfo, "phs_md": st.phs_md, "amp_md": st.amp_md, "waveform": st.waveform.name}
        voices = {}
        for ch in chans:
            c = st.channel_config(ch)
            v = {j: getattr(c, a) for a, j in CH}
            for name, slot in model.SLOT.items():
                o = c.operators[slot]
                v[name] = {j: getattr(o, a) for a, j in OP}
            voices[ch] = v
    return base, voices


def compare(st, chip, what, chans=range(8)):
    base, voices = observe(st, chans)
    sut.same(base, chip.base(), f"{what}: chip-wide parameters")
    for ch in chans:
        w = chip.voice(ch)
        if voices[ch] != w:
            sut.same(voices[ch], w, f"{what}: channel {ch}")


def probe_by_key(st, chip, ctx):
    """Keys every channel on and compares what the events and instruments captured."""
    if not chip.now:
        st.beat(1)
        chip.now = 1
    for ch in range(8):
        before = [len(sut.events(st, c)) for c in range(8)]
        sut.write(st, 8, 0x78 | ch)
        chip.write(8, 0x78 | ch)
        for c in range(8):
            evs = sut.events(st, c)
            check(len(evs) == before[c] + (c == ch), lambda: f"a key-on of channel {ch} left {len(evs) - before[c]} events on channel {c}")
        ev = sut.events(st, ch)[-1]
        check(ev[2:] == chip.events[ch][-1][2:],
              lambda: f"channel {ch}: key event has (right, left, octave, note, fraction) {ev[2:]}, registers say {chip.events[ch][-1][2:]}")
        ctx.count("key_probes")
    insts = sut.instruments(st)
    for ch in range(8):
        i = sut.events(st, ch)[-1][1]
        check(0 <= i < len(insts), lambda: f"channel {ch}: instrument {i} of {len(insts)}")
        got = {k: insts[i][k] for k in ("base", "channel")}
        sut.same(got, {"base": chip.base(), "channel": chip.voice(ch)}, f"instrument captured on channel {ch}")


def run_each(case, ctx):
    reg = case["reg"]
    st, chip = sut.new_state(), model.Chip()
    if reg == 8:
        st.beat(1)
        chip.now = 1
    sut.feed(st, case["ops"])
    chip.feed(case["ops"])
    compare(st, chip, "base state")
    for v in [x * 167 & 255 for x in range(256)]:
        sut.write(st, reg, v)
        chip.write(reg, v)
        compare(st, chip, f"after {reg:#04x}={v:#04x}")
        ctx.counts["writes"] += 1
        ctx.counts["probes"] += 1
        ctx.seen["reg_value"].add(reg << 8 | v)
        if v % 16 == reg % 16 and reg != 8:
            probe_by_key(st, chip, ctx)


def run_history(case, ctx):
    st, chip = sut.new_state(), model.Chip()
    ops, every, tail = case["ops"], case["every"], case["tail"]
    for i, op in enumerate(ops):
        sut.feed(st, (op,))
        chip.feed((op,))
        if op[0] == "w":
            ctx.counts["writes"] += 1
            ctx.seen["reg_value"].add(op[1] << 8 | op[2])
        if every and i % every == 0 or i >= len(ops) - tail:
            compare(st, chip, f"after operation {i} {op}")
            ctx.counts["probes"] += 1
    compare(st, chip, "at the end")
    probe_by_key(st, chip, ctx)
    compare(st, chip, "after keying")


def run_stream(case, ctx):
    """The same out of files, whatever their headers say."""
    data = model.program_vgm(case["ops"], version=case["version"])
    data = model.lifelike(data[:0x40], data[0x40:], case["salt"], keep=(0x10,)) + data[0x40:]
    st, chip = sut.process(data), model.Chip().feed(case["ops"])
    what = f"read from a version {case['version']:x} file"
    compare(st, chip, what)
    for ch in range(8):
        sut.same([e[2:] for e in sut.events(st, ch)], [e[2:] for e in chip.events[ch]], f"{what}: pitch and sides of channel {ch}'s events")
    probe_by_key(st, chip, ctx)
    ctx.counts["streams"] += 1


def run_late(case, ctx):
    st, chip = sut.new_state(), model.Chip()
    sut.feed(st, case["ops"])
    chip.feed(case["ops"])
    compare(st, chip, "after the preamble")
    for reg, values in enumerate(case["values"]):
        if reg == 8:
            continue
        for v in values:
            sut.write(st, reg, v)
            chip.write(reg, v)
            compare(st, chip, f"late: after {reg:#04x}={v:#04x}")
            ctx.counts["writes"] += 1
            ctx.counts["late_probes"] += 1
        if reg % case["every"] == case["every"] - 1:
            probe_by_key(st, chip, ctx)


ORACLES = {"each": run_each, "history": run_history, "late": run_late, "stream": run_stream}
