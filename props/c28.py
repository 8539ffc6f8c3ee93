"""C28: sounds can be asked, compared and copied exactly."""
import copy
import json

from lib import model, sut
from lib.sut import check

ID, LEVEL = "C28", "exploration"
ROUNDS = 6
RULE = ("Instruments captured in random histories, asked for every parameter by name while the chip goes on, against the register file of their key-on; "
        "pairs of chip-wide, operator, channel and pitch settings that are equal or differ in exactly one parameter by any amount, compared both ways, "
        "with themselves, with copies and with strangers; copies changed parameter by parameter. Commands made by hand against the decoded ones.")
REQUIRE = {"asked": 2000, "equal": 1500, "different": 4000, "copies": 1000, "captured": 300, "commands": 65536}

BASE = {"lfo": 256, "phs_md": 128, "amp_md": 128, "waveform": 4}
OPER = {"total_level": 128, "attack_rate": 32, "first_decay_rate": 32, "first_decay_level": 16, "second_decay_rate": 32, "release_rate": 16,
        "key_scale": 4, "multiply": 16, "first_detune": 8, "second_detune": 4, "ase": 0}
PITCH = {"right": 0, "left": 0, "octave": 8, "note": 16, "key_fraction": 64}
CHAN = {"fb": 8, "ams": 4, "pms": 8, "connection": 8, "noise": 0, "noise_freq": 32}
JSON = {"total_level": "tl", "attack_rate": "ar", "first_decay_rate": "d1r", "first_decay_level": "d1l", "second_decay_rate": "d2r",
        "release_rate": "rr", "key_scale": "ks", "multiply": "mul", "first_detune": "dt1", "second_detune": "dt2", "fb": "feedback"}


def tasks(tier):
    m = 1 if tier == "quick" else 6
    t = [{"kind": "ask", "i": i} for i in range(4 * m)] + [{"kind": "pairs", "i": i} for i in range(8 * m)]
    return t + [{"kind": "commands", "i": i, "once": True} for i in range(4)]


def values(g, fields):
    """{field: value}: None and 0 limits are flags."""
    r = g.r
    k = r.random()
    return {f: (r.random() < 0.5 if not n else 0 if k < 0.2 else n - 1 if k < 0.4 else r.randrange(n)) for f, n in fields.items()}


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "ask":
        for _ in range(g.n(10, 30)):
            yield "ask", {"ops": r.choice((lambda: g.music(r.choice((5, 20, 40)), base_changes=0.2), lambda: g.chaos(150, keys=0.2)))(),
                          "more": g.chaos(60, keys=0.1)}
            if r.random() < 0.2:
                yield "ask", {"ops": g.context() + g.music(10, base_changes=0.2), "more": g.chaos(60, keys=0.1)}
    elif k == "pairs":
        for _ in range(g.n(12, 30)):
            yield "pairs", {"what": r.choice(("base", "operator", "pitch")), "seed": r.randrange(1 << 30), "values": None}
            yield "channels", {"channel": values(g, CHAN), "operators": [values(g, OPER) for _ in range(4)], "base": values(g, BASE), "mask": r.randrange(1, 16),
                               "to": [values(g, CHAN), [values(g, OPER) for _ in range(4)], values(g, BASE), r.randrange(1, 16)], "id": r.choice((0, 1, 255, 256, 4000))}
        for what, fields in (("base", BASE), ("operator", OPER), ("pitch", PITCH)):
            for _ in range(g.n(6, 20)):
                yield "pairs", {"what": what, "seed": r.randrange(1 << 30), "values": values(g, fields)}
    else:
        yield "commands", {"from": task["i"] * 64}


# ---------------------------------------------------------------- instruments
def asked(c):
    """What an instrument answers, in the form of its export."""
    ops = {}
    for name, slot in model.SLOT.items():
        o = c.operators[slot]
        ops[name] = {JSON.get(f, f): getattr(o, f) for f in OPER}
    return {"base": {"lfo": c.lfo, "phs_md": c.phs_md, "amp_md": c.amp_md, "waveform": c.waveform.name},
            "operators": "|".join(n for b, n in model.OPNAMES if int(c.enabled_operators.value) & b),
            "channel": {**{JSON.get(f, f): getattr(c, f) for f in CHAN}, **ops}}


# what other documents call them, and what is no part of a sound
NOBODYS = ("no_such_parameter", "lfrq", "lfo_freq", "amd", "pmd", "wf", "ct", "ne", "nfrq", "rl", "con", "feedback", "kc", "kf", "tl", "ar", "d1r", "d2r", "d1l", "rr", "mul",
           "dt1", "dt2", "ks", "octave", "note", "key_fraction", "left", "right", "pan", "sample", "timer_a", "LFO", "Fb", "fb2", "ams_", "m1", "c1", "m2", "c2", "total_level",
           "attack_rate", "release_rate", "multiply", "ase", "noise_frequency", "noise_enable")


def run_ask(case, ctx):
    st, chip = sut.new_state(), model.Chip()

    def look(what):
        with sut.call(f"asking the instruments {what}"):
            got = [asked(c) for c in st.configs]
        want = [{k: v for k, v in i.items() if k != "id"} for i in chip.instruments]
        sut.same(got, want, f"what the instruments answer {what}")
        ctx.counts["asked"] += len(got)
        for c in st.configs[-3:]:
            for x in NOBODYS:
                check(not has(c, x), lambda: f"an instrument has a parameter {x!r}, which nobody knows")
        check(not has(st, "no_such_parameter"), "the chip has a parameter nobody knows")

    for part in ("ops", "more"):
        for i, op in enumerate(case[part]):
            sut.feed(st, (op,))
            chip.feed((op,))
            if i % 25 == 24:
                look(f"after {i + 1} operations")
        look("at the end")
    sut.same(sut.instruments(st), chip.instruments, "instruments")
    # the captured sound and the one in the chip now
    for ch in range(8):
        now = chip.voice(ch), chip.base()
        with sut.call("comparing an instrument with the chip"):
            for c, i in zip(st.configs[-6:], chip.instruments[-6:]):
                voice = st.channel_config(ch)
                # chip-wide settings: from the same answers
                mine = sut.S.config.BaseConfig()
                for f in BASE:
                    setattr(mine, f, getattr(st, f))
                want = (i["channel"], i["base"]) == now
                got = c.compare(mine, voice, c.enabled_operators)
                check(bool(got) == want, lambda: f"instrument {i['id']} compared with channel {ch}: {got}")
                ctx.counts["captured"] += 1


def has(o, name):
    with sut.call("asking for an unknown parameter"):
        return hasattr(o, name)


# ---------------------------------------------------------------- settings
def make(what, vals):
    cfg = sut.S.config
    o = {"base": cfg.BaseConfig, "operator": cfg.OperatorConfig, "pitch": cfg.NoteConfig, "channel": cfg.ChannelConfig}[what]()
    fill(o, vals)
    return o


def fill(o, vals):
    for f, v in vals.items():
        setattr(o, f, sut.S.config.Waveform(v) if f == "waveform" else v)


def plain(what, o):
    fields = {"base": BASE, "operator": OPER, "pitch": PITCH, "channel": CHAN}[what]
    d = {f: getattr(o, f).value if f == "waveform" else getattr(o, f) for f in fields}
    if what == "channel":
        d["operators"] = [plain("operator", x) for x in o.operators]
    return d


def equal(a, b, what, ctx):
    with sut.call(f"comparing two {what} settings"):
        r = (a == b, b == a, a != b, b != a)
    check(r == (True, True, False, False), lambda: f"two {what} settings with the same parameters: ==, !=: {r}")
    ctx.counts["equal"] += 1


def different(a, b, what, where, ctx):
    with sut.call(f"comparing two {what} settings"):
        r = (a == b, b == a, a != b, b != a)
    check(r == (False, False, True, True), lambda: f"two {what} settings that differ in {where}: ==, !=: {r}")
    ctx.counts["different"] += 1


def strangers(a, what):
    with sut.call(f"comparing {what} settings with something else"):
        import types

        twin = types.SimpleNamespace(**{f: getattr(a, f) for k in (BASE, OPER, PITCH, CHAN) for f in k if hasattr(a, f)})
        if hasattr(a, "operators"):
            twin.operators = a.operators
        pitch = sut.S.config.NoteConfig()
        if what == "pitch":
            pitch = a
        for x in (None, 0, "x", (), object(), twin, vars(twin), sut.S.note.Note(0, pitch, 0), sut.S.config.BaseConfig(), sut.S.config.OperatorConfig(), sut.S.config.NoteConfig(), sut.S.config.ChannelConfig()):
            if type(x) is not type(a):
                check(not a == x and a != x and not x == a, lambda: f"{what} settings equal {x!r}")


def duplicate(o, what):
    with sut.call(f"copying {what} settings"):
        return copy.deepcopy(o)


def others(v, n, r):
    """Values of a field unlike v."""
    if not n:
        return [not v]
    return sorted({(v + 1) % n, (v - 1) % n, v ^ n >> 1, r.randrange(n), 0, n - 1} - {v})


def run_pairs(case, ctx):
    import random

    r = random.Random(case["seed"])
    what = case["what"]
    fields = {"base": BASE, "operator": OPER, "pitch": PITCH}[what]
    vals = case["values"]
    a = make(what, vals or {})
    b = make(what, vals or {})
    vals = vals or {f: (0 if n else False) for f, n in fields.items()}
    sut.same(plain(what, a), vals, f"{what} settings as filled in")
    equal(a, b, what, ctx)
    equal(a, a, what, ctx)
    strangers(a, what)
    for f, n in fields.items():
        for v in others(vals[f], n, r):
            c = make(what, {**vals, f: v})
            different(a, c, what, f, ctx)
            d = duplicate(a, what)
            check(d is not a, "a copy is the original")
            equal(a, d, what, ctx)
            fill(d, {f: v})
            equal(c, d, what, ctx)
            different(a, d, what, f, ctx)
            sut.same(plain(what, a), vals, f"{what} settings after a change of {f} in their copy")
            d2 = duplicate(d, what)
            fill(d, {f: vals[f]})
            sut.same(plain(what, d2), {**vals, f: v}, f"copied {what} settings after a change of {f} in the original")
            ctx.counts["copies"] += 1
    # changes of two parameters that might make up for each other
    f1, f2 = r.sample(sorted(fields), 2)
    for v1 in {(vals[f1] + d) % (fields[f1] or 2) for d in (1, -1)} - {vals[f1]}:
        for v2 in range(fields[f2] or 2):
            v1, v2 = (x if fields[f] else bool(x) for f, x in ((f1, v1), (f2, v2)))
            c = make(what, {**vals, f1: v1, f2: v2})
            with sut.call("comparing settings"):
                check(not a == c and c != a, lambda: f"{what} settings are equal that differ in {f1} ({vals[f1]}, {v1}) and {f2} ({vals[f2]}, {v2})")
            ctx.counts["different"] += 1
    # a swap of two values
    f1, f2 = r.sample(sorted(f for f in fields if fields[f] and f != "waveform"), 2)
    top = min(fields[f1], fields[f2])
    x, y = r.sample(range(top), 2)
    different(make(what, {**vals, f1: x, f2: y}), make(what, {**vals, f1: y, f2: x}), what, f"{f1} and {f2} swapped", ctx)
    exported(what, a, vals)


def exported(what, o, vals):
    with sut.call(f"exporting {what} settings"):
        got = json.loads(json.dumps(o, cls=sut.S.config.ConfigEncoder))
    want = {JSON.get(f, f) if what == "operator" else f: ("SAW", "SQUARE", "TRIANGLE", "NOISE")[v] if f == "waveform" else v for f, v in vals.items()}
    sut.same(got, want, f"exported {what} settings")


def run_channels(case, ctx):
    cfg = sut.S.config

    def channel(vals, ops):
        c = make("channel", vals)
        check(len(c.operators) == 4, lambda: f"a channel with {len(c.operators)} operators")
        for o, v in zip(c.operators, ops):
            fill(o, v)
        return c

    ch, ops, base, mask = case["channel"], case["operators"], case["base"], case["mask"]
    to_ch, to_ops, to_base, to_mask = case["to"]
    a, b = channel(ch, ops), channel(ch, ops)
    want = {**ch, "operators": [dict(o) for o in ops]}
    sut.same(plain("channel", a), want, "a channel's settings as filled in")
    equal(a, b, "channel", ctx)
    strangers(a, "channel")
    bc, flags = make("base", base), cfg.Operators(mask)
    with sut.call("making an instrument"):
        inst = cfg.Config(case["id"], bc, a, flags)
        check(inst.compare(make("base", base), b, cfg.Operators(mask)), "an instrument does not compare with its own parameters")
        check(inst.compare(duplicate(bc, "base"), duplicate(a, "channel"), flags), "an instrument does not compare with copies of its own parameters")
        check(int(inst.enabled_operators.value) == mask, "the operators of an instrument")

    def unlike(x, what, b2=None, f2=None):
        with sut.call("comparing an instrument"):
            got = inst.compare(b2 or bc, x, f2 if f2 is not None else flags)
        check(not got, lambda: f"an instrument compares with one that differs in {what}")

    variants = [({f: v}, None) for f, v in to_ch.items() if v != ch[f]]
    variants += [({}, (i, f, o[f])) for i, o in enumerate(to_ops) for f in OPER if o[f] != ops[i][f]]
    for chv, opv in variants:
        c, d = channel({**ch, **chv}, ops), duplicate(a, "channel")
        equal(a, d, "channel", ctx)
        fill(d, chv)
        what = str(chv)
        if opv:
            i, f, v = opv
            what = f"{f} of operator {i}"
            fill(c.operators[i], {f: v})
            fill(d.operators[i], {f: v})
        equal(c, d, "channel", ctx)
        different(a, c, "channel", what, ctx)
        different(a, d, "channel", what, ctx)
        sut.same(plain("channel", a), want, f"a channel's settings after a change of {what} in its copy")
        unlike(c, what)
        ctx.counts["copies"] += 1
    # operators in another order
    for i in range(4):
        for j in range(i):
            if ops[i] != ops[j]:
                swapped = list(ops)
                swapped[i], swapped[j] = ops[j], ops[i]
                c = channel(ch, swapped)
                different(a, c, "channel", f"operators {j} and {i} swapped", ctx)
                unlike(c, f"operators {j} and {i} swapped")
    for f, v in to_base.items():
        if v != base[f]:
            unlike(a, f, b2=make("base", {**base, f: v}))
    for m in range(1, 16):
        if m != mask:
            unlike(a, f"operators {m} instead of {mask}", f2=cfg.Operators(m))
    # two channels copied in one go
    x = channel(to_ch, to_ops)
    p, q = duplicate([a, x], "channel")
    equal(a, p, "channel", ctx)
    equal(x, q, "channel", ctx)
    check(p is not q and p is not a and q is not x, "copies of two channels are one, or the original")
    d = duplicate(a, "channel")
    with sut.call("listing the operators"):
        check(all(x is not y for x in d.operators for y in a.operators), "a copy of a channel shares operators with it")


def run_commands(case, ctx):
    for reg in range(case["from"], case["from"] + 64):
        cmds = sut.decode(model.vgm(b"".join(bytes((0x54, reg, v)) for v in range(256))))
        with sut.call("making commands"):
            made = [sut.norm(sut.S.config.create(reg, v)) for v in range(256)]
        sut.same(made, cmds, f"writes to {reg:#04x} made by hand, read from a stream")
        sut.same(made, [(0x54, "ym", reg, v) for v in range(256)], "writes made by hand")
        ctx.counts["commands"] += 256


ORACLES = {"ask": run_ask, "pairs": run_pairs, "channels": run_channels, "commands": run_commands}
