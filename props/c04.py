"""C04: what a key event captured never changes afterwards."""
import os

from lib import model, sut, xrns
from lib.sut import check
from props.c03 import observe

ID, LEVEL = "C04", "exploration"
ROUNDS = 4  # of the tasks in a quick run, each with fresh random choices
RULE = ("Histories of register writes, keys and waits; a history monitor copies every key event and instrument the moment it "
        "appears, compares the instrument with the chip state of that moment, and re-reads all of them after later operations "
        "and after each export. Every sound register is rewritten after a key-on, with every bit flipped. Distinct by history.")
REQUIRE = {"rechecks": 20000, "instruments_captured": 1500, "overwrites": 2000, "exports": 60}
ACC = ("lfo", "phs_md", "amp_md", "waveform", "fb", "connection", "ams", "pms", "noise", "noise_freq")


def tasks(tier):
    t = [{"kind": "overwrite", "ch": ch, "weight": 2} for ch in range(8)]
    t += [{"kind": "random", "i": i, "weight": 2} for i in range(8 if tier == "quick" else 64)]
    t += [{"kind": "growth", "n": n, "weight": 9, "once": True} for n in (290, 600, 1100)]
    t += [{"kind": "crowd", "i": i, "weight": 9, "once": True} for i in range(2)]
    t += [{"kind": "context", "i": i, "weight": 3} for i in range(4 if tier == "quick" else 24)]
    t += [{"kind": "pitches", "i": i} for i in range(4)]
    t += [{"kind": "export", "i": i} for i in range(4 if tier == "quick" else 24)]
    return t


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "overwrite":
        ch = task["ch"]
        # load a voice, key it, then rewrite each register of the chip with each of its bits flipped
        regs = [a for a in range(0x0F, 0x100) if a not in (8,)]
        for chunk in range(0, len(regs), 8):
            ops = [["w", a, g.byte()] for a in range(0x0F, 0x100)] + [["wait", r.randint(1, 9)]]
            for a in regs[chunk:chunk + 8]:
                v = g.byte()
                ops += [["w", a, v], ["w", 8, 0x78 | ch], ["wait", 1]]
                for bit in r.sample(range(8), g.n(3, 8)):
                    ops += [["w", a, v ^ 1 << bit]]
                if r.random() < 0.4:
                    ops += [["w", 8, ch]]
                if r.random() < 0.4:
                    ops += [["w", 8, 0x78 | ch], ["w", a, v]]
            yield "history", {"ops": ops, "every": 2}
    elif k == "random":
        for _ in range(g.n(14, 120)):
            n = r.choice((10, 40, 120, 250))
            ops = g.chaos(n, keys=r.choice((0.1, 0.3))) if r.random() < 0.6 else g.music(n // 4 + 1, base_changes=0.2)
            yield "history", {"ops": ops, "every": 1 if len(ops) < 200 else 7}
        for _ in range(g.n(3, 20)):
            # one instrument keyed again and again while its registers move, base parameters included
            ch = r.randrange(8)
            regs = [r.choice((0x18, 0x19, 0x1B, 0x0F)), 0x20 + ch, 0x28 + ch, 0x30 + ch, 0x38 + ch,
                    r.choice(range(0x40 + ch, 0x100, 8))]
            ops = []
            for _ in range(60):
                ops += [["w", r.choice(regs), g.byte()]]
                if r.random() < 0.5:
                    ops += [["w", 8, 8 * r.choice((15, 15, 0, 1, 8, 5)) | r.choice((ch, ch, r.randrange(8)))]]
                if r.random() < 0.2:
                    ops += [["wait", r.randrange(1000)]]
            yield "history", {"ops": ops, "every": 1}
    elif k == "crowd":
        # tens of thousands of events, but hardly any instruments
        pre = [["w", 0x60 + c, g.byte()] for c in range(8)]
        ops = []
        for _ in range(25000):
            ops.append(["w", 8, r.choice((0x78, 0x78, 0)) | (0 if task["i"] else r.choice((0, 0, 0, r.randrange(8))))])
            if r.random() < 0.3:
                ops.append(["wait", r.choice((0, 1, 735))])
        yield "growth", {"ops": pre + ops, "checks": 14}
    elif k == "growth":
        # a list that keeps growing, chip-wide parameters moving at the end and in between
        ops = g.growth(task["n"], base_changes=r.choice((0, 0.02)))
        tail = [["w", r.choice((0x18, 0x19, 0x1B)), g.byte()] for _ in range(12)]
        tail = [x for w in tail for x in (w, ["w", 8, 0x78 | r.randrange(8)])]
        yield "growth", {"ops": ops + tail, "checks": 14}
    elif k == "context":
        for _ in range(g.n(2, 12)):
            yield "growth", {"ops": g.context() + g.music(30, base_changes=0.2) + g.chaos(40, keys=0.3), "checks": 8}
        tpn = g.edge(1, 9000)
        yield "export", {"ops": g.context(tpn, 40, 0.3) + g.music(10, base_changes=0.3), "more": g.music(5), "tpn": tpn}
    elif k == "pitches":
        # every pitch with many fractions, exported and read again
        pitches = [(v, f) for v in range(task["i"], 128, 4) for f in (0, 1, 2, 3, 31, 32, 61, 62, 63, r.randrange(64))]
        r.shuffle(pitches)
        ch = r.randrange(8)
        ops = [["w", 0x20 + ch, 0xC0]]
        for v, f in pitches:
            ops += [["w", 0x28 + ch, v], ["w", 0x30 + ch, f << 2], ["w", 8, 0x78 | ch], ["wait", 10]]
            if r.random() < 0.2:
                ops += [["w", 0x20 + ch, r.randrange(256)]]
        yield "export", {"ops": ops, "more": g.music(3), "tpn": 10}
    else:
        for _ in range(g.n(6, 40)):
            yield "export", {"ops": g.music(r.choice((5, 20, 60)), base_changes=0.2), "more": g.music(10, base_changes=0.3),
                             "tpn": g.edge(1, 9000)}


class Monitor:
    """Append-only history of what was captured."""

    def __init__(self, st, ctx):
        self.st, self.ctx = st, ctx
        self.events = [[] for _ in range(8)]
        self.held = [[] for _ in range(8)]  # the objects handed out
        self.insts = []
        self.held_inst = []

    def read_inst(self, c):
        d = {a: getattr(c, a) for a in ACC}
        d["ops"] = [{j: getattr(o, j) for j in ("total_level", "attack_rate", "first_decay_rate", "first_decay_level",
                                                  "second_decay_rate", "release_rate", "key_scale", "multiply",
                                                  "first_detune", "second_detune", "ase")} for o in c.operators]
        d["enabled"] = c.enabled_operators
        return d

    def recheck(self, what):
        st = self.st
        with sut.call("reading the history"):
            for ch in range(8):
                now = st.key_presses(ch)
                old = self.events[ch]
                check(len(now) >= len(old), lambda: f"{what}: channel {ch} lost key events: {len(now)} of {len(old)} left")
                for i, e in enumerate(old):
                    if sut.event(now[i]) != e:
                        raise sut.Mismatch(f"{what}: key event {i} of channel {ch} changed from {e} to {sut.event(now[i])}")
                    if sut.event(self.held[ch][i]) != e:
                        raise sut.Mismatch(f"{what}: a key event handed out earlier changed from {e} to {sut.event(self.held[ch][i])}")
                for n in now[len(old):]:
                    old.append(sut.event(n))
                    self.held[ch].append(n)
        got = sut.instruments(st)
        check(len(got) >= len(self.insts), lambda: f"{what}: {len(self.insts) - len(got)} instruments vanished")
        if got[: len(self.insts)] != self.insts:
            sut.same(got[: len(self.insts)], self.insts, f"{what}: an instrument changed")
        with sut.call("reading the instruments"):
            for c, d in self.held_inst:
                if self.read_inst(c) != d:
                    sut.same(self.read_inst(c), d, f"{what}: an instrument handed out earlier changed")
            for c in list(st.configs)[len(self.held_inst):]:
                self.held_inst.append((c, self.read_inst(c)))
        self.insts = got
        self.ctx.counts["rechecks"] += sum(map(len, self.events)) + len(got)


def key_op(st, chip, mon, op, ctx):
    """A key event, checked against the state it must have captured."""
    base, voices = observe(st, (op[2] & 7,))
    ch, mask = op[2] & 7, op[2] >> 3 & 15
    n0 = len(mon.insts)
    sut.feed(st, (op,))
    mon.recheck(f"after {op}")
    if not mask:
        check(len(mon.insts) == n0, "a key-off added an instrument")
        return
    e = mon.events[ch][-1]
    check(0 <= e[1] < len(mon.insts), lambda: f"key-on refers to instrument {e[1]} of {len(mon.insts)}")
    inst = mon.insts[e[1]]
    want = {"id": e[1], "base": base, "channel": voices[ch],
            "operators": "|".join(n for b, n in model.OPNAMES if mask & b)}
    sut.same(inst, want, f"instrument {e[1]} against the state at the key-on")
    ctx.counts["instruments_captured"] += 1


def run_history(case, ctx):
    st, chip = sut.new_state(), model.Chip()
    mon = Monitor(st, ctx)
    since = 0
    for i, op in enumerate(case["ops"]):
        if op[0] == "w" and op[1] == 8:
            key_op(st, chip, mon, op, ctx)
            since = 0
            chip.feed((op,))
            continue
        sut.feed(st, (op,))
        chip.feed((op,))
        if op[0] == "w" and mon.insts:
            ctx.counts["overwrites"] += 1
        since += 1
        if since % case["every"] == 0:
            mon.recheck(f"after operation {i} {op}")
    mon.recheck("at the end")
    for ch in range(8):
        sut.same(mon.events[ch], chip.events[ch], f"key events of channel {ch}")
    sut.same(mon.insts, chip.instruments, "instruments")


def run_growth(case, ctx):
    """A long history: re-read as a whole now and then, against itself and the model."""
    st, chip = sut.new_state(), model.Chip()
    mon = Monitor(st, ctx)
    ops = case["ops"]
    step = len(ops) // case["checks"] + 1
    cuts = sorted(set(range(0, len(ops), step)) | set(range(len(ops) - 20, len(ops) + 1)) & set(range(len(ops) + 1)))
    for a, b in zip(cuts, cuts[1:] + [len(ops)]):
        sut.feed(st, ops[a:b])
        chip.feed(ops[a:b])
        mon.recheck(f"after operation {b} of a long history")
        sut.same(mon.insts, chip.instruments, f"instruments after operation {b}")
    sut.same(mon.events, chip.events, "key events of a long history")
    ctx.saw("long_lists", len(mon.insts))


def run_export(case, ctx):
    st, chip = sut.new_state(), model.Chip()
    mon = Monitor(st, ctx)
    p = os.path.join(ctx.scratch, "x")
    tpn = case["tpn"]
    for part in (case["ops"], case["more"]):
        sut.feed(st, part)
        chip.feed(part)
        mon.recheck("after feeding")
        files = []
        for rnd in range(2):
            a = sut.export_instruments(st, p)
            mon.recheck("after exporting the instruments")
            now = max((e[0] for evs in chip.events for e in evs), default=0) // tpn
            b = c = b""
            if now < 20000:
                b = xrns.parse(sut.export_song(st, p, tpn))
                mon.recheck("after exporting the song")
                c = sut.export_table(st, p, tpn)
                mon.recheck("after exporting the track table")
            sut.estimate(st)
            mon.recheck("after estimating")
            files.append((a, b, c))
            ctx.counts["exports"] += 1
        sut.same(files[1], files[0], "exporting twice")
        sut.same(sut.all_events(st), chip.events, "key events after exporting")
        sut.same(sut.instruments(st), chip.instruments, "instruments after exporting")
    observed = observe(st)
    sut.same(observed[0], chip.base(), "chip-wide parameters after exporting")
    for ch in range(8):
        sut.same(observed[1][ch], chip.voice(ch), f"channel {ch} after exporting")


ORACLES = {"history": run_history, "growth": run_growth, "export": run_export}
