"""C02: key events are stamped with the exact total of the waits before them."""
import struct

from lib import model, sut, xrns
from lib.model import encode_wait
from lib.sut import check

ID, LEVEL = "C02", "exploration"
ROUNDS = 7  # of the tasks in a quick run, each with fresh random choices
RULE = ("Streams of key events separated by waits in every encoding (61, 62, 63, 7n, 8n, zero waits, splits), totals up to "
        "beyond 2^32 samples, up to tens of thousands of waits; distinct by bytes, non-trivial because each recorded event time "
        "is compared with the running sum; re-encodings of the same waits must give identical files.")
REQUIRE = {"events": 3000, "waits": 20000, "wait_opcode": 35, "reencodings": 40}


def tasks(tier):
    t = [{"kind": "each", "i": i} for i in range(4)]
    t += [{"kind": "random", "i": i} for i in range(8 if tier == "quick" else 48)]
    t += [{"kind": "long", "i": i} for i in range(4 if tier == "quick" else 16)]
    t += [{"kind": "reencode", "i": i, "weight": 3} for i in range(4 if tier == "quick" else 24)]
    t += [{"kind": "bulk", "i": i, "weight": 5, "once": True} for i in range(3)]
    t += [{"kind": "direct"}]
    return t


KEY = b"\x54\x08\x78"


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "each":
        # every single wait opcode, alone and repeated, before and between keys
        ws = [bytes([o]) for o in [0x62, 0x63] + list(range(0x70, 0x90))]
        ws += [b"\x61" + struct.pack("<H", n) for n in
               [0, 1, 2, 15, 16, 17, 254, 255, 256, 257, 734, 735, 736, 881, 882, 883, 32767, 32768, 65534, 65535]]
        ws += [b"\x61" + struct.pack("<H", r.randrange(65536)) for _ in range(60)]
        for w in ws[task["i"]::4]:
            for lead in (b"", b"\x70"):
                yield "stream", {"ops": [["raw", lead]] * bool(lead) + [["raw", KEY], ["raw", w], ["raw", KEY], ["raw", w],
                                                                       ["raw", w], ["raw", b"\x54\x08\x00"], ["raw", KEY]]}
                yield "stream", {"ops": [["raw", w]] * 5 + [["raw", KEY], ["raw", lead + w], ["raw", b"\x54\x08\x03"]]}
    elif k == "random":
        for _ in range(g.n(40, 400)):
            ops = []
            for _ in range(r.choice((2, 5, 20, 100, 400))):
                x = r.random()
                if x < 0.3:
                    ops.append(["raw", bytes((0x54, 8, r.choice((0, 0x78, 0x78, 8)) | r.randrange(8)))])
                elif x < 0.35:
                    ops.append(["raw", bytes((0x54, r.randrange(0x20, 0x100), g.byte()))])
                elif x < 0.4:
                    ops.append(["raw", g.foreign()])
                elif x < 0.8:
                    ops.append(["raw", g.command(r.choice(model.WAITS))])
                else:
                    ops.append(["raw", g.wait_bytes(g.edge(0, 140000))])
            yield "stream", {"ops": ops}
    elif k == "long":
        # many small waits, and totals past the 16-, 24-, 31- and 32-bit marks
        n = g.edge(5000, 40000)
        ws = [bytes([o]) for o in model.WAITS if o != 0x61]
        ops = [["raw", b"".join(r.choice(ws) for _ in range(n // 10))] if i % 2 else ["raw", KEY[:2] + bytes([0x78 | r.randrange(8)])]
               for i in range(20)]
        yield "stream", {"ops": ops}
        ops = []
        for mark in (1 << 16, 1 << 24, (1 << 31), (1 << 32)):
            if mark > 1 << 24 and task["i"] % 2:
                continue
            ops += [["many", (mark if mark <= 1 << 24 else 1 << 31) // 65535], ["raw", KEY], ["raw", g.wait_bytes(r.randint(0, 70000))],
                    ["raw", b"\x54\x08\x00"], ["raw", KEY]]
        yield "stream", {"ops": ops}
    elif k == "bulk":
        # every wait again, far into a long stream
        ops = [["raw", KEY]]
        if task["i"] == 2:
            # more of one kind than 16 bits count
            for w in (b"\x62", b"\x63", bytes((0x70 + r.randrange(32),)), b"\x61" + bytes((r.randrange(256), r.randrange(4)))):
                for _ in range(4):
                    ops += [["raw", w * (66000 // 4)], ["raw", bytes((0x54, 8, r.choice((0, 0x78)) | r.randrange(8)))]]
            yield "stream", {"ops": ops}
            return
        for n in (70000, 1 << 20, 3 << 20, 100):
            ops.append(["raw", model.block(0, bytes([r.choice((0, 0x54, 0x61, 0x66))]) * n) if task["i"] else b"\x5a\x08\x78" * (n // 8)])
            for w in [bytes([o]) for o in model.WAITS if o != 0x61] + [b"\x61\xff\xff", b"\x61\0\0", b"\x61\x01\x80"]:
                ops += [["raw", w], ["raw", bytes((0x54, 8, r.choice((0, 0x78)) | r.randrange(8)))]]
        yield "stream", {"ops": ops}
    elif k == "reencode":
        for _ in range(g.n(6, 40)):
            ops = g.music(r.choice((3, 10, 40)))
            yield "reencode", {"ops": ops, "tpn": r.choice((None, 735, 3000, g.edge(200, 9000))),
                               "bodies": [g.body(ops, 0), g.body(ops, 0), plain_body(ops)]}
    elif k == "direct":
        for _ in range(g.n(60, 400)):
            ops = [["w", 8, 0x78]]
            for _ in range(r.choice((3, 30))):
                ops += [["wait", g.edge(0, 1 << r.choice((4, 8, 16, 20, 31, 33, 40, 53, 54, 63, 64, 70)))], ["w", 8, r.choice((0x78, 0)) | r.randrange(8)]]
            yield "direct", {"ops": ops}


def plain_body(ops):
    return b"".join(encode_wait(o[1]) if o[0] == "wait" else model.op_bytes(o) for o in ops) + b"\x66"


def run_stream(case, ctx):
    body = b"".join(b"\x61\xff\xff" * op[1] if op[0] == "many" else op[1] for op in case["ops"]) + b"\x66"
    chip = model.run_stream(body)
    st = sut.process(model.vgm(body))
    got = [[e[0] for e in evs] for evs in sut.all_events(st)]
    sut.same(got, [[e[0] for e in evs] for evs in chip.events], "event times per channel")
    with sut.call("listing the onsets"):
        ticks = list(st.ticks())
    sut.same(ticks, sorted(chip.onsets), "onset times")
    ctx.count("events", sum(map(len, got)))
    for _, c in model.decode(body)[0]:
        if c[1] == "wait":
            ctx.counts["waits"] += 1
            ctx.seen["wait_opcode"].add(c[0])
    if chip.now >= 1 << 32:
        ctx.count("beyond_2_32")


def run_direct(case, ctx):
    st = sut.new_state()
    sut.feed(st, case["ops"])
    chip = model.Chip().feed(case["ops"])
    sut.same([[e[0] for e in evs] for evs in sut.all_events(st)], [[e[0] for e in evs] for evs in chip.events], "event times")
    ctx.count("events", sum(map(len, chip.events)))


def run_reencode(case, ctx):
    """The same waits encoded differently, through the command line."""
    outs = []
    chip = model.run_stream(case["bodies"][2])
    for i, body in enumerate(case["bodies"]):
        vgm, js, tr = (f"{ctx.scratch}/{n}" for n in ("a.vgm", "a.json", "a.xrns"))
        with open(vgm, "wb") as f:
            f.write(model.vgm(body))
        sut.cli_ok([vgm, "-i", js, "-t", tr] + (["-tn", case["tpn"]] if case["tpn"] else []))
        doc = xrns.parse(sut.read_file(tr))
        if case["tpn"]:
            xrns.check_song(doc, chip.events, len(chip.instruments), case["tpn"], content=False)
        outs.append((sut.read_file(js), doc))
    check(all(o == outs[0] for o in outs), lambda: "re-encoding the waits changed the output: "
          + next(sut.first_diff(list(o), list(outs[0])) for o in outs if o != outs[0]))
    ctx.count("reencodings", len(outs))
    ctx.count("events", sum(map(len, chip.events)))


ORACLES = {"stream": run_stream, "direct": run_direct, "reencode": run_reencode}
