"""C26: work and memory follow the size of what is there, not the numbers in it."""
import contextlib
import gzip
import io
import os
import resource
import struct
import subprocess
import tracemalloc

from lib import model, steps, sut
from lib.sut import check

ID, LEVEL = "C26", "exploration"
RULE = ("Twins of streams, histories and songs that differ only in the numbers they hold (waits, times, block sizes, ticks), and the same material "
        "two, four and eight times over; hostile and cut streams claiming sizes up to 2 GB. Monitor: lines, jumps and calls executed in Python (sys.monitoring: "
        "exact and independent of the machine), the traced memory peak, and the resident memory of real processes.")
REQUIRE = {"twins": 120, "growth": 60, "hostile": 300, "memory": 40, "processes": 6, "steps": 20000000}


def tasks(tier):
    m = 1 if tier == "quick" else 8
    t = [{"kind": k, "i": i} for k in ("waits", "again", "hostile", "claims") for i in range(3 * m)]
    t += [{"kind": k, "i": i, "weight": 3} for k in ("window", "export", "bank") for i in range(3 * m)]
    t += [{"kind": "late", "i": i, "weight": 3} for i in range(2)]
    t += [{"kind": "many", "i": i, "weight": 5, "once": True} for i in range(3)]
    t += [{"kind": "gap", "i": i, "weight": 3, "once": True} for i in range(2)]
    t += [{"kind": "process", "i": i, "weight": 2} for i in range(3)]
    return t


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "waits":
        for _ in range(g.n(8, 20)):
            yield "waits", {"ops": g.music(r.choice((1, 10, 40)), lead=0), "seed": r.randrange(1 << 30)}
    elif k == "again":
        for _ in range(g.n(4, 10)):
            yield "again", {"body": g.body(g.music(r.choice((5, 30)), lead=0), foreign=r.choice((0, 0.3)), end=False)}
    elif k == "hostile":
        for _ in range(g.n(120, 300)):
            x = r.random()
            if x < 0.3:
                b = g.data(r.choice((0, 1, 5, 60, 3000)))
            elif x < 0.6:
                b = g.body(g.music(r.choice((1, 5)), lead=0))
                b = b[:r.randrange(len(b) + 1)]
            elif x < 0.8:
                b = b"".join(g.any_command() for _ in range(r.choice((3, 100))))
                b = b[:max(0, len(b) - r.randrange(12))]
            else:
                b = bytes((r.choice((0x54, 0x61, 0x66, 0x67, 0x68, 0x7F, 0x80, 0xFF, 0x30)),)) * r.choice((1, 2, 7, 1000))
            yield "hostile", {"data": b, "gz": r.random() < 0.3}
    elif k == "claims":
        for _ in range(g.n(8, 20)):
            size = r.choice((0x7FFFFFFF, 0xFFFFFFFF, 0x80000000, 1 << 30, 1 << 28, 0xFFFFFF, r.randrange(1 << 31)))
            yield "claims", {"size": size, "there": r.choice((0, 1, 100, 5000)), "opcode": r.choice((0x67, 0x67, 0x67, 0x68)), "kind": r.choice((0, 0x40, 0x80, 0xC0))}
        for _ in range(g.n(3, 8)):
            yield "sizes", {"sizes": [r.randrange(200), r.randrange(60000, 3000000)], "kind": r.randrange(256)}
    elif k == "window":
        for _ in range(g.n(2, 5)):
            inside = sorted({0} | {r.randrange(31999) for _ in range(r.choice((1, 8, 60)))})
            yield "window", {"inside": inside, "outside": sorted({32000 + r.randrange(1 << r.choice((20, 40))) for _ in range(3000)})}
    elif k == "export":
        for _ in range(g.n(4, 8)):
            tpn = r.randrange(20, 400)
            yield "scaled", {"ops": g.music(r.choice((5, 30)), period=tpn, lead=0), "tpn": tpn, "by": r.choice((1000, 1 << 20, 7777))}
            yield "longer", {"ops": g.music(20, period=tpn, lead=0), "tpn": tpn}
    elif k == "bank":
        for _ in range(g.n(2, 4)):
            n = r.choice((8, 16, 30))
            yield "bank", {"n": [n, 2 * n, 4 * n], "reg": r.choice((0x60, 0x68, 0x70, 0x78, 0x18)), "from": r.randrange(128)}
    elif k == "late":
        for _ in range(g.n(2, 5)):
            yield "late", {"channels": r.choice((1, 3, 8)), "waits": [r.randrange(1, 1 << r.choice((2, 12, 30))) for _ in range(5)], "voices": r.choice((1, 2, 4)),
                           "events": 6000}
    elif k == "many":
        yield "many", {"i": task["i"], "same": r.random() < 0.5}
    elif k == "gap":
        yield "gap", {"at_once": task["i"] == 0}
    else:
        yield "process", {"i": task["i"], "size": r.choice((0x7FFFFFFF, 0x60000000))}


def vgm(body):
    """Made without work that would be counted."""
    return model.vgm(body, ym2151=3579545)


def measure(fn, what, limit=200_000_000):
    """Steps fn takes, its result."""
    c = steps.count(limit)
    try:
        with c:
            out = fn()
    except steps.TooMany:
        raise sut.Mismatch(f"{what} takes more than {limit} steps")
    return c.n, out


def peak(fn):
    import gc

    gc.collect()
    tracemalloc.start(1)
    try:
        fn()
        return tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()


def alike(a, b, what, ctx, slack=1.0, base=5000):
    check(b <= a * (1 + slack) + base, lambda: f"{what}: {b} steps instead of {a}")
    ctx.counts["twins"] += 1
    ctx.counts["steps"] += a + b


def process(body):
    return sut.process(vgm(body))


def plain(ops, wait):
    """The same commands whatever the waits are: each is one of 16 bits."""
    return b"".join(b"\x61" + struct.pack("<H", wait(o[1])) if o[0] == "wait" else bytes((0x54, o[1], o[2])) for o in ops) + b"\x66"


def run_waits(case, ctx):
    import random

    r = random.Random(case["seed"])
    ops = case["ops"]
    small, mid, big = plain(ops, lambda n: 1), plain(ops, lambda n: r.randrange(65536)), plain(ops, lambda n: 65535)
    a, _ = measure(lambda: process(small), "processing")
    a, _ = measure(lambda: process(small), "processing")
    limit = 3 * a + 20000
    for body, name in ((mid, "random waits"), (big, "waits of 65535")):
        b, _ = measure(lambda: process(body), f"processing a song with {name} (with waits of 1: {a})", limit)
        alike(a, b, f"processing a song with {name} instead of 1", ctx)
    lo, _ = measure(lambda: process(b"\x54\x08\x78" + b"\x61\x01\x00" * 1000 + b"\x66"), "processing waits")
    hi, _ = measure(lambda: process(b"\x54\x08\x78" + b"\x61\xff\xff" * 1000 + b"\x66"), f"1000 waits of 65535 (of 1: {lo})", 20 * lo + 100000)
    alike(lo, hi, "1000 waits of 65535 instead of 1", ctx, slack=0.3, base=1000)
    for opcode in (b"\x62", b"\x63", b"\x7f", b"\x8f", b"\x61\xff\xff"):
        lo, _ = measure(lambda: process(b"\x54\x08\x78" + b"\x70" * 200 + b"\x66"), "processing waits")
        hi, _ = measure(lambda: process(b"\x54\x08\x78" + opcode * 200 + b"\x66"), f"200 waits {opcode.hex()} (with 70: {lo})", 20 * lo + 100000)
        # different branches of the decoder: more room
        alike(lo, hi, f"200 waits {opcode.hex()} instead of 70", ctx, slack=10, base=50000)

    def fed(by):
        st = sut.new_state()
        sut.feed(st, [["wait", o[1] * by] if o[0] == "wait" else o for o in ops])
        return st

    a, _ = measure(lambda: fed(1), "feeding")
    for by in (1000, 1 << 20, 1 << 34):
        b, _ = measure(lambda: fed(by), f"feeding with all waits {by} times as long ({a} before)", 3 * a + 20000)
        alike(a, b, f"feeding with all waits {by} times as long", ctx)
    p, q = peak(lambda: process(small)), peak(lambda: process(big))
    check(q <= 1.5 * p + 300000, lambda: f"processing takes {q} bytes with waits of 65535, {p} with waits of 1")
    ctx.counts["memory"] += 1


def run_again(case, ctx):
    body = case["body"]
    n = max(1, 3000 // max(1, len(body)))
    process(body + b"\x66")
    s = [measure(lambda: process(body * n * k + b"\x66"), f"processing {k} times the same")[0] for k in (1, 2, 4, 8)]
    for a, b in zip(s, s[1:]):
        check(b <= 2.5 * a + 20000, lambda: f"the same music 1, 2, 4 and 8 times over takes {s} steps")
    # the first time is when instruments are found
    check(s[3] - s[2] <= 2.6 * (s[2] - s[1]) + 20000, lambda: f"the same music 1, 2, 4 and 8 times over takes {s} steps")
    ctx.counts["growth"] += 3
    ctx.counts["steps"] += sum(s)
    d = [measure(lambda: sut.decode(vgm(body * n * k + b"\x66")), f"decoding {k} times the same")[0] for k in (1, 2, 4, 8)]
    for a, b in zip(d, d[1:]):
        check(b <= 2.3 * a + 5000, lambda: f"decoding the same 1, 2, 4 and 8 times over takes {d} steps")
    ctx.counts["growth"] += 3


def run_hostile(case, ctx):
    data = vgm(case["data"])
    what = f"{len(data)} bytes"
    if case["gz"]:
        data = gzip.compress(data)
    n, _ = measure(lambda: sut.decode_partial(data, 10 * len(case["data"]) + 100), f"decoding {what}", 20000 + 1000 * len(case["data"]))
    ctx.counts["hostile"] += 1
    ctx.counts["steps"] += n

    def all_of_it():
        with contextlib.redirect_stdout(io.StringIO()):
            r = sut.S.core.reader(io.BytesIO(data))
            with contextlib.suppress(Exception):
                sut.S.main.process_vgm_file(r)

    measure(all_of_it, f"processing {what}", 50000 + 4000 * len(case["data"]))


def claim(case):
    if case["opcode"] == 0x67:
        head = b"\x67\x66" + bytes((case["kind"],)) + struct.pack("<I", case["size"])
    else:
        head = b"\x68\x66" + bytes((case["kind"],)) + b"\x00" * 6 + struct.pack("<I", case["size"])[:3]
    return b"\x54\x08\x78" + head + b"\x66" * case["there"]


def run_claims(case, ctx):
    data = vgm(claim(case))
    sut.decode_partial(data, 10000)
    # what a stream claims to hold is not there: nothing is made of it
    p = peak(lambda: measure(lambda: sut.decode_partial(data, 10000), f"decoding a block said to have {case['size']} bytes", 100000 + 300 * case["there"]))
    check(p <= 1000000 + 400 * case["there"], lambda: f"decoding {len(data)} bytes, a block said to have {case['size']} bytes among them, takes {p} bytes of memory")
    ctx.counts["memory"] += 1


def run_sizes(case, ctx):
    def body(n):
        return b"\x54\x08\x78" + model.block(case["kind"], b"\x66" * n) + b"\x61\x01\x00\x66"

    a, b = (vgm(body(n)) for n in case["sizes"])
    sut.decode(a)
    x, _ = measure(lambda: sut.decode(a), "decoding")
    y, _ = measure(lambda: sut.decode(b), f"decoding a data block of {case['sizes'][1]} bytes ({case['sizes'][0]} bytes: {x} steps)", 3 * x + 20000)
    alike(x, y, f"decoding a data block of {case['sizes'][1]} bytes instead of {case['sizes'][0]}", ctx)


def run_window(case, ctx):
    def state(onsets):
        ops, now = [], 0
        for t in onsets:
            ops += [["wait", t - now], ["w", 8, 0x78]]
            now = t
        st = sut.new_state()
        sut.feed(st, ops)
        return st

    one, two, late = state(case["inside"]), state(case["inside"] + case["outside"]), state([t + (1 << 33) for t in case["inside"]])
    a, x = measure(lambda: sut.estimate(one), "estimating")
    b, y = measure(lambda: sut.estimate(two), f"estimating with 3000 onsets more behind the window ({a} without)", 3 * a + 2000000)
    alike(a, b, "estimating with 3000 onsets more behind the window", ctx, base=100 * len(case["outside"]))
    c, z = measure(lambda: sut.estimate(late), f"estimating after 2^33 samples of silence ({a} without)", 3 * a + 2000000)
    alike(a, c, "estimating after 2^33 samples of silence", ctx)
    check(x == y == z, lambda: f"estimates {x}, {y}, {z}")
    check(a <= 20000 * (60 + 80 * len(case["inside"])), lambda: f"estimating takes {a} steps for {len(case['inside'])} onsets")
    ctx.counts["growth"] += 2


def exports(st, tpn, ctx, limit=200_000_000):
    song, table, inst = (os.path.join(ctx.scratch, n) for n in ("a.xrns", "a.csv", "a.json"))
    return {"the song": measure(lambda: sut.export_song(st, song, tpn), "exporting the song", limit)[0],
            "the track table": measure(lambda: sut.export_table(st, table, tpn), "exporting the track table", limit)[0],
            "the instruments": measure(lambda: sut.export_instruments(st, inst), "exporting the instruments", limit)[0]}


def stretched(ops, by):
    st = sut.new_state()
    sut.feed(st, [["wait", o[1] * by] if o[0] == "wait" else o for o in ops])
    return st


def run_scaled(case, ctx):
    """The same rows, however long each is."""
    one, two = stretched(case["ops"], 1), stretched(case["ops"], case["by"])
    exports(one, case["tpn"], ctx)
    a = exports(one, case["tpn"], ctx)
    b = exports(two, case["tpn"] * case["by"], ctx, limit=4 * max(a.values()) + 100000)
    for k in a:
        alike(a[k], b[k], f"exporting {k} with everything {case['by']} times as long", ctx)


def run_longer(case, ctx):
    """Twice the music, twice the work."""
    s = []
    ops = case["ops"] + [["wait", case["tpn"]]]
    for k in (4, 8, 16):
        st = stretched(ops * k, 1)
        if k == 4:
            exports(st, case["tpn"], ctx)
        s.append(exports(st, case["tpn"], ctx))
    for a, b in zip(s, s[1:]):
        for k in a:
            check(b[k] <= 2.5 * a[k] + 20000, lambda: f"exporting {k} of the same music 4, 8 and 16 times over takes {[x[k] for x in s]} steps")
            ctx.counts["growth"] += 1
            ctx.counts["steps"] += b[k]


def run_bank(case, ctx):
    """A key-on takes at most as many steps more as there are instruments."""
    s, e = [], []
    for n in case["n"]:
        st = sut.new_state()
        ops = [x for i in range(n) for x in (["w", case["reg"], i + case["from"] & 127], ["w", 8, 0x78], ["wait", 100])]
        sut.feed(st, ops)
        # the one found last, again and again
        s.append(measure(lambda: sut.feed(st, [["w", 8, 0x78]] * 400), f"400 key-ons with {n} instruments")[0])
        if n == case["n"][0]:
            exports(st, 5000, ctx)
        e.append(exports(st, 5000, ctx))
    for a, b in zip(s, s[1:]):
        check(b <= 2.6 * a + 20000, lambda: f"400 key-ons with {case['n']} instruments take {s} steps")
    for k in e[0]:
        for a, b in zip(e, e[1:]):
            check(b[k] <= 2.6 * a[k] + 20000, lambda: f"exporting {k} with {case['n']} instruments takes {[x[k] for x in e]} steps")
            ctx.counts["growth"] += 1


def run_late(case, ctx):
    """An event costs the same after six thousand others."""
    def part(n, first):
        out = []
        for k in range(first, first + n):
            ch = k % case["channels"]
            out += [["w", 0x60 + ch, k % case["voices"]], ["w", 0x28 + ch, k & 127], ["w", 8, 0x78 | ch], ["wait", case["waits"][k % 5]]]
            if k % 3 == 0:
                out.append(["w", 8, ch])
        return out

    st = sut.new_state()
    sut.feed(st, part(240, 0))
    a, _ = measure(lambda: sut.feed(st, part(240, 240)), "240 key-ons")
    sut.feed(st, part(case["events"], 480))
    b, _ = measure(lambda: sut.feed(st, part(240, 480 + case["events"])), f"240 key-ons after {case['events']} others (early: {a} steps)", 3 * a + 100000)
    alike(a, b, f"240 key-ons after {case['events']} others", ctx)


class Paced(io.BytesIO):
    """Notes the CPU time at which so many bytes have been asked for."""

    def __init__(self, data, every):
        super().__init__(data)
        self.every, self.next, self.marks = every, every, []

    def seen(self):
        import time

        if self.tell() >= self.next:
            self.marks.append((self.tell(), time.process_time()))
            self.next = self.tell() + self.every

    def read(self, *a):
        self.seen()
        return super().read(*a)

    def readinto(self, b):
        self.seen()
        return super().readinto(b)

    def read1(self, *a):
        self.seen()
        return super().read1(*a)


def paces(times, what):
    """Work below Python's lines: the last parts must not take clearly longer than the first ones, the quickest of each counting."""
    n = len(times) // 5
    early, late = min(times[:n]), min(times[-n:])
    check(late <= 6 * early + 0.004, lambda: f"{what}: one takes {early * 1000:.1f} ms among the first, {late * 1000:.1f} ms among the last of {len(times)}")


def clocked(ops, ctx):
    import time

    with sut.call("feeding events"):
        st, times = sut.new_state(), []
        for _ in range(60):
            part = ops(2500)
            t = time.process_time()
            sut.feed(st, part)
            times.append(time.process_time() - t)
            if times[-1] > 40 * times[0] + 0.5:
                break
    paces(times, "parts of 2500 key events on one channel")
    for name, unit in (("key events", b"\x54\x08\x78\x70\x54\x08\x00\x70"), ("waits", b"\x61\x02\x00\x62\x70\x80"),
                       ("other chips' commands", b"\x50\x12\xb0\x08\x78\xc0\x01\x02\x03\x67\x66\x00\x04\x00\x00\x00abcd")):
        data = vgm(unit * (600000 // len(unit)) + b"\x66")
        f = Paced(data, len(data) // 60)
        with sut.call(f"processing {name}"), contextlib.redirect_stdout(io.StringIO()):
            r = sut.S.core.reader(f)
            sut.S.main.process_vgm_file(r)
        if len(f.marks) >= 40:  # else it is not read piece by piece
            m = f.marks
            paces([(b[1] - a[1]) * (len(data) // 60) / (b[0] - a[0]) for a, b in zip(m, m[1:])], f"parts of {len(data) // 60} bytes of {name}")
            ctx.counts["growth"] += 1
    ctx.counts["growth"] += 1


def run_many(case, ctx):
    """Work below Python's lines: eight times the events in clearly less than the 64 times as long of quadratic work."""
    import time

    def ops(n):
        if case["i"] == 0:  # one note after the other
            return [x for k in range(n) for x in (["w", 8, 0x78 | k & 7], ["wait", 1 + k % 3])]
        if case["i"] == 1:  # everything on one channel
            return [x for k in range(n) for x in (["w", 0x28, k & 127], ["w", 8, 0x78 if k & 1 else 0], ["wait", 7])]
        return [x for k in range(n) for x in (["w", 0x60, k & 3], ["w", 8, 0x78], ["wait", 1 << 20])]

    def spent(n):
        if case["i"] == 1:
            o = ops(n)
            fn = lambda: sut.feed(sut.new_state(), o)  # noqa: E731
        else:
            b = b"".join(struct.pack("<BH", 0x61, o[1] & 0xFFFF) if o[0] == "wait" else bytes((0x54, o[1], o[2])) for o in ops(n)) + b"\x66"
            fn = lambda: process(b)  # noqa: E731
        with sut.call("processing many events"):
            t = time.process_time()
            fn()
            return time.process_time() - t

    if case["i"] == 1:
        clocked(ops, ctx)
    few, many = 4000, 32000
    spent(few)
    best = 1e9
    for _ in range(4):  # the machine may be busy: once is enough
        best = min(best, spent(many) / max(0.004, spent(few)))
        if best <= 40:
            break
    check(best <= 40, lambda: f"{many} events take {best:.0f} times as long as {few}")
    ctx.counts["growth"] += 1


def run_gap(case, ctx):
    """Songs of many patterns, reached at once or one after the other: eight times as many in clearly less than 64 times as long."""
    import gc
    import time

    def spent(n):
        song = sut.S.song.Song(tracks=1, lines_per_track=1)
        rows = [n] if case["at_once"] else range(n)
        with sut.call("adding notes to a song"):
            gc.collect()
            gc.disable()
            try:
                t = time.process_time()
                for k in rows:
                    song.pattern_pool.add_note(k, 0, 0, "C-4", "00", None)
                return time.process_time() - t
            finally:
                gc.enable()

    few, many = 5000, 40000
    best = 1e9
    for _ in range(4):
        best = min(best, spent(many) / max(0.002, spent(few)))
        if best <= 24:
            break
    check(best <= 24, lambda: f"a song of {many} patterns takes {best:.0f} times as long to build as one of {few}")
    ctx.counts["growth"] += 1


def resident(data, ctx):
    """(exit status, KiB resident at most) of a run of the program."""
    src = os.path.join(ctx.scratch, "a.vgm")
    with open(src, "wb") as f:
        f.write(data)
    p = subprocess.Popen([sut.PYTHON, sut.MAIN, src, "-i", os.path.join(ctx.scratch, "o.json"), "-tn", "5000"], env=sut.process_env(),
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    _, status, usage = os.wait4(p.pid, 0)
    p.returncode = os.waitstatus_to_exitcode(status)
    return p.returncode, usage.ru_maxrss


def run_process(case, ctx):
    rc, base = resident(vgm(b"\x54\x08\x78\x66"), ctx)
    check(rc == 0, "an ordinary song failed")
    wrap = (lambda b: b) if case["i"] % 2 == 0 else gzip.compress
    bodies = [("claims", claim({"opcode": 0x67, "size": case["size"], "kind": 0, "there": 500}))]
    bodies += [("waits", b"\x54\x08\x78" + b"\x61\xff\xff" * 3000 + b"\x54\x08\x00\x66"),
               ("blocks", b"\x54\x08\x78" + model.block(0, b"\0" * 100000) * 200 + b"\x66")]
    for name, b in bodies:
        data = vgm(b)
        _, kib = resident(wrap(data), ctx)
        # the bytes themselves may well be kept
        check(kib <= base + 60000 + 4 * len(data) // 1024, lambda: f"processing a file of {len(data)} bytes ({name}) takes {kib} KiB of memory, a small one {base}")
        ctx.counts["processes"] += 1


ORACLES = {"late": run_late, "many": run_many, "gap": run_gap, "waits": run_waits, "again": run_again, "hostile": run_hostile, "claims": run_claims, "sizes": run_sizes, "window": run_window,
           "scaled": run_scaled, "longer": run_longer, "bank": run_bank, "process": run_process}
