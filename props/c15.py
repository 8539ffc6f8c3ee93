"""C15: a truncated or unreadable stream never yields anything that was not in it."""
import gzip
import io
import os

from lib import model, sut, xrns
from lib.sut import Mismatch, check

ID, LEVEL = "C15", "fault_enumeration"
ROUNDS = 4  # of the tasks in a quick run, each with fresh random choices
RULE = ("Streams holding every kind of command are cut at every byte (header included), plain and gzipped, and read through a file "
        "whose every read in turn fails; the commands delivered must be the ones wholly before the cut, a cut inside a wait or a "
        "YM2151 write must be reported, and the command line must then fail without writing anything. Distinct by (stream, cut).")
REQUIRE = {"cuts": 8000, "opcodes_cut": 200, "gzip_cuts": 1000, "read_faults": 1500, "cli_cuts": 300, "reported": 1000}


def tasks(tier):
    t = [{"kind": "ops", "i": i} for i in range(8)]
    t += [{"kind": "song", "i": i} for i in range(8 if tier == "quick" else 64)]
    t += [{"kind": "gzip", "i": i, "weight": 2} for i in range(4 if tier == "quick" else 24)]
    t += [{"kind": "cli", "i": i, "weight": 3} for i in range(8 if tier == "quick" else 32)]
    return t


def cases(task, g):
    r = g.r
    k = task["kind"]
    kw = {}
    if r.random() < 0.5:
        kw = {"extra": bytes(r.choice((4, 0x40, 0xC0)))}
    if k == "ops":
        for op in range(task["i"], 256, 8):
            for rep in range(g.n(2, 6)):
                ops = [["raw", g.command(op)]]
                if r.random() < 0.7:
                    ops.insert(0, ["raw", g.command(r.randrange(256))])
                if r.random() < 0.7:
                    ops.append(["raw", g.command(r.randrange(256))])
                yield "cuts", {"ops": ops, "header": {}, "from": 0x40 if rep else 0, "tag": op}
    elif k == "song":
        for _ in range(g.n(4, 12)):
            ops = [["raw", g.body([o], foreign=0.5, end=False)] for o in g.music(r.choice((1, 4, 12)), dense=0.2)]
            v = r.choice((0x101, 0x110, 0x150, 0x171))
            yield "cuts", {"ops": ops + [["raw", b"\x66"]], "header": {"version": v, **(kw if v >= 0x150 else {})}, "from": 0,
                           "tag": None}
    elif k == "gzip":
        for _ in range(g.n(2, 6)):
            ops = [["raw", g.body([o], foreign=0.3, end=False)] for o in g.music(r.choice((1, 8)), dense=0.3)]
            yield "gzip", {"ops": ops, "level": r.randrange(10), "members": r.random() < 0.3}
    else:
        for _ in range(g.n(2, 8)):
            ops = [["raw", g.body([o], foreign=0.4, end=False)] for o in g.music(r.choice((1, 3)), dense=0.1, lead=1, channels=[r.randrange(8)])]
            n = sum(len(o[1]) for o in ops)
            cuts = sorted(r.sample(range(0x34, 0x40 + n), min(n, g.n(40, 300)))) + [0, 1, 3, 4, 8, 0x20, 0x35, 0x38, 0x3F]
            yield "cli", {"ops": ops, "cuts": cuts, "gzip": r.random() < 0.3, "stdin": r.random() < 0.3}


# InterruptedError is not among them: the interpreter itself tries again
ERRORS = (OSError(5, "Input/output error"), BlockingIOError(11, "Resource temporarily unavailable"), TimeoutError(110, "Connection timed out"),
          ConnectionResetError(104, "Connection reset by peer"), OSError(116, "Stale file handle"), ValueError("I/O operation on closed file."),
          PermissionError(13, "Permission denied"), OSError(6, "No such device or address"), EOFError("no more data"), BrokenPipeError(32, "Broken pipe"))


class Failing(io.BytesIO):
    """Fails at the n-th read, from then on or only once."""
    left = None
    error = OSError(5, "Input/output error")
    once = False

    def tick(self):
        if self.left is not None:
            self.left -= 1
            if self.left == -1 or self.left < 0 and not self.once:
                raise self.error

    def read(self, *a):
        self.tick()
        return super().read(*a)

    def readinto(self, b):
        self.tick()
        return super().readinto(b)


def decode_file(f, limit):
    out = []
    sut._depth += 1
    try:
        r = sut.S.core.reader(f)
        if r is None:
            return out, "not recognised"
        for c in r:
            out.append(sut.norm(c))
            if len(out) > limit:
                raise Mismatch("endless decoding")
        return out, "end"
    except Mismatch:
        raise
    except Exception as e:
        if isinstance(e, MemoryError):
            sut._strike()
            raise
        return out, e
    except BaseException:
        sut._strike()
        raise
    finally:
        sut._depth -= 1


def judge(out, how, cmds, cut, what, must_fail=False):
    """cmds: [(start, end, command)] of the whole stream."""
    whole = [c for _, e, c in cmds if e <= cut]
    part = next((c for s, e, c in cmds if s < cut < e), None)
    check(out[: len(whole)] == whole[: len(out)], lambda: f"{what}: {sut.first_diff(out, whole)}")
    if len(out) < len(whole):
        if how == "end":
            raise Mismatch(f"{what}: only {len(out)} of {len(whole)} complete commands, and no error")
        if not must_fail:
            raise Mismatch(f"{what}: only {len(out)} of {len(whole)} complete commands, then {how}")
    extra = out[len(whole):]
    if part is None:
        check(not extra, lambda: f"{what}: {extra[:2]} out of nothing")
    else:
        check(len(extra) <= 1, lambda: f"{what}: {extra[:3]} from part of one command")
        if extra:
            ok = extra[0][1] == "other" and extra[0][0] == part[0]
            ok = ok and (part[1] == "other") and (not extra[0][2] or (part[2] or b"").startswith(extra[0][2]))
            check(ok, lambda: f"{what}: {extra[0]} out of part of {part}")
        start = next(s for s, e, _ in cmds if s < cut < e)
        if part[0] == 0x67 and cut < start + 7 or part[0] == 0x68 and cut < start + 12:
            # how much belongs to it cannot be known
            check(not extra and how != "end", lambda: f"{what}: the cut inside the head of {part} gives {extra}, {how}")
        if part[1] in ("wait", "ym"):
            check(how != "end", lambda: f"{what}: the cut inside {part} is not reported")
    if must_fail:
        check(how != "end", lambda: f"{what}: read as if it were complete")
    return part


def layout(data, at):
    res = model.decode(data[at:])
    ends = [o for o, _ in res[0]][1:] + [res[1]]
    return [(at + o, at + e, c) for (o, c), e in zip(res[0], ends)]


def run_cuts(case, ctx):
    h = model.header(**case["header"])
    data = h + b"".join(o[1] for o in case["ops"])
    cmds = layout(data, len(h))
    cuts = range(case["from"], len(data) + 1)
    if len(cuts) > 2500:
        # a big block: all cuts near command boundaries, some inside
        near = {x + d for s, e, _ in cmds for x in (s, e) for d in range(-9, 10)}
        cuts = sorted(c for c in near | set(range(case["from"], len(data), len(data) // 600)) if case["from"] <= c <= len(data))
    for cut in cuts:
        out, how = decode_file(io.BytesIO(data[:cut]), 2 * len(data))
        what = f"cut after {cut} of {len(data)} bytes"
        if cut < len(h):
            check(how != "end" and not out, lambda: f"{what}, inside the header: {out[:2]}, {how}")
            ctx.counts["cuts"] += 1
            continue
        part = judge(out, how, cmds, cut, what)
        ctx.counts["cuts"] += 1
        if part:
            ctx.counts["partial"] += 1
            ctx.seen["opcodes_cut"].add(part[0])
            ctx.counts["reported"] += how != "end"
    if case["tag"] is not None:
        ctx.seen["opcodes_cut"].add(case["tag"])
    # every read fails once
    probe = Failing(data)
    probe.left = 10 ** 9
    decode_file(probe, 2 * len(data))
    reads = 10 ** 9 - probe.left
    step = max(1, reads // 150)
    for n in range(0, reads, step):
        f = Failing(data)
        f.left = n
        f.error, f.once = ERRORS[(n // step + len(data)) % len(ERRORS)], (n + len(data)) % 3 == 0
        out, how = decode_file(f, 2 * len(data))
        check(isinstance(how, Exception), lambda: f"read number {n} of {reads} failed ({f.error!r}), but decoding ended with {how!r}")
        want = [c for _, _, c in cmds]
        check(out == want[: len(out)], lambda: f"read number {n} failed: {sut.first_diff(out, want)}")
        ctx.counts["read_faults"] += 1


def run_gzip(case, ctx):
    h = model.header()
    data = h + b"".join(o[1] for o in case["ops"])
    cmds = layout(data, len(h))
    if case["members"]:
        z = gzip.compress(data[: len(data) // 2], case["level"]) + gzip.compress(data[len(data) // 2:], case["level"])
        ends = {len(gzip.compress(data[: len(data) // 2], case["level"]))}
    else:
        z, ends = gzip.compress(data, case["level"]), set()
    # reads of the packed file that fail
    probe = Failing(z)
    probe.left = 10 ** 9
    decode_file(probe, 2 * len(data))
    for n in range(10 ** 9 - probe.left):
        f = Failing(z)
        f.left, f.error, f.once = n, ERRORS[(n + len(z)) % len(ERRORS)], n % 2 == 0
        out, how = decode_file(f, 2 * len(data))
        check(isinstance(how, Exception), lambda: f"read number {n} of the packed file failed ({f.error!r}), but decoding ended with {how!r}")
        want = [c for _, _, c in cmds]
        check(out == want[: len(out)], lambda: f"read number {n} of the packed file failed: {sut.first_diff(out, want)}")
        ctx.counts["read_faults"] += 1
    step = max(1, len(z) // 700)
    for cut in range(0, len(z), step):
        if cut in ends:
            continue
        out, how = decode_file(io.BytesIO(z[:cut]), 2 * len(data))
        what = f"gzip cut after {cut} of {len(z)} bytes"
        want = [c for _, _, c in cmds]
        check(out == want[: len(out)], lambda: f"{what}: {sut.first_diff(out, want)}")
        check(how != "end", lambda: f"{what}: {len(out)} commands, read as if it were complete")
        ctx.counts["gzip_cuts"] += 1


def run_cli(case, ctx):
    h = model.header()
    data = h + b"".join(o[1] for o in case["ops"])
    cmds = layout(data, len(h))
    src = os.path.join(ctx.scratch, "a.vgm")
    ij, tx = os.path.join(ctx.scratch, "i.json"), os.path.join(ctx.scratch, "t.xrns")
    old = b"older contents"
    for cut in case["cuts"]:
        part = next((c for s, e, c in cmds if s < cut < e), None)
        blob = gzip.compress(data[:cut]) if case["gzip"] else data[:cut]
        with open(src, "wb") as f:
            f.write(blob)
        for p in (ij, tx):
            with open(p, "wb") as f:
                f.write(old)
        tpn = 65536
        args = ["-i", ij, "-t", tx, "-tn", tpn]
        if case["stdin"]:
            bad, _ = sut.cli(["-"] + args, stdin=blob)
        else:
            bad, _ = sut.cli([src] + args)
        what = f"command line on the first {cut} of {len(data)} bytes"
        ctx.counts["cli_cuts"] += 1
        if bad is not None:
            for p in (ij, tx):
                check(sut.read_file(p) == old, lambda: f"{what} failed ({bad}) but wrote {os.path.basename(p)}")
            if cut >= len(h) and part is None:
                raise Mismatch(f"{what}, between two commands, failed: {bad}")
            ctx.counts["reported"] += 1
            continue
        check(cut >= len(h), lambda: f"{what}: no error for a cut inside the header")
        if part and part[1] in ("wait", "ym"):
            raise Mismatch(f"{what}: no error for a cut inside {part}")
        chip = model.run_stream(data[len(h):max(len(h), cmds_end(cmds, cut))])
        sut.same(sut.read_json(sut.read_file(ij)), chip.instruments, f"{what}: instruments")
        xrns.check_song(xrns.parse(sut.read_file(tx)), chip.events, len(chip.instruments), tpn)


def cmds_end(cmds, cut):
    return max((e for _, e, _ in cmds if e <= cut), default=0)


ORACLES = {"cuts": run_cuts, "gzip": run_gzip, "cli": run_cli}
