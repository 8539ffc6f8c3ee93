"""C01: every command stream decodes to exactly its commands."""
import gzip
import struct

from lib import model, sut
from lib.model import FIXED
from lib.sut import Mismatch, check

ID, LEVEL = "C01", "exploration"
ROUNDS = 5  # of the tasks in a quick run, each with fresh random choices
RULE = ("Streams of VGM commands: all opcode pairs, every operand byte of every opcode, all 65536 values of 61 and 54, data "
        "blocks over type and size boundaries with hostile contents, random mixes; each case is one stream, distinct by its "
        "bytes and non-trivial because every decoded command is compared with the reference decoder.")
REQUIRE = {"commands": 20000, "opcode": 255, "opcode_pair": 40000, "blocks": 100}


def tasks(tier):
    t = [{"kind": "pairs", "first": i, "last": i + 32, "weight": 5} for i in range(0, 256, 32)]
    t += [{"kind": "operands", "first": i, "last": i + 64, "weight": 4} for i in range(0, 256, 64)]
    t += [{"kind": "wide", "op": op} for op in (0x61, 0x54)]
    t += [{"kind": "blocks", "i": i, "weight": 6} for i in range(2 if tier == "quick" else 16)]
    t += [{"kind": "random", "i": i, "weight": 3} for i in range(8 if tier == "quick" else 64)]
    t += [{"kind": "big"}, {"kind": "long", "weight": 6, "once": True}, {"kind": "suite"}, {"kind": "pcm"}]
    return t


def stream(cmds, zipped=False, version=None):
    return {"ops": [["raw", c] for c in cmds], "gz": zipped, "version": version}


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "pairs":
        for a in range(task["first"], task["last"]):
            cmds = []
            for b in range(256):
                cmds += [g.command(a), g.command(b)]
                if len(cmds) >= 128:
                    yield "stream", stream(cmds, r.random() < 0.1)
                    cmds = []
            yield "stream", stream(cmds + [b"\x66"])
    elif k == "operands":
        for op in range(task["first"], task["last"]):
            if FIXED[op] <= 0:
                continue
            for pos in range(FIXED[op] if op != 0x68 else 8):
                cmds = []
                for v in range(256):
                    c = bytearray(g.command(op))
                    if op == 0x68 and pos == 0:
                        continue
                    c[1 + pos] = v
                    cmds += [bytes(c), b"\x70" if v & 1 else b"\x54\x12\x34"]
                yield "stream", stream(cmds)
    elif k == "wide":
        for hi in range(256):
            yield "stream", stream([bytes((task["op"], lo, hi)) for lo in range(256)])
    elif k == "blocks":
        sizes = list(range(0, 40)) + [63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 4095, 4096, 4097, 8191, 8192, 8193,
                                      65534, 65535, 65536, 65537, 131072, 200000]
        for s in sizes:
            tail = [g.any_command() for _ in range(3)]
            yield "stream", stream([g.any_command(), g.data_block(s)] + tail, s % 3 == 0)
        for kind in range(256):
            yield "stream", stream([model.block(kind, g.data(r.randrange(20)), kind & 1), b"\x54\x08\x78", g.data_block(), b"\x66"])
        for _ in range(g.n(20, 200)):
            # blocks that look alike: one type, one size, and contents that differ somewhere
            s = r.choice((1, 2, 8, 33, 100, 300, 5000, 70000))
            kind, d = r.randrange(256), bytearray(g.data(s))
            cmds = []
            for _ in range(r.randint(2, 5)):
                cmds += [model.block(kind, d)] + [g.any_command() for _ in range(r.choice((0, 0, 2)))]
                if r.random() < 0.8:
                    d[r.randrange(s)] ^= 1 << r.randrange(8)
            yield "stream", stream(cmds + [b"\x66"], r.random() < 0.2)
        for _ in range(g.n(30, 200)):
            s = g.edge(0, 300000)
            yield "stream", stream([g.data_block(s), g.any_command(), g.data_block(), b"\x66"], r.random() < 0.3)
    elif k == "random":
        for _ in range(g.n(150, 1500)):
            n = r.choice((1, 2, 3, 5, 10, 50, 200))
            cmds = [g.any_command() for _ in range(n)]
            if r.random() < 0.3:
                cmds.insert(r.randrange(len(cmds) + 1), b"\x66")
            yield "stream", stream(cmds + [b"\x66"], r.random() < 0.15, r.choice((0x100, 0x101, 0x110, 0x150, 0x151, 0x161, 0x171)))
        for _ in range(g.n(3, 20)):
            yield "stream", stream([g.any_command() for _ in range(g.edge(1000, 6000))])
    elif k == "big":
        for s in ((1 << 20) - 1, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1) if g.tier == "thorough" else (1 << 20, (1 << 24) + 1):
            yield "block", {"size": s, "fill": r.choice((0x66, 0x54, 0x61, 0)), "kind": r.randrange(256)}
    elif k == "long":
        # more commands than 16 bits count, the stream longer than any buffer on the way
        yield "stream", stream([g.any_command() for _ in range(70000)] + [b"\x66"])
        yield "stream", stream([g.any_command() for _ in range(20000)] + [g.data_block(3 << 20)]
                               + [g.any_command() for _ in range(20000)], True)
    elif k == "suite":
        yield "stream", stream([g.command(op) for op in range(256)])
        yield "stream", stream([g.command(op) for op in reversed(range(256))])
        for op in range(256):
            yield "stream", stream([g.command(op)] * 40 + [b"\x54\xaa\x55"])
    elif k == "pcm":
        for size in (1, 2, 5, 255, 256, 4660):
            yield "pcm", {"size": size, "data": bytes([0x70]) * size}


def run_stream(case, ctx):
    body = b"".join(op[1] for op in case["ops"])
    want, end = model.decode(body)
    if end != len(body):
        raise RuntimeError("the generator made an incomplete stream")
    data = model.vgm(body, version=case["version"]) if case["version"] else model.vgm(body)
    if case["gz"]:
        data = gzip.compress(data, 1)
    got = sut.decode(data, limit=len(body) + 16)
    sut.same(got, [c for _, c in want], "decoded commands")
    ctx.count("commands", len(got))
    ctx.count("blocks", sum(1 for c in got if c[0] == 0x67))
    for a, b in zip(want, want[1:]):
        ctx.saw("opcode_pair", a[1][0] << 8 | b[1][0])
    for _, c in want:
        ctx.saw("opcode", c[0])


def run_block(case, ctx):
    data = bytes([case["fill"]]) * case["size"]
    body = b"\x70" + model.block(case["kind"], data, case["fill"] & 1) + b"\x54\x28\x4a\x66"
    got = sut.decode(model.vgm(body), limit=100)
    check(len(got) == 4, lambda: f"{len(got)} commands around a data block of {case['size']} bytes")
    sut.same([c[:1] + c[2:] if c[0] == 0x67 else c for c in got],
             [(0x70, "wait", 1), (0x67, data), (0x54, "ym", 0x28, 0x4A), (0x66, "eos")], "big data block")
    ctx.count("commands", 4)


def run_pcm(case, ctx):
    """PCM RAM writes with a size: the format gives them no data, the code reads some (known finding)."""
    n = case["size"]
    head = b"\x68\x66\x01\x02\x03\x04\x05\x06\x07" + struct.pack("<I", n)[:3]
    body = head + case["data"] + b"\x54\x28\x4a\x66"
    got = sut.decode(model.vgm(body), limit=n + 16)
    ends = [(0x54, "ym", 0x28, 0x4A), (0x66, "eos")]
    plain = [(c if c[0] != 0x68 else (0x68,)) for c in got]
    if plain == [(0x68,)] + [(0x70, "wait", 1)] * n + ends:
        ctx.count("pcm_as_the_format_says")
    elif plain == [(0x68,)] + ends:
        ctx.known_finding("pcm-ram-write-data", "68 with a size")
    else:
        raise Mismatch(f"a PCM RAM write of size {n} decodes to {got[:5]}...")
    ctx.count("commands", len(got))


ORACLES = {"stream": run_stream, "block": run_block, "pcm": run_pcm}
