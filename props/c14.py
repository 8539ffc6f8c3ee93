"""C14: how the bytes are stored or handed over does not matter."""
import gzip
import io
import os
import struct
import zlib

from lib import model, sut, xrns
from lib.sut import check

ID, LEVEL = "C14", "exploration"
ROUNDS = 3
RULE = ("One song, many wrappings: plain, gzip at every level, strategy and stored blocks, several gzip members, every optional gzip "
        "header field, VGM/VGZ and odd file names (also ones standard output cannot encode), by name, as a pipe with a name, and on standard input as file and as pipe; decoded commands and the "
        "instrument and song files of the command line are compared with those of the plain file.")
REQUIRE = {"odd_names": 60, "decodings": 300, "cli_runs": 100, "stdin_process": 30, "wrappings": 60}


def tasks(tier):
    t = [{"kind": "decode", "i": i} for i in range(8 if tier == "quick" else 48)]
    t += [{"kind": "cli", "i": i} for i in range(6 if tier == "quick" else 32)]
    t += [{"kind": "names", "i": i, "weight": 4, "once": True} for i in range(4 if tier == "quick" else 12)]
    t += [{"kind": "large", "i": i, "weight": 9, "once": True} for i in range(5)]
    t += [{"kind": "process", "i": i, "weight": 4} for i in range(4 if tier == "quick" else 12)]
    return t


NAMES = ["a.vgm", "-", "--", "@x", "@a.vgm", "+x", "=x.vgm", "#x", ":x", "b.vgz", "c.VGM", "d", "e.gz", "f g.vgm", "é.vgm", "-x.vgm", "song.json.vgm", "100%.vgm", "%s%d%n.vgm", "{0}.vgm",
         "{args.file}.vgm", "$HOME", "~", "a\\b.vgm", "[a-z]*.vgm", "?.vgm", "*", "new\nline.vgm", "日本語.vgm", "\U0001f3b5.vgz", "caf\udce9.vgm", "x" * 251 + ".vgm",
         "a.vgm.gz", "--file", "'quoted'", '"', "a;b|c&d", "tab\t", " ", ".vgm", "..vgm", "-tn", "#1", "a.zip", "a.xrns", "CON"]


FLAGS = [0, 1, 2, 4, 8, 16, 2 | 4, 8 | 16, 1 | 2 | 4 | 8 | 16]


def gz(data, level=9, flags=0, strategy=0, mtime=0, name=b"song.vgm", os_=255, xfl=0, wbits=15, flush=None):
    """A gzip member by hand, with any optional fields."""
    head = b"\x1f\x8b\x08" + bytes([flags]) + struct.pack("<I", mtime) + bytes([xfl, os_])
    if flags & 4:
        extra = b"AB\x03\x00xyz" + b"CD\x00\x00"
        head += struct.pack("<H", len(extra)) + extra
    if flags & 8:
        head += name + b"\0"
    if flags & 16:
        head += b"a comment\0"
    if flags & 2:
        head += struct.pack("<H", zlib.crc32(head) & 0xFFFF)
    c = zlib.compressobj(level, zlib.DEFLATED, -wbits, 8, strategy)
    body = b""
    if flush:
        for i in range(0, len(data), flush):
            body += c.compress(data[i:i + flush]) + c.flush(zlib.Z_FULL_FLUSH)
    else:
        body = c.compress(data)
    body += c.flush()
    return head + body + struct.pack("<II", zlib.crc32(data), len(data) & 0xFFFFFFFF)


def wrap(g, data):
    r = g.r
    k = r.random()
    if k < 0.1:
        return "plain", data
    if k < 0.25:
        lv = r.randrange(10)
        return f"gzip level {lv}", gzip.compress(data, lv)
    if k < 0.6:
        fl, st, lv = r.choice(FLAGS), r.randrange(5), r.randrange(10)
        name = r.choice((b"", b"x", b"Vgm ", b"\xff\xfe", b"long" * 300))
        return (f"gzip flags {fl} strategy {st} level {lv}",
                gz(data, lv, fl, st, r.choice((0, 1, 0xFFFFFFFF)), name, r.choice((0, 3, 11, 255)), r.choice((0, 2, 4)),
                   r.randint(9, 15)))
    if k < 0.7:
        n = r.choice((1, 7, 64, 1000))
        return f"gzip flushed every {n}", gz(data, 6, flush=n if len(data) < 3000 else 1000)
    if k < 0.75:
        return "gzip with padding", gzip.compress(data, 9) + b"\0" * r.choice((1, 2, 8, 511))
    cuts = sorted({r.choice((1, 2, 3, 4, 5, 8, 0x30, 0x34, 0x40, r.randrange(len(data)))) for _ in range(r.randint(1, 4))})
    parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
    if r.random() < 0.3:
        parts.insert(r.randrange(len(parts) + 1), b"")
    return f"gzip members cut at {cuts}", b"".join(gz(p, r.randrange(10), r.choice(FLAGS)) for p in parts)


def song(g, n):
    r = g.r
    ops = g.music(n, base_changes=0.1)
    body = g.body(ops, foreign=0.2)
    if r.random() < 0.2:
        body = model.block(0, g.data(r.choice((5000, 20000, 70000)))) + body
    if r.random() < 0.2:
        body += g.data(r.choice((1, 100, 9000)))
    kw = {"offset": 0x0C, "extra": b""}
    if r.random() < 0.3:
        kw = {"extra": bytes(r.choice((0x40, 0x80, 0xC0)))}
    return model.vgm(body, version=r.choice((0x150, 0x151, 0x160, 0x171)), **kw)


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "large":
        # larger than every buffer between a file or pipe and the reader
        ops = g.music(40, base_changes=0.1)
        n = len(ops) // 2
        big = lambda s: [["raw", model.block(r.randrange(256), r.randbytes(s))]]
        parts = [big(r.choice((1 << 16, 200000, 1 << 20))) for _ in range(3)]
        data = model.program_vgm(parts[0] + ops[:n] + parts[1] + ops[n:] + parts[2])
        if task["i"] == 1:  # long by its commands, and highly compressible
            data = model.program_vgm(ops[:n] + [["raw", b"\x54\x12\x34\x70" * 20000]] + ops[n:])
        if task["i"] > 2:  # larger than any song: a sound chip's memory in front of and between the music
            size = r.choice((5, 9, 17)) << 20
            data = model.program_vgm(ops[:n] + [["raw", model.block(0x80, bytes(size))]] + ops[n:])
            yield "cli", {"data": data, "wraps": [["gzip", gz(data, 1)]] if task["i"] == 3 else
                          [["members", gz(data[:70001], 1) + gz(data[70001:4 << 20], 1) + gz(data[4 << 20:], 1)]],
                          "process": task["i"] == 3, "tpn": 2940, "names": ["a.vgm", "b.vgz"]}
            return
        yield "cli", {"data": data, "wraps": [["gzip", gz(data, 6)], ["stored", gz(data, 0)],
                                              ["members", gz(data[:70001]) + gz(data[70001:140000]) + gz(data[140000:])]],
                      "process": task["i"] == 2, "tpn": 2940, "names": ["a.vgm", "b.vgz"] * 4}
        return
    if k == "names":
        for name in NAMES[task["i"] % 4::4] + ["日本語.vgm", "caf\udce9.vgm"]:
            data = song(g, 3)
            yield "name", {"data": data, "packed": gz(data), "name": name, "tpn": 20000,
                           "env": {"PYTHONIOENCODING": r.choice(("utf-8:strict", "ascii", "cp1252:strict", "latin-1", "shift-jis", "utf-16"))}
                           if r.random() < 0.7 else r.choice(({}, {"LC_ALL": "C"}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}))}
        return
    for _ in range({"decode": g.n(10, 40), "cli": g.n(4, 12), "process": g.n(1, 3)}[k]):
        data = song(g, r.choice((1, 5, 30)))
        if k == "decode":
            yield "decode", {"data": data, "wraps": [list(wrap(g, data)) for _ in range(10)]}
        else:
            yield "cli", {"data": data, "wraps": [list(wrap(g, data)) for _ in range(g.n(4, 8))], "process": k == "process",
                          "tpn": r.choice((735, 882, 6000)) * 4,
                          "names": [r.choice(NAMES) for _ in range(8)]}


def run_decode(case, ctx):
    want = None
    for name, data in [["plain", case["data"]]] + case["wraps"]:
        r = sut.open_reader(data)
        got = []
        with sut.call(f"decoding ({name})"):
            facts = (r.version, r.size(), r.data_start, r.clock("ym2151"), r.supports("ym2151"))
            for c in r:
                got.append(sut.norm(c))
                if got[-1][1] == "eos":
                    break
                if len(got) > 2 * len(case["data"]):
                    raise sut.Mismatch("endless decoding")
        if want is None:
            want = got, facts
        sut.same(facts, want[1], f"header facts of {name}")
        sut.same(got, want[0], f"commands of {name}")
        ctx.counts["decodings"] += 1
        ctx.seen["wrappings"].add(name)


def outputs(ctx, tag):
    d = os.path.join(ctx.scratch, tag)
    res = []
    for n in ("i.json", "t.xrns"):
        p = os.path.join(d, n)
        check(os.path.exists(p), f"{tag}: {n} was not written")
        res.append(sut.read_file(p))
        os.remove(p)
    return sut.read_json(res[0]), xrns.parse(res[1])


def run_cli(case, ctx):
    d = os.path.join(ctx.scratch, "o")
    os.makedirs(d, exist_ok=True)
    ij, tx = os.path.join(d, "i.json"), os.path.join(d, "t.xrns")
    version, offset = struct.unpack_from("<I", case["data"], 8)[0], struct.unpack_from("<I", case["data"], 0x34)[0]
    chip = model.run_stream(case["data"][0x34 + offset if version >= 0x150 else 0x40:])
    end = max((e[0] for evs in chip.events for e in evs), default=0)
    tpn = max(case["tpn"], end // 64 // 100 + 1)
    want = None
    for i, (name, data) in enumerate([["plain", case["data"]]] + case["wraps"]):
        path = os.path.join(ctx.scratch, case["names"][i % len(case["names"])])
        with open(path, "wb") as f:
            f.write(data)
        base = ["-i", ij, "-t", tx, "-tn", tpn]
        ways = [("by name", lambda: sut.cli_ok([path] + base)),
                ("on standard input", lambda: sut.cli_ok(["-"] + base, stdin=data)),
                ("through a pipe", lambda: sut.cli_ok(["-"] + base, stdin=data, pipe=True))]
        if case["process"]:
            def ran(res):
                if res[0]:
                    raise sut.Mismatch(f"{name}: the program failed: {res[2].decode(errors='replace')[-300:]}")

            def redirected():
                with open(path, "rb") as f:
                    ran(sut.cli_process(["-"] + base, stdin=f))

            def fifo(piece):
                """The song through a pipe with a name."""
                import threading

                pipe = os.path.join(ctx.scratch, "fifo.vgm")
                os.mkfifo(pipe)

                def write():
                    import contextlib

                    with contextlib.suppress(OSError), open(pipe, "wb", buffering=0) as f:
                        for k in range(0, len(data), piece):
                            f.write(data[k:k + piece])

                t = threading.Thread(target=write, daemon=True)
                t.start()
                try:
                    res = sut.cli_process([pipe] + base)
                finally:
                    # nobody waits at the other end for ever
                    os.close(os.open(pipe, os.O_RDWR | os.O_NONBLOCK))
                    t.join(20)
                    os.remove(pipe)
                ran(res)

            ways = [("through a named pipe", lambda: fifo(1 << 20)), ("through a named pipe in pieces", lambda: fifo(max(37, len(data) // 50))),
                    ("as /dev/stdin", lambda: ran(sut.cli_process(["/dev/stdin"] + base, stdin=data))),
                    ("through a real pipe", lambda: ran(sut.cli_process(["-"] + base, stdin=data))),
                    ("redirected", redirected)] if i < 2 else []
            ctx.counts["stdin_process"] += len(ways)
        for how, go in ways:
            go()
            got = outputs(ctx, "o")
            if want is None:
                want = got
                sut.same(got[0], chip.instruments, "instruments of the plain file")
                xrns.check_song(got[1], chip.events, len(chip.instruments), tpn)
            if got != want:
                sut.same(got, want, f"{name} {how}: the exported files")
            ctx.counts["cli_runs"] += 1
        check(sut.read_file(path) == data, "the input file was changed")
        os.remove(path)
        ctx.seen["wrappings"].add(name)


def run_name(case, ctx):
    """The name of the file, whatever the terminal can show of it, is of no importance."""
    d = os.path.join(ctx.scratch, "o")
    box = os.path.join(ctx.scratch, "names")
    for x in (d, box):
        os.makedirs(x, exist_ok=True)
    ij, tx = os.path.join(d, "i.json"), os.path.join(d, "t.xrns")
    base = ["-i", ij, "-t", tx, "-tn", case["tpn"]]
    env = case["env"]
    # what a too clever reading of the name could lead to
    name = case["name"]
    bait = {name.strip(), name.lower(), name.upper(), name.rstrip(".gz"), name + ".vgm", name + ".gz", name.replace("\\", "/").split("/")[-1], "a.vgm", "1.vgm",
            "a]1.vgm", name.split("%")[0], name.split("#")[0], os.path.splitext(name)[0], name.replace("%s", "s"), name.split(";")[0], name.strip("'\"")}
    for n in bait - {name, "", ".", "plain.vgm"}:
        if "/" not in n and len(os.fsencode(n)) < 255:
            with open(os.path.join(box, n), "wb") as f:
                f.write(b"bait")
    want = None
    for name, data in (("plain.vgm", case["data"]), (case["name"], case["data"]), (case["name"], case["packed"])):
        path = os.path.join(box, name)
        with open(path, "wb") as f:
            f.write(data)
        ways = [("by its path", path, {}), ("by its name", name, {"cwd": box})]
        for how, arg, more in ways if name == case["name"] else ways[:1]:
            if arg.startswith("-"):
                arg = "./" + arg
            rc, _out, err = sut.cli_process([arg] + base, env=env, **more)
            check(rc == 0, lambda: f"a file called {name!r}, given {how}, with {env}: the program failed: {err.decode(errors='replace')[-300:]}")
            got = outputs(ctx, "o")
            want = want or got
            sut.same(got, want, f"a file called {name!r}, given {how}: the exported files")
            ctx.counts["odd_names"] += 1
        check(sut.read_file(path) == data, "the input file was changed")
        os.remove(path)
    for n in os.listdir(box):
        os.remove(os.path.join(box, n))
    ctx.seen["wrappings"].add(repr(case["name"]))


ORACLES = {"name": run_name, "decode": run_decode, "cli": run_cli}
