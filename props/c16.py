"""C16: what is not an intact VGM file is refused, and nothing is written for it."""
import base64
import bz2
import gzip
import io
import lzma
import os
import zipfile
import zlib

from lib import model, sut
from lib.sut import check
from props.c14 import gz, FLAGS

ID, LEVEL = "C16", "fault_enumeration"
ROUNDS = 5  # of the tasks in a quick run, each with fresh random choices
RULE = ("Files that are not VGM (other formats, near-miss signatures, empty, random, compressed other data, missing, a directory) and "
        "gzipped songs with every bit flipped, every truncation, zeroed, overwritten, deleted, doubled and swapped ranges. Monitor: "
        "a refusal with existing outputs byte-identical and missing outputs still missing, or exactly the undamaged result.")
REQUIRE = {"foreign_files": 300, "bit_flips": 1500, "truncations": 250, "mangled": 400, "refused": 1500, "readers": 300}


def tasks(tier):
    t = [{"kind": "foreign", "i": i} for i in range(4 if tier == "quick" else 24)]
    t += [{"kind": "flip", "i": i, "weight": 3} for i in range(8 if tier == "quick" else 32)]
    t += [{"kind": "tail", "i": i, "weight": 2} for i in range(2 if tier == "quick" else 12)]
    t += [{"kind": "mangle", "i": i, "weight": 2} for i in range(4 if tier == "quick" else 32)]
    return t


def zipped(data):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        z.writestr("song.vgm", data)
    return b.getvalue()


def foreign_files(g, song):
    r = g.r
    yield from (b"", b"V", b"Vg", b"Vgm", b"vgm " + song[4:], b"VGM " + song[4:], b"Vgm\0" + song[4:], b"Vgm" + song[4:],
                b" " + song, b"\0" + song, song[1:], song[4:], b"\xef\xbb\xbf" + song, b"RIFF" + song[4:], b"MThd" + song[4:],
                b"KSSX" + song[4:], b"NESM\x1a" + song[5:], b"Vgm_" + song[4:], b"mgV " + song[4:], song[::-1],
                b"\x1f", b"\x1f\x8b", b"\x1f\x8b\x08", b"\x1f\x8c" + song, b"\x1f\x9d" + song, b"\x8b\x1f" + gzip.compress(song)[2:],
                b"\x1f\x8b" + song, b"PK\x03\x04" + song, zipped(song), zlib.compress(song), gzip.compress(gzip.compress(song)),
                gzip.compress(b""), gzip.compress(b"Vgm"), gzip.compress(b"vgm " + song[4:]), gzip.compress(b"VgmX" + song[4:]), gzip.compress(b"Vgm" + song[4:]), gzip.compress(b"Vgm\0" + song[4:]), gzip.compress(b" " + song),
                gzip.compress(song[1:]), gzip.compress(zipped(song)), b"\n" + gzip.compress(song), gzip.compress(song)[1:],
                bz2.compress(song), lzma.compress(song), lzma.compress(song, lzma.FORMAT_ALONE), zlib.compress(song, wbits=-15), gzip.compress(bz2.compress(song)),
                b"    " + song, b"\r\n\r\n" + song, b"\n\n\n\n" + song, bytes(4) + song, bytes(128) + song, b"VGM " + song, b"Gd3 " + song, gzip.compress(b"    " + song), gzip.compress(bytes(4) + song),
                b"    " + gzip.compress(song), bytes(512) + gzip.compress(song), song.decode("latin-1").encode("utf-16"), song.decode("latin-1").encode("utf-32-le"),
                base64.b64encode(song), gzip.compress(song)[10:], song.hex().encode(), b"<xml/>", b"{}", b"#!/bin/sh\n")
    for i in range(4):
        for bit in range(8):
            yield song[:i] + bytes([song[i] ^ 1 << bit]) + song[i + 1:]
            yield gzip.compress(song[:i] + bytes([song[i] ^ 1 << bit]) + song[i + 1:], 1)
    for _ in range(g.n(20, 60)):
        d = r.randbytes(r.choice((1, 3, 4, 64, 64, 400)))
        if d[:4] != b"Vgm " and d[:2] != b"\x1f\x8b":
            yield d
            yield gzip.compress(d)


def cases(task, g):
    r = g.r
    k = task["kind"]
    ops = g.music(r.choice((2, 6)), dense=0.15, channels=r.sample(range(8), 2), lead=r.choice((0, 735)))
    song = model.vgm(g.body(ops, foreign=0.1) + g.data(r.choice((0, 0, 20, 300))))
    if k == "foreign":
        for i, d in enumerate(foreign_files(g, song)):
            yield "refused", {"data": d, "stdin": r.random() < 0.3, "old": r.random() < 0.5}
        for what in ("missing", "directory", "unreadable name"):
            yield "refused", {"data": what, "stdin": False, "old": True}
        return
    if k == "tail":
        # the damage is far behind the end of the music
        size = r.choice((70000, 140000, 300000, 1100000))
        song += bytes(size) if r.random() < 0.5 else r.randbytes(min(size, 140000)) + b"Gd3 \0\1\0\0"
        z = gzip.compress(song, r.choice((0, 1, 6, 9)))
        n = len(z)
        flips = {8 * n - 1 - b for b in range(64)} | {r.randrange(8 * n) for _ in range(6)}
        yield "damage", {"ops": [["flip", b] for b in sorted(r.sample(sorted(flips), 24))], "z": z, "song": song, "stdin": r.random() < 0.5}
        cuts = {n - 1, n - 4, n - 5, n - 8, n - 9, n // 2} | {r.randrange(n) for _ in range(3)}
        yield "damage", {"ops": [["cut", b] for b in sorted(cuts)], "z": z, "song": song, "stdin": r.random() < 0.5}
        return
    how = r.randrange(4)
    if how == 0:
        z = gzip.compress(song, r.randrange(10))
    elif how == 1:
        z = gz(song, r.randrange(1, 10), r.choice(FLAGS))
    elif how == 2:
        c = r.randrange(1, 0x30)  # no member may be a whole file by itself
        z = gz(song[:c], 9, r.choice(FLAGS)) + gz(song[c:], 6, 0)
    else:
        z = gz(song, 9, 0, strategy=r.choice((2, 4)))
    if k == "flip":
        z = min([z, gzip.compress(song)], key=len) if len(z) > 900 else z
        n = len(z) * 8
        bits = sorted(r.sample(range(n), min(n, g.n(260, 2400)))) + list(range(16)) + list(range(n - 64, n))
        yield "damage", {"ops": [["flip", b] for b in sorted(set(bits))], "z": z, "song": song, "stdin": r.random() < 0.3}
        lens = sorted(r.sample(range(len(z)), min(len(z) - 1, g.n(50, 500))))
        yield "damage", {"ops": [["cut", b] for b in lens], "z": z, "song": song, "stdin": r.random() < 0.3}
    else:
        todo = []
        for _ in range(g.n(150, 600)):
            a = r.randrange(len(z))
            b = min(len(z), a + r.choice((1, 2, 4, 8, 50)))
            todo.append(["mangle", a, b, r.choice(("zero", "ones", "random", "delete", "double", "reverse"))])
        yield "damage", {"ops": todo, "z": z, "song": song, "stdin": False}
        for t in (b"\0", b"garbage", b"\x1f\x8b", gzip.compress(b"more")[:-3], z[: len(z) // 2], z):
            yield "damage", {"ops": [["append", t]], "z": z, "song": song, "stdin": False}


def apply(op, z, rnd):
    if op[0] == "flip":
        b = bytearray(z)
        b[op[1] >> 3] ^= 1 << (op[1] & 7)
        return bytes(b)
    if op[0] == "cut":
        return z[: op[1]]
    if op[0] == "append":
        return z + op[1]
    _, a, b, how = op
    mid = {"zero": bytes(b - a), "ones": b"\xff" * (b - a), "random": rnd.randbytes(b - a), "delete": b"", "double": z[a:b] * 2,
           "reverse": z[a:b][::-1]}[how]
    return z[:a] + mid + z[b:]


def attempt(ctx, data, stdin, old):
    """Runs the command line on data; (failure, [file contents or None])."""
    src = os.path.join(ctx.scratch, "in.vgz")
    outs = [os.path.join(ctx.scratch, n) for n in ("i.json", "t.xrns")]
    for p in outs:
        if os.path.exists(p):
            os.remove(p)
        if old:
            with open(p, "wb") as f:
                f.write(b"older contents")
    if isinstance(data, str):
        args = [{"missing": os.path.join(ctx.scratch, "no", "such.vgm"), "directory": ctx.scratch,
                 "unreadable name": os.path.join(ctx.scratch, "x" * 300)}[data]]
    elif stdin:
        args = ["-"]
    else:
        args = [src]
        with open(src, "wb") as f:
            f.write(data)
    bad, _ = sut.cli(args + ["-i", outs[0], "-t", outs[1], "-tn", "70000"], stdin=data if stdin else None)
    if isinstance(data, bytes) and not stdin:
        check(sut.read_file(src) == data, "the input file was changed")
    return bad, [sut.read_file(p) if os.path.exists(p) else None for p in outs]


def untouched(bad, files, old, what):
    for name, f in zip(("the instrument file", "the song file"), files):
        if old:
            check(f == b"older contents", f"{what} was refused ({bad}), but {name} that was there has been changed")
        else:
            check(f is None, f"{what} was refused ({bad}), but {name} was written")


def run_refused(case, ctx):
    data = case["data"]
    if isinstance(data, bytes):
        sut._depth += 1
        try:
            got = None
            got = sut.S.core.reader(io.BytesIO(data))
        except Exception:
            pass
        finally:
            sut._depth -= 1
        check(got is None, lambda: f"{data[:20]!r}... is not a VGM file, but a reader was given")
        ctx.counts["readers"] += 1
    bad, files = attempt(ctx, data, case["stdin"], case["old"])
    what = data if isinstance(data, str) else f"{len(data)} bytes starting {data[:12]!r}"
    check(bad is not None, f"{what} is not a VGM file, but was accepted")
    untouched(bad, files, case["old"], what)
    ctx.counts["foreign_files"] += 1
    ctx.counts["refused"] += 1


def run_damage(case, ctx):
    import random

    rnd = random.Random(1)
    z, song = case["z"], case["song"]
    bad, want = attempt(ctx, z, case["stdin"], False)
    check(bad is None, f"the undamaged file was refused: {bad}")
    # zip archives carry a time of day
    want = [sut.read_json(want[0]), song_xml(want[1])]
    for i, op in enumerate(case["ops"]):
        d = apply(op, z, rnd)
        what = f"a gzip file of {len(z)} bytes after {op[:2] if op[0] == 'append' else op}"
        bad, files = attempt(ctx, d, case["stdin"], i % 2)
        ctx.counts[{"flip": "bit_flips", "cut": "truncations"}.get(op[0], "mangled")] += 1
        if bad is not None:
            untouched(bad, files, i % 2, what)
            ctx.counts["refused"] += 1
            check(d != z, lambda: f"{what} is intact, but was refused: {bad}")
        else:
            check(None not in files, lambda: f"{what} was accepted, but not everything was written")
            got = [sut.read_json(files[0]), song_xml(files[1])]
            check(got == want, lambda: f"{what} is damaged and was accepted, with different results")
            check(op[0] != "cut", lambda: f"{what} is incomplete, but was accepted")
            ctx.counts["harmless"] += 1


def song_xml(data):
    with zipfile.ZipFile(io.BytesIO(data)) as f:
        return f.read("Song.xml")


ORACLES = {"refused": run_refused, "damage": run_damage}
