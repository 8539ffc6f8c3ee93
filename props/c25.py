"""C25: every file the program opened is closed again, what others opened stays open."""
import contextlib
import gc
import gzip
import io
import os
import runpy
import sys
import warnings

from lib import model, sut
from lib.sut import check

ID, LEVEL = "C25", "fault_enumeration"
ROUNDS = 2  # of the tasks in a quick run, each with fresh random choices
RULE = ("Runs of the command line and of each export that succeed, and ones that fail in every place that can: input missing, a directory, foreign, cut or damaged at any "
        "byte; outputs full, missing, read-only or directories; events and instruments that fail while written; ticks of zero. Readers and song writers get file objects of "
        "their caller's. Monitor: census of the open descriptors with the error still held, ResourceWarnings of the interpreter, state of the standard streams and of the caller's objects.")
REQUIRE = {"ended_well": 300, "failed": 400, "censuses": 800, "owners": 300, "processes": 10, "streams": 300, "ways_to_fail": 12}


def tasks(tier):
    m = 1 if tier == "quick" else 8
    return ([{"kind": k, "i": i} for k in ("cli", "export", "owner") for i in range(4 * m)]
            + [{"kind": "process", "i": i, "weight": 3} for i in range(2 * m)])


IN_FAULTS = ("missing", "directory", "foreign", "empty", "cut", "gzip cut", "gzip damaged", "gzip foreign", "gzip junk")
OUT_FAULTS = ("no directory", "directory", "full", "name too long")


def cases(task, g):
    r = g.r
    k = task["kind"]
    for _ in range(g.n({"cli": 40, "export": 40, "owner": 40, "process": 4}[k], {"cli": 60, "export": 60, "owner": 60, "process": 6}[k])):
        ops = g.music(r.choice((0, 1, 5, 20)), lead=0)
        if k in ("cli", "process"):
            yield k, {"ops": ops, "gz": r.random() < 0.4, "stdin": r.random() < 0.3, "in": r.choice(IN_FAULTS) if r.random() < 0.4 else None,
                      "at": r.random(), "i": r.choice((None, "-", "ok", "ok", *OUT_FAULTS)), "t": r.choice((None, "ok", "ok", *OUT_FAULTS)),
                      "tn": r.choice((3000, 3000, 7999, 0 if ops else 3000))}
        elif k == "export":
            yield "export", {"ops": ops, "what": r.choice(("song", "table", "instruments")), "out": r.choice(("ok", "ok", "ok", "-", *OUT_FAULTS)),
                             "fail": r.choice((None, None, "events", "instruments", "tpn", "event")), "at": r.randrange(8)}
        else:
            yield "owner", {"ops": ops, "how": r.choice(("plain", "gz", "foreign", "gz foreign", "cut", "gz cut", "writer", "writer", "empty", "gz empty", "gz twice",
                                                             "gz foreign twice", "short", "gz junk", "gz damaged")),
                            "at": r.random(), "real": r.random() < 0.5, "n": r.randrange(5)}


def descriptors():
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            out[int(fd)] = os.readlink(f"/proc/self/fd/{fd}")
    # the listing itself
    return {fd: to for fd, to in out.items() if "/proc/" not in to}


def watch(fn, what, ctx):
    """Runs fn; with whatever it raised still held, no descriptor may be left over."""
    gc.collect()
    before = descriptors()
    held = None
    with warnings.catch_warnings(record=True) as noted:
        warnings.simplefilter("always", ResourceWarning)
        try:
            fn()
        except SystemExit as e:
            held = e if e.code else None
        except Exception as e:
            held = e
        after = descriptors()
        left = {fd: to for fd, to in after.items() if before.get(fd) != to}
        gone = {fd: to for fd, to in before.items() if fd not in after}
        how = f"ended with {type(held).__name__}: {held}" if held else "was over"
        check(not left, lambda: f"{what} {how}, and left open {left}")
        check(not gone, lambda: f"{what} {how}, and closed {gone}")
        bad = held
        held = None
        if bad is not None:
            bad.__traceback__ = None
            bad.__context__ = None
        gc.collect()
    leaks = [str(w.message) for w in noted if issubclass(w.category, ResourceWarning)]
    check(not leaks, lambda: f"{what} {how}: {leaks[0]}")
    ctx.counts["censuses"] += 1
    ctx.counts["failed" if bad else "ended_well"] += 1
    return bad


def source(case, ctx):
    """(path, bytes) of the input with its fault."""
    data = model.program_vgm(case["ops"])
    fault, at = case["in"], case["at"]
    if case["gz"] or (fault or "").startswith("gzip"):
        data = gzip.compress(b"junk" * 50 if fault == "gzip foreign" else data, mtime=0)
    if fault in ("cut", "gzip cut"):
        data = data[:int(at * len(data))]
    elif fault == "gzip damaged":
        i = int(at * len(data))
        data = data[:i] + bytes((data[i] ^ 0x55,)) + data[i + 1:]
    elif fault == "gzip junk":
        data += b"junk"
    elif fault == "foreign":
        data = b"RIFF" + data[4:]
    elif fault == "empty":
        data = b""
    path = os.path.join(ctx.scratch, "in.vgm")
    if fault == "directory":
        return ctx.scratch, data
    if os.path.exists(path):
        os.remove(path)
    if fault != "missing":
        with open(path, "wb") as f:
            f.write(data)
    return path, data


def target(how, name, ctx):
    return {None: None, "-": "-", "ok": os.path.join(ctx.scratch, name), "no directory": os.path.join(ctx.scratch, "none", name),
            "directory": ctx.scratch, "full": "/dev/full", "name too long": os.path.join(ctx.scratch, "n" * 300)}[how]


def arguments(case, ctx):
    path, data = source(case, ctx)
    args = ["-" if case["stdin"] else path, "-tn", str(case["tn"])]
    i, t = target(case["i"], "o.json", ctx), target(case["t"], "o.xrns", ctx)
    args += ["-i", i] * (i is not None) + ["-t", t] * (t is not None)
    return args, data


def must_end_well(case):
    return case["in"] is None and case["i"] in (None, "-", "ok") and case["t"] in (None, "ok")


def run_cli(case, ctx):
    args, data = arguments(case, ctx)
    # over a descriptor of its own, so that being closed shows
    rd, out, err = sut.Stdin(data), io.StringIO(), io.StringIO()
    rd_raw = rd.buffer

    def go():
        argv, std = sys.argv, (sys.stdin, sys.stdout, sys.stderr)
        sys.argv, sys.stdin, sys.stdout, sys.stderr = [sut.MAIN] + args, rd, out, err
        try:
            runpy.run_path(sut.MAIN, run_name="__main__")
        finally:
            sys.argv = argv
            sys.stdin, sys.stdout, sys.stderr = std

    what = f"a run with {args}"
    bad = watch(go, what, ctx)
    if must_end_well(case):
        check(bad is None, lambda: f"{what} failed: {type(bad).__name__}: {bad}")
    for name, s in (("input", rd), ("output", out), ("error", err)):
        check(not s.closed, lambda: f"{what} closed standard {name}")
        ctx.counts["streams"] += 1
    check(not rd_raw.closed, lambda: f"{what} closed standard input")
    ctx.saw("ways_to_fail", (type(bad).__name__, case["in"] if bad else None))
    del rd, out, err


class Failure(Exception):
    pass


def run_export(case, ctx):
    st = sut.new_state()
    sut.feed(st, case["ops"])
    ops_fail = case["fail"]
    tpn = 0 if ops_fail == "tpn" else 3000
    if ops_fail == "events":
        calls, inner = [0], st.key_presses

        def key_presses(ch):
            calls[0] += 1
            if calls[0] > case["at"]:
                raise Failure("the events are not to be had")
            return inner(ch)

        st.key_presses = key_presses
    elif ops_fail == "event":
        class Bad:
            def __getattribute__(self, name):
                raise Failure("an event that fails")

        st.key_presses(case["at"]).append(Bad())
    elif ops_fail == "instruments":
        class Worse:
            def repr_json(self):
                raise Failure("an instrument that fails")

        st.configs.append(Worse())
    path = target(case["out"] if case["out"] != "-" or case["what"] != "song" else "ok", "x", ctx)
    e = sut.S.extractors
    out = io.StringIO()

    def go():
        with contextlib.redirect_stdout(out):
            if case["what"] == "song":
                e.extract_tracks_to_xrns(st, path, tpn)
            elif case["what"] == "table":
                e.extract_tracks(st, path, tpn)
            else:
                e.extract_instruments(path, st)

    what = f"exporting the {case['what']} to {case['out']} (failing: {ops_fail})"
    bad = watch(go, what, ctx)
    if ops_fail is None and case["out"] in ("ok", "-"):
        check(bad is None, lambda: f"{what} failed: {type(bad).__name__}: {bad}")
    check(not out.closed, lambda: f"{what} closed standard output")
    ctx.counts["streams"] += 1
    ctx.saw("ways_to_fail", (case["what"], case["out"], ops_fail, type(bad).__name__))


def run_owner(case, ctx):
    how = case["how"]
    if how == "writer":
        path = os.path.join(ctx.scratch, "w.xrns")
        f = open(path, "w+b") if case["real"] else io.BytesIO()
        with f:
            with sut.call("building and writing a song"):
                for _ in range(2):
                    song = sut.S.song.Song(tracks=1 + case["n"], instruments=case["n"])
                    song.pattern_pool.add_note(case["n"], 0, 3, "C-4", None, None)
                    f.seek(0)
                    f.truncate()

                    def go():
                        sut.S.writer.writer(f, song)

                    bad = watch(go, "writing a song to an open file", ctx)
                    check(bad is None, lambda: f"writing a song to an open file failed: {bad}")
                    check(not f.closed, "writing a song closed the file it was given")
                    f.seek(0)
                    check(f.read()[:2] == b"PK", "the file given holds no archive")
                    ctx.counts["owners"] += 1
        return
    data = model.program_vgm(case["ops"])
    if "foreign" in how:
        data = b"Vgn " + data[4:]
    if "empty" in how:
        data = b""
    if "short" in how:
        data = data[:1 + int(case["at"] * 8)]
    for _ in range(("gz" in how) + ("twice" in how)):
        data = gzip.compress(data)
    if "junk" in how:
        data += b"junk"
    if "damaged" in how:
        i = int(case["at"] * len(data))
        data = data[:i] + bytes((data[i] ^ 0x55,)) + data[i + 1:]
    if "cut" in how:
        data = data[:int(case["at"] * len(data))]
    path = os.path.join(ctx.scratch, "r.vgm")
    with open(path, "wb") as f:
        f.write(data)
    f = open(path, "rb") if case["real"] else io.BytesIO(data)
    with f:
        for _ in range(2):
            f.seek(0)

            def go():
                r = sut.S.core.reader(f)
                if r is not None:
                    for c in r:
                        if c.command_type == sut.S.command.VgmCommandType.EOS:
                            break
                    with contextlib.redirect_stdout(io.StringIO()):
                        pass
                    r.size(), r.version

            bad = watch(go, f"reading an open file ({how})", ctx)
            if how in ("plain", "gz"):
                check(bad is None, lambda: f"reading failed: {type(bad).__name__}: {bad}")
            check(not f.closed, lambda: f"reading ({how}) closed the file that was given")
            f.seek(0)
            check(f.read() == data, "the file given reads differently afterwards")
            ctx.counts["owners"] += 1


def run_process(case, ctx):
    args, data = arguments(case, ctx)
    if case["i"] == "full":
        pass
    rc, out, err = sut.cli_process(args, stdin=data if case["stdin"] else None, env={"PYTHONWARNINGS": "always::ResourceWarning"})
    err = err.decode(errors="replace")
    check("ResourceWarning" not in err, lambda: f"a run with {args}: {err[-300:]}")
    if must_end_well(case):
        check(rc == 0, lambda: f"a run with {args} failed: {err[-300:]}")
        # everything printed arrived, the last word included
        check(b"Ticks per Note: " in out or not case["tn"], lambda: f"a run with {args} printed only {out[-200:]!r}")
    ctx.counts["processes"] += 1


ORACLES = {"cli": run_cli, "export": run_export, "owner": run_owner, "process": run_process}
