"""C22: an output that cannot be written completely is reported, never passed off as success."""
import errno
import fcntl
import io
import json
import os
import resource
import select
import signal
import sys
import time

from lib import model, sut, xrns
from lib.sut import Mismatch, check

F_SETPIPE_SZ = 1031
ID, LEVEL = "C22", "fault_enumeration"
ROUNDS = 2  # of the tasks in a quick run, each with fresh random choices
RULE = ("The program runs with its files cut off by the kernel after k bytes, for the byte budgets from 0 past the size of either "
        "output, on /dev/full, into missing directories, onto directories and through broken links, into pipes whose reader leaves and standard outputs that take k bytes, and its song writer on file objects "
        "whose n-th write, flush or seek fails. Each fault must end in a reported failure; every success must leave complete files.")
REQUIRE = {"budgets": 500, "reported": 500, "complete": 30, "paths": 40, "object_faults": 50, "stdout_faults": 2, "readers_left": 12, "opens": 60}


def tasks(tier):
    t = [{"kind": "budget", "i": i, "weight": 3} for i in range(8 if tier == "quick" else 48)]
    t += [{"kind": "paths", "i": i} for i in range(2 if tier == "quick" else 8)]
    t += [{"kind": "refused", "i": i} for i in range(2 if tier == "quick" else 8)]
    t += [{"kind": "object", "i": i} for i in range(2 if tier == "quick" else 16)]
    t += [{"kind": "process", "i": i, "weight": 4} for i in range(2 if tier == "quick" else 6)]
    return t


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "budget":
        for which in ("i", "t", "both"):
            # zip and JSON sizes below, around and above the 8 KiB of a write buffer
            ops = g.music(r.choice((1, 3, 12, 30)), dense=0.3, lead=0)
            yield "budget", {"ops": ops, "which": which, "n": g.n(28, 400), "pick": r.randrange(1 << 30)}
    elif k == "paths":
        for _ in range(g.n(2, 6)):
            yield "paths", {"ops": g.music(r.choice((1, 10, 40)), lead=0)}
        yield "paths", {"ops": []}
    elif k == "refused":
        for _ in range(g.n(3, 8)):
            yield "refused", {"ops": g.music(r.choice((1, 10)), lead=0), "pick": r.randrange(1 << 30), "n": g.n(12, 60)}
    elif k == "object":
        for _ in range(g.n(3, 10)):
            yield "object", {"ops": g.music(r.choice((1, 10, 60)), lead=0), "tpn": r.choice((735, 6000, 60000))}
    else:
        yield "stdout", {"ops": g.music(r.choice((1, 60)), lead=0), "tpn": 6000}
        yield "stdout", {"ops": g.growth(40), "tpn": 6000}


def in_child(fn, limit):
    """Runs fn() -> failure text or None in a forked child that can write no more than limit bytes per file."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(rd)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            try:
                bad = fn()
            except BaseException as e:
                bad = f"{type(e).__name__}: {e}"
            os.write(wr, json.dumps([bad if bad is None else str(bad)[:500]]).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    data = b""
    while True:
        b = os.read(rd, 65536)
        if not b:
            break
        data += b
    os.close(rd)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return f"killed by signal {os.WTERMSIG(status)}"
    if status or not data:
        raise RuntimeError(f"the forked child broke: {status}")
    return json.loads(data)[0]


def setup(case, ctx):
    chip = model.Chip().feed(case["ops"])
    end = max((e[0] for evs in chip.events for e in evs), default=0)
    src = os.path.join(ctx.scratch, "a.vgm")
    with open(src, "wb") as f:
        f.write(model.program_vgm(case["ops"]))
    return chip, max(735, end // 64 // 12 + 1), src


def verify(chip, tpn, ij, tx, what):
    if ij:
        check(os.path.exists(ij), f"{what}: reported success without an instrument file")
        sut.same(sut.read_json(sut.read_file(ij)), chip.instruments, f"{what}: reported success; instrument file")
    if tx:
        check(os.path.exists(tx), f"{what}: reported success without a song file")
        try:
            xrns.check_song(xrns.parse(sut.read_file(tx)), chip.events, len(chip.instruments), tpn)
        except Mismatch as e:
            raise Mismatch(f"{what}: reported success; song file: {e}")


def run_budget(case, ctx):
    import random

    r = random.Random(case["pick"])
    chip, tpn, src = setup(case, ctx)
    ij = os.path.join(ctx.scratch, "i.json") if case["which"] in ("i", "both") else None
    tx = os.path.join(ctx.scratch, "t.xrns") if case["which"] in ("t", "both") else None
    args = [src, "-tn", tpn] + (["-i", ij] if ij else []) + (["-t", tx] if tx else [])
    sut.cli_ok(args)
    verify(chip, tpn, ij, tx, "without faults")
    sizes = [os.path.getsize(p) for p in (ij, tx) if p]
    top = max(sizes)
    picks = {0, 1, 2, 8192, 4096, 16384} | {s + d for s in sizes for d in (-2, -1, 0, 1, 50)} | {top - 22, top - 23, top // 2}
    picks |= {r.randrange(top + 1) for _ in range(case["n"])}
    for k in sorted(p for p in picks if p >= 0):
        for p in (ij, tx):
            if p and os.path.exists(p):
                os.remove(p)
        bad = in_child(lambda: sut.cli(args)[0], k)
        what = f"writing {case['which']} ({sizes} bytes) with room for {k} bytes per file"
        ctx.counts["budgets"] += 1
        if bad is None:
            check(k >= top, f"{what}: reported success")
            verify(chip, tpn, ij, tx, what)
            ctx.counts["complete"] += 1
        else:
            check(k < top, lambda: f"{what} failed: {bad}")
            ctx.counts["reported"] += 1


def run_paths(case, ctx):
    chip, tpn, src = setup(case, ctx)
    d = ctx.scratch
    ok = os.path.join(d, "ok")
    link = os.path.join(d, "broken")
    if not os.path.islink(link):
        os.symlink(os.path.join(d, "no", "where"), link)
    bad_paths = ["/dev/full", os.path.join(d, "no", "dir.json"), d, os.path.join(src, "x"), link, os.path.join(d, "n" * 300)]
    for p in bad_paths:
        for opt in ("-i", "-t"):
            if p == "/dev/full" and opt == "-t" and not os.path.exists(p):
                continue
            args = [src, "-tn", tpn, opt, p]
            if opt == "-i" and not case["ops"] and p == "/dev/full":
                pass  # even '[]' does not fit there
            bad = in_child(lambda: sut.cli(args)[0], None)
            check(bad is not None, f"writing {opt} to {p} reported success")
            for extra in (["-i" if opt == "-t" else "-t", ok],):
                if os.path.exists(ok):
                    os.remove(ok)
                bad = in_child(lambda: sut.cli(args + extra)[0], None)
                check(bad is not None, f"writing {opt} to {p} and {extra[0]} elsewhere reported success")
            ctx.counts["paths"] += 2
            ctx.counts["reported"] += 2
    check(not os.path.exists(os.path.join(d, "no")), "a missing directory was created")


ERRORS = [getattr(errno, n) for n in ("EACCES", "EPERM", "EROFS", "EISDIR", "ENOSPC", "EMFILE", "ENFILE", "EBUSY", "ETXTBSY", "ENOENT", "ELOOP", "ENAMETOOLONG",
                                       "EEXIST", "EDQUOT", "EIO", "EINTR", "EAGAIN", "ENXIO", "EINVAL", "ENOTDIR", "ENODEV", "ESTALE", "ETIMEDOUT")]


def run_refused(case, ctx):
    """The system refuses to open an output, with every kind of reason, always or the first times only."""
    import random

    r = random.Random(case["pick"])
    chip, tpn, src = setup(case, ctx)
    ij, tx = os.path.join(ctx.scratch, "i.json"), os.path.join(ctx.scratch, "t.xrns")
    for _ in range(case["n"]):
        err, times, victim, old = r.choice(ERRORS), r.choice((1, 1, 2, 1 << 30)), r.choice((ij, tx)), r.random() < 0.5
        outs = r.choice(([victim], [ij, tx]))
        for p in (ij, tx):
            if os.path.exists(p):
                os.remove(p)
            if old:
                with open(p, "wb") as f:
                    f.write(b"older contents")

        def attempt():
            left = [times]

            def hook(event, args):
                if event == "open" and left[0] and args[0] in (victim, os.fsencode(victim)) and (args[2] or 0) & (os.O_WRONLY | os.O_RDWR):
                    left[0] -= 1
                    raise OSError(err, os.strerror(err), victim)

            sys.addaudithook(hook)  # in a process of its own, which ends with this
            return sut.cli([src, "-tn", tpn] + [x for p in outs for x in ("-i" if p == ij else "-t", p)])[0]

        bad = in_child(attempt, None)
        what = f"opening {os.path.basename(victim)} fails {'always' if times > 2 else times} with {errno.errorcode[err]}, writing {len(outs)} outputs"
        ctx.counts["opens"] += 1
        ctx.counts["reported"] += bad is not None
        if bad is None:
            verify(chip, tpn, ij if ij in outs else None, tx if tx in outs else None, what)
            ctx.counts["complete"] += 1


class Faulty(io.BytesIO):
    """A file object whose n-th operation of one kind fails."""

    def __init__(self, kind, n):
        super().__init__()
        self.kind, self.n, self.hit = kind, n, False
        self.seen = {"write": 0, "flush": 0, "seek": 0}

    def tick(self, kind):
        self.seen[kind] += 1
        if kind == self.kind and self.seen[kind] > self.n:
            self.hit = True
            raise OSError(28, "No space left on device")

    def write(self, b):
        self.tick("write")
        return super().write(b)

    def flush(self):
        self.tick("flush")

    def seek(self, *a):
        self.tick("seek")
        return super().seek(*a)


def run_object(case, ctx):
    st, chip = sut.new_state(), model.Chip()
    sut.feed(st, case["ops"])
    chip.feed(case["ops"])
    with sut.call("building a song"):
        song = sut.S.song.Song(tracks=8, instruments=3)
        for ch in range(8):
            for e in chip.events[ch]:
                row = e[0] // case["tpn"] % 20000
                song.pattern_pool.add_note(row // 64 % 50, ch, row % 64, "C-4", "00", None)
    probe = Faulty(None, 0)
    with sut.call("writing a song"):
        sut.S.writer.writer(probe, song)
    want = xml(probe.getvalue())
    for kind in ("write", "flush", "seek"):
        for n in range(min(probe.seen[kind], 40)):
            f = Faulty(kind, n)
            bad = None
            sut._depth += 1
            try:
                sut.S.writer.writer(f, song)
            except Exception as e:
                bad = e
            finally:
                sut._depth -= 1
            ctx.counts["object_faults"] += 1
            if bad is None and f.hit:
                # a fault the writer worked around must leave a complete file
                try:
                    whole = xml(f.getvalue()) == want
                except Exception:
                    whole = False
                check(whole, f"{kind} number {n + 1} failed while writing a song, nothing was reported, and the file is incomplete")
            ctx.counts["reported"] += bad is not None


def xml(data):
    import zipfile

    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return z.read("Song.xml")


def complete(text, chip):
    """Whether the instruments stand in what was printed (from the bracket that opens them)."""
    text = text.decode("utf-8", "replace")
    for at in [i for i, c in enumerate(text) if c == "["]:
        try:
            got, _end = json.JSONDecoder().raw_decode(text[at:])
        except ValueError:
            continue
        if got == chip.instruments:
            return True
    return False


def left_alone(src, tpn, fifo, taken):
    """Exit status when the reader of the instruments leaves after some bytes, and how many the pipe may have held by then."""
    import subprocess

    if fifo and not os.path.exists(fifo):
        os.mkfifo(fifo)
    rd, wr = (os.open(fifo, os.O_RDONLY | os.O_NONBLOCK), None) if fifo else os.pipe()
    room = fcntl.fcntl(rd, F_SETPIPE_SZ, 4096)
    p = subprocess.Popen([sut.PYTHON, sut.MAIN, src, "-i", fifo or "-", "-tn", str(tpn)], stdin=subprocess.DEVNULL, env=sut.process_env(None),
                         stdout=subprocess.DEVNULL if fifo else wr, stderr=subprocess.DEVNULL)
    try:
        if wr is not None:
            os.close(wr)
        got = 0
        while got < taken:
            ended = p.poll() is not None
            select.select([rd], [], [], 0.05)
            try:
                n = len(os.read(rd, taken - got))
            except BlockingIOError:
                n = 0
            got += n
            if not n and (ended or not fifo):
                break
        os.close(rd)
        while p.poll() is None:
            if fifo:  # whoever opens the pipe once more finds nobody for long
                os.close(os.open(fifo, os.O_RDONLY | os.O_NONBLOCK))
            time.sleep(0.02)
        return p.returncode, got + room
    finally:
        p.kill()
        p.wait()


def run_stdout(case, ctx):
    """Instruments on a standard output that is full or closed at the other end."""
    chip, tpn, src = setup(case, ctx)
    with open("/dev/full", "wb") as full:
        rc, _out, _err = sut.cli_process([src, "-i", "-", "-tn", tpn], stdout=full)
    check(rc != 0, "instruments on a full standard output reported success")
    # a reader that leaves: before the start, or after the first bytes of more than a pipe holds
    rd, wr = os.pipe()
    os.close(rd)
    with os.fdopen(wr, "wb") as dead:
        rc, _out, _err = sut.cli_process([src, "-i", "-", "-tn", tpn], stdout=dead)
    check(rc != 0, "instruments on a standard output whose reader had left reported success")
    ij = os.path.join(ctx.scratch, "size.json")
    sut.cli_ok([src, "-tn", tpn, "-i", ij])
    size = os.path.getsize(ij)
    for fifo in (None, os.path.join(ctx.scratch, "fifo")):
        for taken in (1, 100, 5000):
            rc, held = left_alone(src, tpn, fifo, taken)
            if size > held + 1000:
                check(rc != 0, f"instruments ({size} bytes) into {'a named pipe' if fifo else 'standard output'} whose reader left after {taken} bytes reported success")
                ctx.counts["readers_left"] += 1
            ctx.counts["reported"] += rc != 0
    # a file behind standard output that takes k bytes
    out = os.path.join(ctx.scratch, "out.txt")
    rc, whole, _err = sut.cli_process([src, "-i", "-", "-tn", tpn])
    check(rc == 0 and complete(whole, chip), "instruments on standard output are not complete")
    for k in (0, 1, 100, len(whole) // 2, len(whole) - 1, len(whole), len(whole) + 1):
        with open(out, "wb") as f:
            rc, _out, _err = sut.cli_process([src, "-i", "-", "-tn", tpn], stdout=f, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (k, k)))
        check(rc != 0 or complete(sut.read_file(out), chip), f"standard output took {k} of {len(whole)} bytes, success was reported")
        check(rc == 0 or k < len(whole), f"standard output took all of {len(whole)} bytes, failure was reported")
        ctx.counts["reported"] += rc != 0
    for opt in ("-i", "-t"):
        rc, _out, _err = sut.cli_process([src, opt, "/dev/full", "-tn", tpn])
        check(rc != 0, f"{opt} /dev/full reported success")
    ctx.counts["stdout_faults"] += 1
    ctx.counts["reported"] += 3


ORACLES = {"budget": run_budget, "paths": run_paths, "object": run_object, "refused": run_refused, "stdout": run_stdout}
