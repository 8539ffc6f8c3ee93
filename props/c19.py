"""C19: the command line writes what was asked for, where it was asked for, and nothing else."""
import os

from lib import model, sut, xrns
from lib.sut import check

ID, LEVEL = "C19", "exploration"
ROUNDS = 2  # of the tasks in a quick run, each with fresh random choices
RULE = ("Command lines over every choice of outputs, short and long options, option orders, given and estimated ticks per note, "
        "absolute and relative and odd paths, pipes with a name, fresh and stale (longer, shorter, empty, read by someone) outputs. Monitor: a snapshot of "
        "the whole directory tree before and after, what the interpreter is asked to change elsewhere (an audit hook), standard output free of "
        "what was not asked for, each written file against the model, independence of the outputs.")
REQUIRE = {"runs": 400, "choices": 7, "stale": 200, "estimated": 40, "given": 150, "bystanders": 2000, "pipes": 4}


def tasks(tier):
    return ([{"kind": "cli", "i": i} for i in range(8 if tier == "quick" else 64)]
            + [{"kind": "process", "i": i, "weight": 3} for i in range(4 if tier == "quick" else 12)])


NAMES = ("i.json", "out", "a b.json", "ü.json", "x.vgm.json", "sub/i.json", "sub dir/deep/f", ".hidden", "noext.", "i.tar.gz", "UPPER.JSON",
         "t.xrns", "song.zip", "sub/t.xrns", "--weird", "a,b;c'd", "100%s", "{0}.json", "日本.json", "\U0001f3b5", "caf\udce9",
         "new\nline", "x ", " x", "x\t", "x\n", "\nx", "sub /x", "sub/ x", "X", "x.", " ", ". ", "%41", "x\\y", "sub/../up.json", "sub/-", "sub/--", "x" * 250, "$HOME", "~", "@x", "@song.vgm", "=x", "+x", "#x", ":", ",")


def cases(task, g):
    r = g.r
    if task["kind"] == "process":
        yield "pipes", {"ops": g.music(r.choice((1, 12, 200)), dense=1.0, lead=0), "tpn": r.randrange(3000, 12000), "which": r.choice(("i", "t", "it"))}
    for _ in range(g.n(12, 40) if task["kind"] == "cli" else g.n(1, 4)):
        ops = g.music(r.choice((0, 1, 3, 12, 30)), dense=r.choice((0.1, 1.0)), lead=r.choice((None, 0)))
        runs = []
        for _ in range(6):
            a, b = r.sample(NAMES, 2)
            runs.append({"i": a if r.random() < 0.65 else ("-" if r.random() < 0.15 else None), "t": b if r.random() < 0.65 else None,
                         "tn": r.random() < 0.7, "tpn": runs[-1]["tpn"] if runs and r.random() < 0.5 else g.edge(1, 12000 if r.random() < 0.7 else 1 << 24), "long": r.random() < 0.4, "eq": r.random() < 0.2,
                         "order": r.randrange(24), "rel": r.random() < 0.3, "stdin": r.random() < 0.2,
                         "stale": [r.choice((None, 0, 1, 3000, 200000)) for _ in range(2)]})
        yield "runs", {"ops": ops, "runs": runs, "process": task["kind"] == "process", "shuffle": r.randrange(1 << 30)}


def snapshot(root):
    out = {}
    for top, dirs, files in os.walk(root):
        for d in dirs:
            out[os.path.relpath(os.path.join(top, d), root)] = None
        for f in files:
            p = os.path.join(top, f)
            s = os.stat(p)
            out[os.path.relpath(p, root)] = (sut.read_file(p), s.st_mode, s.st_ino)
    return out


def run_runs(case, ctx):
    import shutil

    chip = model.Chip().feed(case["ops"])
    end = max((e[0] for evs in chip.events for e in evs), default=0)
    est = model.estimate(chip.onsets)
    box = os.path.join(ctx.scratch, "box")
    shutil.rmtree(box, ignore_errors=True)
    os.makedirs(os.path.join(box, "sub dir", "deep"))
    os.makedirs(os.path.join(box, "sub"))
    os.makedirs(os.path.join(box, "sub "))
    src = os.path.join(box, "song.vgm")
    blob = model.program_vgm(case["ops"])
    for n, d in (("song.vgm", blob), ("song.json", b"{}"), ("song.xrns", b"PK"), ("Song.xml", b"<a/>"), ("sub/other", b"x" * 999), ("-", b"dash")):
        with open(os.path.join(box, n), "wb") as f:
            f.write(d)
    cwd, whole = os.getcwd(), {}
    os.chdir(box)
    try:
        for run in case["runs"]:
            one(case, run, chip, end, est, box, src, blob, ctx, whole)
    finally:
        os.chdir(cwd)


class Changes:
    """What the interpreter is asked to change in the file system, wherever that is."""
    now = None
    hooked = False
    WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
    GONE = ("os.remove", "os.rmdir", "os.truncate", "os.rename", "os.chmod", "os.chown", "os.utime", "os.setxattr", "shutil.rmtree", "shutil.move")
    MADE = {"os.mkdir": 0, "os.link": 1, "os.symlink": 1, "os.rename": 1, "shutil.move": 1, "shutil.copyfile": 1}

    @classmethod
    def hook(cls, event, args):
        self = cls.now
        if self is None:
            return
        if event == "open":
            if isinstance(args[0], (str, bytes)) and isinstance(args[2], int) and args[2] & cls.WRITE:
                self.note("written", args[0])
            return
        if event in cls.GONE and args:
            self.note("removed or altered", args[0])
        if event in cls.MADE and len(args) > cls.MADE[event]:
            self.note("made", args[cls.MADE[event]])

    def note(self, how, path):
        if isinstance(path, (str, bytes, os.PathLike)):
            p = os.path.abspath(os.fsdecode(path))
            self.seen.append((how, os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))))

    def __enter__(self):
        import sys

        self.seen = []
        if not Changes.hooked:
            Changes.hooked = True
            sys.addaudithook(Changes.hook)
        Changes.now = self
        return self

    def __exit__(self, *_):
        Changes.now = None

    def outside(self, box):
        """What is left of changes outside; temporary files that are gone again do no harm."""
        import sys

        root = os.path.realpath(box) + os.sep
        cache = (os.path.realpath(sys.pycache_prefix) + os.sep) if sys.pycache_prefix else root
        made = {p for how, p in self.seen if how in ("written", "made")}
        out = []
        for how, p in self.seen:
            if p.startswith((root, cache, "/dev/", "/proc/")) or "__pycache__" in p or p.endswith(".pyc"):
                continue
            if how == "removed or altered" and p not in made or how != "removed or altered" and os.path.lexists(p):
                out.append((how, p))
        return out


def printed_instruments(out):
    import json
    import re

    for m in re.finditer(r"\[\s*\{", out):
        try:
            js = json.JSONDecoder().raw_decode(out[m.start():])[0]
        except ValueError:
            continue
        if any(isinstance(x, dict) and "channel" in x for x in js):
            return True
    return False


def run_pipes(case, ctx):
    """Outputs that are pipes with a name: someone reads them while they are written."""
    import threading

    chip = model.Chip().feed(case["ops"])
    end = max((e[0] for evs in chip.events for e in evs), default=0)
    tpn = max(case["tpn"], end // 64 // 50 + 1)
    src = os.path.join(ctx.scratch, "song.vgm")
    with open(src, "wb") as f:
        f.write(model.program_vgm(case["ops"]))
    args, got, threads = [src, "-tn", tpn], {}, []
    for o in case["which"]:
        path = os.path.join(ctx.scratch, f"pipe.{o}")
        os.mkfifo(path)
        args += [f"-{o}", path]

        def read(o=o, path=path):
            with open(path, "rb") as f:
                got[o] = f.read()

        threads.append((path, threading.Thread(target=read, daemon=True)))
        threads[-1][1].start()
    try:
        rc, _out, err = sut.cli_process(args)
    finally:
        for path, t in threads:
            # nobody waits at the other end for ever
            t.join(0.2)
            os.close(os.open(path, os.O_RDWR | os.O_NONBLOCK))
            t.join(20)
            os.remove(path)
    check(rc == 0, lambda: f"outputs to pipes: {err.decode(errors='replace')[-300:]}")
    for o in case["which"]:
        check(got.get(o), lambda: f"nothing came through the pipe given with -{o}")
        if o == "i":
            sut.same(sut.read_json(got[o]), chip.instruments, "instruments through a pipe")
        else:
            xrns.check_song(xrns.parse(got[o]), chip.events, len(chip.instruments), tpn)
        ctx.counts["pipes"] += 1


def one(case, run, chip, end, est, box, src, blob, ctx, whole):
    i, t, tn = run["i"], run["t"], run["tn"]
    if not tn and est and end // 64 // est > 50:
        tn = True
    tpn = max(run["tpn"], end // 64 // 50 + 1) if tn else est or 1000  # without a note, any will do
    for name, size in zip((i, t), run["stale"]):
        if name and name != "-":
            p = os.path.join(box, name)
            if size is None:
                if os.path.exists(p):
                    os.remove(p)
            else:
                with open(p, "wb") as f:
                    f.write((b"[stale]\n" * (size // 8 + 1))[:size])
                if run["order"] % 3 == 0:
                    # from another time than the input
                    os.utime(p, ((0, 1 << 30, 1 << 32)[run["order"] // 3 % 3],) * 2)
                ctx.counts["stale"] += 1

    def opt(short, long, val):
        if run["long"]:
            return [f"{long}={val}"] if run["eq"] or str(val).startswith("--") else [long, val]
        return [short + str(val)] if str(val).startswith("--") else [short, val]

    groups = [["-" if run["stdin"] else ("song.vgm" if run["rel"] else src)]]
    if i:
        p = i if run["rel"] or i == "-" else os.path.join(box, i)
        groups.append(opt("-i", "--instrument", p))
    if t:
        groups.append(opt("-t", "--track", t if run["rel"] else os.path.join(box, t)))
    if tn:
        groups.append(opt("-tn", "--ticks-per-note", tpn))
    import random

    random.Random(run["order"]).shuffle(groups)
    args = [str(a) for grp in groups for a in grp]
    before = snapshot(box)
    if case["process"]:
        env = {"PYTHONIOENCODING": ("utf-8", "ascii", "utf-8:strict", "latin-1")[run["order"] % 4]}
        rc, out, err = sut.cli_process(args, stdin=blob if run["stdin"] else None, cwd=box, env=env)
        check(rc == 0, lambda: f"{args} failed: {err.decode(errors='replace')[-300:]}")
        out = out.decode("latin-1")
    else:
        with Changes() as ch:
            out = sut.cli_ok(args, stdin=blob if run["stdin"] else None)
        far = ch.outside(box)
        check(not far, lambda: f"running with {args}: {far[0][1]} was {far[0][0]}, which nobody asked for")
        ctx.counts["file_changes_seen"] += len(ch.seen)
    after = snapshot(box)
    what = f"running with {args}"
    i, t = (os.path.normpath(n) if n and n != "-" else n for n in (i, t))
    asked = {n for n in (i, t) if n and n != "-"}
    for n in sorted(set(before) | set(after)):
        if n in asked:
            continue
        if before.get(n, 0) != after.get(n, 0):
            change = "was created" if n not in before else "is gone" if n not in after else "was changed"
            raise sut.Mismatch(f"{what}: {n!r}, which nobody asked for, {change}")
        ctx.counts["bystanders"] += 1
    for n in asked:
        check(n in after, lambda: f"{what}: {n!r} was not written")
    if i and i != "-":
        sut.same(sut.read_json(after[i][0]), chip.instruments, f"{what}: instrument file")
    elif i:
        out = "\n" + out
        check("\n[" in out, lambda: f"{what}: no instruments on standard output")
        import json

        at = out.index("\n[") + 1
        try:
            js = json.JSONDecoder().raw_decode(out[at:])[0]
        except ValueError as e:
            raise sut.Mismatch(f"{what}: no JSON on standard output: {e}")
        sut.same(js, chip.instruments, f"{what}: instruments on standard output")
    if i != "-" and chip.instruments:
        check(not printed_instruments(out), lambda: f"{what}: the instruments are on standard output, which nobody asked for")
    check("PK\x03\x04" not in out and "<RenoiseSong" not in out, lambda: f"{what}: the song is on standard output, which nobody asked for")
    if t:
        doc = xrns.parse(after[t][0])
        try:
            xrns.check_song(doc, chip.events, len(chip.instruments), tpn)
            xrns.check_structure(doc, chip.events, len(chip.instruments), tpn)
        except sut.Mismatch as e:
            raise sut.Mismatch(f"{what}, {'given' if tn else 'estimated'} ticks per note {tpn}: {e}")
        sut.same(doc["whole"], whole.setdefault(tpn if tn or est else None, doc["whole"]), f"{what}: the song file as a whole, compared with other runs on the song")
        bpm = doc["globals"]["BeatsPerMin"]
        check(bpm == str(661500 // tpn) or not tn and not est, lambda: f"{what}: {bpm} beats per minute, expected {661500 // tpn} for {tpn} ticks per note")
    ctx.counts["runs"] += 1
    ctx.counts["given" if tn else "estimated"] += 1
    ctx.saw("choices", (bool(i), bool(t), tn))


ORACLES = {"runs": run_runs, "pipes": run_pipes}
