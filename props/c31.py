"""C31: a command line that cannot be acted on is refused before anything is touched."""
import os

from lib import model, sut
from lib.sut import check
from props.c19 import snapshot

ID, LEVEL = "C31", "exploration"
ROUNDS = 2
RULE = ("Command lines broken in one place: no file, several files, unknown options, options without a value, ticks per note that are negative or no whole number; "
        "each combined with any valid rest, in any order, short and long, with fresh and earlier outputs, with and without a song on standard input, in process and as processes. Monitor: exit status, "
        "the message, the directory tree before and after; asking for help says how to use it and does nothing; the same line without the break works.")
REQUIRE = {"refused": 600, "ways": 25, "unbroken": 200, "help": 12, "bystanders": 3000, "processes": 15}

BAD_TICKS = ("-1", "-5", "-735", "-0x10", "abc", "1.5", "7e3", "", " ", "1,000", "0x10", "735t", "--", "1/2", "nan", "inf", "-inf", "five", "7 35", "5000.0", "\u00bd", "+-3",
             "-99999999999999999999")


def tasks(tier):
    return ([{"kind": "cli", "i": i} for i in range(8 if tier == "quick" else 64)]
            + [{"kind": "process", "i": i, "weight": 3} for i in range(2 if tier == "quick" else 8)])


def broken(r):
    """(way, the groups of arguments that break a line, whether the file is named as well)."""
    way = r.choice(("no file", "two files", "option", "short option", "no value", "ticks", "ticks", "ticks"))
    if way == "no file":
        return way, [], False
    if way == "two files":
        return way, [[r.choice(("song.vgm", "other.vgm", "nowhere", ""))]], True
    if way == "option":
        o = r.choice(("--frobnicate", "--output", "--instruments-only", "--tempo=120", "--Track", "--ticks_per_note", "--version-please"))
        return f"{way} {o}", [[o]], True
    if way == "short option":
        o = r.choice(("-x", "-z9", "-o", "-q", "-T"))
        return f"{way} {o}", [[o]], True
    if way == "no value":
        return way, None, True
    v = r.choice(BAD_TICKS)
    how = r.choice(("apart", "equals", "long", "long equals"))
    if v == "--" and how in ("apart", "long"):
        how = "equals"
    o = "--ticks-per-note" if "long" in how else "-tn"
    return f"{way} {v!r}", [[f"{o}={v}"] if "equals" in how else [o, v]], True


def cases(task, g):
    r = g.r
    for _ in range(g.n(14, 60) if task["kind"] == "cli" else g.n(2, 4)):
        yield "lines", {"ops": g.music(r.choice((1, 5, 20)), dense=1.0, lead=0), "process": task["kind"] == "process",
                        "pick": r.randrange(1 << 30), "n": 8 if task["kind"] == "cli" else 5}


def run_lines(case, ctx):
    import random
    import shutil

    r = random.Random(case["pick"])
    box = os.path.join(ctx.scratch, "box")
    shutil.rmtree(box, ignore_errors=True)
    os.makedirs(os.path.join(box, "sub"))
    blob = model.program_vgm(case["ops"])
    last = sum(o[1] for o in case["ops"] if o[0] == "wait")
    for n, d in (("song.vgm", blob), ("other.vgm", blob), ("sub/x", b"x"), ("-x", b"dash"), ("735", b"n")):
        with open(os.path.join(box, n), "wb") as f:
            f.write(d)
    cwd = os.getcwd()
    os.chdir(box)
    try:
        for _ in range(case["n"]):
            one(case, r, box, max(735, last // 640), ctx)
    finally:
        os.chdir(cwd)


def one(case, r, box, tpn, ctx):
    way, more, named = broken(r)
    rest = []
    if r.random() < 0.7:
        rest.append([r.choice(("-i", "--instrument")), r.choice(("i.json", "sub/i.json"))])
    if r.random() < 0.7:
        rest.append([r.choice(("-t", "--track")), r.choice(("t.xrns", os.path.join(box, "t2.xrns")))])
    ticks = [[r.choice(("-tn", "--ticks-per-note")), str(tpn)]]
    file = [["song.vgm"]]
    for grp in rest:
        p = os.path.join(box, grp[1])
        if r.random() < 0.5:
            with open(p, "wb") as f:
                f.write(b"earlier " * r.choice((0, 1, 4000)))
        elif os.path.exists(p):
            os.remove(p)
    good = file + rest + ticks
    if more is None:
        # the last option has no value
        o = r.choice(("-i", "--instrument", "-t", "--track", "-tn", "--ticks-per-note"))
        keep = [x for x in good if x[0][:3].strip("-")[:1] != o.strip("-")[:1] or x in file]
        r.shuffle(keep)
        args = [a for x in keep for a in x] + [o]
        way += f" of {o}"
    else:
        if way.startswith("ticks"):
            groups = file + rest + more
        else:
            groups = (file if named else []) + rest + ticks + more
        r.shuffle(groups)
        args = [a for x in groups for a in x]
    before = snapshot(box)
    rc, err = go(case, args, box, ctx, sut.read_file("other.vgm") if r.random() < 0.5 else b"")
    what = f"running with {args} ({way})"
    check(rc, f"{what} was not refused")
    if err is not None:
        check(err.strip(), f"{what}: nothing was said about it")
    unchanged(before, box, what, ctx)
    ctx.counts["refused"] += 1
    ctx.seen["ways"].add(way)
    if r.random() < 0.35:
        # nothing else was wrong with it
        r.shuffle(good)
        args = [a for x in good for a in x]
        rc, err = go(case, args, box, ctx, b"")
        check(not rc, lambda: f"running with {args} failed: {rc} {err}")
        for grp in rest:
            check(os.path.getsize(os.path.join(box, grp[1])) > 0, f"running with {args} did not write {grp[1]}")
        ctx.counts["unbroken"] += 1
    if r.random() < 0.1:
        before = snapshot(box)
        args = r.choice((["-h"], ["--help"], ["song.vgm", "-h"], ["-h", "-i", "i.json"], ["song.vgm", "-t", "t.xrns", "--help"]))
        if case["process"]:
            rc, out, _err = sut.cli_process(args, cwd=box)
            out = out.decode()
        else:
            rc, out = sut.cli(args)
        check(not rc, lambda: f"asking for help with {args} failed: {rc}")
        check("usage" in out.lower(), lambda: f"asking for help with {args} says {out[:80]!r}")
        unchanged(before, box, f"asking for help with {args}", ctx)
        ctx.counts["help"] += 1


def go(case, args, box, ctx, stdin):
    if not case["process"]:
        return sut.cli(args, stdin=stdin)[0], None
    rc, _out, err = sut.cli_process(args, cwd=box, stdin=stdin)
    ctx.counts["processes"] += 1
    return rc, err.decode(errors="replace")


def unchanged(before, box, what, ctx):
    after = snapshot(box)
    for n in sorted(set(before) | set(after)):
        if before.get(n, 0) != after.get(n, 0):
            change = "was created" if n not in before else "is gone" if n not in after else "was changed"
            raise sut.Mismatch(f"{what}: {n!r} {change}")
        ctx.counts["bystanders"] += 1


ORACLES = {"lines": run_lines}
