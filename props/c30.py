"""C30: a run that dies half-way leaves nothing that passes for a result."""
import errno
import json
import os
import resource
import signal
import sys
import zipfile

from lib import model, sut, xrns
from lib.sut import Mismatch, check

ID, LEVEL = "C30", "fault_enumeration"
ROUNDS = 4
RULE = ("The command line is killed (SIGKILL) before its n-th executed line, interrupted (KeyboardInterrupt) or hit by an I/O error there, and killed or refused "
        "by the kernel at its k-th written byte, over fresh, shorter and longer earlier outputs; n runs over all lines of the program and of the "
        "archive and JSON writers in short runs and is drawn densely around the writing in longer ones. Monitor: each output afterwards is as before, missing, "
        "evidently incomplete, or complete and right; the input is untouched; success is only reported with complete outputs.")
REQUIRE = {"deaths": 700, "killed": 200, "interrupted": 120, "failed": 200, "at_byte": 150, "incomplete": 100, "untouched": 200, "complete": 20,
           "stale": 200}


def tasks(tier):
    t = [{"kind": "lines", "i": i, "weight": 3} for i in range(24 if tier == "quick" else 64)]
    t += [{"kind": "bytes", "i": i, "weight": 2} for i in range(4 if tier == "quick" else 24)]
    if tier == "thorough":
        t += [{"kind": "sweep", "i": i, "weight": 9} for i in range(9)]
    return t


def cases(task, g):
    r = g.r
    if task["kind"] == "sweep":
        # every line of a whole run
        yield "lines", {"ops": g.music(task["i"] // 3, lead=0), "old": g.music(2, lead=0), "which": ("i", "t", "both")[task["i"] % 3],
                        "stale": (None, "valid", "junk")[task["i"] // 3 % 3], "n": 100000, "pick": 0, "cut": False}
        return
    for _ in range(g.n(1, 2)):
        ops = g.music(r.choice((0, 1, 3, 12, 40)) if task["i"] else 1, dense=0.3, lead=0)
        old = g.music(r.choice((0, 2, 60)), dense=0.3, lead=0)
        yield task["kind"], {"ops": ops, "old": old, "which": ("i", "t", "both")[task["i"] % 3], "stale": r.choice((None, "valid", "valid", "junk")),
                             "n": g.n(35, 300), "pick": r.randrange(1 << 30), "cut": r.random() < 0.15}


def lines_of(fn, at=None, act=None, borders=None):
    """Runs fn() with act() called before the at-th line of the program or of what it writes with; returns how many there were.
    borders: gets the numbers of lines at which another file goes on than before."""
    mon, seen, known, last = sys.monitoring, 0, {}, [None]
    tool = 5
    roots = (os.path.realpath(sut.SRC) + os.sep, os.path.dirname(zipfile.__file__) + os.sep + ("" if zipfile.__file__.endswith("__init__.py") else "zipfile"),
             os.path.dirname(json.__file__))

    def line(code, _no):
        nonlocal seen
        name = code.co_filename
        ours = known.get(name)
        if ours is None:
            ours = known[name] = os.path.realpath(name).startswith(roots)
        if not ours:
            return mon.DISABLE
        seen += 1
        if borders is not None and name != last[0]:
            borders.append(seen)
            last[0] = name
        if seen == at:
            act()

    mon.use_tool_id(tool, "verif-lines")
    mon.register_callback(tool, mon.events.LINE, line)
    mon.restart_events()
    mon.set_events(tool, mon.events.LINE)
    try:
        fn()
    finally:
        mon.set_events(tool, 0)
        mon.register_callback(tool, mon.events.LINE, None)
        mon.free_tool_id(tool)
    return seen


def interrupt():
    raise KeyboardInterrupt


def fail():
    raise OSError(errno.EIO, "Input/output error")


def kill():
    os.kill(os.getpid(), signal.SIGKILL)


def terminate():
    os.kill(os.getpid(), signal.SIGTERM)


def hang_up():
    os.kill(os.getpid(), signal.SIGHUP)


def ctrl_c():
    os.kill(os.getpid(), signal.SIGINT)


def quit_():
    os.kill(os.getpid(), signal.SIGQUIT)


def child(fn, limit=None, deadly=False):
    """Exit status of fn() in a forked process: 0 success, 1 reported failure, 2 interrupted, -n killed by signal n."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGINT, signal.default_int_handler)
            for n in (signal.SIGTERM, signal.SIGHUP, signal.SIGQUIT):
                signal.signal(n, signal.SIG_DFL)
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if deadly else signal.SIG_IGN)
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            try:
                code = 0 if fn() is None else 1
            except KeyboardInterrupt:
                code = 2
            except BaseException:
                code = 1
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(status)
    if rc == 3:
        raise RuntimeError("the forked child broke")
    return rc


class Scene:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.chip = model.Chip().feed(case["ops"])
        end = max((e[0] for evs in self.chip.events for e in evs), default=0)
        self.tpn = max(735, end // 64 // 12 + 1)
        self.blob = model.program_vgm(case["ops"])
        if case["cut"]:
            self.blob = self.blob[:-1] + b"\x54\x08"  # the run fails by itself
        self.src = os.path.join(ctx.scratch, "a.vgm")
        self.write(self.src, self.blob)
        self.out = {k: os.path.join(ctx.scratch, n) for k, n in (("i", "i.json"), ("t", "t.xrns")) if case["which"] in (k, "both")}
        self.args = [self.src, "-tn", self.tpn] + [x for k, p in self.out.items() for x in (f"-{k}", p)]
        # what an earlier run with another song left
        self.stale = {}
        if case["stale"] == "valid":
            old = os.path.join(ctx.scratch, "old.vgm")
            self.write(old, model.program_vgm(case["old"]))
            last = sum(o[1] for o in case["old"] if o[0] == "wait")
            sut.cli_ok([old, "-tn", max(735, last // 64 // 12 + 1)] + [x for k, p in self.out.items() for x in (f"-{k}", p)])
            self.stale = {k: sut.read_file(p) for k, p in self.out.items()}
        elif case["stale"]:
            self.stale = {k: b"x" * 30000 for k in self.out}
        self.json = None

    @staticmethod
    def write(path, data):
        with open(path, "wb") as f:
            f.write(data)

    def reset(self):
        for k, p in self.out.items():
            if k in self.stale:
                self.write(p, self.stale[k])
            elif os.path.exists(p):
                os.remove(p)

    def run(self):
        return sut.cli(self.args)[0]

    def judge(self, rc, what):
        ctx = self.ctx
        ctx.counts["deaths"] += 1
        ctx.counts["stale"] += bool(self.stale)
        ctx.counts["killed"] += rc < 0
        ctx.counts["interrupted"] += rc == 2
        ctx.counts["failed"] += rc == 1
        if rc == 0:
            what += ", which was reported as success,"
        check(sut.read_file(self.src) == self.blob, f"{what} the input is another one")
        for k, p in self.out.items():
            data = sut.read_file(p) if os.path.exists(p) else None
            if rc != 0 and data == self.stale.get(k):
                ctx.counts["untouched"] += 1
                continue
            bad = self.instruments(data) if k == "i" else self.song(data)
            if bad is None:
                ctx.counts["complete"] += 1
            elif bad == "incomplete" and rc != 0:
                ctx.counts["incomplete"] += 1
            else:
                raise Mismatch(f"{what} {os.path.basename(p)} {bad if bad != 'incomplete' else 'is incomplete or missing'}")

    def instruments(self, data):
        if data is None:
            return "incomplete"
        try:
            got = json.loads(data.decode())
        except ValueError:
            return "incomplete"
        if not isinstance(got, list):
            return "passes for an instrument file: " + repr(got)[:80]
        return None if got == self.chip.instruments and not self.case["cut"] else f"passes for an instrument file, with {len(got)} instruments of {len(self.chip.instruments)}"

    def song(self, data):
        if data is None:
            return "incomplete"
        try:
            doc = xrns.parse(data)
        except Mismatch:
            return "incomplete"
        try:
            xrns.check_song(doc, self.chip.events, len(self.chip.instruments), self.tpn)
            xrns.check_structure(doc, self.chip.events, len(self.chip.instruments), self.tpn)
        except Mismatch as e:
            return f"passes for a song: {e}"
        return "passes for the song of a cut file" if self.case["cut"] else None


def run_lines(case, ctx):
    import random

    r = random.Random(case["pick"])
    s = Scene(case, ctx)
    s.reset()
    bad, borders = [], []
    total = lines_of(lambda: bad.append(s.run()), borders=borders)
    check((bad[0] is None) == (not case["cut"]), lambda: f"running with {s.args}: {bad[0] or 'success with a cut file'}")
    s.judge(1 if bad[0] else 0, "after a run without faults")
    # around every output the lines are few and matter most; the rest is mostly decoding and rendering
    picks = set(range(1, total + 1)) if total <= case["n"] else {r.randint(1, total) for _ in range(case["n"] // 2)}
    picks |= set(range(max(1, total - case["n"]), total + 1))
    picks |= {max(1, min(total, b + r.randint(-2, 2))) for b in r.sample(borders, min(len(borders), case["n"]))}
    for n in sorted(picks):
        acts = (kill, interrupt, fail) if total > case["n"] and r.random() < 0.7 else (kill, interrupt, fail, terminate, hang_up, ctrl_c, quit_)
        for act in r.sample(acts, 3 if total <= case["n"] else 1):
            s.reset()
            rc = child(lambda: (lambda got: (lines_of(lambda: got.append(s.run()), n, act), got)[1][0])([]))
            s.judge(rc, f"after {act.__name__} at line {n} of {total} executed, writing {case['which']}")


def run_bytes(case, ctx):
    import random

    r = random.Random(case["pick"])
    s = Scene(case, ctx)
    s.reset()
    bad = s.run()
    s.judge(1 if bad else 0, "after a run without faults")
    sizes = [os.path.getsize(p) for p in s.out.values() if os.path.exists(p)] or [0]
    picks = {0, 1, 2, 3, 4096, 8192} | {x + d for x in sizes for d in range(-30, 2)} | {r.randrange(max(sizes) + 1) for _ in range(case["n"])}
    for k in sorted(p for p in picks if p >= 0):
        for deadly in (True, False):
            s.reset()
            s.judge(child(s.run, k, deadly), f"after dying at byte {k} of {sizes}, writing {case['which']}")
            ctx.counts["at_byte"] += 1


ORACLES = {"lines": run_lines, "bytes": run_bytes}
