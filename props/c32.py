"""C32: used as a library it leaves the process as it found it."""
import atexit
import contextlib
import decimal
import faulthandler
import gc
import importlib
import io
import json
import locale
import os
import random
import resource
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import tracemalloc
import types
import warnings
import weakref

from lib import model, sut
from lib.sut import check

ID, LEVEL = "C32", "fault_enumeration"
ROUNDS = 2  # of the tasks in a quick run, each with fresh random choices
RULE = ("The modules are imported into fresh interpreters, and songs read, processed, estimated and exported from within this process: well, and failing or interrupted at the "
        "n-th read, write or print, by foreign and cut files, impossible paths and ticks of zero. Monitor: a snapshot before and after of the process (directory, mask, "
        "environment, streams, signals, timers, limits, hooks, garbage collection, random numbers, decimal context, locale, search path, threads, children, priority) and of the "
        "standard library's functions and classes; audit events for other programs, connections and changes of directory or environment in between.")
REQUIRE = {"runs": 500, "failed": 150, "interrupted": 60, "imports": 8, "facts": 4000}

MODULES = ["vgm.core", "vgm.command", "vgm.ym2151.config", "vgm.ym2151.note", "vgm.ym2151.state", "extractors", "main", "tools", "xrns.writer",
           "xrns.xrns_serializer", "xrns.parts.song", "xrns.parts.pattern", "xrns.xml.song.renoise_song65"]
LIBRARY = ["builtins", "io", "os", "posixpath", "json", "json.encoder", "json.decoder", "gzip", "zipfile", "zlib", "struct", "copy", "time", "argparse", "collections",
           "functools", "itertools", "operator", "math", "re", "string", "threading", "warnings", "contextlib", "shutil", "tempfile", "signal", "locale", "random",
           "dataclasses", "enum", "datetime", "typing", "decimal", "fractions", "bisect", "heapq", "csv", "codecs", "textwrap", "pathlib", "hashlib",
           "traceback", "types", "abc", "numbers", "queue", "pickle", "xml.etree.ElementTree", "xml.sax.saxutils", "subprocess", "socket", "sys", "gc"]
# what an interpreter changes by itself, or what stands in the other facts
OWN = {("sys", "last_exc"), ("sys", "last_type"), ("sys", "last_value"), ("sys", "last_traceback"), ("sys", "stdout"), ("sys", "stderr"), ("sys", "stdin"), ("sys", "argv"),
       ("sys", "path"), ("sys", "path_importer_cache"), ("sys", "modules"), ("sys", "flags"), ("sys", "ps1"), ("sys", "ps2"), ("sys", "orig_argv"), ("sys", "warnoptions")}


def ready():
    """Everything that is imported on first use is there before the first snapshot."""
    for m in LIBRARY + ["xsdata.formats.dataclass.serializers", "xsdata.formats.dataclass.parsers", "xsdata.formats.dataclass.serializers.config",
                        "xsdata.formats.dataclass.serializers.writers", "logging", "encodings.utf_8", "encodings.ascii", "encodings.cp437", "multiprocessing.util"]:
        importlib.import_module(m)
    tempfile.gettempdir()
    weakref.finalize(Input(b"", None, 0), int)


def library():
    """The public functions, classes (with what stands in them) and values of the standard library, by identity."""
    out = {}
    for m in LIBRARY:
        for name, x in list(vars(sys.modules[m]).items()):
            if name.startswith("_") or (m, name) in OWN:
                continue
            if isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType)):
                out[m, name] = id(x)
            elif isinstance(x, (bool, int, float, str, bytes, tuple)):
                out[m, name] = repr(x)
            if isinstance(x, type) and x.__module__ in LIBRARY:
                for k, v in list(vars(x).items()):
                    if callable(v) or isinstance(v, (property, classmethod, staticmethod)):
                        out[m, name, k] = id(v)
    return out


def quietly(fn):
    try:
        return fn()
    except Exception as e:
        return type(e).__name__


def stream(f):
    return (id(f), quietly(lambda: f.closed), *(quietly(lambda k=k: getattr(f, k)) for k in ("encoding", "errors", "line_buffering", "write_through")))


def children():
    out = []
    for t in os.listdir("/proc/self/task"):
        with contextlib.suppress(OSError), open(f"/proc/self/task/{t}/children") as f:
            out += f.read().split()
    return sorted(out)


def facts():
    mask = os.umask(0)
    os.umask(mask)
    return {
        "working directory": os.getcwd(), "file creation mask": mask, "environment": dict(os.environ), "command line": list(sys.argv),
        "module search path": list(sys.path), "import hooks": [list(map(id, sys.meta_path)), list(map(id, sys.path_hooks))],
        "standard streams": [stream(sys.stdin), stream(sys.stdout), stream(sys.stderr), id(sys.__stdout__), id(sys.__stdin__), id(sys.__stderr__)],
        "signal handlers": {int(s): id(signal.getsignal(s)) if callable(signal.getsignal(s)) and not isinstance(signal.getsignal(s), int) else str(signal.getsignal(s))
                            for s in signal.valid_signals()},
        "blocked signals": sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, []))),
        "timers": [[bool(signal.getitimer(w)[0]), signal.getitimer(w)[1]] for w in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "limit of digits": sys.get_int_max_str_digits(),
        "resource limits": {k: resource.getrlimit(getattr(resource, k)) for k in dir(resource) if k.startswith("RLIMIT_")},
        "garbage collection": [gc.isenabled(), gc.get_threshold(), gc.get_debug(), list(map(id, gc.callbacks))],
        "frozen objects": gc.get_freeze_count() > 0,
        "tracing": [id(sys.gettrace()), id(sys.getprofile()), tracemalloc.is_tracing()],
        "hooks": [id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(sys.breakpointhook), id(threading.excepthook), sys.dont_write_bytecode,
                  faulthandler.is_enabled()],
        "warning filters": list(map(str, warnings.filters)), "locale": locale.setlocale(locale.LC_ALL), "random numbers": random.getstate(),
        "decimal context": [getattr(decimal.getcontext(), k) for k in ("prec", "rounding", "Emin", "Emax", "capitals", "clamp")] + [dict(decimal.getcontext().traps)], "temporary directory": tempfile.tempdir, "socket timeout": socket.getdefaulttimeout(),
        "threads": sorted(t.name for t in threading.enumerate()), "stack size": threading.stack_size(), "children": children(), "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "functions to be called at the end": atexit._ncallbacks(), "processors": sorted(os.sched_getaffinity(0)), "user": [os.getuid(), os.geteuid(), os.getgid(), os.getegid()],
        "encodings": [sys.getdefaultencoding(), sys.getfilesystemencoding(), locale.getpreferredencoding(False)],
        "standard library": library(),
    }


def compare(before, after, what):
    for k, v in before.items():
        if v != after[k]:
            if k == "standard library":
                diff = [".".join(n) for n in v if after[k].get(n) != v[n]] + [".".join(n) for n in after[k] if n not in v and n[0] != "sys"]
                if not diff:
                    continue
                raise sut.Mismatch(f"{what} changed {', '.join(diff[:5])} of the standard library")
            if k == "random numbers":
                raise sut.Mismatch(f"{what} changed the random numbers of the process")
            if isinstance(v, dict):
                n = next(n for n in list(v) + list(after[k]) if v.get(n) != after[k].get(n))
                raise sut.Mismatch(f"{what} changed the {k}: {n} was {v.get(n)!r}, is {after[k].get(n)!r}")
            raise sut.Mismatch(f"{what} changed the {k}: {str(v)[:200]} before, {str(after[k])[:200]} after")


AUDITED = ("os.chdir", "os.putenv", "os.unsetenv", "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "subprocess.Popen", "socket.connect",
           "socket.bind", "pty.spawn", "ctypes.dlopen", "sys.settrace", "sys.setprofile", "signal.pthread_kill", "os.kill", "os.killpg", "urllib.Request", "webbrowser.open")
_events = None


def audit(event, args):
    if _events is not None and event in AUDITED:
        _events.append((event, str(args)[:120]))


_hooked = []


def tasks(tier):
    m = 1 if tier == "quick" else 6
    return [{"kind": k, "i": i} for k in ("read", "estimate", "export", "writer") for i in range(3 * m)] + [{"kind": "import", "i": i, "weight": 3, "once": True} for i in range(3)]


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "import":
        for m in MODULES[task["i"]::3]:
            yield "import", {"modules": [m]}
        yield "import", {"modules": r.sample(MODULES, len(MODULES))}
        return
    for n in range(g.n(24, 40)):
        ops = g.music(r.choice((0, 1, 5, 20)), lead=0)
        if n % 8 == 0:  # many instruments, events, patterns
            ops = g.growth(r.choice((130, 300)))
        how = r.choice(("ok", "ok", "interrupt", "error", "memory", "exit"))
        case = {"ops": ops, "how": how, "at": r.choice((0, 1, 2, r.randrange(40), r.randrange(400)))}
        if k == "read":
            case.update(data=model.program_vgm(ops), gz=r.random() < 0.4, bad=r.choice((None, None, "foreign", "cut", "damaged")), cut=r.random())
        elif k == "estimate":
            case.update(shown=r.random() < 0.5)
        elif k == "export":
            case.update(what=r.choice(("song", "table", "instruments")), out=r.choice(("ok", "ok", "ok", "-", "missing", "directory", "full")), tpn=r.choice((3000, 7999, max(1, sum(o[1] for o in ops if o[0] == "wait") // r.choice((3000, 20000)) or 735), 0)))
        yield k, case


ENDS = {"interrupt": KeyboardInterrupt, "error": OSError, "memory": MemoryError, "exit": SystemExit}


class Input(io.BytesIO):
    """A file whose reading ends badly at some point."""

    def __init__(self, data, end, at):
        super().__init__(data)
        self.end, self.left = end, at

    def read(self, *a):
        if self.end:
            self.left -= 1
            if self.left < 0:
                raise self.end("at this read")
        return super().read(*a)


class Output(io.BytesIO):
    def __init__(self, end, at):
        super().__init__()
        self.end, self.left = end, at

    def write(self, b):
        if self.end:
            self.left -= 1
            if self.left < 0:
                raise self.end("at this write")
        return super().write(b)


class Print(io.TextIOWrapper):
    """A standard output that fails at some point."""

    def __init__(self, end, at):
        super().__init__(io.BytesIO(), encoding="latin-1", errors="backslashreplace")
        self.end, self.left = end, at

    def write(self, s):
        if self.end:
            self.left -= 1
            if self.left < 0:
                raise self.end("at this print")
        return super().write(s)


def ended_by(*_):
    raise SystemExit(15)


def watched(fn, what, ctx, out=None):
    """Runs fn, whatever it raises, between two snapshots."""
    global _events
    ready()
    if not _hooked:
        sys.addaudithook(audit)
        _hooked.append(True)
    stdout = sys.stdout
    # as in any program: interrupts are heard, and somebody may wish to clean up when asked to end
    handlers = {n: signal.signal(n, h) for n, h in ((signal.SIGINT, signal.default_int_handler), (signal.SIGTERM, ended_by), (signal.SIGHUP, signal.SIG_DFL))}
    sys.stdout = out or Print(None, 0)
    try:
        before = facts()
        _events = []
        sut._depth += 1
        end = None
        try:
            fn()
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            end = e
        finally:
            sut._depth -= 1
            events, _events = _events, None
        after = facts()
    finally:
        sys.stdout = stdout
        for n, h in handlers.items():
            signal.signal(n, h)
    ended = f"{what} ({'which ended well' if end is None else 'which ended with ' + type(end).__name__})"
    check(not events, lambda: f"{ended}: {events[:3]}")
    compare(before, after, ended)
    ctx.counts["runs"] += 1
    ctx.counts["facts"] += len(before)
    ctx.counts["failed"] += end is not None
    ctx.counts["interrupted"] += isinstance(end, (KeyboardInterrupt, SystemExit))
    return end


def run_read(case, ctx):
    import gzip

    data = case["data"]
    if case["bad"] == "foreign":
        data = b"RIFF" + data[4:]
    elif case["bad"] == "cut":
        data = data[: int(len(data) * case["cut"])]
    if case["gz"]:
        data = gzip.compress(data)
        if case["bad"] == "damaged":
            at = 10 + int((len(data) - 10) * case["cut"])
            data = data[:at] + bytes([data[at] ^ 0x55]) + data[at + 1:]
    f = Input(data, ENDS.get(case["how"]), case["at"])

    def go():
        r = sut.S.core.reader(f)
        r.size(), r.supports("ym2151"), r.clock("ym2151")
        sut.S.main.process_vgm_file(r)

    watched(go, "reading a song", ctx)


def run_estimate(case, ctx):
    st = sut.new_state()
    sut.feed(st, case["ops"])
    out = Print(ENDS.get(case["how"]), case["at"] % 20)
    watched(lambda: st.ticks_per_note(show_progress=case["shown"]), "an estimate", ctx, out)


def run_export(case, ctx):
    st = sut.new_state()
    sut.feed(st, case["ops"])
    path = {"ok": os.path.join(ctx.scratch, "out"), "-": "-", "missing": os.path.join(ctx.scratch, "no", "out"), "directory": ctx.scratch, "full": "/dev/full"}[case["out"]]
    if case["what"] == "song" and path == "-":
        path = os.path.join(ctx.scratch, "out")
    x = sut.S.extractors
    do = {"song": lambda: x.extract_tracks_to_xrns(st, path, case["tpn"]), "table": lambda: x.extract_tracks(st, path, case["tpn"]),
          "instruments": lambda: x.extract_instruments(path, st)}[case["what"]]
    out = Print(ENDS.get(case["how"]), case["at"] % 3)
    watched(do, f"exporting the {case['what']}", ctx, out)


def run_writer(case, ctx):
    def go():
        song = sut.S.song.Song(tracks=3, instruments=2)
        for i in range(case["at"] * (1 + case["at"] % 5)):
            song.pattern_pool.add_note(i // 20, i % 3, i % 64, "C-4", "00", None)
        sut.S.writer.writer(Output(ENDS.get(case["how"]), case["at"] % 6), song)

    watched(go, "writing a song", ctx)


SCRIPT = """
import json, os, sys
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
import importlib
from props import c32
c32.ready()
seen = []
def audit(event, args):
    if seen is not None and (event in c32.AUDITED or event == "open" and isinstance(args[0], str) and (args[2] or 0) & 3):
        seen.append([event, str(args)[:120]])
sys.addaudithook(audit)
path = list(sys.path)
before = c32.facts()
for m in json.loads(sys.argv[3]):
    importlib.import_module(m)
after = c32.facts()
got, seen = seen, None
try:
    c32.compare(before, after, "an import")
    assert not got, f"an import did {got[:3]}"
    print("same")
except Exception as e:
    print("differs:", e)
"""


def run_import(case, ctx):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run([sut.PYTHON, "-B", "-c", SCRIPT, here, sut.SRC, json.dumps(case["modules"])], stdin=subprocess.DEVNULL, capture_output=True, text=True,
                       cwd=ctx.scratch, env=sut.process_env(None), timeout=300)
    what = f"importing {', '.join(case['modules'])}"
    check(p.stdout.strip() and p.returncode == 0, lambda: f"{what} ended the program: {p.returncode} {p.stderr[-300:]}")
    check(p.stdout == "same\n", lambda: f"{what}: {p.stdout.strip()[:500]}")
    check(not p.stderr, lambda: f"{what} printed {p.stderr[-300:]!r}")
    check(not os.listdir(ctx.scratch), lambda: f"{what} left {os.listdir(ctx.scratch)}")
    ctx.counts["imports"] += 1


ORACLES = {"read": run_read, "estimate": run_estimate, "export": run_export, "writer": run_writer, "import": run_import}
