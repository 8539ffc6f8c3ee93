"""The boundary to the code under test: loads it from the working tree and observes it only
through its public functions, its exported files and its command line."""
import contextlib
import importlib
import io
import itertools
import json
import os
import runpy
import subprocess
import sys
import types
import zlib

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PYTHON = sys.executable


class Mismatch(Exception):
    """The code under test did something the property forbids."""


_depth = 0
_struck = False


class call:
    """with call('decoding'): ... - anything the code under test raises here is a violation."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        global _depth
        _depth += 1

    def __exit__(self, et, e, tb):
        global _depth, _struck
        _depth -= 1
        if et is None:
            return False
        if issubclass(et, Mismatch):
            return False
        if not issubclass(et, Exception) or issubclass(et, MemoryError):
            _struck = True
            return False
        last = tb
        while last.tb_next:
            last = last.tb_next
        where = f"{os.path.basename(last.tb_frame.f_code.co_filename)}:{last.tb_lineno}"
        raise Mismatch(f"{self.what}: unexpected {et.__name__}: {e} ({where})") from e


def _strike():
    global _struck
    _struck = True


def inside():
    return _struck


def reset():
    global _depth, _struck
    _depth, _struck = 0, False


def frames_in_code_under_test(tb):
    """Where in the code under test an exception came by, or None."""
    where = None
    while tb:
        f = tb.tb_frame.f_code.co_filename
        if os.path.realpath(f).startswith(os.path.realpath(SRC) + os.sep):
            where = f"{os.path.basename(f)}:{tb.tb_lineno}"
        tb = tb.tb_next
    return where


S = types.SimpleNamespace()


def load():
    sys.path.insert(0, SRC)
    S.core = importlib.import_module("vgm.core")
    S.command = importlib.import_module("vgm.command")
    S.config = importlib.import_module("vgm.ym2151.config")
    S.note = importlib.import_module("vgm.ym2151.note")
    S.state = importlib.import_module("vgm.ym2151.state")
    S.extractors = importlib.import_module("extractors")
    S.main = importlib.import_module("main")
    S.song = importlib.import_module("xrns.parts.song")
    S.writer = importlib.import_module("xrns.writer")
    for m in (S.core, S.config, S.state, S.extractors, S.main, S.song, S.writer):
        if not os.path.realpath(m.__file__).startswith(os.path.realpath(SRC) + os.sep):
            raise RuntimeError(f"{m.__name__} came from {m.__file__}")


# ---------------------------------------------------------------- decoding
def norm(cmd):
    """One decoded command as a plain tuple."""
    t = S.command.VgmCommandType
    kind = cmd.command_type
    if kind == t.WAIT:
        return (cmd.command_id, "wait", cmd.samples)
    if kind == t.YM2151:
        return (cmd.command_id, "ym", cmd.reg, cmd.value)
    if kind == t.EOS:
        return (cmd.command_id, "eos")
    if cmd.command_id == 0x68:
        return (0x68, "other", None)
    return (cmd.command_id, "other", bytes(cmd.payload) if cmd.payload else None)


def open_reader(data):
    with call("opening a VGM stream"):
        f = io.BytesIO(data)
        r = S.core.reader(f)
    if r is None:
        raise Mismatch("a well-formed VGM stream was not recognised")
    return r


def decode(data, limit=None):
    """All commands of a well-formed stream. No more commands than bytes can exist."""
    r = open_reader(data)
    limit = len(data) + 16 if limit is None else limit
    out = []
    with call("decoding"):
        way = zlib.crc32(data[-64:]) & 3
        if way == 0:  # looked at one by one
            for cmd in r:
                out.append(norm(cmd))
                if len(out) > limit:
                    break
        elif way == 1:  # left now and then, and taken up where it was left
            more = True
            while more and len(out) <= limit:
                more = False
                for cmd in r:
                    out.append(norm(cmd))
                    more = True
                    if len(out) % 7 == 0 or len(out) > limit:
                        break
                for cmd in itertools.islice(r, len(out) % 3):
                    out.append(norm(cmd))
        elif way == 2:  # asked for one after the other
            end = object()
            while len(out) <= limit:
                cmd = next(r, end)
                if cmd is end:
                    break
                out.append(norm(cmd))
        else:  # looked at when all are there: later ones must not change earlier ones
            out = [norm(cmd) for cmd in list(itertools.islice(r, limit + 1))]
    if len(out) > limit:
        raise Mismatch(f"more than {limit} commands from {len(data)} bytes")
    return out


def decode_partial(data, limit):
    """(commands, how it ended); never a Mismatch for an error report."""
    global _depth
    out = []
    _depth += 1
    try:
        r = S.core.reader(io.BytesIO(data))
        if r is None:
            return out, "not recognised"
        for cmd in r:
            out.append(norm(cmd))
            if len(out) > limit:
                raise Mismatch(f"more than {limit} commands from {len(data)} bytes")
        return out, "end"
    except Mismatch:
        raise
    except Exception as e:
        if isinstance(e, MemoryError):
            _strike()
            raise
        return out, type(e).__name__
    except BaseException:
        _strike()
        raise
    finally:
        _depth -= 1


# ---------------------------------------------------------------- chip state
def new_state():
    with call("creating a chip state"):
        return S.state.State()


def write(st, reg, val):
    with call(f"register write {reg:#04x}={val:#04x}"):
        st.apply(S.config.create(reg, val))


def wait(st, n):
    with call(f"waiting {n} samples"):
        st.beat(n)


def feed(st, ops):
    """Register writes and waits of a program, straight into a chip state."""
    create, apply, beat = S.config.create, st.apply, st.beat
    with call("feeding register writes and waits"):
        for op in ops:
            if op[0] == "w":
                apply(create(op[1], op[2]))
            elif op[0] == "wait":
                beat(op[1])


def instruments(st):
    """The instrument list as plain data, the way it is exported."""
    with call("rendering the instruments as JSON"):
        return json.loads(json.dumps(st.configs, cls=S.config.ConfigEncoder))


def event(n):
    return (n.sample, n.config_id, n.right, n.left, n.octave, n.note, n.key_fraction)


def events(st, ch):
    with call("reading the key events"):
        return [event(n) for n in st.key_presses(ch)]


def all_events(st):
    return [events(st, ch) for ch in range(8)]


def process(data):
    """The program's own pipeline from stream to chip state."""
    r = open_reader(data)
    with call("processing the stream"), contextlib.redirect_stdout(io.StringIO()):
        return S.main.process_vgm_file(r)


def estimate(st, **how):
    with call("estimating ticks per note"), contextlib.redirect_stdout(io.StringIO()):
        return st.ticks_per_note(**how)


# ---------------------------------------------------------------- exports
def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def read_file(path):
    with open(path, "rb") as f:
        return f.read()


def read_json(data):
    """JSON text as plain data; a repeated key is an error, as is NaN."""
    def pairs(items):
        d = {}
        for k, v in items:
            if k in d:
                raise Mismatch(f"the JSON repeats the key {k!r}")
            d[k] = v
        return d

    def no(c):
        raise Mismatch(f"the JSON contains {c}")

    try:
        return json.loads(data.decode("utf-8"), object_pairs_hook=pairs, parse_constant=no)
    except ValueError as e:
        raise Mismatch(f"not valid JSON: {e}")


def export_song(st, path, tpn):
    with call(f"exporting the song with {tpn} ticks per note"), quiet():
        S.extractors.extract_tracks_to_xrns(st, path, tpn)
    return read_file(path)


def export_table(st, path, tpn):
    with call(f"exporting the track table with {tpn} ticks per note"), quiet():
        S.extractors.extract_tracks(st, path, tpn)
    return read_file(path).decode()


def export_instruments(st, path):
    with call("exporting the instruments"), quiet():
        S.extractors.extract_instruments(path, st)
    return read_file(path)


# ---------------------------------------------------------------- command line
MAIN = os.path.join(SRC, "main.py")


class Stdin:
    """A text standard input over bytes; a pipe (no seeking) if asked."""

    def __new__(cls, data, pipe=False):
        raw = io.BytesIO(data)
        if pipe:
            raw.seekable = lambda: False

            class P(io.RawIOBase):
                def readable(self):
                    return True

                def readinto(self, b):
                    chunk = raw.read(min(len(b), 701))
                    b[: len(chunk)] = chunk
                    return len(chunk)

            return io.TextIOWrapper(io.BufferedReader(P(), 512), encoding="utf-8")
        return io.TextIOWrapper(io.BufferedReader(raw), encoding="utf-8")


def cli(args, stdin=None, pipe=False):
    """Runs main.py as a script inside this process. Returns (failure or None, stdout)."""
    global _depth
    out = io.StringIO()
    argv, sin = sys.argv, sys.stdin
    sys.argv = [MAIN] + [str(a) for a in args]
    if stdin is not None:
        sys.stdin = Stdin(stdin, pipe)
    _depth += 1
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(MAIN, run_name="__main__")
        return None, out.getvalue()
    except SystemExit as e:
        return (None if not e.code else f"exit {e.code}"), out.getvalue()
    except Exception as e:
        if isinstance(e, MemoryError):
            _strike()
            raise
        return f"{type(e).__name__}: {e}", out.getvalue()
    except BaseException:
        _strike()
        raise
    finally:
        _depth -= 1
        sys.argv, sys.stdin = argv, sin


def cli_ok(args, **kw):
    bad, out = cli(args, **kw)
    if bad is not None:
        raise Mismatch(f"running with {list(map(str, args))} failed: {bad}")
    return out


PYCACHE = None  # where processes may keep compiled modules: fresh for every run


def process_env(more=None):
    e = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "HOME": "/nonexistent"}
    if PYCACHE:
        e["PYTHONPYCACHEPREFIX"] = PYCACHE
    else:
        e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/verif")
    return {**e, **(more or {})}


def cli_process(args, stdin=None, env=None, timeout=300, stdout=subprocess.PIPE, **kw):
    """Runs main.py in a process of its own, stdin bytes or a file. Returns (exit status, stdout, stderr)."""
    how = {"input": stdin} if isinstance(stdin, bytes) else {"stdin": stdin or subprocess.DEVNULL}
    p = subprocess.run([PYTHON, MAIN] + [str(a) for a in args], stdout=stdout, stderr=subprocess.PIPE, env=process_env(env),
                       timeout=timeout, **how, **kw)
    return p.returncode, p.stdout, p.stderr


def check(cond, text):
    if not cond:
        raise Mismatch(text() if callable(text) else text)


def same(got, want, what):
    """Equality with a readable first difference."""
    if got == want:
        return
    raise Mismatch(f"{what}: {first_diff(got, want)}")


def first_diff(got, want, at=""):
    if isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)):
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                return first_diff(a, b, f"{at}[{i}]")
        return f"at {at or 'top'}: {len(got)} items, expected {len(want)}"
    if isinstance(got, dict) and isinstance(want, dict):
        for k in list(want) + [k for k in got if k not in want]:
            if k not in got:
                return f"at {at}: {k!r} is missing"
            if k not in want:
                return f"at {at}: unexpected {k!r}: {str(got[k])[:100]}"
            if got[k] != want[k]:
                return first_diff(got[k], want[k], f"{at}[{k!r}]")
    return f"at {at or 'top'}: got {str(got)[:300]!r}, expected {str(want)[:300]!r}"
