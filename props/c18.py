"""C18: a file's result depends on that file alone."""
import contextlib
import hashlib
import io
import os
import sys
import threading

from lib import model, sut, xrns
from lib.sut import check

ID, LEVEL = "C18", "exploration"
ROUNDS = 2  # of the tasks in a quick run, each with fresh random choices
RULE = ("Several songs at once: streams decoded alternately, chips written alternately, exports in between, threads with a switch "
        "interval of a microsecond, long sequences in one process, fresh processes with different hash seeds. Each song's header "
        "facts, events, instruments, estimate and files are compared with the model of that song alone. Distinct by set of songs.")
REQUIRE = {"alternations": 2000, "interleaved_songs": 150, "thread_songs": 60, "thread_switch_orders": 4, "repeats": 60, "twins": 80, "after": 200, "processes": 8}


def tasks(tier):
    t = [{"kind": "alternate", "i": i, "weight": 2} for i in range(8 if tier == "quick" else 48)]
    t += [{"kind": "threads", "i": i, "weight": 3} for i in range(4 if tier == "quick" else 24)]
    t += [{"kind": "repeat", "i": i, "weight": 2} for i in range(4 if tier == "quick" else 24)]
    t += [{"kind": "twins", "i": i, "weight": 2} for i in range(4 if tier == "quick" else 24)]
    t += [{"kind": "after", "i": i, "weight": 2} for i in range(4 if tier == "quick" else 24)]
    t += [{"kind": "process", "i": i, "weight": 4} for i in range(4 if tier == "quick" else 12)]
    return t


def song(g, n):
    r = g.r
    ops = g.music(n, base_changes=0.15, patches=2, dense=r.choice((0.1, 1.0))) if r.random() < 0.8 else g.chaos(n * 3, keys=0.2)
    v = r.choice((0x100, 0x101, 0x110, 0x150, 0x171))
    a, b = r.choice((0, 3579545, 4000000)), r.choice((0, 1, 3579545))
    last = sum(o[1] for o in ops if o[0] == "wait")
    return {"ops": ops, "tpn": max(last // 64 // 60 + 1, g.edge(1, 9000)),
            "head": {"version": v, "ym2151": a, "ym2413": b, **({"extra": bytes(r.choice((0, 4, 0xC0)))} if v >= 0x150 else {})}}


def twins(g, n):
    """Songs as alike as can be: same length in bytes and samples, same number of events and instruments."""
    r = g.r
    channels = [r.randrange(8) for _ in range(3)]
    notes = r.randint(3, 9)
    total = 60000 + r.randrange(5) * 1000
    pre = [["w", 0x60 + c, g.byte()] for c in channels]
    out = []
    for _ in range(n):
        # fast and slow notes in another order, or another beat
        step = r.choice((1000, 2205, 3000, 4000, 5000, 7000, r.randrange(1000, 60000 // notes)))
        step = min(step, total // notes)
        ops = [list(o) for o in pre]
        for i in range(notes):
            c = channels[i % 3]
            ops += [["w", 0x28 + c, r.choice(model.LEGAL_NOTES)], ["w", 8, 0x78 | c], ["raw", b"\x61" + step.to_bytes(2, "little")]]
        ops += [["w", 8, channels[0]], ["raw", b"\x61" + (total - notes * step).to_bytes(2, "little")]]
        out.append({"ops": ops, "tpn": 2000, "head": {"version": 0x150, "ym2151": 3579545, "ym2413": 0}})
    return out


def grid_song(g, lines, tpn):
    """Something happens on each of these lines, on some channels."""
    r = g.r
    chans = r.sample(range(8), r.choice((1, 3, 8)))
    at, ops = 0, [["w", 0x28 + c, r.choice(model.LEGAL_NOTES)] for c in chans]
    for ln in lines:
        ops += [["wait", ln * tpn - at]] if ln * tpn > at else []
        at = ln * tpn
        for c in chans:
            ops += [["w", 0x60 + c, g.byte()]] if r.random() < 0.02 else []
            ops += [["w", 0x28 + c, r.choice(model.LEGAL_NOTES)], ["w", 8, (0x78 if r.random() < 0.7 else 0) | c]]
    return ops


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "alternate":
        for _ in range(g.n(8, 30)):
            yield "alternate", {"songs": [song(g, r.choice((2, 10, 30))) for _ in range(r.randint(2, 5))], "order": r.randrange(1 << 30)}
    elif k == "threads":
        for _ in range(g.n(3, 10)):
            yield "threads", {"songs": [song(g, r.choice((5, 20))) for _ in range(6)], "rounds": 2}
    elif k == "repeat":
        for _ in range(g.n(3, 10)):
            yield "repeat", {"songs": [song(g, r.choice((1, 10, 30))) for _ in range(4)], "order": r.randrange(1 << 30)}
    elif k == "after":
        for _ in range(g.n(4, 12)):
            songs = []
            for i in range(6):
                tpn = r.randrange(2, 2000)
                n = r.choice((64, 128, 200, 1, 3, 20))
                lines = list(range(n)) if n >= 64 else sorted(r.sample(range(r.choice((64, 300))), n))
                songs.append({"ops": grid_song(g, lines, tpn), "tpn": tpn})
            yield "after", {"songs": songs, "order": r.randrange(1 << 30)}
    elif k == "twins":
        for _ in range(g.n(5, 20)):
            yield "twins", {"songs": twins(g, r.randint(2, 4)), "order": r.randrange(1 << 30)}
    else:
        yield "process", {"songs": [song(g, 20) for _ in range(g.n(1, 2))], "seeds": [r.randrange(1, 1 << 32) for _ in range(g.n(2, 6))]}


def facts_of(s):
    h = s["head"]
    v = int(f"{h['version']:x}")
    clock = h["ym2151"] if v >= 110 else h["ym2413"]
    start = 0x40 + len(h.get("extra", b""))
    return {"version": v, "start": start, "clock": clock, "supports": clock > 0}


def facts(r):
    return {"version": r.version, "start": r.data_start, "clock": r.clock("ym2151"), "supports": r.supports("ym2151")}


def verify_state(st, chip, what):
    for ch in range(8):
        got = sut.events(st, ch)
        if got != chip.events[ch]:
            sut.same(got, chip.events[ch], f"{what}: key events of channel {ch}")
    sut.same(sut.instruments(st), chip.instruments, f"{what}: instruments")
    with sut.call("reading the onsets"):
        check(list(st.ticks()) == sorted(chip.onsets), f"{what}: onsets")


_whole = {}  # what was exported for each song so far


def verify_song(data, chip, tpn, what):
    doc = xrns.parse(data)
    if len(_whole) > 5000:
        _whole.clear()
    key = hashlib.sha1(repr((chip.events, len(chip.instruments), tpn)).encode()).digest()
    sut.same(doc["whole"], _whole.setdefault(key, doc["whole"]), f"{what}: the song file as a whole, compared with what was written for this song before")
    try:
        xrns.check_song(doc, chip.events, len(chip.instruments), tpn)
        xrns.check_structure(doc, chip.events, len(chip.instruments), tpn)
    except sut.Mismatch as e:
        raise sut.Mismatch(f"{what}: {e}")
    check(doc["globals"]["BeatsPerMin"] == str(661500 // tpn), f"{what}: tempo {doc['globals']['BeatsPerMin']}")
    return doc


def run_alternate(case, ctx):
    import random

    r = random.Random(case["order"])
    songs = case["songs"]
    chips = [model.Chip() for _ in songs]
    sts = [sut.new_state() for _ in songs]
    readers = [sut.open_reader(model.program_vgm(s["ops"], **s["head"])) for s in songs]
    its = [iter(x) for x in readers]
    full = [model.decode(b"".join(map(model.op_bytes, s["ops"])) + b"\x66")[0] for s in songs]
    at = [0] * len(songs)
    live = list(range(len(songs)))
    T = sut.S.command.VgmCommandType
    create = sut.S.config.create
    p = os.path.join(ctx.scratch, "o")
    while live:
        i = r.choice(live)
        for _ in range(r.choice((1, 1, 3, 20))):
            if at[i] >= len(full[i]):
                live.remove(i)
                break
            with sut.call("decoding alternately"):
                cmd = next(its[i], None)
            check(cmd is not None, f"song {i} of {len(songs)} ends early")
            got, want = sut.norm(cmd), full[i][at[i]][1]
            check(got == want, lambda: f"song {i} of {len(songs)}, read alternately: command {at[i]} is {got}, expected {want}")
            at[i] += 1
            if want[1] == "wait":
                sut.wait(sts[i], cmd.samples)
                chips[i].now += want[2]
            elif want[1] == "ym":
                with sut.call("applying a command"):
                    sts[i].apply(cmd)
                chips[i].write(want[2], want[3])
        ctx.counts["alternations"] += 1
        if r.random() < 0.02:
            j = r.randrange(len(songs))
            sut.export_instruments(sts[j], p)
            sut.export_song(sts[j], p, 200000)
    order = list(range(len(songs)))
    r.shuffle(order)
    for i in order:
        with sut.call("asking for header facts"):
            got = facts(readers[i])
        sut.same(got, facts_of(songs[i]), f"header facts of song {i} of {len(songs)} open at once")
        what = f"song {i} of {len(songs)} processed alternately"
        verify_state(sts[i], chips[i], what)
        verify_song(sut.export_song(sts[i], p, songs[i]["tpn"]), chips[i], songs[i]["tpn"], what)
        sut.same(sut.read_json(sut.export_instruments(sts[i], p)), chips[i].instruments, f"{what}: instrument file")
        ctx.counts["interleaved_songs"] += 1
    # what an untouched chip looks like after all this
    verify_state(sut.new_state(), model.Chip(), "a fresh chip")


def run_threads(case, ctx):
    songs = case["songs"]
    blobs = [model.program_vgm(s["ops"], **s["head"]) for s in songs]
    chips = [model.Chip().feed(s["ops"]) for s in songs]
    results, order = {}, []
    start = threading.Barrier(len(songs))

    def work(i):
        try:
            start.wait()
            for rnd in range(case["rounds"]):
                r = sut.S.core.reader(io.BytesIO(blobs[i]))
                order.append(i)
                st = sut.S.main.process_vgm_file(r)
                order.append(i)
                a, b = (os.path.join(ctx.scratch, f"{i}-{rnd}.{x}") for x in ("json", "xrns"))
                est = st.ticks_per_note() if rnd == 0 and chips[i].onsets else None
                sut.S.extractors.extract_instruments(a, st)
                order.append(i)
                sut.S.extractors.extract_tracks_to_xrns(st, b, songs[i]["tpn"])
                order.append(i)
                results[i, rnd] = (facts(r), st, a, b, est)
        except Exception as e:
            results[i, "error"] = f"{type(e).__name__}: {e}"

    old = sys.getswitchinterval()
    with sut.call("running songs in threads"), contextlib.redirect_stdout(io.StringIO()):
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(i,)) for i in range(len(songs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
    for i, s in enumerate(songs):
        check((i, "error") not in results, lambda: f"song {i} in a thread of its own failed: {results[i, 'error']}")
        for rnd in range(case["rounds"]):
            f, st, a, b, est = results[i, rnd]
            what = f"song {i} of {len(songs)} in a thread of its own"
            sut.same(f, facts_of(s), f"{what}: header facts")
            verify_state(st, chips[i], what)
            if est is not None:
                check(est == model.estimate(chips[i].onsets), f"{what}: estimate {est}")
            sut.same(sut.read_json(sut.read_file(a)), chips[i].instruments, f"{what}: instrument file")
            verify_song(sut.read_file(b), chips[i], s["tpn"], what)
            os.remove(a)
            os.remove(b)
            ctx.counts["thread_songs"] += 1
    ctx.saw("thread_switch_orders", tuple(order))


def run_repeat(case, ctx):
    import random

    r = random.Random(case["order"])
    songs = case["songs"]
    chips = [model.Chip().feed(s["ops"]) for s in songs]
    est = [model.estimate(c.onsets) for c in chips]
    files = [os.path.join(ctx.scratch, f"{i}.vgm") for i in range(len(songs))]
    for f, s in zip(files, songs):
        with open(f, "wb") as fh:
            fh.write(model.program_vgm(s["ops"], **s["head"]))
    ij, tx = os.path.join(ctx.scratch, "i.json"), os.path.join(ctx.scratch, "t.xrns")
    seen = {}
    for rnd in range(3):
        todo = list(range(len(songs)))
        r.shuffle(todo)
        for i in todo:
            what = f"song {i} run for the {rnd + 1}. time in one process"
            tpn = songs[i]["tpn"]
            if rnd == 2 and est[i] and max(e[0] for evs in chips[i].events for e in evs) // 64 // est[i] < 200:
                tpn = est[i]
                sut.cli_ok([files[i], "-i", ij, "-t", tx])
            else:
                sut.cli_ok([files[i], "-i", ij, "-t", tx, "-tn", tpn])
            raw = sut.read_file(ij)
            sut.same(sut.read_json(raw), chips[i].instruments, f"{what}: instrument file")
            check(seen.setdefault(i, raw) == raw, f"{what}: another instrument file than before")
            xml = xml_of(sut.read_file(tx))
            check(seen.setdefault((i, tpn), xml) == xml, f"{what}: another Song.xml than before")
            verify_song(sut.read_file(tx), chips[i], tpn, what)
            ctx.counts["repeats"] += 1


def run_twins(case, ctx):
    """Lookalikes, one after the other: under one name, from one object, and estimated alternately."""
    import random

    r = random.Random(case["order"])
    songs = case["songs"]
    blobs = [model.program_vgm(s["ops"], **s["head"]) for s in songs]
    check(len(set(map(len, blobs))) == 1, "not twins")
    chips = [model.Chip().feed(s["ops"]) for s in songs]
    est = [model.estimate(c.onsets) for c in chips]
    sts = [sut.process(b) for b in blobs]
    src = os.path.join(ctx.scratch, "same.vgm")
    ij, tx = os.path.join(ctx.scratch, "i.json"), os.path.join(ctx.scratch, "t.xrns")
    seen = {}
    for i in r.choices(range(len(songs)), k=2 * len(songs)):
        what = f"song {i} of {len(songs)} alike"
        got = sut.estimate(sts[i])
        check(got == est[i], lambda: f"{what}: estimate {got}, expected {est[i]}")
        verify_state(sts[i], chips[i], what)
        with open(src, "wb") as f:
            f.write(blobs[i])
        os.utime(src, (1700000000, 1700000000))
        sut.cli_ok([src, "-i", ij, "-t", tx])
        sut.same(sut.read_json(sut.read_file(ij)), chips[i].instruments, f"{what}: instrument file")
        verify_song(sut.read_file(tx), chips[i], est[i], what)
        xml = xml_of(sut.read_file(tx))
        check(seen.setdefault(i, xml) == xml, f"{what}: another Song.xml than before")
        verify_song(sut.export_song(sts[i], tx, est[i]), chips[i], est[i], what)
        check(xml_of(sut.read_file(tx)) == xml, f"{what}: the exported song depends on how it is asked for")
        ctx.counts["twins"] += 1


def run_after(case, ctx):
    """Full patterns and all but empty ones, one after the other, with and without the earlier ones thrown away."""
    import gc
    import random

    r = random.Random(case["order"])
    songs = case["songs"]
    chips = [model.Chip().feed(s["ops"]) for s in songs]
    p = os.path.join(ctx.scratch, "o")
    kept = {}
    for n in range(3 * len(songs)):
        i = r.randrange(len(songs))
        if i not in kept or r.random() < 0.5:
            kept[i] = sut.new_state()
            sut.feed(kept[i], songs[i]["ops"])
        what = f"song {i} as the {n + 1}. of a row"
        verify_state(kept[i], chips[i], what)
        verify_song(sut.export_song(kept[i], p, songs[i]["tpn"]), chips[i], songs[i]["tpn"], what)
        if r.random() < 0.5:
            kept.pop(r.choice(list(kept)))
        if r.random() < 0.5:
            gc.collect()
        ctx.counts["after"] += 1


def run_process(case, ctx):
    for s in case["songs"]:
        chip = model.Chip().feed(s["ops"])
        src = os.path.join(ctx.scratch, "p.vgm")
        ij, tx = os.path.join(ctx.scratch, "i.json"), os.path.join(ctx.scratch, "t.xrns")
        with open(src, "wb") as fh:
            fh.write(model.program_vgm(s["ops"], **s["head"]))
        want = None
        envs = [{}, {"LC_ALL": "C"}, {"PYTHONOPTIMIZE": "2"}, {"PYTHONDEVMODE": "1"}, {"TZ": "Asia/Tokyo"}, {"PYTHONUTF8": "0", "LC_ALL": "POSIX"}]
        for n, seed in enumerate(["0"] + [str(x) for x in case["seeds"]]):
            env = {"PYTHONHASHSEED": seed, **(envs[(n + int(seed)) % len(envs)] if n else {})}
            rc, _out, err = sut.cli_process([src, "-i", ij, "-t", tx, "-tn", s["tpn"]], env=env, cwd=ctx.scratch if n % 2 else "/")
            check(rc == 0, lambda: f"failed in a process of its own: {err.decode(errors='replace')[-300:]}")
            raw, xml = sut.read_file(ij), xml_of(sut.read_file(tx))
            if want is None:
                want = raw, xml
                sut.same(sut.read_json(raw), chip.instruments, "instrument file of a fresh process")
                verify_song(sut.read_file(tx), chip, s["tpn"], "a fresh process")
            check((raw, xml) == want, lambda: f"another result in an environment with {env}")
            ctx.counts["processes"] += 1
        # this process has handled other songs before
        for rnd in range(2):
            sut.cli_ok([src, "-i", ij, "-t", tx, "-tn", s["tpn"]])
            check(sut.read_file(ij) == want[0], "another instrument file than in a fresh process")
            check(xml_of(sut.read_file(tx)) == want[1], "another Song.xml than in a fresh process")
            st = sut.process(model.program_vgm(s["ops"], **s["head"]))
            sut.export_song(st, tx, s["tpn"])
            check(xml_of(sut.read_file(tx)) == want[1], "another Song.xml from the functions than in a fresh process")


def xml_of(data):
    import zipfile

    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return z.read("Song.xml")


ORACLES = {"after": run_after, "twins": run_twins, "alternate": run_alternate, "threads": run_threads, "repeat": run_repeat, "process": run_process}
