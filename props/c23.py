"""C23: any song model comes back from its file as it was."""
import io
import operator
import os

from lib import model, sut, xrns
from lib.sut import check

ID, LEVEL = "C23", "exploration"
ROUNDS = 3  # of the tasks in a quick run, each with fresh random choices
RULE = ("Song models over 0-40 tracks, 0-300 instruments, 0-200 patterns, any pattern length and line order, overwritten lines, any "
        "sequence, all song-wide values and texts with markup, quotes, spaces and non-ASCII letters; built alternately in groups, "
        "written to memory and disk, twice. The parsed archive is compared with what was put in.")
REQUIRE = {"songs": 400, "lines": 6000, "track_counts": 12, "overwritten": 500, "texts": 150, "shared": 100, "sinks": 40}


def tasks(tier):
    return ([{"kind": "large", "i": i, "weight": 9, "once": True} for i in range(7)]
            + [{"kind": "random", "i": i} for i in range(8 if tier == "quick" else 64)]
            + [{"kind": "group", "i": i} for i in range(4 if tier == "quick" else 32)])


ALPHABET = list("abcXYZ 0123456789-_.,:;!?#/\\'\"<>&[](){}%$@~`|^=+*") + list("äßéøñçŁ日本語Ωд✓€𝄞😀🎹🀄ابעא\u00a0\u200b\u0301\ufeff")
TEXTS = ("", "<b>&amp;</b>", "]]>", "&lt;", "<!-- x -->", "<![CDATA[x]]>", "a'b\"c", "Ünïcödé", "日本語", "𝄞𝄢", "🎵🎶", "a\u0301é", "x" * 70000, "é" * 3000, "🎹" * 500, "x" * 3000, "None", "0", "true",
         "a  b", "tab\tin", "%s %d {}", "\\n", "FooBar", "Untitled", " x ", "  indented", "two\nlines", "\n", "\t", " ", "a\u2028b", "x\x85y", "a\x7f")


def text(g):
    r = g.r
    if r.random() < 0.4:
        return r.choice(TEXTS)
    s = "".join(r.choice(ALPHABET) for _ in range(r.choice((1, 2, 8, 30))))
    if r.random() < 0.3:
        # spaces and marks of all kinds at the ends
        odd = " \u00a0\u3000\u2003\u2009\u200b\u200e\u202e\u2060\ufeff\u1680\u180e\u00ad\u0301\u3099\ufe0f\u200d\t"
        s = r.choice(("", r.choice(odd))) + s + r.choice(("", r.choice(odd), r.choice(odd) * 3))
    if r.random() < 0.1:
        # letters that other forms stand for just as well
        s += r.choice(("\u00c5\u212b", "A\u030a", "\ufb01", "\u1e9e\u00df", "\u0130\u0131", "\uac00\u1100\u1161", "\u2126\u03a9", "\uff21", "\u01c4", "q\u0307\u0323"))
    return s


def note(g):
    r = g.r
    n = r.choice((None, "Off", "OFF", "C-4", "C#0", "B-9", f"{r.choice(('C-', 'D#', 'F#', 'G-'))}{r.randrange(10)}"))
    i = r.choice((None, "00", "0A", "FF", f"{r.randrange(256):02X}", "1FF"))
    p = r.choice((None, "00", "80", "40", f"{r.randrange(129):02X}"))
    if r.random() < 0.1:
        # the model asks nothing of them
        n, i, p = (r.choice((x, x, "", "0a", "fF", "c-4", "0", "80 ", "off", text(g) if r.random() < 0.1 else "..")) for x in (n, i, p))
    return n, i, p


def spec(g):
    r = g.r
    tracks = r.choice((0, 1, 2, 7, 8, 8, 8, 9, 16, 17, r.randrange(41)))
    pats = r.choice((0, 1, 2, 3, 10, r.randrange(20), r.randrange(200) if tracks < 9 else 5))
    adds = []
    if tracks and pats:
        n = r.choice((0, 1, 5, 40, 150))
        for _ in range(n):
            adds.append([r.randrange(pats), r.randrange(tracks), r.choice((0, 1, 62, 63, r.randrange(64), r.randrange(512))), *note(g)])
        for _ in range(n // 4):
            p, t, ln = r.choice(adds)[:3]
            adds.append([p, t, ln, *note(g)])
    glob = {}
    for name in ("beats_per_min", "lines_per_beat", "ticks_per_line", "signature_numerator", "signature_denominator",
                 "metronome_beats_per_bar", "metronome_lines_per_beat", "octave", "loop_coeff"):
        if r.random() < 0.5:
            glob[name] = r.choice((0, 1, 4, 32, 120, 999, r.randrange(1000)))
    if r.random() < 0.4:
        glob["shuffle_is_active"] = r.random() < 0.5
    if r.random() < 0.4:
        glob["shuffle_amounts"] = [r.randrange(101) for _ in range(4)]
        glob["shuffle_in_place"] = r.random() < 0.5
    for name in ("song_name", "artist"):
        if r.random() < 0.6:
            glob[name] = text(g)
    seq = [r.randrange(300) for _ in range(r.choice((0, 1, 5, 60)))]
    names = {str(t): text(g) for t in range(tracks) if r.random() < 0.3}
    for t in ("master", "send"):
        if r.random() < 0.3:
            names[t] = text(g)
    flags = {t: [r.choice(("Active", "Active", "Off", "Muted")), r.random() < 0.3]
             for t in [str(t) for t in range(tracks)] + ["master", "send"] if r.random() < 0.2}
    return {"flags": flags, "tracks": tracks, "instruments": r.choice((None, 0, 1, 2, 16, 255, 256, r.randrange(301))),
            "lines": r.choice((64, 64, 1, 16, 512, r.randrange(1, 513))), "ops": adds, "globals": glob, "sequence": seq, "names": names}


def large(g, i):
    """One dimension far beyond what songs usually have."""
    r = g.r
    sp = spec(g)
    sp.update(tracks=2, lines=64, ops=[], names={}, flags={})
    lines = lambda n, p, t: [[p, t, ln, *note(g)] for ln in r.sample(range(n), n)]
    if i == 0:  # tracks
        sp["tracks"] = r.choice((65, 100, 130, 260))
        sp["ops"] = [[r.randrange(3), r.randrange(sp["tracks"]), r.randrange(64), *note(g)] for _ in range(600)]
        sp["names"] = {str(t): text(g) for t in r.sample(range(sp["tracks"]), 40)}
    elif i == 1:  # lines in a track
        sp["lines"] = r.choice((512, 1024, 4096))
        sp["ops"] = lines(r.choice((600, 1030, 2100)), 0, 1) + lines(64, 1, 0)
    elif i == 2:  # patterns
        sp["ops"] = [[r.randrange(1100), r.randrange(2), r.randrange(64), *note(g)] for _ in range(200)] + [[1100, 0, 0, *note(g)]]
    elif i == 3:  # instruments and sequence
        sp["instruments"] = r.choice((1030, 2500))
        sp["ops"] = lines(64, 0, 0)
        sp["sequence"] = [r.randrange(1000) for _ in range(3000)] + [7] * 300 + list(range(300))
    elif i == 4:  # notes, each put many times over
        sp["ops"] = [[r.randrange(4), r.randrange(2), r.randrange(64), *note(g)] for _ in range(6000)]
    elif i == 6:  # a file of several megabytes
        n = r.randrange(150, 230)
        sp["ops"] = [[p, t, ln, *note(g)] for p in range(n) for t in (0, 1) for ln in range(64)]
    else:  # patterns far apart, lines far out
        sp["ops"] = [[p, r.randrange(2), ln, *note(g)] for p in (0, 255, 256, 300) for ln in (0, 63, 64, 255, 256, 511, 512, 1023, 65535)]
    return sp


def cases(task, g):
    r = g.r
    if task["kind"] == "large":
        yield "one", large(g, task["i"])
        small = [spec(g) for _ in range(2)]
        yield "group", {"specs": small + [large(g, 0)], "order": r.randrange(1 << 30)} if task["i"] == 0 else \
            {"specs": small, "order": r.randrange(1 << 30)}
        return
    for _ in range(g.n(40, 120) if task["kind"] == "random" else g.n(12, 40)):
        if task["kind"] == "random":
            yield "one", spec(g)
        else:
            yield "group", {"specs": [spec(g) for _ in range(r.randint(2, 4))], "order": r.randrange(1 << 30)}


DEFAULTS = {"beats_per_min": 120, "lines_per_beat": 4, "ticks_per_line": 12, "signature_numerator": 4, "signature_denominator": 4,
            "metronome_beats_per_bar": 4, "metronome_lines_per_beat": 0, "shuffle_is_active": False, "octave": 3, "loop_coeff": 4,
            "song_name": "Untitled", "artist": "FooBar"}


def new_song(sp):
    kw = {"tracks": sp["tracks"], "lines_per_track": sp["lines"]}
    if sp["instruments"] is not None:
        kw["instruments"] = sp["instruments"]
    with sut.call("creating a song"):
        return sut.S.song.Song(**kw)


def track_of(song, t):
    return {"master": song.tracks.master_tracks, "send": song.tracks.send_tracks}.get(t, song.tracks.tracks)[int(t) if t.isdigit() else 0]


def steps(sp):
    """The calls that fill the song, one at a time."""
    for k, v in sp["globals"].items():
        if k == "shuffle_in_place":
            continue
        if k == "shuffle_amounts" and sp["globals"]["shuffle_in_place"]:
            for i, x in enumerate(v):
                yield lambda s, i=i, x=x: operator.setitem(s.globals.shuffle_amounts, i, x)
            continue
        yield lambda s, k=k, v=v: setattr(s.globals, k, list(v) if isinstance(v, list) else v)
    for t, n in sp["names"].items():
        yield lambda s, t=t, n=n: setattr(track_of(s, t), "name", n)
    for t, (state, solo) in sp["flags"].items():
        yield lambda s, t=t, v=state: setattr(track_of(s, t), "state", v)
        yield lambda s, t=t, v=solo: setattr(track_of(s, t), "soloed", v)
    for a in sp["ops"]:
        yield lambda s, a=a: s.pattern_pool.add_note(*a)
    for p in sp["sequence"]:
        yield lambda s, p=p: s.pattern_sequence.add_pattern(p)


def expected(sp):
    pats = max((a[0] for a in sp["ops"]), default=-1) + 1
    cells = {}
    for p, t, ln, *cell in sp["ops"]:
        cells.setdefault((p, t), {})[ln] = tuple(map(plain, cell))
    return pats, cells


def plain(v):
    return v or None  # an empty element and a missing one are the same


def verify(data, sp, ctx, what):
    doc = xrns.parse(data)
    xrns.check_skeleton(data) if sp["tracks"] and expected(sp)[0] else None
    pats, cells = expected(sp)
    check(doc["doc_version"] == "65", f"{what}: doc_version {doc['doc_version']!r}")
    for tag, name in xrns.GLOBALS.items():
        v = sp["globals"].get(name, DEFAULTS[name])
        want = {True: "true", False: "false"}[v] if isinstance(v, bool) else str(v)
        check(plain(doc["globals"][tag]) == plain(want), lambda: f"{what}: {tag} is {doc['globals'][tag]!r}, {want!r} was put in")
    want = [str(x) for x in sp["globals"].get("shuffle_amounts", [0, 0, 0, 0])]
    check(doc["globals"]["ShuffleAmounts"] == want, lambda: f"{what}: shuffle amounts {doc['globals']['ShuffleAmounts']}, not {want}")
    insts = 1 if sp["instruments"] is None else sp["instruments"]
    check(doc["instruments"] == insts, lambda: f"{what}: {doc['instruments']} instruments, not {insts}")
    names = [t["name"] or "" for t in doc["SequencerTrack"]]
    want = [sp["names"].get(str(t), f"Track {t + 1}") for t in range(sp["tracks"])]
    sut.same(names, want, f"{what}: track names")
    check(len(doc["SequencerMasterTrack"]) == len(doc["SequencerSendTrack"]) == 1, f"{what}: master or send track")
    sut.same([doc["SequencerMasterTrack"][0]["name"] or "", doc["SequencerSendTrack"][0]["name"] or ""],
             [sp["names"].get("master", "Mst"), sp["names"].get("send", "S01")], f"{what}: names of the master and send tracks")
    all_tracks = doc["SequencerTrack"] + doc["SequencerMasterTrack"] + doc["SequencerSendTrack"]
    for t, key in zip(all_tracks, [str(t) for t in range(sp["tracks"])] + ["master", "send"]):
        state, solo = sp["flags"].get(key, ("Active", False))
        check((t["state"], t["soloed"]) == (state, str(solo).lower()), lambda: f"{what}: track {key} is {t}, expected {state}, soloed {solo}")
    check(len(doc["patterns"]) == pats, lambda: f"{what}: {len(doc['patterns'])} patterns, not {pats}")
    for p in doc["patterns"]:
        check(p["lines"] == str(sp["lines"]), lambda: f"{what}: a pattern of {p['lines']} lines, not {sp['lines']}")
        check(len(p["tracks"]) == sp["tracks"] and p["master"] == p["send"] == 1, lambda: f"{what}: a pattern has {len(p['tracks'])} tracks")
    got = {k: {i: tuple(map(plain, c)) for i, c in v.items()} for k, v in xrns.lines_of(doc).items()}
    sut.same(got, cells, f"{what}: (pattern, track) lines")
    sut.same(doc["sequence"], [str(x) for x in sp["sequence"]], f"{what}: sequence")
    ctx.counts["songs"] += 1
    ctx.counts["lines"] += sum(map(len, cells.values()))
    ctx.counts["overwritten"] += len(sp["ops"]) - sum(map(len, cells.values()))
    ctx.seen["track_counts"].add(sp["tracks"])
    for v in list(sp["names"].values()) + [sp["globals"].get("song_name"), sp["globals"].get("artist")]:
        if v:
            ctx.seen["texts"].add(v[:50])


class Sink:
    """A file that takes what is written, like a pipe: it can neither seek nor tell."""

    def __init__(self):
        self.data = []

    def write(self, b):
        self.data.append(bytes(b))
        return len(b)

    def flush(self):
        pass


def write(song, ctx, disk=False):
    with sut.call("writing a song"):
        if disk:
            p = os.path.join(ctx.scratch, "s.xrns")
            with open(p, "wb") as f:
                sut.S.writer.writer(f, song)
            return sut.read_file(p)
        if (len(song.pattern_pool.patterns) + len(song.pattern_sequence.sequence_entries)) % 4 == 1:
            b = Sink()
            sut.S.writer.writer(b, song)
            ctx.counts["sinks"] += 1
            return b"".join(b.data)
        b = io.BytesIO()
        sut.S.writer.writer(b, song)
        return b.getvalue()


def run_one(sp, ctx):
    song = new_song(sp)
    with sut.call("filling a song"):
        for s in steps(sp):
            s(song)
    verify(write(song, ctx), sp, ctx, "song")
    verify(write(song, ctx, True), sp, ctx, "song written again")


def run_group(case, ctx):
    import random

    r = random.Random(case["order"])
    specs = case["specs"]
    songs = [new_song(sp) for sp in specs]
    todo = [list(steps(sp)) for sp in specs]
    with sut.call("filling songs alternately"):
        while any(todo):
            i = r.choice([i for i, t in enumerate(todo) if t])
            todo[i].pop(0)(songs[i])
            if r.random() < 0.01:
                write(songs[r.randrange(len(songs))], ctx)
    order = list(range(len(songs)))
    r.shuffle(order)
    for i in order:
        verify(write(songs[i], ctx), specs[i], ctx, f"song {i} of {len(songs)} built at once")
        ctx.counts["shared"] += 1


ORACLES = {"one": run_one, "group": run_group}
