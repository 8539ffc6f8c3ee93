"""Reads a Renoise song file back into plain data, insisting on its structure."""
import hashlib
import io
import xml.etree.ElementTree as ET
import zipfile
import zlib

from lib.sut import Mismatch, REPO, check


def text(el, name):
    c = el.findall(name)
    if len(c) > 1:
        raise Mismatch(f"<{el.tag}> has {len(c)} <{name}>")
    return c[0].text if c else None


def only(el, name):
    c = el.findall(name)
    if len(c) != 1:
        raise Mismatch(f"<{el.tag}> has {len(c)} <{name}>, expected one")
    return c[0]


def whole(data):
    """Stands for everything in the archive: names and contents, whatever they mean."""
    h = hashlib.sha1()
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        for n in sorted(z.namelist()):
            h.update(repr((n, z.read(n))).encode())
    return h.hexdigest()


def root_of(data):
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            bad = z.testzip()
            if bad:
                raise Mismatch(f"{bad} in the song archive is damaged")
            names = z.namelist()
            if names.count("Song.xml") != 1:
                raise Mismatch(f"the song archive holds {names}, expected one Song.xml")
            xml = z.read("Song.xml")
    except (zipfile.BadZipFile, zlib.error, EOFError, LookupError, NotImplementedError, OSError, RuntimeError, ValueError) as e:
        raise Mismatch(f"the song file is not a zip archive: {e}")
    try:
        return ET.fromstring(xml)
    except (ET.ParseError, LookupError, ValueError) as e:
        raise Mismatch(f"Song.xml is not well-formed: {e}")


GLOBALS = {
    "BeatsPerMin": "beats_per_min", "LinesPerBeat": "lines_per_beat", "TicksPerLine": "ticks_per_line",
    "SignatureNumerator": "signature_numerator", "SignatureDenominator": "signature_denominator",
    "MetronomeBeatsPerBar": "metronome_beats_per_bar", "MetronomeLinesPerBeat": "metronome_lines_per_beat",
    "ShuffleIsActive": "shuffle_is_active", "Octave": "octave", "LoopCoeff": "loop_coeff",
    "SongName": "song_name", "Artist": "artist",
}


def parse(data):
    root = root_of(data)
    check(root.tag == "RenoiseSong", f"the root element is <{root.tag}>")
    doc = {"doc_version": root.get("doc_version"), "whole": whole(data)}
    g = only(root, "GlobalSongData")
    doc["globals"] = {k: text(g, k) for k in GLOBALS}
    doc["globals"]["ShuffleAmounts"] = [e.text for e in only(g, "ShuffleAmounts").findall("ShuffleAmount")]
    doc["instruments"] = len(only(root, "Instruments").findall("Instrument"))
    tr = only(root, "Tracks")
    for kind in ("SequencerTrack", "SequencerMasterTrack", "SequencerSendTrack"):
        doc[kind] = [
            {"name": text(t, "Name"), "state": text(t, "State"), "soloed": text(t, "Soloed"),
             "color": text(t, "Color"),
             "type": t.get("type"),
             "devices": [d.tag for ds in t.findall("FilterDevices/Devices") for d in ds]}
            for t in tr.findall(kind)
        ]
    doc["patterns"] = []
    for p in only(only(root, "PatternPool"), "Patterns").findall("Pattern"):
        ts = only(p, "Tracks")
        pat = {"master": len(ts.findall("PatternMasterTrack")), "send": len(ts.findall("PatternSendTrack")),
               "lines": text(p, "NumberOfLines"), "tracks": []}
        for t in ts.findall("PatternTrack"):
            lines, order = {}, []
            for wrap in t.findall("Lines"):
                for ln in wrap.findall("Line"):
                    idx = ln.get("index")
                    try:
                        idx = int(idx)
                    except (TypeError, ValueError):
                        raise Mismatch(f"a line with index {idx!r}")
                    cols = ln.findall("NoteColumns/NoteColumn")
                    if len(cols) != 1:
                        raise Mismatch(f"line {idx} has {len(cols)} note columns")
                    if idx in lines:
                        raise Mismatch(f"line {idx} appears twice in a pattern track")
                    c = cols[0]
                    extra = [e.tag for e in c if e.tag not in ("Note", "Instrument", "Panning")]
                    extra += [e.tag for e in ln if e.tag != "NoteColumns"]
                    if extra:
                        raise Mismatch(f"line {idx} carries {extra}")
                    lines[idx] = (text(c, "Note"), text(c, "Instrument"), text(c, "Panning"))
                    order.append(idx)
            pat["tracks"].append({"lines": lines, "order": order, "type": t.get("type")})
        doc["patterns"].append(pat)
    doc["sequence"] = [
        text(e, "Pattern")
        for e in only(only(root, "PatternSequence"), "SequenceEntries").findall("SequenceEntry")
    ]
    return doc


def lines_of(doc):
    """{(pattern, track): {line: (note, instrument, panning)}} of every track that has lines."""
    return {(p, t): tr["lines"] for p, pat in enumerate(doc["patterns"])
            for t, tr in enumerate(pat["tracks"]) if tr["lines"]}


# the smallest song Renoise takes, as the repository ships it
SKELETON = """
RenoiseSong
RenoiseSong/Instruments
RenoiseSong/Tracks
RenoiseSong/Tracks/SequencerTrack[type=SequencerTrack]
RenoiseSong/Tracks/SequencerTrack/FilterDevices/Devices/TrackMixerDevice[type=TrackMixerDevice]
RenoiseSong/Tracks/SequencerMasterTrack[type=SequencerMasterTrack]
RenoiseSong/Tracks/SequencerMasterTrack/FilterDevices/Devices/MasterTrackMixerDevice[type=MasterTrackMixerDevice]
RenoiseSong/Tracks/SequencerSendTrack[type=SequencerSendTrack]
RenoiseSong/Tracks/SequencerSendTrack/FilterDevices/Devices/SendTrackMixerDevice[type=SendTrackMixerDevice]
RenoiseSong/PatternPool/Patterns
RenoiseSong/PatternSequence/SequenceEntries
""".split()
PATTERN_SKELETON = {"PatternTrack": "PatternTrack", "PatternMasterTrack": "PatternMasterTrack",
                    "PatternSendTrack": "PatternSendTrack"}


def check_skeleton(data):
    root = root_of(data)
    for path in SKELETON:
        path, _, attr = path.partition("[")
        found = [root] if "/" not in path else root.findall(path.partition("/")[2])
        check(found, f"no <{path}> in the song")
        if attr:
            k, _, v = attr.rstrip("]").partition("=")
            for e in found:
                check(e.get(k) == v, f"<{path}> has {k}={e.get(k)!r}, expected {v!r}")
    for p in root.findall("PatternPool/Patterns/Pattern"):
        for tag, typ in PATTERN_SKELETON.items():
            els = p.findall(f"Tracks/{tag}")
            check(els, f"a pattern without <{tag}>")
            for e in els:
                check(e.get("type") == typ, f"<{tag}> has type {e.get('type')!r}")


import re  # noqa: E402

from lib import model  # noqa: E402

NOTE = re.compile(r"[A-G][-#]\d")


def check_cell(ev, cell, where):
    """One line of a pattern track against the key event it stands for."""
    note, instr, pan = cell
    want = model.song_note(ev)
    if want == "OFF":
        check((note or "").upper() == "OFF", lambda: f"{where}: a key-off is written as note {note!r}")
        check(instr is None, lambda: f"{where}: a key-off names instrument {instr!r}")
    else:
        if want is None:
            check(NOTE.fullmatch(note or ""), lambda: f"{where}: note {note!r}")
        else:
            check(note == want, lambda: f"{where}: note {note!r}, expected {want!r} for octave {ev[4]} code {ev[5]}")
        ok = instr is not None and re.fullmatch(r"[0-9A-Fa-f]{2,}", instr) and int(instr, 16) == ev[1]
        check(ok, lambda: f"{where}: instrument {instr!r}, expected {ev[1]:02X}")
    p = model.song_pan(ev)
    if p != "?":
        check(pan == p, lambda: f"{where}: panning {pan!r}, expected {p!r} for right={ev[2]} left={ev[3]}")


def check_song(doc, events, n_instruments, tpn, content=True):
    """The whole song against the key events of the model."""
    want = model.grid(events, tpn)
    got = lines_of(doc)
    for key in want:
        check(key in got, lambda: f"pattern {key[0]} track {key[1]} is empty, expected lines {sorted(want[key])[:8]}")
    n = 0
    for key, lines in got.items():
        w = want.get(key)
        check(w is not None, lambda: f"pattern {key[0]} track {key[1]} has lines {sorted(lines)[:8]}, expected none")
        check(sorted(lines) == sorted(w),
              lambda: f"pattern {key[0]} track {key[1]}: lines {sorted(lines)[:70]}, expected {sorted(w)[:70]}")
        if content:
            for i, cell in lines.items():
                check_cell(w[i], cell, f"pattern {key[0]} track {key[1]} line {i}")
                n += 1
    return n


def check_structure(doc, events, n_instruments, tpn, tracks=8):
    check(doc["doc_version"] == "65", f"doc_version {doc['doc_version']!r}")
    check(len(doc["SequencerTrack"]) == tracks, lambda: f"{len(doc['SequencerTrack'])} sequencer tracks")
    check(len(doc["SequencerMasterTrack"]) == 1 and len(doc["SequencerSendTrack"]) == 1, "master or send track missing")
    check(doc["instruments"] == n_instruments,
          lambda: f"{doc['instruments']} instruments in the song, {n_instruments} extracted")
    n = model.pattern_count(events, tpn)
    check(len(doc["patterns"]) == n, lambda: f"{len(doc['patterns'])} patterns, the last event is in number {n - 1}")
    check(doc["sequence"] == [str(i) for i in range(n)],
          lambda: f"the sequence plays {doc['sequence'][:20]}, expected each of {n} patterns once in order")
    for i, p in enumerate(doc["patterns"]):
        check(len(p["tracks"]) == tracks and p["master"] == 1 and p["send"] == 1,
              lambda: f"pattern {i} has {len(p['tracks'])}+{p['master']}+{p['send']} tracks")
        check(p["lines"] in (None, "64"), lambda: f"pattern {i} has {p['lines']} lines")
        for t, tr in enumerate(p["tracks"]):
            o = tr["order"]
            check(all(0 <= x < 64 for x in o), lambda: f"pattern {i} track {t}: line indices {o}")
            check(all(a < b for a, b in zip(o, o[1:])), lambda: f"pattern {i} track {t}: lines out of order {o}")
            for idx, (note, instr, _pan) in tr["lines"].items():
                if instr is not None:
                    ok = re.fullmatch(r"[0-9A-Fa-f]+", instr) and int(instr, 16) < doc["instruments"]
                    check(ok, lambda: f"pattern {i} track {t} line {idx} plays instrument {instr!r} of {doc['instruments']}")
