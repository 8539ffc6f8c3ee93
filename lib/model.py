"""Reference model, written from the VGM 1.71 and YM2151 data sheets, not from the code under test."""
import random
import struct
import zlib

# ---------------------------------------------------------------- VGM commands
# operand bytes per opcode; -1: variable
FIXED = {}
for _op in range(256):
    if _op < 0x30:
        FIXED[_op] = 0  # undefined
    elif _op < 0x40:
        FIXED[_op] = 1
    elif _op < 0x4F:
        FIXED[_op] = 2
    elif _op in (0x4F, 0x50):
        FIXED[_op] = 1
    elif _op < 0x60:
        FIXED[_op] = 2
    elif _op == 0x61:
        FIXED[_op] = 2
    elif _op in (0x60, 0x62, 0x63, 0x64, 0x65, 0x66):
        FIXED[_op] = 0
    elif _op == 0x67:
        FIXED[_op] = -1
    elif _op == 0x68:
        FIXED[_op] = 11
    elif _op < 0x90:
        FIXED[_op] = 0
    elif _op in (0x90, 0x91, 0x95):
        FIXED[_op] = 4
    elif _op == 0x92:
        FIXED[_op] = 5
    elif _op == 0x93:
        FIXED[_op] = 10
    elif _op == 0x94:
        FIXED[_op] = 1
    elif _op < 0xA0:
        FIXED[_op] = 0  # undefined
    elif _op < 0xC0:
        FIXED[_op] = 2
    elif _op < 0xE0:
        FIXED[_op] = 3
    else:
        FIXED[_op] = 4

UNDEFINED = [o for o in range(256) if o < 0x30 or o in (0x60, 0x64, 0x65) or 0x69 <= o <= 0x6F or 0x96 <= o <= 0x9F]
WAITS = [0x61, 0x62, 0x63] + list(range(0x70, 0x90))
# commands that are neither a YM2151 write, a wait nor the end marker, of fixed length
FOREIGN = [o for o in range(256)
           if FIXED[o] >= 0 and o not in WAITS and o not in (0x54, 0x66, 0x68)]


def wait_of(op, operands):
    if op == 0x61:
        return operands[0] | operands[1] << 8
    if op == 0x62:
        return 735
    if op == 0x63:
        return 882
    if 0x70 <= op <= 0x7F:
        return (op & 15) + 1
    if 0x80 <= op <= 0x8F:
        return op & 15
    return None


def decode(body):
    """[(offset, tuple like sut.norm)] of complete commands, reading on past end markers."""
    out, i, n = [], 0, len(body)
    while i < n:
        op, at = body[i], i
        size = FIXED[op]
        if size < 0:
            if i + 7 > n:
                break
            (ln,) = struct.unpack_from("<I", body, i + 3)
            ln &= 0x7FFFFFFF  # bit 31: for the second of two chips
            if i + 7 + ln > n:
                break
            out.append((at, (op, "other", bytes(body[i + 7:i + 7 + ln]) or None)))
            i += 7 + ln
            continue
        if i + 1 + size > n:
            break
        opr = bytes(body[i + 1:i + 1 + size])
        out.append((at, plain(op, opr)))
        i += 1 + size
    return out, i


def plain(op, opr):
    w = wait_of(op, opr)
    if w is not None:
        return (op, "wait", w)
    if op == 0x54:
        return (op, "ym", opr[0], opr[1])
    if op == 0x66:
        return (op, "eos")
    if op == 0x68:
        return (op, "other", None)  # a PCM RAM write carries no data of its own
    return (op, "other", opr if FIXED[op] else None)


# ---------------------------------------------------------------- program -> bytes
def op_bytes(op):
    """Encoding of one program operation; see gen.py for the operations."""
    k = op[0]
    if k == "w":
        return bytes((0x54, op[1], op[2]))
    if k == "wait":
        return encode_wait(op[1])
    if k == "raw":
        return bytes(op[1])
    raise ValueError(op)


def encode_wait(n):
    """One encoding of a wait, of any kind, always the same for the same length."""
    k = (n * 2654435761 & 0xFFFFFFFF) >> 28
    out = bytearray()
    if k < 2 and n >= 735:
        out += b"\x62"
        n -= 735
    elif k < 4 and n >= 882:
        out += b"\x63"
        n -= 882
    elif k < 7 and 1 <= n <= 16:
        return bytes((0x6F + n,))
    elif k < 12 and n <= 15:
        return bytes((0x80 + n,))
    elif 7 <= k < 9:
        m = min(n, 1 + n % 15)
        out.append(0x80 + m)
        n -= m
    while n > 65535:
        out += b"\x61\xff\xff"
        n -= 65535
    return bytes(out + b"\x61" + struct.pack("<H", n))


def block(kind, data, second=False):
    return bytes((0x67, 0x66, kind & 255)) + struct.pack("<I", len(data) | second << 31) + bytes(data)


def header(version=0x150, ym2151=3579545, ym2413=0, offset=None, size=None, extra=b"", fill=0):
    """A VGM header; data starts at 0x40 + len(extra) if offset is left to it."""
    h = bytearray([fill]) * 0x40
    h[0:4] = b"Vgm "
    h[8:12] = struct.pack("<I", version)
    h[0x10:0x14] = struct.pack("<I", ym2413)
    h[0x30:0x34] = struct.pack("<I", ym2151)
    if offset is None:
        offset = 0x0C + len(extra) if version >= 0x150 else 0
    h[0x34:0x38] = struct.pack("<I", offset)
    h[4:8] = struct.pack("<I", size if size is not None else 0)
    return bytes(h) + bytes(extra)


FIELDS = (0x0C, 0x10, 0x14, 0x18, 0x1C, 0x20, 0x24, 0x28, 0x2C, 0x30, 0x38, 0x3C)


def lifelike(h, body, salt, keep=(0x10, 0x30)):
    """Fills header fields that must not matter with what a real file, or a nearly right one, has there."""
    h = bytearray(h)
    r = random.Random(salt)
    if len(body) < 20000:
        cmds = decode(body)[0]
        total, at = 0, 0
        for at, c in cmds:
            if c[1] == "eos":
                break
            if c[1] == "wait":
                total += c[2]
        loop = r.choice(cmds)[0] if cmds else 0
    else:
        total, at, loop = r.randrange(1 << 24), len(body) - 1, r.randrange(len(body))
    end, n = len(h) + at, len(h)
    values = {
        0x0C: r.choice((0, 3579545, 3579545 | 1 << 31, 4000000)),
        0x10: r.choice((0, 3579545)),
        0x14: r.choice((0, end + 1 - 0x14, end + 1 - 0x14, n - 0x14, 0xFFFFFFFF)),
        0x18: r.choice((0, total, total, max(0, total - 1), total // 2, 1, total + 1, 44100)) & 0xFFFFFFFF,
        0x1C: r.choice((0, n + loop - 0x1C, n + loop - 0x1C, n - 0x1C, end - 0x1C, end + 1 - 0x1C, 1)) & 0xFFFFFFFF,
        0x20: r.choice((0, total, total // 2, 735, 1)) & 0xFFFFFFFF,
        0x24: r.choice((0, 50, 60, 50, 60, 100, 44100)),
        0x28: r.choice((0, 0x00100009, 0x000F0006)),
        0x2C: r.choice((0, 7670454)),
        0x30: r.choice((0, 3579545, 3579545, 4000000, 4000000, 3579580, 3579545 | 1 << 30, 4000000 | 1 << 30, 3579545 | 1 << 31, 3579545 | 3 << 30, 1789772)),
        0x38: r.choice((0, 4000000)),
        0x3C: r.choice((0, 4000000)),
    }
    for at, v in values.items():
        if at not in keep and r.random() < 0.7 and at + 4 <= len(h):
            h[at:at + 4] = struct.pack("<I", v)
    if len(h) > 0x80:
        h[0x78:0x80] = bytes((r.randrange(256), r.choice((0, 1, 2, 4, 8)), 0, 0, r.choice((0, 0x20, 0xC1, 0xE0)), 0, r.choice((0, 1, 0xFF)), r.choice((0, 8, 16, 32))))
    if len(h) >= 0xC0:
        h[0xBC:0xC0] = struct.pack("<I", r.choice((0, 4, len(h) - 0xBC)))
    return bytes(h)


VERSIONS = (0x150,) * 5 + (0x100, 0x101, 0x101, 0x110, 0x110, 0x151, 0x151, 0x160, 0x161, 0x171, 0x172)


def vgm(body, **kw):
    if not kw:
        # of any version there is
        kw = {"version": VERSIONS[zlib.crc32(body) >> 8 & 15]}
    h = header(**kw)
    if not set(kw) - {"version", "size", "offset"} and len(h) == 0x40:
        salt = zlib.crc32(body)
        if salt & 3:
            h = lifelike(h, body, salt, (0x10,) if kw.get("version", 0x150) >= 0x110 else (0x10, 0x30))
    if kw.get("size") is None:
        h = h[:4] + struct.pack("<I", len(h) + len(body) - 4) + h[8:]
    return h + bytes(body)


def program_vgm(ops, end=True, **kw):
    return vgm(b"".join(map(op_bytes, ops)) + (b"\x66" if end else b""), **kw)


# ---------------------------------------------------------------- the chip
WAVES = ("SAW", "SQUARE", "TRIANGLE", "NOISE")
OPNAMES = ((1, "MOD1"), (2, "CAR1"), (4, "MOD2"), (8, "CAR2"))
SLOT = {"m1": 0, "m2": 1, "c1": 2, "c2": 3}  # register slot of each operator
LEGAL_NOTES = (0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14)


class Chip:
    """Keeps the raw register file and reads fields out of it when asked."""

    def __init__(self):
        self.r = [0] * 256
        self.pmd = 0
        self.amd = 0
        self.now = 0
        self.instruments = []  # plain data, in order of first use
        self._index = {}
        self.events = [[] for _ in range(8)]
        self.started = False
        self.onsets = set()
        self.dropped = 0

    def base(self):
        return {"waveform": WAVES[self.r[0x1B] & 3], "lfo": self.r[0x18],
                "amp_md": self.amd, "phs_md": self.pmd}

    def operator(self, ch, slot):
        a = slot * 8 + ch
        r = self.r
        return {
            "dt1": r[0x40 + a] >> 4 & 7, "mul": r[0x40 + a] & 15,
            "tl": r[0x60 + a] & 127,
            "ks": r[0x80 + a] >> 6, "ar": r[0x80 + a] & 31,
            "ase": bool(r[0xA0 + a] & 128), "d1r": r[0xA0 + a] & 31,
            "dt2": r[0xC0 + a] >> 6, "d2r": r[0xC0 + a] & 31,
            "d1l": r[0xE0 + a] >> 4, "rr": r[0xE0 + a] & 15,
        }

    def voice(self, ch):
        r = self.r
        v = {"feedback": r[0x20 + ch] >> 3 & 7, "connection": r[0x20 + ch] & 7,
             "ams": r[0x38 + ch] & 3, "pms": r[0x38 + ch] >> 4 & 7,
             "noise": ch == 7 and bool(r[0x0F] & 128),
             "noise_freq": r[0x0F] & 31 if ch == 7 else 0}
        for name, slot in SLOT.items():
            v[name] = self.operator(ch, slot)
        return v

    def sides(self, ch):
        return bool(self.r[0x20 + ch] & 128), bool(self.r[0x20 + ch] & 64)  # right, left

    def pitch(self, ch):
        return self.r[0x28 + ch] >> 4 & 7, self.r[0x28 + ch] & 15, self.r[0x30 + ch] >> 2

    def write(self, reg, val):
        self.r[reg] = val
        if reg == 0x19:
            if val & 128:
                self.pmd = val & 127
            else:
                self.amd = val
        elif reg == 0x08:
            self.key(val & 7, val >> 3 & 15)

    def key(self, ch, mask):
        ident = -1
        if mask:
            k = (tuple(self.r[a] for a in range(0x40 + ch, 0x100, 8)),
                 self.r[0x20 + ch] & 63, self.r[0x38 + ch], self.r[0x18], self.r[0x1B] & 3,
                 self.amd, self.pmd, mask, self.r[0x0F] if ch == 7 else 0)
            body = self._index.get(k)
            if body is None:
                inst = {"base": self.base(),
                        "operators": "|".join(n for b, n in OPNAMES if mask & b),
                        "channel": self.voice(ch)}
                flat = repr(inst)
                if flat not in self._index:
                    self._index[flat] = len(self.instruments)
                    self.instruments.append({"id": len(self.instruments), **inst})
                body = self._index[k] = self._index[flat]
            ident = body
            self.started = True
            self.onsets.add(self.now)
        if self.started:
            self.events[ch].append((self.now, ident, *self.sides(ch), *self.pitch(ch)))
        else:
            self.dropped += 1

    def feed(self, ops):
        for op in ops:
            if op[0] == "w":
                self.write(op[1], op[2])
            elif op[0] == "wait":
                self.now += op[1]
            elif op[0] == "raw":
                for _, c in decode(op[1])[0]:
                    if c[1] == "wait":
                        self.now += c[2]
                    elif c[1] == "ym":
                        self.write(c[2], c[3])
        return self


def run_stream(body):
    """Chip after the commands of a stream up to the end marker."""
    chip = Chip()
    for _, c in decode(body)[0]:
        if c[1] == "eos":
            break
        if c[1] == "wait":
            chip.now += c[2]
        elif c[1] == "ym":
            chip.write(c[2], c[3])
    return chip


# ---------------------------------------------------------------- exports
NAMES = {0: "C#", 1: "D", 2: "D#", 4: "E", 5: "F", 6: "F#", 8: "G", 9: "G#", 10: "A", 12: "A#", 13: "B", 14: "C"}


def song_note(ev):
    """Note name in the song, None where the chip defines no pitch."""
    if ev[1] < 0:
        return "OFF"
    name = NAMES.get(ev[5])
    if name is None:
        return None
    # the chip's octaves start at C#: C is the top of an octave there, the bottom of the next in a song
    return f"{name:-<2}{ev[4] + (1 if name == 'C' else 0)}"


def song_pan(ev):
    right, left = ev[2], ev[3]
    if right and left:
        return None
    if right:
        return "80"
    if left:
        return "00"
    return "?"  # on no output: nothing to hear, any panning will do


def grid(events, tpn):
    """{(pattern, channel): {line: event}}: the last event of a line wins."""
    out = {}
    for ch, evs in enumerate(events):
        for ev in evs:
            row = ev[0] // tpn
            out.setdefault((row // 64, ch), {})[row % 64] = ev
    return out


def pattern_count(events, tpn):
    last = max((e[0] for evs in events for e in evs), default=None)
    return 0 if last is None else last // tpn // 64 + 1


def scores(onsets, lo=1000, hi=8000, window=32000):
    """{shift: onsets or shifted onsets without a partner}, up to the last onset of the window."""
    ticks = sorted(onsets)
    a = {t - ticks[0] for t in ticks if t - ticks[0] < window}
    end = max(a)
    rel = sorted(a)
    out = {}
    for d in range(lo, hi):
        b = {t + d for t in rel if t + d <= end}
        out[d] = len(a ^ b)
    return out


def estimate(onsets, lo=1000, hi=8000, window=32000):
    """The shift in [lo, hi) whose shifted onsets differ least from the onsets, up to the last onset."""
    if not onsets:
        return None
    s = scores(onsets, lo, hi, window)
    return min(s, key=lambda d: (s[d], d))
