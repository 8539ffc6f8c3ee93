"""Workload generators. A program is a list of operations:
    ["w", register, value]      YM2151 register write
    ["wait", samples]           some encoding of a wait
    ["raw", bytes]              encoded VGM commands
"""
import json
import os
import struct
import types

from lib import model
from lib.model import FIXED

SOUND_REGS = [0x0F, 0x18, 0x19, 0x1B] + list(range(0x20, 0x28)) + list(range(0x38, 0x100))
BASE_CONSTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "base_consts.json")


def source_constants():
    """Integer constants of the code under test: boundaries worth visiting. Only biases inputs."""
    from lib import sut

    found = set()

    def walk(code):
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)
            elif isinstance(c, (tuple, frozenset)):
                found.update(x for x in c if type(x) is int)
            elif type(c) is int:
                found.add(c)

    for top, _dirs, files in os.walk(sut.SRC):
        for f in files:
            if f.endswith(".py") and "renoise_song" not in f:
                try:
                    with open(os.path.join(top, f), "rb") as fh:
                        walk(compile(fh.read(), f, "exec"))
                except (SyntaxError, ValueError):
                    pass
    return sorted(c for c in found if 0 <= c < 1 << 34)


_consts = None


def consts():
    global _consts
    if _consts is None:
        allc = source_constants()
        try:
            with open(BASE_CONSTS) as f:
                base = set(json.load(f))
        except FileNotFoundError:
            base = set()
        _consts = (allc, [c for c in allc if c not in base])
    return _consts


class Gen:
    def __init__(self, rng, tier):
        self.r = rng
        self.tier = tier
        self.all_consts, self.new_consts = consts()

    def n(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    # ------------------------------------------------------------ numbers
    def edge(self, lo, hi):
        """An integer in [lo, hi], biased to boundaries and constants of the code."""
        r = self.r
        k = r.random()
        if k < 0.25 and self.new_consts or k < 0.05:
            c = r.choice(self.new_consts or self.all_consts) + r.choice((-1, 0, 0, 1))
        elif k < 0.45:
            c = r.choice(self.all_consts) + r.choice((-1, 0, 0, 1))
        elif k < 0.6:
            c = (1 << r.randrange(0, max(1, hi.bit_length()) + 1)) + r.choice((-1, 0, 1))
        elif k < 0.7:
            c = r.choice((lo, hi, lo + 1, hi - 1))
        else:
            c = r.randint(lo, hi)
        return c if lo <= c <= hi else r.randint(lo, hi)

    def byte(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            return r.choice((0, 0xFF, 0x54, 0x61, 0x66, 0x67, 0x68, 0x08, 0x7F, 0x80, 0x40, 0x0F, 0xF0, 0x1F, 0x70, 0x62))
        if k < 0.5:
            return r.choice((1, 2, 4, 8, 16, 32, 64, 128, 3, 7, 15, 63, 31))
        return r.randrange(256)

    def data(self, n):
        r = self.r
        k = r.random()
        if k < 0.2:
            return bytes([r.choice((0x66, 0x54, 0x61, 0x67, 0x00, 0xFF))]) * n
        if k < 0.5:
            return bytes(self.byte() for _ in range(n)) if n < 4096 else r.randbytes(n)
        if k < 0.7 and n >= 3:
            unit = bytes((0x54, 0x08, 0x78 | r.randrange(8), 0x61, 0x10, 0x27))
            return (unit * (n // len(unit) + 1))[:n]
        return r.randbytes(n)

    # ------------------------------------------------------------ VGM commands
    def command(self, op):
        n = FIXED[op]
        if n < 0:
            return self.data_block()
        if op == 0x68:
            # size field 0, so that no reading of the format attaches data to it
            return bytes([0x68, 0x66]) + bytes(self.byte() for _ in range(7)) + b"\0\0\0"
        return bytes([op]) + bytes(self.byte() for _ in range(n))

    def data_block(self, size=None):
        r = self.r
        if size is None:
            size = r.choice((0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 64, 255, 256, 257, 300))
            if r.random() < 0.05:
                size = self.edge(0, 70000)
        return model.block(r.randrange(256) if r.random() < 0.7 else r.choice((0, 0x40, 0x7F, 0x80, 0xC0, 0xE0, 0xFF)),
                           self.data(size), r.random() < 0.12)

    def foreign(self):
        """A command of another chip: neither wait, YM2151 write nor end."""
        r = self.r
        k = r.random()
        if k < 0.12:
            return self.data_block()
        if k < 0.18:
            return self.command(0x68)
        if k < 0.3:
            # a second YM2151, and the registers that look most like it
            return bytes((r.choice((0xA4, 0x55, 0x52, 0x53, 0xA5, 0x5A)), r.choice((0x08, 0x20, 0x28, 0x40)), self.byte()))
        if k < 0.38:
            return self.stream_control()
        return self.command(r.choice(model.FOREIGN))

    def stream_control(self):
        """Streams as players set them up: to registers of a chip, a YM2151 often."""
        r = self.r
        s = bytes((r.choice((0, 0, 1, 0xFE)),))
        op = r.choice((0x90, 0x90, 0x91, 0x92, 0x93, 0x94, 0x95))
        if op == 0x90:
            port = 0 if r.random() < 0.8 else r.randrange(2)
            rest = bytes((r.choice((3, 3, 0x83, 2, 0, r.randrange(0x2A))), port, r.choice((0x08, 0x14, r.choice(SOUND_REGS), self.byte()))))
        elif op == 0x91:
            rest = bytes((r.randrange(3), r.choice((1, 2)), r.randrange(2)))
        elif op == 0x92:
            rest = struct.pack("<I", r.choice((8000, 11025, 44100)))
        elif op == 0x93:
            rest = struct.pack("<IBI", r.choice((0, 0xFFFFFFFF)), r.choice((0, 1, 2, 3, 0x81)), r.choice((0, 735, 5000)))
        elif op == 0x94:
            rest = b""
        else:
            rest = struct.pack("<HB", r.randrange(4), r.choice((0, 1, 0x10)))
        return bytes((op,)) + s + rest

    def any_command(self):
        r = self.r
        while True:
            op = r.randrange(256)
            if op != 0x66:
                return self.command(op)

    def wait_bytes(self, n):
        """Some encoding of a wait of n samples."""
        r = self.r
        out = bytearray()
        while n > 0:
            k = r.random()
            if k < 0.12 and n >= 735:
                out += b"\x62"
                n -= 735
            elif k < 0.24 and n >= 882:
                out += b"\x63"
                n -= 882
            elif k < 0.4:
                m = min(n, r.randint(1, 16))
                out.append(0x70 + m - 1)
                n -= m
            elif k < 0.5:
                m = min(n, r.randint(0, 15))
                out.append(0x80 + m)
                n -= m
            elif k < 0.52:
                out += b"\x61\0\0"
            else:
                m = min(n, 65535) if n < 65536 or r.random() < 0.7 else r.randint(0, 65535)
                if n < 65536 and r.random() < 0.3:
                    m = r.randint(0, n)
                out += b"\x61" + struct.pack("<H", m)
                n -= m
        if r.random() < 0.05:
            out += r.choice((b"\x80", b"\x61\0\0"))
        return bytes(out)

    # ------------------------------------------------------------ chip programs
    def chaos(self, n, keys=0.12, waits=0.15):
        """Random register writes, keys and waits."""
        r = self.r
        ops = []
        hot = [r.choice(SOUND_REGS) for _ in range(6)]
        for _ in range(n):
            k = r.random()
            if k < keys:
                ops.append(["w", 0x08, r.choice((0x78, 0x78, 0, 0, 8 * r.randrange(16))) | r.randrange(8)
                            | (128 if r.random() < 0.05 else 0)])
            elif k < keys + waits:
                ops.append(["wait", self.gap()])
            elif k < keys + waits + 0.1:
                ops.append(["w", r.randrange(256), self.byte()])
            elif k < keys + waits + 0.3:
                ops.append(["w", r.choice(hot), self.byte()])
            else:
                ops.append(["w", r.choice(SOUND_REGS), self.byte()])
        return [o if o[:2] != ["w", 8] else o for o in ops]

    def gap(self):
        r = self.r
        k = r.random()
        if k < 0.3:
            return r.choice((0, 1, 2, 735, 882, 1470, 65535, 44100, 6000))
        if k < 0.6:
            return r.randint(0, 3000)
        return self.edge(0, 70000)

    def patch_writes(self, ch, dense=1.0):
        """Writes that load some voice into a channel."""
        r = self.r
        w = [["w", 0x20 + ch, self.byte()], ["w", 0x38 + ch, self.byte()]]
        for a in range(0x40 + ch, 0x100, 8):
            if r.random() < dense:
                w.append(["w", a, self.byte()])
        return w

    def patch(self, dense=1.0):
        """A voice as channel-independent (register offset, value) pairs."""
        r = self.r
        p = [(0x20, self.byte()), (0x38, self.byte())]
        p += [(a, self.byte()) for a in range(0x40, 0x100, 8) if r.random() < dense]
        return p

    def music(self, n_notes, period=None, lead=None, channels=None, patches=4, jitter=0.15, dense=0.6, base_changes=0.05,
              off=0.5, same=0.2):
        """Something like a song: a palette of voices, a beat, retriggers, rests, stray writes."""
        r = self.r
        if period is None:
            period = r.choice((735, 1000, 1470, 2205, 3000, 4410, 5512, 6000, 7350, 7999, r.randint(200, 9000)))
        if channels is None:
            channels = r.sample(range(8), r.randint(1, 8))
        pal = [self.patch(dense if r.random() < 0.7 else 0.1) for _ in range(patches)]
        ops = []
        for _ in range(r.choice((0, 0, 1, 3, 9))):
            ops.append(["w", 0x08, r.randrange(8)])  # leading key-offs
        if lead is None:
            lead = r.choice((0, 0, 1, 100, 735, 31999, 32000, 44100, r.randint(0, 200000)))
        if lead:
            ops.append(["wait", lead])
            if r.random() < 0.3:
                ops.append(["w", 0x08, r.choice(channels)])
        loaded = {}
        for _ in range(n_notes):
            ch = r.choice(channels)
            if loaded.get(ch) is None or r.random() < 0.25:
                p = r.randrange(len(pal))
                ops += [["w", a + ch, v] for a, v in pal[p]]
                loaded[ch] = p
            if r.random() < base_changes:
                ops.append(["w", r.choice((0x18, 0x19, 0x1B, 0x0F)), self.byte()])
            k = r.random()
            if k < 0.6:
                ops.append(["w", 0x28 + ch, r.randrange(128)])
            if k < 0.3:
                ops.append(["w", 0x30 + ch, self.byte()])
            if r.random() < 0.15:
                ops.append(["w", 0x20 + ch, (pal[loaded[ch]][0][1] & 63) | r.choice((0, 64, 128, 192))])
            mask = 0x78 if r.random() < 0.85 else 8 * r.randrange(1, 16)
            ops.append(["w", 0x08, mask | ch])
            step = period * r.choice((1, 1, 1, 2, 3, 4)) if r.random() > jitter else r.randint(0, 2 * period)
            if r.random() < same:
                step = 0
            if step and r.random() < off:
                a = r.randint(0, step)
                ops.append(["wait", a])
                ops.append(["w", 0x08, ch])
                ops.append(["wait", step - a])
            elif step:
                ops.append(["wait", step])
        return ops

    def growth(self, n, base_changes=0.0, again=0.2, wait=0.3):
        """A program that uses n different instruments, old ones again and again."""
        r = self.r
        ops, made = [], []
        first = r.randrange(1 << 16)
        while len(made) < n:
            if made and r.random() < again:
                i = r.choice((made[0], made[-1], r.choice(made)))
            else:
                i = first + len(made)
                made.append(i)
            ch = r.randrange(8)
            if r.random() < base_changes:
                ops.append(["w", r.choice((0x18, 0x19, 0x1B)), self.byte()])
            # three registers whose fields hold all of their bits: two of seven bits, one of four
            ops += [["w", 0x60 + ch, i & 127], ["w", 0x68 + ch, i >> 7 & 127], ["w", 0xE0 + ch, (i >> 14 & 15) << 4]]
            ops += [["w", 0x08, (0x78 if r.random() < 0.9 else 8 * r.randrange(1, 16)) | ch]]
            if r.random() < wait:
                ops.append(["wait", r.choice((0, 1, 735, r.randrange(3000)))])
            if r.random() < 0.1:
                ops.append(["w", 0x08, r.randrange(8)])
        return ops

    def context(self, tpn=None, patterns=300, cost=1.0):
        """A past that takes the chip somewhere songs seldom are, without which the rest would look ordinary:
        late in time (with tpn: that many rows), behind many instruments, events or writes."""
        r = self.r
        ops = []
        kinds = r.sample(("late", "insts", "events", "writes", "voices"), r.choice((1, 1, 2, 2, 3)))
        if "insts" in kinds:
            ops += self.growth(self.edge(100, int(600 * cost)) if r.random() < 0.7 else r.choice((250, 255, 256, 257, 300)),
                               base_changes=r.choice((0, 0.01)), wait=0)
        if "events" in kinds:
            ch = r.choice((None, 0, 7, r.randrange(8)))
            step = r.choice((0, 0, 1, tpn or 735)) if tpn is None or tpn < 10000 else 0
            for _ in range(self.edge(100, int(3000 * cost)) if step != tpn else self.edge(64, 600)):
                ops.append(["w", 8, r.choice((0x78, 0x78, 0)) | (r.randrange(8) if ch is None else ch)])
                if step:
                    ops.append(["wait", step])
        if "voices" in kinds:
            for ch in range(8):
                ops += self.patch_writes(ch)
                if r.random() < 0.5:
                    ops.append(["w", 8, 0x78 | ch])
        if "writes" in kinds:
            for _ in range(self.edge(100, int(5000 * cost))):
                ops.append(["w", r.choice([x for x in range(256) if x != 8]) if r.random() < 0.3 else r.choice(SOUND_REGS), self.byte()])
        if "late" in kinds:
            if r.random() < 0.5:
                ops.append(["w", 8, 0x78 | r.randrange(8)])
            if tpn is None:
                n = r.choice((1 << 16, 1 << 20, 1 << 24, 1 << 26, 1 << 27, (1 << 31) - 50, 1 << 31, (1 << 32) - 50, 1 << 32,
                              self.edge(1, 1 << 34)))
            else:
                n = self.edge(1, patterns) * 64 * tpn + r.choice((0, 0, -1, 1, r.randrange(64 * tpn)))
            ops.append(["wait", max(0, n)])
        return ops

    def body(self, ops, foreign=0.15, end=True, tail=b""):
        """The bytes of a program, waits encoded at random, other chips' commands sprinkled in."""
        r = self.r
        out = bytearray()
        for op in ops:
            if foreign and r.random() < foreign:
                out += self.foreign()
            if op[0] == "wait":
                out += self.wait_bytes(op[1])
            else:
                out += model.op_bytes(op)
        if foreign and r.random() < foreign:
            out += self.foreign()
        return bytes(out) + (b"\x66" if end else b"") + tail
