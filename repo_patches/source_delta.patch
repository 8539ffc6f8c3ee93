From 2a8f71769aa38c65d5eae4547bc721a1fb3cbada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 01/16] fix: record key events at sample 0

The first beat was tested by truth, so a song keyed on at sample 0 lost
every event at that sample.
---
 src/vgm/ym2151/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index b4e51e8..1da15b7 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -65,10 +65,10 @@ class State:
                 else:
                     config_id = -1
 
-            if op and not self._first_beat:
+            if op and self._first_beat is None:
                 self._first_beat = self._samples
 
-            if self._first_beat:
+            if self._first_beat is not None:
                 note = Note(config_id, self._note_configs[ch], self._samples)
                 self._channel_key_presses[cmd.value & 0x7].append(note)
             if config_id >= 0:
-- 
2.43.0


From 75a3e828102607dad39e5684c281d4539d69c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 02/16] fix: keep all five bits of the second decay rate

D2R of registers C0-DF is D4-D0 on the YM2151, like AR and D1R.
---
 src/vgm/ym2151/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index 1da15b7..342d354 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -141,7 +141,7 @@ class State:
                 cmd.value >> 6
             ) & 0x03
             self._channel_configs[channel].operators[operator].second_decay_rate = (
-                cmd.value & 0x0F
+                cmd.value & 0x1F
             )
         elif cmd.reg & 0xE0 == 0xE0:
             self._channel_configs[channel].operators[operator].first_decay_level = (
-- 
2.43.0


From eeea9a9d882822515ae1f9fac635c7e5398f2e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 03/16] fix: keep the clocks of each open VGM apart

They were in one dict shared by every reader, so opening a second file
changed the clocks of the first.
---
 src/vgm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 1f9e365..84de712 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -44,10 +44,10 @@ def _read_bcd(file: Union[BinaryIO, gzip.GzipFile]) -> int:
 
 class Vgm:
     data_start = 0x40
-    clocks: Dict[str, int] = {}
 
     def __init__(self, f: Union[BinaryIO, gzip.GzipFile]):
         self.file = f
+        self.clocks: Dict[str, int] = {}
         self.eof_offset = _read32(self.file)
         self.version = _read_bcd(self.file)
         _read32(self.file)
-- 
2.43.0


From 050d71f825f78808d1d4efd97ee260034a6351c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 04/16] fix: count the wait in DAC write commands 80-8F

8n writes a DAC sample and then waits n samples; the wait was dropped, so
everything after it was stamped too early.
---
 src/vgm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 84de712..20e3908 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -88,7 +88,6 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         or (cmd_id == 0x60)
         or (0x64 <= cmd_id <= 0x65)
         or (0x69 <= cmd_id < 0x70)
-        or (0x80 <= cmd_id < 0x90)
         or (0x96 <= cmd_id < 0xA0)
     ):
         return VgmCommand(cmd_id)
@@ -132,6 +131,9 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         return VgmCommand(cmd_id, f.read(ss))
     elif cmd_id < 0x80:
         return WaitCommand(cmd_id)
+    elif cmd_id < 0x90:
+        # YM2612 DAC write, followed by a wait of n samples
+        return WaitCommand(cmd_id, cmd_id & 0x0F)
     elif cmd_id < 0x92:
         return VgmCommand(cmd_id, f.read(4))
     elif cmd_id == 0x92:
-- 
2.43.0


From 4c8c36ce23953ff205d2a8fb05cb0ef1519c0814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 05/16] fix: stop at the end of sound data

Whatever follows it, such as a GD3 tag, was decoded as commands: text
became waits and register writes, or ended the run with struct.error.
---
 src/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.py b/src/main.py
index 4c01507..f400adf 100644
--- a/src/main.py
+++ b/src/main.py
@@ -16,6 +16,8 @@ def process_vgm_file(cmds):
             st.apply(cmd)
         elif isinstance(cmd, vgm.core.WaitCommand):
             st.beat(cmd.samples)
+        elif isinstance(cmd, vgm.core.EOSCommand):
+            break
 
     return st
 
@@ -31,6 +33,8 @@ def main(
         cmds = vgm.core.reader(f)
 
         s = process_vgm_file(cmds)
+        # Drain what follows the end of the music, so gzip verifies its checksum
+        cmds.file.read()
 
         if not ticks_per_note:
             print("Calculating Ticks Per Note", end="")
-- 
2.43.0


From 35e65edfd83d0c480faccb733f8740e4a39d68e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 06/16] fix: do not lose a BPM to float rounding

1500 ticks per note is 441 BPM, but came out as int(440.99...).
---
 src/extractors.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/extractors.py b/src/extractors.py
index 42c2d1e..4133786 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -20,10 +20,8 @@ def extract_tracks_to_xrns(s: State, track_filename, ticks_per_note):
     notes_per_beat = 4
     line_count = 64
 
-    note_length = ticks_per_note / sample_freq
-    beat_length = note_length * notes_per_beat
-    bpm = 60 / beat_length
-    song.globals.beats_per_min = int(bpm)
+    bpm = 60 * sample_freq // (ticks_per_note * notes_per_beat)
+    song.globals.beats_per_min = bpm
 
     for ch in range(channel_count):
         for n in s.key_presses(ch):
-- 
2.43.0


From e41382c98750200cda1c4bde74abc6fce0fadcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 07/16] fix: write the last row of the track table

A row was only written once an event of a later row came up, so the last
one, and all of a one-row song, was missing.
---
 src/extractors.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/extractors.py b/src/extractors.py
index 4133786..8dd973a 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -110,6 +110,16 @@ def extract_tracks(s, track_filename, ticks_per_note):
                     except StopIteration:
                         del channel_notes[ch]
 
+        if any(note_row):
+            row = [
+                str(current_sample),
+                str(total_row % line_count),
+                str(total_row // line_count),
+                str(total_row),
+                "{:.2}".format((current_sample / ticks_per_note) % 1),
+            ] + note_row
+            fo.write(f'{",".join(row)}\n')
+
 
 def extract_instruments(instr_filename, s):
     print(f"Writing instruments to {instr_filename}...")
-- 
2.43.0


From f9e08faefbfb812b93c344b5c21bb57e11807109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 08/16] fix: read binary input from standard input

Opening - for binary reading gave the text stream, on which every VGM
file failed.
---
 src/tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools.py b/src/tools.py
index 37c2f18..342fbbf 100644
--- a/src/tools.py
+++ b/src/tools.py
@@ -1,4 +1,5 @@
 import contextlib
+import io
 import sys
 
 
@@ -9,7 +10,8 @@ def smart_open(filename: str, mode: str):
     elif mode.startswith("w"):
         fh = sys.stdout
     elif mode.startswith("r"):
-        fh = sys.stdin
+        # The VGM reader seeks, which a pipe cannot
+        fh = io.BytesIO(sys.stdin.buffer.read()) if "b" in mode else sys.stdin
     else:
         raise Exception("Unknown mode")
 
-- 
2.43.0


From 1d11e6f54e55404f45fa50d1fa41868d2f66854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 09/16] fix: estimate ticks per note from the first beat on

The window was counted from sample 0, so after 0.7 s of silence it held no
beat and the estimate was 1000 for every song.
---
 src/vgm/ym2151/state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index 342d354..f749a18 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -172,7 +172,8 @@ class State:
         multiplier = 4
         top_ticks = off_end * multiplier
 
-        ticks = [t for t in self.ticks() if t < top_ticks]
+        ticks = self.ticks()
+        ticks = [t for t in ticks if t - ticks[0] < top_ticks]
         progress = 0
 
         for shift in range(off_start, off_end):
-- 
2.43.0


From 0b2b95c1016c3cc86e7abecfdadd6efd4013417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 10/16] fix: pan one-sided notes to their own side

Renoise panning runs from 00 (left) over 40 (center) to 80 (right); notes
on the right output only were exported as 00 and left ones as F0.
---
 src/extractors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extractors.py b/src/extractors.py
index 8dd973a..35d253a 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -35,9 +35,9 @@ def extract_tracks_to_xrns(s: State, track_filename, ticks_per_note):
             pan = None
             if not n.right or not n.left:
                 if n.right:
-                    pan = "00"
+                    pan = "80"
                 else:
-                    pan = "F0"
+                    pan = "00"
 
             song.pattern_pool.add_note(pattern, ch, row, n.xrns_note(), instr, pan)
 
-- 
2.43.0


From 7c6563154405986bc8ed7c7193dcffb6abafbc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 11/16] fix: a data block for a second chip no longer swallows
 the rest of the stream

The format uses bit 31 of a data block's size to address the second of two
chips; it was taken as part of the size, so that such a block was read to the
end of the file.
---
 src/vgm/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 20e3908..0a1904e 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -120,6 +120,8 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         (tt, ss) = struct.unpack("<xBI", buffer)
         _ = tt
         _ = ss
+        # The top bit of the size says that the block is for a second chip
+        ss &= 0x7FFFFFFF
         return VgmCommand(cmd_id, f.read(ss))
     elif cmd_id == 0x68:
         buffer = f.read(11)
-- 
2.43.0


From 1502c34e834a207d8a1d68796001aa856f5add56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:27 +0000
Subject: [PATCH 12/16] fix: a file name standard output cannot encode no
 longer stops the run

---
 src/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.py b/src/main.py
index f400adf..23ea31e 100644
--- a/src/main.py
+++ b/src/main.py
@@ -1,4 +1,5 @@
 import argparse
+import sys
 
 # Press the green button in the gutter to run the script.
 
@@ -66,6 +67,10 @@ if __name__ == "__main__":
 
     args = parser.parse_args()
 
+    # The file names printed may be ones that standard output cannot encode
+    if hasattr(sys.stdout, "reconfigure"):
+        sys.stdout.reconfigure(errors="backslashreplace")
+
     main(args.file, args.instrument, args.track, args.ticks_per_note)
 
 # See PyCharm help at https://www.jetbrains.com/help/pycharm/
-- 
2.43.0


From 301638a799aeebd148e0478fefdca1b33507aa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 13/16] fix: write the pattern length of a song model

---
 src/xrns/xrns_serializer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xrns/xrns_serializer.py b/src/xrns/xrns_serializer.py
index 1fe8a77..9cfff80 100644
--- a/src/xrns/xrns_serializer.py
+++ b/src/xrns/xrns_serializer.py
@@ -166,6 +166,7 @@ class XrnsSerializer:
 
     def _render_pattern(self, pattern: Pattern) -> dao.Pattern:
         return dao.Pattern(
+            number_of_lines=pattern.lines_per_track,
             tracks=dao.Pattern.Tracks(
                 pattern_track=[
                     self._render_pattern_track(track) for track in pattern.tracks
-- 
2.43.0


From e2badb93857a98a487a071fa7c1b6037049e414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 14/16] fix: read songs from named pipes, which cannot seek

---
 src/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools.py b/src/tools.py
index 342fbbf..a6804b9 100644
--- a/src/tools.py
+++ b/src/tools.py
@@ -7,6 +7,10 @@ import sys
 def smart_open(filename: str, mode: str):
     if filename and filename != "-":
         fh = open(filename, mode)
+        if mode == "rb" and not fh.seekable():
+            # Nor can a pipe that has a name
+            with fh as pipe:
+                fh = io.BytesIO(pipe.read())
     elif mode.startswith("w"):
         fh = sys.stdout
     elif mode.startswith("r"):
-- 
2.43.0


From 747854b13bed62f0f8ca1ea65fc401b5cefbd744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:00 +0000
Subject: [PATCH 15/16] fix: refuse negative ticks per note instead of writing
 a song that runs backwards

---
 src/main.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main.py b/src/main.py
index 23ea31e..687a299 100644
--- a/src/main.py
+++ b/src/main.py
@@ -23,6 +23,13 @@ def process_vgm_file(cmds):
     return st
 
 
+def ticks(text: str):
+    value = int(text)
+    if value < 0:
+        raise argparse.ArgumentTypeError(f"{value} is negative")
+    return value
+
+
 def main(
     vgm_filename: str,
     instr_filename: str,
@@ -61,7 +68,7 @@ if __name__ == "__main__":
     parser.add_argument(
         "-tn",
         "--ticks-per-note",
-        type=int,
+        type=ticks,
         help="Specify Ticks per Note instead of calculating it.",
     )
 
-- 
2.43.0


From e59990a89d44e121dce652e3756ba6ded2c4d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:21 +0000
Subject: [PATCH 16/16] fix: report a file that ends inside its header

A seek past the end of a file does not fail, so a file cut in the header
behind the fields that are read, or in the gap before the data, was taken
for a song without any command, and empty outputs were written for it.
---
 src/vgm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 0a1904e..0aed15b 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -60,7 +60,9 @@ class Vgm:
         if self.version >= 150:
             self.data_start = 0x34 + _read32(self.file)
 
-        self.file.seek(self.data_start, io.SEEK_SET)
+        # Up to its last byte, for a seek alone does not tell where the file ends
+        self.file.seek(self.data_start - 1, io.SEEK_SET)
+        _read8(self.file)
         return
 
     def size(self) -> int:
-- 
2.43.0

