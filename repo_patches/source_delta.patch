From 10142706b251d73359b5548fe7441a0756ffdc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 01/74] fix: clamp note denominator to a power of two

---
 neural_graph_composer/midi/midi_note.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 24fd7ac..d432f3d 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -162,7 +162,8 @@ class MidiNote(MidiEvent):
         # denominator is a negative power of two
         # 2 represents a quarter-note,
         # 3 represents an eighth-note
-        self.denominator: int = max(min(denominator, 255), 1)
+        # largest power of two that fits, 256 and above would clamp to 255 otherwise
+        self.denominator: int = max(min(denominator, 128), 1)
 
         # if given note is drum on and off
         self._is_drum = is_drum
-- 
2.43.0


From 138b2bebdcd81aaac89afcf2a3f8935e03adb23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 02/74] fix: keep pitch name in step when the pitch of a note
 is changed

---
 neural_graph_composer/midi/midi_note.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index d432f3d..861f3a1 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -587,6 +587,7 @@ class MidiNote(MidiEvent):
     def pitch(self, value):
         assert 0 <= value <= 127, f"Pitch value {value} is outside valid MIDI range (0-127)"
         self._pitch = value
+        self.pitch_name = librosa.midi_to_note(value)
 
     @property
     def program(self):
-- 
2.43.0


From d391ef034bbee86602f4df66e41cfc7caec76e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 03/74] fix: re-quantising a note keeps its duration in whole
 steps

---
 neural_graph_composer/midi/midi_note.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 861f3a1..135d45b 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -468,8 +468,8 @@ class MidiNote(MidiEvent):
 
         # if already quantized , re-compute and update quantized_start_step and end step
         if self.is_quantized():
-            # Calculate duration based on new quantized steps
-            old_duration = np.divide(quantized_end_step - quantized_start_step, sps)
+            # duration in steps, based on new quantized steps
+            old_duration = quantized_end_step - quantized_start_step
             logging.debug(f"old duration case on {old_duration}")
             # duration_before_shift = (self.end_time - self.start_time) / sps
             self.quantized_start_step = max(0, quantized_start_step)
-- 
2.43.0


From aaf6ee97ecf78fee1a1754bf029c8b414b3d44e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 04/74] fix: slice of a sequence keeps the clipped copy of a
 note, not the original

---
 neural_graph_composer/midi/midi_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index d4b067f..8d32c57 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -579,7 +579,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
             new_note = copy.deepcopy(note)
             new_note.end_time = min(note.end_time, end)
-            new_midi_seq.add_note(note)
+            new_midi_seq.add_note(new_note)
 
         # update total time based on
         new_midi_seq.total_time = min(self.total_time, end)
-- 
2.43.0


From fbd4eee98a4403298989988552be08f7f43706be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 05/74] fix: clone of a sequence keeps drum events, program and
 tempo signatures

---
 neural_graph_composer/midi/midi_sequence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 8d32c57..5644fab 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -667,6 +667,9 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """Return a clone of this object """
         cloned = MidiNoteSequence()
         cloned._notes = copy.deepcopy(self._notes)
+        cloned._drum_events = copy.deepcopy(self._drum_events)
+        cloned.tempo_signature = copy.deepcopy(self.tempo_signature)
+        cloned.program = self.program
         cloned.control_changes = copy.deepcopy(self.control_changes)
         cloned.pitch_bends = copy.deepcopy(self.pitch_bends)
         cloned.total_time = self.total_time
-- 
2.43.0


From 68f17b041edf524644d6e50930c87875392e492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 06/74] fix: adding two sequences compares note instrument
 numbers with the instrument number

---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 5644fab..c9254e4 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -215,8 +215,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             raise ValueError("Instrument must be the same for both MidiNoteSequences.")
 
         # all notes in both sequences have the same instrument
-        if any(note.instrument != self.instrument for note in self.notes) \
-                or any(note.instrument != other.instrument for note in other.notes):
+        if any(note.instrument != self.instrument.instrument_num for note in self.notes) \
+                or any(note.instrument != other.instrument.instrument_num for note in other.notes):
             raise ValueError("All notes in both sequences must have the same instrument")
 
         midi_seq = MidiNoteSequence(instrument=self.instrument)
-- 
2.43.0


From d11804202682702678b1a407a4edcffed3c77fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 07/74] fix: total quantized steps counts the quantised notes

---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index c9254e4..8f381e3 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -614,8 +614,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             quantized_note = note.quantize(sps=sps, amount=amount)
             new_notes.append(quantized_note)
             # update total_quantized_steps
-            if note.quantized_end_step > self.__total_quantized_steps:
-                self.__total_quantized_steps = note.quantized_end_step
+            if quantized_note.quantized_end_step > self.__total_quantized_steps:
+                self.__total_quantized_steps = quantized_note.quantized_end_step
 
         new_control_changes = []
         #  quantize control changes and text annotations.
-- 
2.43.0


From 5c5badf7ab613ca152e5cfa15605ca5214a19218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 08/74] fix: appending an empty list of notes leaves the
 sequence as it is

---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 8f381e3..3744a08 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -324,7 +324,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             self.total_time = max(self.total_time, note.end_time)
         elif isinstance(note, list):
             self.notes.extend(note)
-            max_end_time = max(note, key=lambda n: n.end_time).end_time
+            max_end_time = max((n.end_time for n in note), default=self.total_time)
             self.total_time = max(self.total_time, max_end_time)
         else:
             raise TypeError("note must be a MidiNote object or a list of MidiNote objects")
@@ -339,7 +339,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             self.total_time = max(self.total_time, notes.end_time)
         elif isinstance(notes, list):
             self.notes.extend(notes)
-            max_end_time = max(notes, key=lambda n: n.end_time).end_time
+            max_end_time = max((n.end_time for n in notes), default=self.total_time)
             self.total_time = max(self.total_time, max_end_time)
         else:
             raise TypeError("notes must be a MidiNote object or a list of MidiNote objects")
-- 
2.43.0


From f2359059789661755da75588699e92af6c33a901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 09/74] fix: cut of a sequence ends at the latest note kept and
 allows zero notes

---
 neural_graph_composer/midi/midi_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 3744a08..91bf0e8 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -785,7 +785,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """
         truncated_notes = self.notes[:cut_size]
         truncated_seq = MidiNoteSequence(instrument=self.instrument, notes=truncated_notes)
-        truncated_seq.total_time = min(self.total_time, truncated_notes[-1].end_time)
+        truncated_seq.total_time = max([n.end_time for n in truncated_notes], default=0.0)
         return truncated_seq
 
     def to_midi_file(self, file_path: str, callback=save_midi_callback) -> None:
-- 
2.43.0


From b968d9efa35511aa4446eb0ddd0cc12141256c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 10/74] fix: sequence keeps the drum events it is created with

---
 neural_graph_composer/midi/midi_sequence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 91bf0e8..53f26d8 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -113,6 +113,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
         self._notes = [] if notes is None else [n for n in notes if not self.instrument.is_drum]
         self._drum_events = [] if notes is None else [n for n in notes if self.instrument.is_drum]
+        if drum_events is not None:
+            self._drum_events.extend(drum_events)
         # midi seq total time
         self.__total_time = max([n.end_time for n in self.notes], default=0.0)
 
-- 
2.43.0


From 0df908b58b53128d3e8eef1bf002ad35a44c5804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 11/74] fix: do not cache values that change when the sequence
 is edited

---
 neural_graph_composer/midi/midi_sequence.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 53f26d8..f3cb5b7 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -20,7 +20,6 @@ import copy
 import itertools
 import logging
 import math
-from functools import cache
 from typing import Optional, List, Any, Union
 
 import numpy as np
@@ -640,7 +639,6 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """
         self._quantize(sps, amount)
 
-    @cache
     def initial_tempo(self) -> float:
         """Initial temp for this seq.
         :return:
@@ -652,7 +650,6 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             if seq_tempo.midi_time == 0:
                 return seq_tempo.midi_time
 
-    @cache
     def truncate_to_last_event(self, offset: float) -> Optional[float]:
         """Truncates the sequence so that all notes end before
         `total_time + offset`.
-- 
2.43.0


From 98fa6deb71a77c0cda31d9f967abb1fa83036b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 12/74] fix: extract and split put every note of a window in
 its subsequence

---
 neural_graph_composer/midi/midi_sequence.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index f3cb5b7..0d7c015 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -460,10 +460,10 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
                 if note.end_time > split_point:
                     notes_in_span.append(note)
 
-                # append split point to intervals if it's not on a boundary
-                # or if there are no notes in the current span
-                if not (skip_boundary and notes_in_span):
-                    intervals.append(split_point)
+            # append split point to intervals if it's not on a boundary
+            # or if there are no notes in the current span
+            if not (skip_boundary and notes_in_span):
+                intervals.append(split_point)
 
         return intervals
 
@@ -496,7 +496,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         if len(intervals) <= 1:
             return []
 
-        return MidiNoteSequence.extract_notes(intervals)
+        return self.extract(intervals)
 
     def shift_times(self, offset: float) -> None:
         """In place shifts the start and end times by offset
@@ -545,9 +545,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             sub_seq.notes.append(copy.deepcopy(note))
             sub_seq.notes[-1].start_time -= split_times[sbs]
             sub_seq.notes[-1].end_time = min(note.end_time, split_times[sbs + 1]) - split_times[sbs]
-            sub_seq.notes[-1].end_time = min(sub_seq.notes[-1].end_time,
-                                             sub_seq.total_time + sub_seq.notes[-1].start_time)
-            sub_seq.total_time = sub_seq.notes[-1].end_time + sub_seq.notes[-1].start_time
+            sub_seq.total_time = max(sub_seq.total_time, sub_seq.notes[-1].end_time)
 
         return sub_sequences
 
-- 
2.43.0


From 2e9d974d3addd0e2ed00bb1a3624b16ee8634d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 13/74] fix: quantising a control change sets its steps

---
 .../midi/midi_control_change.py                  | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index d909fb6..83ead8a 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -338,17 +338,11 @@ class MidiControlChange(MidiBaseControlChange):
         :param amount:  quantization amount.
         :return:
         """
-        self.quantized_start_step = self.quantize_to_nearest_step(
-            self.cc_time, sps, amount=amount)
-        self.quantized_end_step = self.quantize_to_nearest_step(
-            self.cc_time, sps, amount=amount)
-
-        self.quantized_start_step = max(self.quantized_start_step, 0)
-        assert (self.quantized_start_step >= 0)
-        assert (self.quantized_end_step >= 0)
-
-        if self.quantized_end_step == self.quantized_start_step:
-            self.quantized_end_step += 1
+        step = max(self.quantize_to_nearest_step(self.cc_time, sps, amount=amount), 0)
+        # both at once: the setters compare with the previous value of the other end
+        self._quantized_start_step = step
+        self._quantized_end_step = step + 1
+        self._is_quantized = True
 
         self.quantized_step = sps
 
-- 
2.43.0


From b0c23aeea86fddda0cecdc56eb72d26a4991a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 14/74] fix: copy of a control change keeps drum flag,
 quantization step and order

---
 neural_graph_composer/midi/midi_control_change.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index 83ead8a..a51223c 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -378,18 +378,22 @@ class MidiControlChange(MidiBaseControlChange):
                                    Defaults to `None`, which uses the current quantized end step.
         :return: a new instance of the `MidiNote` class that is a copy of the current instance.
         """
-        return MidiControlChange(
+        copied = MidiControlChange(
             self.cc_number,
             cc_value=self.cc_value,
             cc_time=cc_time
             if cc_time is not None else self.cc_time,
             program=self.program,
             instrument=self.instrument,
+            is_drum=self.is_drum,
+            quantized_step=self.quantized_step,
             quantized_start_step=quantized_start_step
             if quantized_start_step is not None else self.quantized_start_step,
             quantized_end_step=quantized_end_step
             if quantized_end_step is not None else self.quantized_end_step,
         )
+        copied.seq = self.seq
+        return copied
 
     def shift_time(self, time: float) -> None:
         """Shift time
-- 
2.43.0


From d508826455d6155b28427ac5ccca080e16dddc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 15/74] fix: accept the lowest pitch bend value -8192

---
 neural_graph_composer/midi/midi_pitch_bend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_pitch_bend.py b/neural_graph_composer/midi/midi_pitch_bend.py
index f66428f..c16f8d9 100644
--- a/neural_graph_composer/midi/midi_pitch_bend.py
+++ b/neural_graph_composer/midi/midi_pitch_bend.py
@@ -23,14 +23,14 @@ class MidiPitchBend(MidiEvent):
         and bounded to particular instrument , track.
 
         MIDI Pitch Bend event. Is drum if event in drum channel
-        :param amount is amount of pitch bend. Based on MIDI it values between -8191 and 8191
+        :param amount is amount of pitch bend. Based on MIDI it values between -8192 and 8191
         :param program: midi program , default 0
         :param instrument:  midi instrument default 0
         :param midi_time: time of event.  time of event
         :param is_drum: default False
         """
-        if not (-8191 <= amount <= 8191):
-            raise ValueError("amount must be between -8191 and 8191")
+        if not (-8192 <= amount <= 8191):
+            raise ValueError("amount must be between -8192 and 8191")
         self.amount: int = amount
 
         if not (0 <= program <= 127):
@@ -58,7 +58,7 @@ class MidiPitchBend(MidiEvent):
         else:
             self.__midi_time: Optional[Union[float, np.ndarray]] = None
 
-        self.__amount: int = min(max(-8191, amount), 8191)
+        self.__amount: int = min(max(-8192, amount), 8191)
         self.__program: int = min(max(0, program), 255)
         self.__instrument: int = min(max(0, instrument), 255)
         self.__midi_time: Union[float, np.ndarray] = np.clip(midi_time, 0, np.inf) if midi_time is not None else 0.0
-- 
2.43.0


From e1d03cc4134e4a843bdfdd9d28c653663b92e55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 16/74] fix: signatures at the same time keep the order they
 were added

---
 neural_graph_composer/midi/midi_sequences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index a8e9029..44c3abb 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -352,7 +352,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding time signature {v}")
 
-        v.seq = self.time_signatures[-1].seq + 1
+        v.seq = max((s.seq for s in self.time_signatures), default=0) + 1
 
         # replace default
         if len(self.time_signatures) >= 1 and self.is_close_to_zero(
@@ -374,7 +374,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding key signature {v}")
 
-        v.seq = self.key_signatures[-1].seq + 1
+        v.seq = max((s.seq for s in self.key_signatures), default=0) + 1
 
         # replace default
         if len(self.key_signatures) >= 1 and self.is_close_to_zero(
@@ -404,7 +404,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding tempo a signature {v}")
 
-        v.seq = self.tempo_signatures[-1].seq + 1
+        v.seq = max((s.seq for s in self.tempo_signatures), default=0) + 1
 
         if len(self.tempo_signatures) >= 1 and self.is_close_to_zero(
                 self.tempo_signatures[0].midi_time, v.midi_time):
-- 
2.43.0


From dcad7e16fe90a87ab36bf2d7dac05f26b3c1b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 17/74] fix: signature lookup returns the change in force at
 the given time

---
 neural_graph_composer/midi/midi_sequences.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 44c3abb..e69487c 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -575,13 +575,15 @@ class MidiNoteSequences:
         """
         # inc ase start time negative
         if start_time < 0:
-            return DEFAULT_PPQ, DEFAULT_QPM
+            return 4, 4
 
         # default assumed signature
         if self.time_signatures is None or len(self.time_signatures) == 0:
             return 4, 4
 
-        i = bisect_right(self.time_signatures, MidiTimeSignature(midi_time=start_time)) - 1
+        i = bisect_right(self.time_signatures, start_time, key=lambda s: s.midi_time) - 1
+        if i < 0:
+            return 4, 4
         return self.time_signatures[i].numerator, self.time_signatures[i].denominator
 
     @cache
@@ -593,12 +595,14 @@ class MidiNoteSequences:
         """
         # inc ase start time negative
         if start_time < 0:
-            return DEFAULT_PPQ, DEFAULT_QPM
+            return DEFAULT_QPM, DEFAULT_PPQ
 
-        if self.tempo_signature is None or len(self.tempo_signatures) == 0:
-            return DEFAULT_PPQ, DEFAULT_QPM
+        if self.tempo_signatures is None or len(self.tempo_signatures) == 0:
+            return DEFAULT_QPM, DEFAULT_PPQ
 
-        i = bisect_right(self.tempo_signatures, MidiTempoSignature(midi_time=start_time)) - 1
+        i = bisect_right(self.tempo_signatures, start_time, key=lambda s: s.midi_time) - 1
+        if i < 0:
+            return DEFAULT_QPM, DEFAULT_PPQ
         return int(self.tempo_signatures[i].qpm), self.tempo_signatures[i].resolution
 
     @cache
@@ -609,7 +613,9 @@ class MidiNoteSequences:
         """
         if self.key_signatures is None or len(self.key_signatures) == 0:
             return 0, 0
-        i = bisect_right(self.key_signatures, MidiKeySignature(midi_time=start_time)) - 1
+        i = bisect_right(self.key_signatures, start_time, key=lambda s: s.midi_time) - 1
+        if i < 0:
+            return 0, 0
         return self.key_signatures[i].mode, self.key_signatures[i].midi_key
 
     @property
-- 
2.43.0


From fb0b3fc8d9fe56de2770b27bc92dbafb4619159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 18/74] fix: initial tempo follows added tempo signatures

---
 neural_graph_composer/midi/midi_sequences.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index e69487c..11148ef 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -306,7 +306,6 @@ class MidiNoteSequences:
                            self.__midi_tracks.values())) if self.__midi_tracks is not None else 0
         return 0
 
-    @cache
     def initial_tempo(self):
         """Return the initial tempo of the MIDI sequence, defined as the tempo
         signature with the earliest MIDI time. If there are no tempo signatures
-- 
2.43.0


From 8b8dbe4791b484d95eac5e94fa7c9b00f64f07d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 19/74] fix: slice of tempo signatures skips the initial tempo
 and respects a zero bound

---
 neural_graph_composer/midi/midi_sequences.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 11148ef..b883f7a 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -474,10 +474,12 @@ class MidiNoteSequences:
         if sort_first:
             _tempo_signatures = sorted(self.tempo_signatures, key=lambda x: x.midi_time)
         else:
-            _tempo_signature = self.tempo_signature
+            _tempo_signatures = self.tempo_signatures
 
-        for sig in self.tempo_signatures:
-            if sig == self.initial_tempo or upper_bound and sig.midi_time > upper_bound:
+        for sig in _tempo_signatures:
+            if sig.midi_time == 0.0 and sig.qpm == self.initial_tempo():
+                continue
+            if upper_bound is not None and sig.midi_time > upper_bound:
                 continue
             yield sig
 
-- 
2.43.0


From 06ecbbca5818ed35858585d2595d7c1796a5004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 20/74] fix: is_quantized asks each sequence

---
 neural_graph_composer/midi/midi_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index b883f7a..c7a77f7 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -487,7 +487,7 @@ class MidiNoteSequences:
         """Return true if all midi sequence for each instrument quantized
         :return:
         """
-        return all(n.is_quantized for n in self.__midi_seqs.values())
+        return all(n.is_quantized() for n in self.__midi_seqs.values())
 
     def get_all_sequence_events(self) -> List[MidiEvent]:
         """Return a list of all events in the sequence.
-- 
2.43.0


From bd5052947249622a4003236d1e884ce87e61a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 21/74] fix: a track is stored under its own index

---
 neural_graph_composer/midi/midi_sequences.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index c7a77f7..98b3404 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -211,7 +211,7 @@ class MidiNoteSequences:
             self._instrument_to_idx = {}
 
         if track_idx not in self._track_to_idx:
-            internal_idx = len(self.__midi_seqs)
+            internal_idx = track_idx
             instrument = MidiInstrumentInfo(
                 instrument=track_idx,
                 name=f"Instrument {0}",
@@ -250,6 +250,7 @@ class MidiNoteSequences:
             self.__midi_seqs[track_idx] = MidiNoteSequence.from_notes(notes=value)
         else:
             raise TypeError("value must be a MidiNoteSequence or a list of MidiNotes")
+        self._track_to_idx[track_idx] = track_idx
 
     def __len__(self) -> int:
         """Return len of midi_seq.
@@ -780,8 +781,9 @@ class MidiNoteSequences:
     def set_sequence(self, track_idx: int, sequence: Union[List[MidiNote], MidiNoteSequence]) -> None:
         """Set the MidiNoteSequence for the given track index."""
         if not isinstance(sequence, MidiNoteSequence):
-            sequence = MidiNoteSequence(resolution=self.resolution, is_debug=self.is_debug)
-            sequence.midi_notes = sequence.midi_notes + sequence
+            sequence = MidiNoteSequence(
+                notes=list(sequence), resolution=self.resolution, is_debug=self.is_debug)
 
         self.__midi_seqs[track_idx] = sequence
+        self._track_to_idx[track_idx] = track_idx
 
-- 
2.43.0


From e57777d762f37c923abdff08cd6a909d053f661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 22/74] fix: export computes the last event time without
 touching the sequence

---
 neural_graph_composer/midi_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index b471d36..64d46a2 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -329,7 +329,8 @@ class MidiReader(MidiBaseReader):
         :rtype CustomPrettyMIDI
         """
         ticks_per_quarter = sequence.resolution or DEFAULT_PPQ
-        max_event_time = sequence.truncate(to_end)
+        max_event_time = max(
+            (e.event_end_time for e in sequence.get_all_sequence_events()), default=0.0)
         initial_seq_tempo = sequence.initial_tempo()
 
         logging.debug(f"{initial_seq_tempo} {ticks_per_quarter} {max_event_time}")
-- 
2.43.0


From 1ef25f68e26836506d4471adbe33be462c85836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 23/74] fix: trim and truncate act on the tracks and accept an
 empty container

---
 neural_graph_composer/midi/midi_sequences.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 98b3404..20ac47a 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -514,7 +514,8 @@ class MidiNoteSequences:
         :return:
         """
         for k in self.__midi_seqs:
-            self.__midi_seqs[k].slice(initial_time, event_time)
+            seq = self.__midi_seqs[k]
+            seq.notes = seq.slice(initial_time, event_time).notes
 
     def truncate(self,
                  initial_time: Optional[float] = 0.0,
@@ -531,9 +532,10 @@ class MidiNoteSequences:
 
         if from_start is None:
             last_event_time = max(
-                [seq_event.event_end_time for seq_event in self.get_all_sequence_events()]
+                [seq_event.event_end_time for seq_event in self.get_all_sequence_events()],
+                default=0.0
             )
-            self.trim(initial_time, last_event_time)
+            self.trim(last_event_time, initial_time)
             return last_event_time
 
         last_event_time = None
@@ -544,8 +546,7 @@ class MidiNoteSequences:
                 break
 
         if last_event_time is not None:
-            for midi_seq in self.__midi_seqs:
-                midi_seq.trim(0.0, last_event_time)
+            self.trim(last_event_time)
 
         return last_event_time
 
-- 
2.43.0


From f70bb7937c8fc446c1f78b44fcf5c3bc1aade536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 24/74] fix: sorted dict keeps its key list in step with its
 content

---
 neural_graph_composer/midi/sorted_dict.py | 33 ++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/sorted_dict.py b/neural_graph_composer/midi/sorted_dict.py
index c6abd3d..97f7613 100644
--- a/neural_graph_composer/midi/sorted_dict.py
+++ b/neural_graph_composer/midi/sorted_dict.py
@@ -31,8 +31,8 @@ class SortedDict(collections.OrderedDict):
     """
 
     def __init__(self, *args, **kwargs):
+        self._keys = []
         super().__init__(*args, **kwargs)
-        self._keys = sorted(super().keys())
 
     def __setitem__(self, key, value):
         """Set the value of a key.
@@ -62,6 +62,37 @@ class SortedDict(collections.OrderedDict):
         super().__delitem__(key)
         self._keys.remove(key)
 
+    def pop(self, key, *default):
+        """Remove a key and return its value, or the default if the key is not present.
+        :param key: The key to remove
+        :param default: value returned if the key is not present
+        :return: The value of the key or default.
+        """
+        if key not in self:
+            if default:
+                return default[0]
+            raise KeyError(key)
+        value = self[key]
+        del self[key]
+        return value
+
+    def popitem(self, last=True):
+        """Remove and return the (key, value) pair of the largest key, smallest if last is False.
+        :param last: take the largest key.
+        :return: (key, value)
+        """
+        if not self._keys:
+            raise KeyError("dictionary is empty")
+        key = self._keys[-1 if last else 0]
+        return key, self.pop(key)
+
+    def clear(self):
+        """Remove all keys.
+        :return:
+        """
+        super().clear()
+        self._keys.clear()
+
     def keys(self):
         """Return an iterator over the keys sorted in ascending order.
         :return: A sorted iterator over the keys
-- 
2.43.0


From c09ab12d57ae2fb1181d058c251301af09f3ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 25/74] fix: deleting an interval from a sorted interval dict

---
 neural_graph_composer/midi/sorted_interval_dict.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/sorted_interval_dict.py b/neural_graph_composer/midi/sorted_interval_dict.py
index df88e6c..5573228 100644
--- a/neural_graph_composer/midi/sorted_interval_dict.py
+++ b/neural_graph_composer/midi/sorted_interval_dict.py
@@ -42,11 +42,7 @@ class SortedIntervalDict(collections.abc.MutableMapping):
         :return:
         """
         if isinstance(key, Interval):
-            for i, (k, v) in enumerate(self._items):
-                if k == key:
-                    del self._items[i]
-                    return
-            raise KeyError(key)
+            del self._dict[key]
         elif isinstance(key, slice):
             for k in list(self.keys())[key]:
                 del self[k]
-- 
2.43.0


From f352ec00bac8a50692bc2cc92e592d241021d361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 26/74] fix: scale notes for a root given as a number or in
 lower case

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 8f11539..5fa01c8 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -705,7 +705,7 @@ class MusicTheory:
         elif not (0 <= root <= 11):
             raise ValueError("root pitch parameter should be within the range [0, 11]")
 
-        root_idx = MusicTheory.note_names.index(root)
+        root_idx = MusicTheory.pitch_to_note_name[root.upper()] if isinstance(root, str) else root
         intervals = MusicTheory.intervals_from_scale(scale)
         sorted_intervals = sorted(intervals, key=lambda x: MusicTheory.intervals[x])
 
-- 
2.43.0


From 18afe6b7ea0d10fa60f292b71b0d4504fb0a6264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 27/74] fix: triad types of dorian, phrygian, lydian,
 mixolydian and locrian scales

---
 neural_graph_composer/midi/midi_scales.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 5fa01c8..c551543 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -349,12 +349,12 @@ class MusicTheory:
     chords = {
         ScaleType.MAJOR: ["M", "m", "m", "M", "M", "m", "dim"],
         ScaleType.MINOR: ["m", "dim", "M", "m", "m", "M", "M"],
-        ScaleType.DORIAN: ["M", "m", "m", "M", "M", "dim", "m"],
-        ScaleType.PHRYGIAN: ["m", "M", "dim", "m", "m", "M", "M"],
+        ScaleType.DORIAN: ["m", "m", "M", "M", "m", "dim", "M"],
+        ScaleType.PHRYGIAN: ["m", "M", "M", "m", "dim", "M", "m"],
         ScaleType.LYDIAN: ["M", "M", "m", "dim", "M", "m", "m"],
-        ScaleType.MIXOLYDIAN: ["M", "m", "dim", "m", "M", "m", "M"],
+        ScaleType.MIXOLYDIAN: ["M", "m", "dim", "M", "m", "m", "M"],
         ScaleType.AEOLIAN: ["m", "dim", "M", "m", "m", "M", "M"],
-        ScaleType.LOCRIAN: ["dim", "M", "m", "m", "dim", "M", "m"],
+        ScaleType.LOCRIAN: ["dim", "M", "m", "m", "M", "M", "m"],
         ScaleType.HARMONIC_MINOR: ["m", "dim", "aug", "m", "M", "M", "dim"],
         ScaleType.MELODIC_MINOR: ["m", "m", "aug", "M", "M", "dim", "dim"]
     }
-- 
2.43.0


From ba7965c4dc094065a95585d433e9488e7dc576ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 28/74] fix: chord pitches accept minor and compound interval
 names

---
 neural_graph_composer/midi/midi_scales.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index c551543..43bca57 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -615,8 +615,8 @@ class MusicTheory:
         for i, interval in enumerate(interval_chord):
             # if caller pass string we convert to Enum
             if isinstance(interval, str):
-                interval = Interval[interval.upper()]
-            interval_pitch = MusicTheory.intervals[interval]
+                interval = Interval[interval if interval in Interval.__members__ else interval.upper()]
+            interval_pitch = interval.value
             chord_pitch = (root + interval_pitch) % 12
             _chord_pitches.append(chord_pitch)
         return _chord_pitches
-- 
2.43.0


From 8e485522b89682e77a26842026bc26639224eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 29/74] fix: diminished seventh is nine semitones

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 43bca57..08358fb 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -194,7 +194,7 @@ class Interval(Enum):
     A4 = 6
     # d5 diminished fifth
     d5 = 6
-    d7 = 10
+    d7 = 9
 
     def bases(self):
         """the base intervals that make up the compound interval.
-- 
2.43.0


From 2c09483332e79eae3577da6090a0389257116b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 30/74] fix: augmented seventh chord has an augmented fifth

---
 neural_graph_composer/midi/midi_scales.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 08358fb..637fa79 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -90,7 +90,7 @@ class ChordIntervals(Enum):
     MinorSeven = [3, 4, 3]
     HalfDiminishedSeven = [3, 3, 4]
     DiminishedSeven = [3, 3, 3]
-    AugmentedSeven = [4, 3, 4]
+    AugmentedSeven = [4, 4, 2]
     Sixth = [4, 3, 2]
     MinorSixth = [3, 4, 2]
     Ninth = [4, 3, 3, 4]
@@ -451,7 +451,7 @@ class MusicTheory:
         "m7": [3, 4, 3],
         "m7b5": [3, 3, 4],
         "dim7": [3, 3, 3],
-        "aug7": [4, 3, 4],
+        "aug7": [4, 4, 2],
         "6": [4, 3, 2],
         "m6": [3, 4, 2],
         "9": [4, 3, 3, 4],
-- 
2.43.0


From 5ac89feb1f871d3a823e274bf48f22c0f7e2405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 31/74] fix: groups of notes are ordered by their time

---
 neural_graph_composer/midi_graph_builder.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 581c173..b90e6ff 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -734,13 +734,12 @@ class MidiGraphBuilder:
 
             assert adjusted_time_hash >= 0, "n.start_time must be non-negative"
 
-            time_hash = hash(adjusted_time_hash)
-            if time_hash not in data:
-                data[time_hash] = []
+            if adjusted_time_hash not in data:
+                data[adjusted_time_hash] = []
 
-            data[time_hash].append(n)
-            if len(data[time_hash]) > longest_note_sequence:
-                longest_note_sequence = len(data[time_hash])
+            data[adjusted_time_hash].append(n)
+            if len(data[adjusted_time_hash]) > longest_note_sequence:
+                longest_note_sequence = len(data[adjusted_time_hash])
 
         if filter_single_notes:
             # Filter out single notes
-- 
2.43.0


From e19d5383ff5c5bfa85e86466c69589d7eb62d8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 32/74] fix: node attributes of a graph are stacked to one
 tensor

---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index b90e6ff..37e1ba1 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -283,7 +283,7 @@ class MidiGraphBuilder:
                     continue
                 try:
                     if isinstance(value, (tuple, list)) and all(isinstance(v, (Tensor, np.ndarray)) for v in value):
-                        data[key] = value
+                        data[key] = torch.stack([torch.as_tensor(v) for v in value], dim=0)
                     elif isinstance(value, np.ndarray):
                         data[key] = torch.from_numpy(value)
                     elif isinstance(value, (tuple, list)) and all(isinstance(v, Tensor) for v in value):
-- 
2.43.0


From b60a1a749d62549fff14462d3e18c606228b6432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 33/74] fix: every built graph is emitted, each once

---
 neural_graph_composer/midi_graph_builder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 37e1ba1..c7a86f5 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1128,7 +1128,11 @@ class MidiGraphBuilder:
             for node_hash in self._hash_to_notes:
                 assert node_hash in self.hash_to_index
 
-        for g in self._pyg_data or []:
+        while self._pyg_data:
+            g = self._pyg_data.pop(0)
+            if self._sub_graphs:
+                del self._sub_graphs[0]
+
             node_hash = [self._hash_to_index[node_hash] for node_hash in g.node_hash]
             target_indices = [self._hash_to_index[hash_val] for hash_val in g.node_hash]
 
@@ -1159,7 +1163,3 @@ class MidiGraphBuilder:
             yield g
             del g
 
-            del self._pyg_data[:]
-            del self._sub_graphs[:]
-            self._pyg_data = []
-            self._sub_graphs = []
-- 
2.43.0


From 63b5b10b2c8934c9c1e356b518e0b6c302e4e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 34/74] fix: transforms can be instantiated

---
 neural_graph_composer/transforms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 09d1feb..451a1a9 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -26,7 +26,7 @@ from torch_geometric.transforms import BaseTransform
 class AddDegreeTransform(BaseTransform):
     """Add degree to x.
     """
-    def __call__(self, data):
+    def forward(self, data):
         x = data.x.reshape(data.num_nodes, -1)
         degree = torch_geometric.utils.degree(data.edge_index[0], num_nodes=data.num_nodes)
         degree = degree.reshape(-1, 1)
@@ -49,7 +49,7 @@ class GraphIDTransform(BaseTransform):
         self.num_classes = dataset.num_classes
         print(f"Creating Graph ID transform Node proper {self.num_classes}")
 
-    def __call__(self, data):
+    def forward(self, data):
         """Transform add graph id.
 
         It requires dataset to have public method that it can access.
@@ -83,7 +83,7 @@ class RandomNodeDrop(T.BaseTransform):
         print(f"Creating Random Node proper with p {p}")
         self.p = p
 
-    def __call__(self, data: Data) -> Data:
+    def forward(self, data: Data) -> Data:
         """
 
         :param data:
@@ -148,7 +148,7 @@ class RandomEdgeDrop(T.BaseTransform):
         """
         self.p = p
 
-    def __call__(self, data):
+    def forward(self, data):
         """
         :param data:
         :return:
-- 
2.43.0


From fedcd48bd42fbf73a52f47a312b59136d50ff23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 35/74] fix: sanity check of emitted graphs reads plain labels

---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index c7a86f5..1b3b1ec 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1141,7 +1141,7 @@ class MidiGraphBuilder:
 
             # reverse sanity-check
             if is_sanity_check:
-                original_labels = [self._index_to_hash[label.item()] for label in g.label]
+                original_labels = [self._index_to_hash[label] for label in g.label]
                 original_target_indices = [self._index_to_hash[index] for index in target_indices]
                 original_y_values = [self._index_to_hash[y.item()] for y in g.y]
                 original_notes = [self._hash_to_notes[h] for h in original_labels]
-- 
2.43.0


From c7c7ba2d53920d53655c637b3066a11157b4c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 36/74] fix: dropping nodes renumbers the edges of the
 remaining ones

---
 neural_graph_composer/transforms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 451a1a9..551fad3 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -97,6 +97,10 @@ class RandomNodeDrop(T.BaseTransform):
 
         data.edge_index, data.edge_attr = RandomNodeDrop.filter_adj(
             data.edge_index, data.edge_attr, remain_idx, num_nodes)
+        # remaining nodes are numbered from zero
+        new_idx = torch.zeros(num_nodes, dtype=torch.long)
+        new_idx[remain_idx] = torch.arange(remain_idx.shape[0])
+        data.edge_index = new_idx[data.edge_index]
         data.x = data.x[remain_idx]
         data.y = data.y[remain_idx]
 
@@ -132,7 +136,7 @@ class RandomNodeDrop(T.BaseTransform):
         if edge_attr is not None:
             return edge_index[:, mask_all], edge_attr[mask_all]
         else:
-            return edge_index[:, mask_all]
+            return edge_index[:, mask_all], None
 
     def __repr__(self):
         """
-- 
2.43.0


From b71973898f6bf043b5e2eb25bb0c35782c9e2082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:26 +0000
Subject: [PATCH 37/74] fix: edge drop works on data without supervision labels
 or masks

---
 neural_graph_composer/transforms.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 551fad3..b4fb430 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -167,7 +167,9 @@ class RandomEdgeDrop(T.BaseTransform):
 
         pos_edge_mask = None
         neg_edge_mask = None
-        if data.pos_edge_label is not None and data.neg_edge_label is not None:
+        optional = {k: getattr(data, k, None) for k in (
+            'pos_edge_label', 'neg_edge_label', 'train_mask', 'val_mask', 'test_mask', 'node_hash')}
+        if optional['pos_edge_label'] is not None and optional['neg_edge_label'] is not None:
             pos_edge_mask = data.pos_edge_label_index[:, mask]
             neg_edge_mask = data.neg_edge_label_index[:, mask]
 
@@ -176,14 +178,9 @@ class RandomEdgeDrop(T.BaseTransform):
             edge_index=edge_index,
             edge_attr=edge_attr,
             y=data.y,
-            pos_edge_label=data.pos_edge_label,
-            neg_edge_label=data.neg_edge_label,
-            train_mask=data.train_mask,
-            val_mask=data.val_mask,
-            test_mask=data.test_mask,
             pos_edge_label_index=pos_edge_mask,
             neg_edge_label_index=neg_edge_mask,
-            node_hash=data.node_hash
+            **optional
         )
 
     def __repr__(self):
-- 
2.43.0


From 0c3c5753f2fe397dd2380c1384bc08b28ee1c27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:26 +0000
Subject: [PATCH 38/74] fix: the file of whole graphs holds the whole graphs

---
 neural_graph_composer/midi_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 0b48cf9..66ebad8 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -589,6 +589,7 @@ class MidiDataset(InMemoryDataset):
             'index_to_hash': _index_to_hash,
         }
 
+        _data, _slices = self.collate(self.__data_list)
         print(f"Saving {self.processed_dir} data.pt")
         torch.save((_data, _slices, additional_data),
                    osp.join(
-- 
2.43.0


From 1f8590dfbec620d76e0fa4144987f2e3972f034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 39/74] fix: the diminished twelfth spans eighteen semitones

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 637fa79..ab485cb 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -175,9 +175,9 @@ class Interval(Enum):
     m10 = 15
     M10 = 16
 
-    d12 = 11
     P11 = 17
     A11 = 18
+    d12 = 18
     M11 = 17
     m11 = 15
     m13 = 20
-- 
2.43.0


From 05affbf6f8ed094d23396ac0c643cd49b6a326f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 40/74] fix: a held note is not cut when another note starts

---
 neural_graph_composer/custom_pretty_midi.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 086da07..baacab6 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -420,8 +420,6 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                     current_instrument[event.channel] = event.program
                 # Note ons are note on events with velocity > 0
                 elif event.type == 'note_on' and event.velocity > 0:
-                    # before we add we check do we have note that need stop
-                    self._finish_notes(event, last_note_on, __get_instrument, current_instrument, track_idx)
                     # store this as the last note-on location
                     note_on_index = (event.channel, event.note)
                     last_note_on[note_on_index].append((event.time, event.velocity))
-- 
2.43.0


From 547f59938c6c0129cc36a16ca39fb5a9ded6b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 41/74] fix: every note still sounding at the end of a track is
 closed

---
 neural_graph_composer/custom_pretty_midi.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index baacab6..03a5832 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -271,16 +271,16 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         notes_to_remove = []
 
         for k, v in last_note_on.items():
-            start_tick, velocity = v[0]
             _channel, _note = k
-            if end_tick > start_tick or end_of_seq:
-                # start we know, end is current note on event
-                start_time = self.tick_times[start_tick]
-                end_time = self.tick_times[end_tick]
-                note = Note(velocity, _note, start_time, end_time)
-                program = current_instrument[_channel]
-                ints = __get_instrument(program, _channel, track_idx, 1)
-                ints.notes.append(note)
+            if end_of_seq or all(end_tick > start_tick for start_tick, _ in v):
+                for start_tick, velocity in v:
+                    # start we know, end is current note on event
+                    start_time = self.tick_times[start_tick]
+                    end_time = self.tick_times[end_tick]
+                    note = Note(velocity, _note, start_time, end_time)
+                    program = current_instrument[_channel]
+                    ints = __get_instrument(program, _channel, track_idx, 1)
+                    ints.notes.append(note)
                 # we close a note we remove it.
                 notes_to_remove.append(k)
 
-- 
2.43.0


From f1e5cf92c40ad8c0f23b8015a1bc13055605829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 42/74] fix: a midi file given as bytes or as an open file is
 read once

---
 neural_graph_composer/custom_pretty_midi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 03a5832..4213cdf 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -45,7 +45,8 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         """
         # Mustafa TODO push to github to main PrettyMIDI
         self.drum_channel = drum_channel
-        super().__init__(midi_file, resolution, initial_tempo)
+        # the file is read below; reading it twice would exhaust a file object
+        super().__init__(None, resolution, initial_tempo)
         self.is_debug = is_debug
 
         if midi_file is not None:
-- 
2.43.0


From e0e89dfe3ffb0afd0db8d3caff6cecf0c4e69cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 43/74] fix: control changes and pitch bends before the last
 note are kept

---
 neural_graph_composer/midi_reader.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 64d46a2..3541738 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -190,8 +190,7 @@ class MidiReader(MidiBaseReader):
             seq_id = midi_seq.create_track(i, instrument.program, instrument.name, instrument.is_drum)
             # for each instrument iterate over all node and get time
             for n in instrument.pitch_bends:
-                if not midi_seq.total_time or n.time >= midi_seq.total_time:
-                    yield instrument, i, n, seq_id
+                yield instrument, i, n, seq_id
 
     @staticmethod
     def read_instrument_control_changes(
@@ -208,8 +207,7 @@ class MidiReader(MidiBaseReader):
         for i, instrument in enumerate(midi_data.instruments):
             seq_id = midi_seq.create_track(i, instrument.program, instrument.name, instrument.is_drum)
             for cv in instrument.control_changes:
-                if not midi_seq.total_time or cv.time >= midi_seq.total_time:
-                    yield instrument, i, cv, seq_id
+                yield instrument, i, cv, seq_id
 
     @staticmethod
     def mido_to_pretty_midi(mido_file: mido.MidiFile) -> CustomPrettyMIDI:
-- 
2.43.0


From e9c41fc89c8c478f555551360474863a8f49d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 44/74] fix: exported tempo changes stand at their own times

---
 neural_graph_composer/midi_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 3541738..5c3c894 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -362,7 +362,7 @@ class MidiReader(MidiBaseReader):
             print(f"Setting scale {type(seq_tempo.midi_time)}")
             tick = pm.time_to_tick(seq_tempo.midi_time)
             pm.update_scale((tick, tick_scale))
-            pm.update_tick_time([0])
+            pm._update_tick_to_time(tick)
 
         inst_infos = {}
         for i, inst_info in enumerate(sequence.instruments):
-- 
2.43.0


From ae5444fcfb8c364d95b49650021427b42d6bc465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 45/74] fix: a piece with fewer than two notes can be exported

---
 neural_graph_composer/midi_reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 5c3c894..ba69f40 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -401,7 +401,6 @@ class MidiReader(MidiBaseReader):
             pm.adjust_times(original_times, new_times)
 
         logging.debug(f"pretty midi time: {pm.get_end_time()} "
-                      f"estimate_tempo: {pm.estimate_tempo()} "
                       f"resolution: {pm.resolution}")
         return pm
 
-- 
2.43.0


From 76b07ffe71c12e3935d8b45769ea26ae138771c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 46/74] fix: an exported track keeps its program and name

---
 neural_graph_composer/midi_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index ba69f40..0fda5ed 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -386,7 +386,9 @@ class MidiReader(MidiBaseReader):
 
             # create instrument
             instrument = pretty_midi.Instrument(
-                sequence[k].program, sequence[k].instrument.is_drum
+                sequence[k].instrument.instrument_num,
+                sequence[k].instrument.is_drum,
+                sequence[k].instrument.name
             )
             instrument.notes = notes
             instrument.pitch_bends = pitch_bends
-- 
2.43.0


From 02f8b64bae00d7a55f3caaa9aa5ac24afdd06d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 47/74] fix: an exported tempo is rounded to the microsecond,
 not cut off

---
 neural_graph_composer/custom_pretty_midi.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 4213cdf..4d3e6f9 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -8,6 +8,7 @@ from __future__ import print_function
 import collections
 import copy
 import math
+import os
 import warnings
 from typing import Optional, List, Tuple
 
@@ -1345,7 +1346,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         for (tick, tick_scale) in self._tick_scales:
             timing_track.append(mido.MetaMessage(
                 'set_tempo', time=tick,
-                tempo=int(6e7 / (60. / (tick_scale * self.resolution)))))
+                tempo=int(round(6e7 / (60. / (tick_scale * self.resolution))))))
 
         # Add in each time signature
         for ts in self.time_signature_changes:
@@ -1369,6 +1370,11 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
             timing_track.append(mido.MetaMessage('lyrics',
                                                  time=self.time_to_tick(l.time),
                                                  text=l.text))
+        # Add in all text events
+        for t in self.text_events:
+            timing_track.append(mido.MetaMessage('text',
+                                                 time=self.time_to_tick(t.time),
+                                                 text=t.text))
 
         # Sort the (absolute-tick-timed) events.
         timing_track.sort(key=functools.cmp_to_key(event_compare))
@@ -1447,3 +1453,15 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                 tick += event.time
 
         return mido_file
+
+    def write(self, filename):
+        """
+        Write the MIDI data to a file.
+        :param filename: path, or file opened for writing
+        :return: Nothing
+        """
+        mido_file = self.serialize()
+        if isinstance(filename, (six.string_types, os.PathLike)):
+            mido_file.save(filename=filename)
+        else:
+            mido_file.save(file=filename)
-- 
2.43.0


From add17fdfb91ac470dfa6513deffc90736ac9afbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:13 +0000
Subject: [PATCH 48/74] fix: a refused quantisation leaves the control change
 as it was

---
 neural_graph_composer/midi/midi_control_change.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index a51223c..851b377 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -338,14 +338,14 @@ class MidiControlChange(MidiBaseControlChange):
         :param amount:  quantization amount.
         :return:
         """
+        # refuses a grid out of range, so it goes first
+        self.quantized_step = sps
         step = max(self.quantize_to_nearest_step(self.cc_time, sps, amount=amount), 0)
         # both at once: the setters compare with the previous value of the other end
         self._quantized_start_step = step
         self._quantized_end_step = step + 1
         self._is_quantized = True
 
-        self.quantized_step = sps
-
     def quantize(self, sps: int = 4, amount: float = 0.5, min_step: Optional[int] = None):
         """Returns a new quantized control change with the specified
         number of steps per second (sps), quantization amount,
-- 
2.43.0


From 05f8ae8e9c25fa16792f8af08c9ea7895dbba07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 49/74] fix: the channel mode controllers keep their names

---
 neural_graph_composer/midi/midi_control_change.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index 851b377..57fd191 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -171,12 +171,6 @@ class MidiControlChange(MidiBaseControlChange):
     MIDI_CC_NAME_TO_CC.update(
         {cc_num: MidiBaseControlChange(cc_number=cc_num) for cc_num in range(102, 120)})
 
-    # Channel msg
-    MIDI_CC_NAME_TO_CC.update(
-        {cc_num: MidiBaseControlChange(
-            description="Channel Mode Messages {cc_num}",
-            cc_number=cc_num) for cc_num in range(120, 128)})
-
     MIDI_CC_NAME_TO_CC = types.MappingProxyType(MIDI_CC_NAME_TO_CC)
 
     def __init__(self,
-- 
2.43.0


From 3f293bd8f19df82f4c058a8fc2c2e85d5e93f285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 50/74] fix: controller descriptions that differ are unequal in
 both comparisons

---
 neural_graph_composer/midi/midi_control_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index 57fd191..13b9271 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -52,7 +52,7 @@ class MidiBaseControlChange:
         return self.cc_number < other.cc_number
 
     def __ne__(self, other):
-        return self.cc_number != other.cc_number
+        return not self == other
 
     def __repr__(self) -> str:
         return f"MidiBaseControlChange(cc_number={self.cc_number}, description='{self.description}', " \
-- 
2.43.0


From f75cfc42c26dfc94ed9c5b6e44ab8a4f7ab49ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 51/74] fix: a note read from json uses the defaults for fields
 left out

---
 neural_graph_composer/midi/midi_note.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 135d45b..f7d6f33 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -790,6 +790,8 @@ class MidiNote(MidiEvent):
         :param json_dict: A dictionary in JSON format.
         :return: A `MidiNote` object.
         """
+        optional = ("quantized_start_step", "quantized_end_step", "voice",
+                    "numerator", "denominator", "is_drum")
         return MidiNote(
             pitch=json_dict["pitch"],
             start_time=json_dict["start_time"],
@@ -797,12 +799,7 @@ class MidiNote(MidiEvent):
             program=json_dict["program"],
             instrument=json_dict["instrument"],
             velocity=json_dict["velocity"],
-            quantized_start_step=json_dict.get("quantized_start_step"),
-            quantized_end_step=json_dict.get("quantized_end_step"),
-            voice=json_dict.get("voice"),
-            numerator=json_dict.get("numerator"),
-            denominator=json_dict.get("denominator"),
-            is_drum=json_dict.get("is_drum", False)
+            **{k: json_dict[k] for k in optional if json_dict.get(k) is not None}
         )
 
     @property
-- 
2.43.0


From b1d34e1539a1fee92b89955108bc76d84c5b94e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 52/74] fix: round to the nearest step by the fraction of a
 step, as documented

---
 neural_graph_composer/midi/midi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_utils.py b/neural_graph_composer/midi/midi_utils.py
index 1f44731..cc2a5cc 100644
--- a/neural_graph_composer/midi/midi_utils.py
+++ b/neural_graph_composer/midi/midi_utils.py
@@ -188,7 +188,7 @@ def ft_quantize_to_nearest_step(unquantized_time: float,
     # This ensures that the resulting value is an integer,
     # even if there are rounding errors.
     unquantized_steps = unquantized_time * steps_per_second
-    threshold = steps_per_second * rounding_threshold
+    threshold = rounding_threshold
 
     if unquantized_steps < 0:
         remainder = abs(unquantized_steps) % 1
-- 
2.43.0


From d0d79c801bfb64c36eab8040e603d59f5a152831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 53/74] fix: half-open intervals overlap and contain points as
 documented

---
 neural_graph_composer/interval/interval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/interval/interval.py b/neural_graph_composer/interval/interval.py
index 7f8551b..1e3740e 100644
--- a/neural_graph_composer/interval/interval.py
+++ b/neural_graph_composer/interval/interval.py
@@ -50,7 +50,7 @@ class FloatInterval(namedtuple('IntervalBase', ['begin', 'end', 'data'])):
         :rtype: bool
         """
         if end is not None:
-            return math.isclose(begin, self.end) and end > self.begin
+            return begin < self.end and end > self.begin
         try:
             return self.overlaps(begin.begin, begin.end)
         except:
@@ -83,7 +83,7 @@ class FloatInterval(namedtuple('IntervalBase', ['begin', 'end', 'data'])):
         :return: True or False
         :rtype: bool
         """
-        return math.isclose(self.begin, p) and math.isclose(p, self.end)
+        return self.begin <= p < self.end
 
     def range_matches(self, other):
         """Whether the begins equal and the ends equal. Compare __eq__().
-- 
2.43.0


From dc8b10e56a4bb66320d55dc1389c2702c1dde72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 54/74] fix: an interval is below another if no part extends
 higher

---
 neural_graph_composer/interval/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/interval/interval.py b/neural_graph_composer/interval/interval.py
index 1e3740e..2d22063 100644
--- a/neural_graph_composer/interval/interval.py
+++ b/neural_graph_composer/interval/interval.py
@@ -234,7 +234,7 @@ class FloatInterval(namedtuple('IntervalBase', ['begin', 'end', 'data'])):
         :rtype: bool
         """
         self._raise_if_null(other)
-        return math.isclose(self.end, getattr(other, 'end', other))
+        return self.end <= getattr(other, 'end', other)
 
     def gt(self, other):
         """Strictly greater than. Returns True if no part of this Interval
-- 
2.43.0


From 5390a79c2d84345f7c2d2522906ab64131b121ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 55/74] fix: the interval tree sorts and finds its intervals by
 their bounds

---
 neural_graph_composer/interval/node.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/interval/node.py b/neural_graph_composer/interval/node.py
index 650d026..0eb9143 100644
--- a/neural_graph_composer/interval/node.py
+++ b/neural_graph_composer/interval/node.py
@@ -107,11 +107,10 @@ class Node(object):
         s_left = []
         s_right = []
         for k in intervals:
-            math.isclose(k.end, self.x_center)
-            if k.begin > self.x_center:
-                s_right.append(k)
-            elif math.isclose(k.end, self.x_center):
+            if k.end <= self.x_center:
                 s_left.append(k)
+            elif k.begin > self.x_center:
+                s_right.append(k)
             else:
                 self.s_center.add(k)
         self.left_node = Node.from_sorted_intervals(s_left)
-- 
2.43.0


From 8f0cc2d79ec41f6bce178e0faf031c0034a94566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 56/74] fix: a point query visits the side of the interval tree
 the point lies on

---
 neural_graph_composer/interval/node.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/interval/node.py b/neural_graph_composer/interval/node.py
index 0eb9143..ca651ce 100644
--- a/neural_graph_composer/interval/node.py
+++ b/neural_graph_composer/interval/node.py
@@ -316,14 +316,14 @@ class Node(object):
             self.search_point(j, result)
         return result
 
-    def search_point(self, point: FloatInterval, result: set):
+    def search_point(self, point: float, result: set):
         """
         Returns all intervals that contain point.
         """
         for k in self.s_center:
-            if point.isclose(k.begin) and point.isclose(k.end):
+            if k.begin <= point < k.end:
                 result.add(k)
-        if point.isclose(self.x_center) and self[0]:
+        if point < self.x_center and self[0]:
             return self[0].search_point(point, result)
         elif point > self.x_center and self[1]:
             return self[1].search_point(point, result)
-- 
2.43.0


From 2195adc0ddf5d1c9e24eb51cd6d869cd759b89c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 57/74] fix: the self-check of the interval tree accepts sound
 trees only

---
 neural_graph_composer/interval/node.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/interval/node.py b/neural_graph_composer/interval/node.py
index ca651ce..29c1fd7 100644
--- a/neural_graph_composer/interval/node.py
+++ b/neural_graph_composer/interval/node.py
@@ -479,7 +479,7 @@ class Node(object):
         assert (isinstance(self.s_center, set))
 
         bal = self.balance
-        assert math.isclose(abs(bal), 2.0), \
+        assert abs(bal) < 2, \
             "Error: Rotation should have happened, but didn't! \n{}".format(
                 self.print_structure(tostring=True)
             )
@@ -496,7 +496,7 @@ class Node(object):
         for iv in self.s_center:
             assert hasattr(iv, 'begin')
             assert hasattr(iv, 'end')
-            assert math.isclose(iv.begin < iv.end)
+            assert iv.begin < iv.end
             assert iv.overlaps(self.x_center)
             for parent in sorted(parents):
                 assert not iv.contains_point(parent), \
@@ -504,7 +504,7 @@ class Node(object):
                         parent, iv, self.print_structure(tostring=True)
                     )
         if self[0]:
-            assert math.isclose(self[0].x_center, self.x_center), \
+            assert self[0].x_center < self.x_center, \
                 "Error: Out-of-order left child! {}".format(self.x_center)
             self[0].verify(parents.union([self.x_center]))
         if self[1]:
-- 
2.43.0


From 6c37c9b05a6c0ae0016a7009993f42df1b3efe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 58/74] fix: the interval tree uses the interval classes that
 exist

---
 .../interval/intervaltree.py                  | 60 +++++++++----------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/neural_graph_composer/interval/intervaltree.py b/neural_graph_composer/interval/intervaltree.py
index 1596756..355d1e9 100644
--- a/neural_graph_composer/interval/intervaltree.py
+++ b/neural_graph_composer/interval/intervaltree.py
@@ -220,8 +220,8 @@ class FloatIntervalTree(MutableSet):
         Create a new IntervalTree from an iterable of 2- or 3-tuples,
          where the tuple lists begin, end, and optionally data.
         """
-        ivs = [Interval(*t) for t in tups]
-        return IntervalTree(ivs)
+        ivs = [FloatInterval(*t) for t in tups]
+        return FloatIntervalTree(ivs)
 
     def __init__(self, intervals=None):
         """
@@ -249,7 +249,7 @@ class FloatIntervalTree(MutableSet):
         Completes in O(n*log n) time.
         :rtype: IntervalTree
         """
-        return IntervalTree(iv.copy() for iv in self)
+        return FloatIntervalTree(iv.copy() for iv in self)
 
     def _add_boundaries(self, interval):
         """
@@ -342,7 +342,7 @@ class FloatIntervalTree(MutableSet):
         Shortcut for remove(Interval(begin, end, data)).
         Completes in O(log n) time.
         """
-        return self.remove(Interval(begin, end, data))
+        return self.remove(FloatInterval(begin, end, data))
 
     def discard(self, interval):
         """
@@ -361,7 +361,7 @@ class FloatIntervalTree(MutableSet):
         Shortcut for discard(Interval(begin, end, data)).
         Completes in O(log n) time.
         """
-        return self.discard(Interval(begin, end, data))
+        return self.discard(FloatInterval(begin, end, data))
 
     def difference(self, other):
         """
@@ -372,7 +372,7 @@ class FloatIntervalTree(MutableSet):
         for iv in self:
             if iv not in other:
                 ivs.add(iv)
-        return IntervalTree(ivs)
+        return FloatIntervalTree(ivs)
 
     def difference_update(self, other):
         """
@@ -386,7 +386,7 @@ class FloatIntervalTree(MutableSet):
         Returns a new tree, comprising all intervals from self
         and other.
         """
-        return IntervalTree(set(self).union(other))
+        return FloatIntervalTree(set(self).union(other))
 
     def intersection(self, other):
         """
@@ -398,7 +398,7 @@ class FloatIntervalTree(MutableSet):
         for iv in shorter:
             if iv in longer:
                 ivs.add(iv)
-        return IntervalTree(ivs)
+        return FloatIntervalTree(ivs)
 
     def intersection_update(self, other):
         """
@@ -417,7 +417,7 @@ class FloatIntervalTree(MutableSet):
         if not isinstance(other, set): other = set(other)
         me = set(self)
         ivs = me.difference(other).union(other.difference(me))
-        return IntervalTree(ivs)
+        return FloatIntervalTree(ivs)
 
     def symmetric_difference_update(self, other):
         """
@@ -467,14 +467,14 @@ class FloatIntervalTree(MutableSet):
 
         if datafunc:
             for iv in begin_hits:
-                insertions.add(Interval(iv.begin, begin, datafunc(iv, True)))
+                insertions.add(FloatInterval(iv.begin, begin, datafunc(iv, True)))
             for iv in end_hits:
-                insertions.add(Interval(end, iv.end, datafunc(iv, False)))
+                insertions.add(FloatInterval(end, iv.end, datafunc(iv, False)))
         else:
             for iv in begin_hits:
-                insertions.add(Interval(iv.begin, begin, iv.data))
+                insertions.add(FloatInterval(iv.begin, begin, iv.data))
             for iv in end_hits:
-                insertions.add(Interval(end, iv.end, iv.data))
+                insertions.add(FloatInterval(end, iv.end, iv.data))
 
         self.remove_envelop(begin, end)
         self.difference_update(begin_hits)
@@ -494,12 +494,12 @@ class FloatIntervalTree(MutableSet):
         insertions = set()
         if datafunc:
             for iv in hitlist:
-                insertions.add(Interval(iv.begin, point, datafunc(iv, True)))
-                insertions.add(Interval(point, iv.end, datafunc(iv, False)))
+                insertions.add(FloatInterval(iv.begin, point, datafunc(iv, True)))
+                insertions.add(FloatInterval(point, iv.end, datafunc(iv, False)))
         else:
             for iv in hitlist:
-                insertions.add(Interval(iv.begin, point, iv.data))
-                insertions.add(Interval(point, iv.end, iv.data))
+                insertions.add(FloatInterval(iv.begin, point, iv.data))
+                insertions.add(FloatInterval(point, iv.end, iv.data))
         self.difference_update(hitlist)
         self.update(insertions)
 
@@ -525,7 +525,7 @@ class FloatIntervalTree(MutableSet):
                     result[parent] = set()
                 result[parent].add(child)
 
-        long_ivs = sorted(self.all_intervals, key=Interval.length, reverse=True)
+        long_ivs = sorted(self.all_intervals, key=FloatInterval.length, reverse=True)
         for i, parent in enumerate(long_ivs):
             for child in long_ivs[i + 1:]:
                 add_if_nested()
@@ -593,7 +593,7 @@ class FloatIntervalTree(MutableSet):
         new_ivs = set()
         for lbound, ubound in zip(bounds[:-1], bounds[1:]):
             for iv in self[lbound]:
-                new_ivs.add(Interval(lbound, ubound, iv.data))
+                new_ivs.add(FloatInterval(lbound, ubound, iv.data))
 
         self.__init__(new_ivs)
 
@@ -638,7 +638,7 @@ class FloatIntervalTree(MutableSet):
             else:  # data_initializer is not None
                 current_reduced[0] = copy(data_initializer)
                 current_reduced[0] = data_reducer(current_reduced[0], higher.data)
-                merged.append(Interval(higher.begin, higher.end, current_reduced[0]))
+                merged.append(FloatInterval(higher.begin, higher.end, current_reduced[0]))
 
         for higher in sorted_intervals:
             if merged:  # series already begun
@@ -650,7 +650,7 @@ class FloatIntervalTree(MutableSet):
                         current_reduced[0] = data_reducer(current_reduced[0], higher.data)
                     else:  # annihilate the data, since we don't know how to merge it
                         current_reduced[0] = None
-                    merged[-1] = Interval(lower.begin, upper_bound, current_reduced[0])
+                    merged[-1] = FloatInterval(lower.begin, upper_bound, current_reduced[0])
                 else:
                     new_series()
             else:  # not merged; is first of Intervals to merge
@@ -696,7 +696,7 @@ class FloatIntervalTree(MutableSet):
             else:  # data_initializer is not None
                 current_reduced[0] = copy(data_initializer)
                 current_reduced[0] = data_reducer(current_reduced[0], higher.data)
-                merged.append(Interval(higher.begin, higher.end, current_reduced[0]))
+                merged.append(FloatInterval(higher.begin, higher.end, current_reduced[0]))
 
         for higher in sorted_intervals:
             if merged:  # series already begun
@@ -707,7 +707,7 @@ class FloatIntervalTree(MutableSet):
                         current_reduced[0] = data_reducer(current_reduced[0], higher.data)
                     else:  # annihilate the data, since we don't know how to merge it
                         current_reduced[0] = None
-                    merged[-1] = Interval(lower.begin, upper_bound, current_reduced[0])
+                    merged[-1] = FloatInterval(lower.begin, upper_bound, current_reduced[0])
                 else:
                     new_series()
             else:  # not merged; is first of Intervals to merge
@@ -763,7 +763,7 @@ class FloatIntervalTree(MutableSet):
             else:  # data_initializer is not None
                 current_reduced[0] = copy(data_initializer)
                 current_reduced[0] = data_reducer(current_reduced[0], higher.data)
-                merged.append(Interval(higher.begin, higher.end, current_reduced[0]))
+                merged.append(FloatInterval(higher.begin, higher.end, current_reduced[0]))
 
         for higher in sorted_intervals:
             if merged:  # series already begun
@@ -779,7 +779,7 @@ class FloatIntervalTree(MutableSet):
                             current_reduced[0] = data_reducer(current_reduced[0], higher.data)
                         else:  # annihilate the data, since we don't know how to merge it
                             current_reduced[0] = None
-                        merged[-1] = Interval(lower.begin, upper_bound, current_reduced[0])
+                        merged[-1] = FloatInterval(lower.begin, upper_bound, current_reduced[0])
                 else:
                     new_series()
             else:  # not merged; is first of Intervals to merge
@@ -902,7 +902,7 @@ class FloatIntervalTree(MutableSet):
         null Interval.
         :rtype: Interval
         """
-        return Interval(self.begin(), self.end())
+        return FloatInterval(self.begin(), self.end())
 
     def span(self):
         """
@@ -956,7 +956,7 @@ class FloatIntervalTree(MutableSet):
 
             ## All members are Intervals
             for iv in self:
-                assert isinstance(iv, Interval), (
+                assert isinstance(iv, FloatInterval), (
                     "Error: Only Interval objects allowed in IntervalTree:"
                     " {0}".format(iv)
                 )
@@ -1096,7 +1096,7 @@ class FloatIntervalTree(MutableSet):
         Completes in O(1) time.
         :rtype: bool
         """
-        return Interval(begin, end, data) in self
+        return FloatInterval(begin, end, data) in self
 
     def __iter__(self):
         """
@@ -1122,7 +1122,7 @@ class FloatIntervalTree(MutableSet):
         :rtype: bool
         """
         return (
-            isinstance(other, IntervalTree) and
+            isinstance(other, FloatIntervalTree) and
             self.all_intervals == other.all_intervals
         )
 
@@ -1143,4 +1143,4 @@ class FloatIntervalTree(MutableSet):
         For pickle-ing.
         :rtype: tuple
         """
-        return IntervalTree, (sorted(self.all_intervals),)
+        return FloatIntervalTree, (sorted(self.all_intervals),)
-- 
2.43.0


From ecd21fbf4abfd26b3f42f863a252b4ad6bb45230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 59/74] fix: chopping leaves intervals that only touch the
 range as they are

---
 neural_graph_composer/interval/intervaltree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/interval/intervaltree.py b/neural_graph_composer/interval/intervaltree.py
index 355d1e9..ad2d65a 100644
--- a/neural_graph_composer/interval/intervaltree.py
+++ b/neural_graph_composer/interval/intervaltree.py
@@ -463,7 +463,7 @@ class FloatIntervalTree(MutableSet):
         """
         insertions = set()
         begin_hits = [iv for iv in self.at(begin) if iv.begin < begin]
-        end_hits = [iv for iv in self.at(end) if iv.end > end]
+        end_hits = [iv for iv in self.at(end) if iv.begin < end]
 
         if datafunc:
             for iv in begin_hits:
-- 
2.43.0


From 9b6f2a390485046162d09c20114efebf90f30011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:56 +0000
Subject: [PATCH 60/74] fix: two chords are connected whichever way the edge
 between them points

---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 1b3b1ec..55c56fc 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -391,7 +391,7 @@ class MidiGraphBuilder:
                 v = hash(frozenset(v))
             else:
                 raise ValueError("invalid type for node v")
-        return u in midi_graph.neighbors(v)
+        return midi_graph.has_edge(u, v) or midi_graph.has_edge(v, u)
 
     @staticmethod
     def get_edge_connected(midi_graph: nx.Graph, u: List[int], v: List[int]):
-- 
2.43.0


From a3c1305fa83511878c4ae743acd2dbc5392829e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:45 +0000
Subject: [PATCH 61/74] fix: several meter changes at one time give one beat

---
 neural_graph_composer/custom_pretty_midi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 4d3e6f9..fb6fc1a 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -661,7 +661,8 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                     next_beat = current_ts_time
             # If the next beat location passes the next time signature change
             # boundary
-            if ts_idx < len(self.time_signature_changes) - 1:
+            # (several changes may be at the same time)
+            while ts_idx < len(self.time_signature_changes) - 1:
                 # Time of the next time signature change
                 next_ts_time = self.time_signature_changes[ts_idx + 1].time
                 if gt_or_close(next_beat, next_ts_time):
@@ -671,6 +672,8 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                     ts_idx += 1
                     # Update the current bpm
                     bpm = get_current_bpm()
+                else:
+                    break
             beats.append(next_beat)
         # The last beat will pass the end_time barrier, so don't include it
         beats = np.array(beats[:-1])
-- 
2.43.0


From a0d2f04778ac8ef4dac9ebbc21cac9387c146720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:45 +0000
Subject: [PATCH 62/74] fix: a tempo change after a meter change does not apply
 early

---
 neural_graph_composer/custom_pretty_midi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index fb6fc1a..dc873a8 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -674,6 +674,10 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                     bpm = get_current_bpm()
                 else:
                     break
+            # A meter change may come before a tempo change passed above, which
+            # is then still ahead
+            while tempo_idx > 0 and tempo_change_times[tempo_idx] > next_beat:
+                tempo_idx -= 1
             beats.append(next_beat)
         # The last beat will pass the end_time barrier, so don't include it
         beats = np.array(beats[:-1])
-- 
2.43.0


From 9c130e397222d9378a3bc70dc0b5d64d563589cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:45 +0000
Subject: [PATCH 63/74] fix: a meter change after the last beat leaves the
 downbeats before it

---
 neural_graph_composer/custom_pretty_midi.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index dc873a8..d2b2314 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -767,23 +767,22 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         if not time_signatures or time_signatures[0].time > start_time:
             time_signatures.insert(0, TimeSignature(4, 4, start_time))
 
-        def index(array, value, default):
-            """ Returns the first index of a value in an array, or `default` if
-            the value doesn't appear in the array."""
-            idx = np.flatnonzero(np.isclose(array, value))
+        def index(array, value):
+            """ Returns the index of the first element of a sorted array that
+            is not before a value, or its length if all of them are."""
+            idx = np.flatnonzero(np.isclose(array, value) | (array > value))
             if idx.size > 0:
                 return idx[0]
             else:
-                return default
+                return len(array)
 
         downbeats = []
-        end_beat_idx = 0
         # Iterate over spans of time signatures
         for start_ts, end_ts in zip(time_signatures[:-1], time_signatures[1:]):
-            # Get index of first beat at start_ts.time, or else use first beat
-            start_beat_idx = index(beats, start_ts.time, 0)
-            # Get index of first beat at end_ts.time, or else use last beat
-            end_beat_idx = index(beats, end_ts.time, start_beat_idx)
+            # Get index of first beat at or after start_ts.time
+            start_beat_idx = index(beats, start_ts.time)
+            # Get index of first beat at or after end_ts.time
+            end_beat_idx = index(beats, end_ts.time)
             # Add beats within this time signature range, skipping beats
             # according to the current time signature
             if start_ts.numerator % 3 == 0 and start_ts.numerator != 3:
@@ -794,7 +793,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                                  start_beat_idx:end_beat_idx:start_ts.numerator])
         # Add in beats from the second-to-last to last time signature
         final_ts = time_signatures[-1]
-        start_beat_idx = index(beats, final_ts.time, end_beat_idx)
+        start_beat_idx = index(beats, final_ts.time)
         if final_ts.numerator % 3 == 0 and final_ts.numerator != 3:
             downbeats.append(beats[start_beat_idx::(final_ts.numerator // 3)])
         else:
-- 
2.43.0


From 31af51c1f8688578aedb49f4c9b53ea7005c9d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 64/74] fix: writing from a start to an end time writes that
 part of the piece, not all of it squeezed in between

---
 neural_graph_composer/midi_reader.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 0fda5ed..cf90c9a 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -396,11 +396,10 @@ class MidiReader(MidiBaseReader):
             pm.instruments.append(instrument)
 
         if from_start is not None or to_end is not None:
-            original_times = np.array([0, pm.get_end_time()])
-            new_times = np.array([from_start if from_start is not None else 0,
-                                 to_end if to_end is not None else pm.get_end_time()])
-            new_times = new_times.clip(0, pm.get_end_time())
-            pm.adjust_times(original_times, new_times)
+            window = np.array([from_start if from_start is not None else 0,
+                               to_end if to_end is not None else pm.get_end_time()])
+            window = window.clip(0, pm.get_end_time())
+            pm.adjust_times(window, window - window[0])
 
         logging.debug(f"pretty midi time: {pm.get_end_time()} "
                       f"resolution: {pm.resolution}")
-- 
2.43.0


From 8067acd9ac04b0bb90e71e649563ccbd706419d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:50 +0000
Subject: [PATCH 65/74] fix: a chord with pitch 127 can be one-hot encoded

---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 55c56fc..9798be3 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1042,7 +1042,7 @@ class MidiGraphBuilder:
                     pitch_sub_group,
                     velocity_set=velocity,
                     feature_vec_size=feature_vec_size,
-                    num_classes=127,
+                    num_classes=128,
                     velocity_num_buckets=velocity_num_buckets
                 )
 
-- 
2.43.0


From 3543c085d6ff817040ec2eb26362a73ce6b3db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:50 +0000
Subject: [PATCH 66/74] fix: chords of different sizes give one-hot features of
 one size

---
 neural_graph_composer/midi_graph_builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 9798be3..13f00f6 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1071,7 +1071,10 @@ class MidiGraphBuilder:
 
         if node_attr_type == NodeAttributeType.OneHotTensor:
             for node in midi_graph.nodes:
-                midi_graph.nodes[node]["attr"] = midi_graph.nodes[node]["attr"]
+                # groups differ in size, the features of a graph do not
+                attr = midi_graph.nodes[node]["attr"]
+                midi_graph.nodes[node]["attr"] = torch.nn.functional.pad(
+                    attr, (0, 0, 0, feature_vec_size - attr.shape[0]))
 
         return midi_graph
 
-- 
2.43.0


From ebb7718164085f864613d13cec9ec3387ae37ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:50 +0000
Subject: [PATCH 67/74] fix: dropping nodes drops their hashes and labels too

---
 neural_graph_composer/transforms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index b4fb430..33e0db3 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -107,6 +107,12 @@ class RandomNodeDrop(T.BaseTransform):
         data.train_mask = data.train_mask[remain_idx]
         data.val_mask = data.val_mask[remain_idx]
         data.test_mask = data.test_mask[remain_idx]
+        for key in ("node_hash", "label"):
+            values = getattr(data, key, None)
+            if isinstance(values, torch.Tensor):
+                setattr(data, key, values[remain_idx])
+            elif values is not None:
+                setattr(data, key, [values[i] for i in remain_idx.tolist()])
         data.num_nodes = data.x.shape[0]
 
         # print(f"called return data {data}")
-- 
2.43.0


From 9eb54fcb165e1ea2ed3fe1dd942b49385853003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:50 +0000
Subject: [PATCH 68/74] fix: dropping edges keeps the labels of the nodes

---
 neural_graph_composer/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 33e0db3..4fc6a6c 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -174,7 +174,7 @@ class RandomEdgeDrop(T.BaseTransform):
         pos_edge_mask = None
         neg_edge_mask = None
         optional = {k: getattr(data, k, None) for k in (
-            'pos_edge_label', 'neg_edge_label', 'train_mask', 'val_mask', 'test_mask', 'node_hash')}
+            'pos_edge_label', 'neg_edge_label', 'train_mask', 'val_mask', 'test_mask', 'node_hash', 'label')}
         if optional['pos_edge_label'] is not None and optional['neg_edge_label'] is not None:
             pos_edge_mask = data.pos_edge_label_index[:, mask]
             neg_edge_mask = data.neg_edge_label_index[:, mask]
-- 
2.43.0


From 238c979c1ca29bea492e821397bf3ed8b07008b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:50 +0000
Subject: [PATCH 69/74] fix: a file opened with the reader of the library gives
 the piece it reads

---
 neural_graph_composer/midi/midi_sequences.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 20ac47a..8b88ae3 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -185,6 +185,9 @@ class MidiNoteSequences:
         except Exception as e:
             raise ValueError(f"Unable to load file {file_path}") from e
 
+        if isinstance(midi_data, cls):
+            midi_data.filename = file_path
+            return midi_data
         return cls(filename=file_path, midi_seq=midi_data)
 
     def __getitem__(self, track_idx: int) -> MidiNoteSequence:
-- 
2.43.0


From 46a6500a0bbdc5bab01931109f0b5c23a8176a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:11 +0000
Subject: [PATCH 70/74] fix: adjusting times keeps the last setting of every
 controller, not of one

---
 neural_graph_composer/custom_pretty_midi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index d2b2314..adb97ee 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -1130,10 +1130,10 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
             for _instrument in self.instruments:
                 # We want to keep only the final event which has time ==
                 # new_times[0]
-                valid_events = [event for event in event_getter(_instrument)
-                                if event.time == new_times[0]]
-                if valid_events:
-                    valid_events = valid_events[-1:]
+                in_force = {getattr(event, 'number', None): event
+                            for event in event_getter(_instrument)
+                            if event.time == new_times[0]}
+                valid_events = list(in_force.values())
                 # Otherwise only keep events within the new set of times
                 valid_events.extend(
                     event for event in event_getter(_instrument)
-- 
2.43.0


From 7d7a11cb8da81dfc14f7593a4b69d20eb5fbfe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:44 +0000
Subject: [PATCH 71/74] fix: a slice keeps the notes whose drum flag differs
 from that of the sequence

---
 neural_graph_composer/midi/midi_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 0d7c015..be73911 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -578,7 +578,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
             new_note = copy.deepcopy(note)
             new_note.end_time = min(note.end_time, end)
-            new_midi_seq.add_note(new_note)
+            new_midi_seq.notes.append(new_note)
 
         # update total time based on
         new_midi_seq.total_time = min(self.total_time, end)
-- 
2.43.0


From 8eb3ffb4447a37c319654a7b241d47920a7cdee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:44 +0000
Subject: [PATCH 72/74] fix: a clone of a sequence has its own instrument

---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index be73911..6468d73 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -673,7 +673,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         cloned.ticks_per_quarter = self.ticks_per_quarter
         cloned.__total_quantized_steps = self.__total_quantized_steps
         cloned.quantized_step = self.quantized_step
-        cloned.instrument = self.instrument
+        cloned.instrument = copy.copy(self.instrument)
         cloned.resolution = self.resolution
         return cloned
 
@@ -686,7 +686,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         cloned.ticks_per_quarter = self.ticks_per_quarter
         cloned.__total_quantized_steps = self.__total_quantized_steps
         cloned.quantized_step = self.quantized_step
-        cloned.instrument = self.instrument
+        cloned.instrument = copy.copy(self.instrument)
         cloned.resolution = self.resolution
         return cloned
 
-- 
2.43.0


From 7cfc2ff92a2cd3fa34c2c066f4fdda4aa50044cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:44 +0000
Subject: [PATCH 73/74] fix: parts of a sequence keep its instrument and
 resolution

---
 neural_graph_composer/midi/midi_sequence.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 6468d73..69e51b8 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -220,7 +220,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
                 or any(note.instrument != other.instrument.instrument_num for note in other.notes):
             raise ValueError("All notes in both sequences must have the same instrument")
 
-        midi_seq = MidiNoteSequence(instrument=self.instrument)
+        midi_seq = MidiNoteSequence(instrument=self.instrument, resolution=self.resolution)
         if self.notes is not None:
             midi_seq.notes = self.notes.copy()
         else:
@@ -429,7 +429,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         :return: MidiNoteSequence
         """
         new_notes = [copy.deepcopy(note) for note in self.notes if note.end_time <= end_time]
-        truncated_seq = MidiNoteSequence(instrument=self.instrument, notes=new_notes)
+        truncated_seq = MidiNoteSequence(instrument=self.instrument, notes=new_notes, resolution=self.resolution)
         truncated_seq.total_time = min(self.total_time, end_time)
         return truncated_seq
 
@@ -528,7 +528,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
                 f"Split container time pass the total {self.total_time}. "
                 "extract subsequence past end of sequence.")
 
-        sub_sequences = [MidiNoteSequence() for _ in range(len(split_times) - 1)]
+        sub_sequences = [self.clone_empty() for _ in range(len(split_times) - 1)]
         for sub_seq in sub_sequences:
             sub_seq.total_time = 0.0
 
@@ -781,7 +781,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         :return: MidiNoteSequence
         """
         truncated_notes = self.notes[:cut_size]
-        truncated_seq = MidiNoteSequence(instrument=self.instrument, notes=truncated_notes)
+        truncated_seq = MidiNoteSequence(instrument=self.instrument, notes=truncated_notes, resolution=self.resolution)
         truncated_seq.total_time = max([n.end_time for n in truncated_notes], default=0.0)
         return truncated_seq
 
-- 
2.43.0


From 72b209f090e27f2120a3a3ce9e7215861b1277e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:44 +0000
Subject: [PATCH 74/74] fix: truncating at an offset ends at the last event
 within it, and honours the initial time

---
 neural_graph_composer/midi/midi_sequences.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 8b88ae3..87f4dd3 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -541,15 +541,12 @@ class MidiNoteSequences:
             self.trim(last_event_time, initial_time)
             return last_event_time
 
-        last_event_time = None
-        for seq_event in self.get_all_sequence_events():
-            if seq_event.event_end_time <= from_start:
-                last_event_time = seq_event.event_end_time
-            else:
-                break
+        last_event_time = max(
+            [seq_event.event_end_time for seq_event in self.get_all_sequence_events()
+             if seq_event.event_end_time <= from_start], default=None)
 
         if last_event_time is not None:
-            self.trim(last_event_time)
+            self.trim(last_event_time, initial_time)
 
         return last_event_time
 
-- 
2.43.0

