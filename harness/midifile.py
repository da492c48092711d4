"""Midi files for the harnesses.  Symbolically, a file is a list of tracks of event objects kept in
a dictionary that stands for the disk, and mido is replaced by stand-ins that keep its contract
(range checks, defaults, delta times, end_of_track on save).  Concretely, real mido messages are
written to real files in a scratch directory, so a replay goes through mido and the file system."""
import io
import os
import shutil
import tempfile

RANGES = {"note": (0, 127), "velocity": (0, 127), "channel": (0, 15), "program": (0, 127),
          "control": (0, 127), "value": (0, 127), "pitch": (-8192, 8191)}
DEFAULTS = {"note_on": {"note": 0, "velocity": 64}, "note_off": {"note": 0, "velocity": 64},
            "control_change": {"control": 0, "value": 0}, "pitchwheel": {"pitch": 0},
            "program_change": {"program": 0}, "set_tempo": {"tempo": 500000},
            "time_signature": {"numerator": 4, "denominator": 4}, "key_signature": {"key": "C"},
            "track_name": {"name": ""}, "lyrics": {"text": ""}, "text": {"text": ""},
            "end_of_track": {}}
META = {"set_tempo", "time_signature", "key_signature", "track_name", "lyrics", "text",
        "end_of_track"}


class Ev:
    def __init__(self, type, time=0, **kw):
        self.type = type
        self.time = time
        f = dict(DEFAULTS[type])
        if type not in META:
            f["channel"] = 0
        for k in kw:
            if k not in f:
                raise ValueError(f"{type} has no attribute {k}")
        f.update(kw)
        for k, v in f.items():
            if k in RANGES:
                lo, hi = RANGES[k]
                if not isinstance(v, int) and not hasattr(v, "item"):
                    raise TypeError(f"{k} must be int")
                if not (lo <= v and v <= hi):
                    raise ValueError(f"{k} must be in range {lo}..{hi}")
            setattr(self, k, v)
        self._f = f
        self.is_meta = type in META

    def copy(self):
        return Ev(self.type, self.time, **self._f)


class Disk:
    files = {}


class FakeFile:
    def __init__(self, filename=None, file=None, type=1, ticks_per_beat=480, charset="latin1", **k):
        self.filename = filename
        self.type = type
        self.ticks_per_beat = ticks_per_beat
        self.charset = charset
        self.tracks = []
        src = filename
        if file is not None:
            src = file.read()
            src = src.decode() if isinstance(src, bytes) else src
        if filename is not None or file is not None:
            if src not in Disk.files:
                raise FileNotFoundError(src)
            self.ticks_per_beat, tracks = Disk.files[src]
            self.tracks = [[e.copy() for e in t] for t in tracks]

    def save(self, filename=None, file=None):
        out = []
        for t in self.tracks:
            t = [e.copy() for e in t]
            acc, res = 0, []
            for e in t:
                if e.type == "end_of_track":
                    acc = acc + e.time
                    continue
                e.time = e.time + acc
                acc = 0
                res.append(e)
            res.append(Ev("end_of_track", time=acc))
            out.append(res)
        Disk.files[filename if filename is not None else file] = (self.ticks_per_beat, out)


class FakeTrack(list):
    pass


class FakeMido:
    Message = MetaMessage = Ev
    MidiFile = FakeFile
    MidiTrack = FakeTrack

    def __getattr__(self, n):
        import mido
        return getattr(mido, n)


class Midi:
    """with Midi(sx) as m: m.put(name, resolution, tracks); m.read(name); m.write(seqs, name)"""

    def __init__(self, sx):
        self.sx = sx

    def __enter__(self):
        from harness.common import patched
        self.p = patched()
        self.p.__enter__()
        if self.sx.symbolic:
            Disk.files = {}
            import pretty_midi.pretty_midi as lib
            import neural_graph_composer.custom_pretty_midi as own
            import neural_graph_composer.midi_reader as rd
            fake = FakeMido()
            self.p.set(lib, "mido", fake)
            self.p.set(own, "mido", fake)
            self.p.set(rd, "os", FakeOs())
            self.p.set(rd, "mido", fake)
            self.p.set(rd, "MidiFile", FakeFile)
            # the library's own writer, used for single sequences
            from symex import loader, npshim
            self.p.set(lib, "np", npshim.NP)
            self.p.set(lib, "int", loader.HOOKS.int)
            self.dir = "/scratch"
        else:
            self.dir = tempfile.mkdtemp(prefix="sxmidi")
        return self

    def __exit__(self, *a):
        self.p.__exit__()
        if not self.sx.symbolic:
            shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def exists(self, name):
        return self.path(name) in Disk.files if self.sx.symbolic else os.path.exists(self.path(name))

    def put(self, name, resolution, tracks):
        """tracks: lists of (type, delta, fields)"""
        if self.sx.symbolic:
            f = FakeFile(ticks_per_beat=resolution)
            f.tracks = [[Ev(k, d, **w) for k, d, w in t] for t in tracks]
            f.save(self.path(name))
            return
        import mido
        f = mido.MidiFile(ticks_per_beat=resolution)
        for t in tracks:
            tr = mido.MidiTrack()
            for k, d, w in t:
                tr.append((mido.MetaMessage if k in META else mido.Message)(k, time=int(d), **w))
            f.tracks.append(tr)
        f.save(self.path(name))

    def tempi(self, name):
        """(tick, microseconds per quarter) of each tempo event of a file"""
        import mido
        f = (FakeFile if self.sx.symbolic else mido.MidiFile)(self.path(name))
        out = []
        for t in f.tracks:
            tick = 0
            for e in t:
                tick = tick + e.time
                if e.type == "set_tempo":
                    out.append((tick, e.tempo))
        return out

    def content(self, name):
        """the file as bytes"""
        if self.sx.symbolic:
            return self.path(name).encode()
        with open(self.path(name), "rb") as f:
            return f.read()

    def open(self, name):
        """the file as a mido object"""
        import mido
        return (FakeFile if self.sx.symbolic else mido.MidiFile)(self.path(name))

    def stamp(self, name):
        """stands for the content of a file"""
        return id(Disk.files.get(self.path(name))) if self.sx.symbolic else self.content(name)

    def load(self, name):
        """the parsed file"""
        from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI
        return CustomPrettyMIDI(self.path(name))

    def read(self, name, how="path"):
        from neural_graph_composer.midi_reader import MidiReader
        return MidiReader.read({"path": self.path, "bytes": self.content, "object": self.open}[how](name))

    def write(self, seqs, name, **kw):
        from neural_graph_composer.midi_reader import MidiReader
        return MidiReader.write(seqs, self.path(name), **kw)


class _FakePath:
    exists = isfile = staticmethod(lambda p: p in Disk.files)

    def __getattr__(self, n):
        return getattr(os.path, n)


class FakeOs:
    path = _FakePath()

    def __getattr__(self, n):
        return getattr(os, n)
