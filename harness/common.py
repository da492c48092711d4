"""Builders shared by the harnesses (work symbolically and concretely)."""


def mk_note(sx, n, hi=4, den=8, pitch=(0, 127), vel=(0, 127), prog=(0, 0), inst=(0, 0),
            steps=False, drum=None, start_lo=0, min_start=None, **kw):
    from neural_graph_composer.midi.midi_note import MidiNote
    s = sx.time(n + ".start", hi, den, lo=start_lo)
    e = sx.time(n + ".end", hi, den, lo=start_lo)
    sx.assume(s < e)
    d = dict(pitch=sx.int(n + ".pitch", *pitch), start_time=s, end_time=e,
             program=sx.int(n + ".prog", *prog), instrument=sx.int(n + ".inst", *inst),
             velocity=sx.int(n + ".vel", *vel))
    if drum is not None:
        d["is_drum"] = drum
    d.update(kw)
    return MidiNote(**d)


def key(n):
    """full identity of a note"""
    return (n.pitch, n.velocity, n.start_time, n.end_time, n.program, n.instrument,
            n.quantized_start_step, n.quantized_end_step, n.voice, n.numerator, n.denominator,
            1 if n.is_drum else 0)


def brief(n):
    return (n.pitch, n.velocity, n.start_time, n.end_time)


def keys(ns):
    return [key(n) for n in ns]


def briefs(ns):
    return [brief(n) for n in ns]


def name_of(sx, name, pitch):
    """name is the note name of pitch"""
    p = getattr(name, "pitch", None)
    if p is not None:
        return p == pitch
    if sx.symbolic and type(pitch).__name__ == "SymInt":
        import librosa
        return pitch == int(librosa.note_to_midi(str(name)))
    import librosa
    return str(name) == librosa.midi_to_note(int(pitch))


class patched:
    """sets attributes for the duration of a with block"""

    def __enter__(self):
        self.old = []
        return self

    def set(self, obj, name, value):
        d = vars(obj)
        self.old.append((obj, name, name in d, d.get(name)))
        setattr(obj, name, value)

    def __exit__(self, *exc):
        for obj, name, had, v in reversed(self.old):
            if had:
                setattr(obj, name, v)
            else:
                delattr(obj, name)
