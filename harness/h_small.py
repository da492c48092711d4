"""Signatures, control changes, pitch bends, instruments, JSON notes."""
PROPS = ("C28", "C30", "C31", "C32")
PRELOAD = ("neural_graph_composer.midi.midi_time_signature", "neural_graph_composer.midi.midi_key_signature", "neural_graph_composer.midi.midi_control_change", "neural_graph_composer.midi.midi_pitch_bend", "neural_graph_composer.midi.midi_instruments", "neural_graph_composer.midi.midi_note")

from symex.api import harness
from harness.common import *  # noqa

REFUSED = (AssertionError, ValueError, TypeError)


def near(sx, x, y, tol=1e-9):
    return sx.and_(x - y <= tol, y - x <= tol)


# ------------------------------------------------------------------ C28 signatures
@harness("C28", "quarters per minute k/4 in [-8,300], resolution -3..1000")
def tempo_refused(sx):
    from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature
    q, r, t = sx.time("q", 300, den=4, lo=-8), sx.int("res", -3, 1000), sx.time("t", 8)
    s, exc = sx.attempt(lambda: MidiTempoSignature(t, q, r), *REFUSED)
    sx.check(sx.iff(exc is None, sx.and_(q > 0, r > 0)), "accepted iff tempo and resolution are positive")
    if s is not None:
        sx.check(sx.and_(s.qpm == q, s.resolution == r, s.midi_time == t), "kept")


@harness("C28", "quarters per minute k/4 in (0,300], nine resolutions",
         params=[{"res": r} for r in (1, 24, 96, 220, 384, 480, 960, 15360, 32767)])
def tempo_units(sx, res):
    from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature
    q = sx.time("q", 300, den=4)
    sx.assume(q > 0)
    s = MidiTempoSignature(0.0, q, res)
    per_quarter = s.seconds_per_quarter
    sx.check(near(sx, per_quarter * q, 60.0), "a minute holds qpm quarters")
    sx.check(near(sx, s.seconds_per_tick * res, per_quarter), "a quarter holds resolution ticks")
    sx.check(s.bpm * 4 == q, "bpm and qpm")
    b = sx.time("b", 80, den=4)
    s.bpm = b
    sx.check(sx.and_(s.bpm == b, s.qpm == 4 * b), "bpm set")
    u = sx.int("tempo", 10000, 6000000)
    sx.check(near(sx, MidiTempoSignature.tempo_to_qpm(u) * u, 60e6, 1e-4), "microseconds per quarter")


@harness("C28", "numerator -2..40, denominator -2..140, thorough -2..1100 (solver-enumerated), text and fractional values",
         params=[{"kind": k, "top": 140} for k in ("int", "frac", "text")],
         thorough=[{"kind": k, "top": 1100} for k in ("int", "frac", "text")])
def meter_refused(sx, kind, top):
    from neural_graph_composer.midi.midi_time_signature import MidiTimeSignature
    n, t = sx.int("num", -2, 40), sx.time("t", 8)
    d = sx.int("den", -2, top if kind == "int" else 16)
    num, den = (n, d) if kind == "int" else ((n, float(int(d))) if kind == "frac" else (n, str(int(d))))
    s, exc = sx.attempt(lambda: MidiTimeSignature(t, num, den), ValueError, TypeError)
    pow2 = sx.any_(d == (1 << k) for k in range(0, 11))
    ok = sx.and_(n > 0, pow2) if kind == "int" else False
    sx.check(sx.iff(exc is None, ok), "accepted iff both are whole, positive, denominator a power of two")
    if s is not None:
        sx.check(sx.and_(s.numerator == n, s.denominator == d, s.midi_time == t), "kept")


@harness("C28", "mode -3..5, key -3..30")
def key_mode(sx):
    from neural_graph_composer.midi.midi_key_signature import MidiKeySignature, KeySignatureType
    m, k, t = sx.int("mode", -3, 5), sx.int("key", -3, 30), sx.time("t", 8)
    s, exc = sx.attempt(lambda: MidiKeySignature(t, k, m), ValueError)
    sx.check(sx.iff(exc is None, sx.or_(m == 0, m == 1)), "accepted iff major or minor")
    if s is not None:
        sx.check(sx.and_(s.midi_key == k, s.midi_time == t), "kept")
        sx.check(sx.iff(s.mode is KeySignatureType.MAJOR, m == 0), "mode")
        sx.check(s.mode in (KeySignatureType.MAJOR, KeySignatureType.MINOR), "mode known")


@harness("C28", "two signatures of each kind; times k/8 in [0,8000], order numbers 0..3",
         params=[{"kind": k} for k in ("tempo", "time", "key", "control")])
def signature_order(sx, kind):
    from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature, MidiTimeSignature
    from neural_graph_composer.midi.midi_key_signature import MidiKeySignature
    from neural_graph_composer.midi.midi_control_change import MidiControlChange
    mk = {"tempo": lambda t: MidiTempoSignature(t, 120.0), "time": lambda t: MidiTimeSignature(t, 3, 4),
          "key": lambda t: MidiKeySignature(t, 3, 1), "control": lambda t: MidiControlChange(7, 1, t)}[kind]
    out = []
    for k in "ab":
        t = sx.time("t" + k, 8000)
        x = mk(t)
        x.seq = sx.int("seq" + k, 0, 3)
        out.append((x, t))
    (a, ta), (b, tb) = out
    want = sx.or_(ta < tb, sx.and_(ta == tb, a.seq < b.seq))
    sx.check(sx.iff(a < b, want), "by time, then by order number")
    s = sorted([a, b])
    sx.check(sx.implies(ta < tb, sx.and_(s[0] is a, s[1] is b)), "sorted by time")
    sx.check(sx.implies(tb < ta, sx.and_(s[0] is b, s[1] is a)), "sorted by time")


# ------------------------------------------------------------------ C30 control changes, pitch bends
def clamp(sx, v, lo, hi):
    return sx.max(lo, sx.min(v, hi))


def cc_fields(c):
    return (c.cc_number, c.cc_value, c.cc_time, c.program, c.instrument, 1 if c.is_drum else 0,
            c.quantized_step, c.quantized_start_step, c.quantized_end_step)


def mk_cc(sx, n, drum=True, steps=True):
    from neural_graph_composer.midi.midi_control_change import MidiControlChange
    kw = {}
    if steps:
        qs = sx.int(n + ".qs", -1, 99999)
        kw = dict(quantized_start_step=qs, quantized_end_step=sx.ite(qs < 0, -1, qs + sx.int(n + ".ql", 1, 999)))
    c = MidiControlChange(sx.int(n + ".num", 0, 127), sx.int(n + ".val", 0, 127), sx.time(n + ".t", 8),
                          sx.int(n + ".prog", 0, 127), sx.int(n + ".inst", 0, 127), drum,
                          sx.int(n + ".q", 1, 32), **kw)
    c.seq = sx.int(n + ".seq", 0, 999)
    return c


@harness("C30", "every field in [-400,400], time k/8 in [-8,8]")
def cc_clamped(sx):
    from neural_graph_composer.midi.midi_control_change import MidiControlChange
    v = {k: sx.int(k, -400, 400) for k in ("num", "val", "prog", "inst", "q")}
    t, d = sx.time("t", 8, lo=-8), sx.flag("drum")
    qs, qe = sx.int("qs", -2, 99999), sx.int("qe", -2, 99999)
    c = MidiControlChange(v["num"], v["val"], t, v["prog"], v["inst"], d, v["q"], qs, qe)
    sx.check(sx.tup_eq(cc_fields(c), (clamp(sx, v["num"], 0, 255), clamp(sx, v["val"], 0, 255), sx.max(0, t),
                                      clamp(sx, v["prog"], 0, 255), clamp(sx, v["inst"], 0, 255),
                                      1 if d else 0, clamp(sx, v["q"], 1, 32), qs, qe)), "nearest legal value")
    sx.check(sx.iff(c.is_quantized(), sx.and_(qs >= 0, qe >= 0)), "quantised iff it has steps")
    sx.observe("c", cc_fields(c))


@harness("C30", "any control change with or without steps, one or two setter calls",
         params=[{"ops": o} for o in ("q", "qs", "qe", "qs,qe", "qe,qs")])
def cc_setters(sx, ops):
    c = mk_cc(sx, "c")
    for k, op in enumerate(ops.split(",")):
        v, before, was = sx.int(f"v{k}", -5, 99999), cc_fields(c), c.is_quantized()
        if op == "q":
            legal, fn = sx.and_(v >= 1, v <= 32), lambda: setattr(c, "quantized_step", v)
        elif op == "qs":
            legal = sx.and_(v >= 0, v < c.quantized_end_step)
            fn = lambda: setattr(c, "quantized_start_step", v)
        else:
            legal = sx.and_(v >= 0, v > c.quantized_start_step)
            fn = lambda: setattr(c, "quantized_end_step", v)
        _, exc = sx.attempt(lambda: (fn(), 1)[1], ValueError)
        sx.check(sx.iff(exc is None, legal), f"{op}: refused iff illegal")
        after, i = list(before), {"q": 6, "qs": 7, "qe": 8}[op]
        if exc is None:
            after[i] = v
        sx.check(sx.tup_eq(cc_fields(c), after), f"{op}: only that field changes, a refusal changes nothing")
        if exc is not None:
            sx.check(sx.iff(c.is_quantized(), was), f"{op}: refusal keeps the state")


@harness("C30", "times k/16 in [0,8]; grids 0..40 steps/s; amounts 1/4, 1/2, 3/4, 1; copy and in place",
         params=[{"place": p, "amount": a} for p in (False, True) for a in (0.25, 0.5, 0.75, 1.0)])
def cc_quantised(sx, place, amount):
    c = mk_cc(sx, "c", steps=False)
    before, seq = cc_fields(c), c.seq
    sps = sx.int("sps", 0, 40)
    fn = (lambda: (c.quantize_in_place(sps=sps, amount=amount), c)[1]) if place else (
        lambda: c.quantize(sps=sps, amount=amount))
    r, exc = sx.attempt(fn, ValueError)
    sx.check(sx.iff(exc is None, sx.and_(sps >= 1, sps <= 32)), "refused iff the grid is out of range")
    if exc is not None:
        sx.check(sx.tup_eq(cc_fields(c), before), "refusal changes nothing")
        sx.check(not c.is_quantized(), "refusal keeps the state")
        return
    q, x = r.quantized_start_step, c.cc_time * sps + (1 - amount)
    sx.check(sx.and_(q <= x, x < q + 1), "nearest step by the rounding amount")
    sx.check(r.quantized_end_step > q, "positive length")
    sx.check(bool(r.is_quantized()), "quantised")
    sx.check(r.quantized_step == sps, "grid recorded")
    sx.check(sx.tup_eq(cc_fields(r)[:6], before[:6]), "other fields kept")
    sx.check(r.seq == seq, "order number kept")
    if not place:
        sx.check(r is not c, "a copy")
        sx.check(sx.tup_eq(cc_fields(c), before), "original untouched")


@harness("C30", "any control change; overrides of time and steps; then one edit",
         params=[{"over": o} for o in ("", "time", "steps", "start", "end")])
def cc_copied(sx, over):
    c = mk_cc(sx, "c", drum=sx.flag("drum"))
    before, kw = list(cc_fields(c)), {}
    if over == "time":
        kw["cc_time"] = before[2] = sx.time("t", 8)
    if over in ("steps", "start"):
        kw["quantized_start_step"] = before[7] = sx.int("s", 0, 9999)
    if over in ("steps", "end"):
        kw["quantized_end_step"] = before[8] = sx.int("e", 10000, 99999)
    orig = cc_fields(c)
    r = c.make_copy(**kw)
    sx.check(sx.tup_eq(cc_fields(r), before), "copied")
    sx.check(r.seq == c.seq, "order number")
    sx.check(sx.iff(r.is_quantized(), sx.and_(before[7] >= 0, before[8] >= 0)), "state")
    sx.check(sx.iff(r == c, sx.tup_eq(before, orig)), "equal iff every field is")
    d = sx.time("d", 4)
    r.shift_time(d)
    r.cc_value = 3
    sx.check(sx.tup_eq(cc_fields(c), orig), "original not edited")
    sx.check(r.cc_time == before[2] + d, "shifted")


@harness("C30", "two control changes, every field free")
def cc_equal(sx):
    a, b = mk_cc(sx, "a", drum=sx.flag("da")), mk_cc(sx, "b", drum=sx.flag("db"))
    same = sx.tup_eq(cc_fields(a), cc_fields(b))
    sx.check(sx.iff(a == b, same), "equal iff every field is")
    sx.check(sx.iff(a != b, sx.not_(same)), "unequal otherwise")


@harness("C30", "controller numbers 0..140; standard descriptions by number")
def cc_names(sx):
    from neural_graph_composer.midi.midi_control_change import MidiControlChange
    t = MidiControlChange.MIDI_CC_NAME_TO_CC
    std = {0: "bank", 1: "modulation", 2: "breath", 4: "foot", 5: "portamento", 7: "volume", 8: "balance",
           10: "pan", 11: "expression", 64: "damper", 66: "sostenuto", 67: "soft", 91: "effect 1",
           96: "increment", 97: "decrement", 120: "all sound off", 121: "reset all", 122: "local",
           123: "all notes off", 124: "omni mode off", 125: "omni mode on", 126: "mono", 127: "poly"}
    n = sx.int("n", 0, 140)
    a = t.get(int(n))
    if a is None:
        sx.check(sx.or_(n > 127, sx.and_(n >= 19, n <= 30), sx.and_(n >= 88, n <= 90)), "listed")
        return
    sx.check(a.cc_number == n, "number")
    sx.check(std.get(int(n), "") in a.description.lower(), "described")
    sx.check("{" not in a.description, "text complete")
    for b in t.values():
        same = a.cc_number == b.cc_number
        sx.check((a == b) == same and (a != b) != same and (a.description == b.description) == same,
                 "distinct descriptions for distinct numbers")
    _, exc = sx.attempt(lambda: t.__setitem__(3, a), TypeError, AttributeError)
    sx.check(exc is not None, "table frozen")


def pb_fields(b):
    return (b.amount, b.midi_time, b.program, b.instrument, 1 if b.is_drum else 0)


@harness("C30", "amount in [-9000,9000], program and instrument in [-5,140], time k/8 in [-4,8]")
def bend_refused(sx):
    from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend
    a, p, i = sx.int("a", -9000, 9000), sx.int("p", -5, 140), sx.int("i", -5, 140)
    t, d = sx.time("t", 8, lo=-4), sx.flag("drum")
    b, exc = sx.attempt(lambda: MidiPitchBend(a, t, p, i, d), ValueError)
    legal = sx.and_(a >= -8192, a <= 8191, p >= 0, p <= 127, i >= 0, i <= 127, t >= 0)
    sx.check(sx.iff(exc is None, legal), "refused iff out of range")
    if b is not None:
        sx.check(sx.tup_eq(pb_fields(b), (a, t, p, i, 1 if d else 0)), "kept")
        sx.check(sx.and_(b.event_start_time == t, b.event_end_time == t), "event times")


def mk_bend(sx, n):
    from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend
    return MidiPitchBend(sx.int(n + ".a", -8192, 8191), sx.time(n + ".t", 8), sx.int(n + ".p", 0, 127),
                         sx.int(n + ".i", 0, 127), sx.flag(n + ".d"))


@harness("C30", "two pitch bends, every field free; one setter call", params=[{"op": o} for o in ("p", "i", "t")])
def bend_edited(sx, op):
    a, b = mk_bend(sx, "a"), mk_bend(sx, "b")
    same = sx.tup_eq(pb_fields(a), pb_fields(b))
    sx.check(sx.iff(a == b, same), "equal iff every field is")
    sx.check(sx.iff(a < b, a.amount < b.amount), "ordered by amount")
    before = list(pb_fields(a))
    v = sx.time("v", 8, lo=-4) if op == "t" else sx.int("v", -5, 140)
    legal = v >= 0 if op == "t" else sx.and_(v >= 0, v <= 127)
    name = {"p": "program", "i": "instrument", "t": "midi_time"}[op]
    _, exc = sx.attempt(lambda: setattr(a, name, v), ValueError)
    sx.check(sx.iff(exc is None, legal), "refused iff out of range")
    if exc is None:
        before[{"p": 2, "i": 3, "t": 1}[op]] = v
    sx.check(sx.tup_eq(pb_fields(a), before), "only that field, and only if legal")


# ------------------------------------------------------------------ C31 instruments
FAMILIES = ["Piano", "Chromatic Percussion", "Organ", "Guitar", "Bass", "Strings", "Ensemble", "Brass", "Reed",
            "Pipe", "Synth Lead", "Synth Pad", "Synth Effects", "Ethnic", "Percussive", "Sound Effects"]


@harness("C31", "instrument -5..300; named, unnamed; kinds of argument",
         params=[{"name": n, "bad": b} for n in ("", "Celesta") for b in ("", "num", "name", "drum")
                 if not (n and b)])
def instrument_made(sx, name, bad):
    from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
    i, d = sx.int("i", -5, 300), sx.flag("drum")
    args = [1.5 if bad == "num" else i, 7 if bad == "name" else name, 1 if bad == "drum" else d]
    s, exc = sx.attempt(lambda: MidiInstrumentInfo(*args), ValueError, TypeError)
    legal = False if bad else sx.and_(i >= 0, i <= 255)
    sx.check(sx.iff(exc is None, legal), "refused iff out of range or of the wrong kind")
    if bad:
        sx.check(type(exc) is TypeError, "wrong kind")
    if s is None:
        return
    sx.check(sx.and_(s.instrument_num == i, s.is_drum == d), "kept")
    if name:
        sx.check(s.name == name, "name kept")
    else:
        for k, f in enumerate(FAMILIES):
            sx.check(sx.iff(s.name == f, sx.and_(i > 8 * k, i <= 8 * k + 8)), "family")
        sx.check(sx.iff(s.name == "Unknown", sx.or_(i == 0, i > 128)), "no family")


@harness("C31", "two instruments of any number, two names")
def instrument_equal(sx):
    from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
    xs = []
    for k in "ab":
        xs.append(MidiInstrumentInfo(sx.int("i" + k, 0, 255), sx.choice("n" + k, ["Piano", "Celesta"]),
                                     sx.flag("d" + k)))
    a, b = xs
    same = sx.and_(a.instrument_num == b.instrument_num, a.name == b.name, a.is_drum == b.is_drum)
    sx.check(sx.iff(a == b, same), "equal iff every field is")
    sx.check(sx.iff(a != b, sx.not_(same)), "unequal otherwise")
    sx.check(sx.iff(a < b, a.instrument_num < b.instrument_num), "ordered by number")
    sx.check(a != 3 and not (a == None), "not equal to something else")  # noqa
    sx.check(sx.implies(same, len({a, b}) == 1), "equal ones count once")


@harness("C31", "any named instrument, unnamed ones 0..11, 254, 255; optional entries present or not",
         params=[{"drop": d} for d in ("", "name", "is_drum", "name,is_drum")])
def instrument_dict(sx, drop):
    from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
    i, d, n = sx.int("i", 0, 255), sx.flag("d"), sx.choice("n", ["", "Celesta"])
    sx.assume(sx.or_(n != "" and "name" not in drop, i < 12, i > 253))
    a = MidiInstrumentInfo(i, n, d)
    j = a.to_dict()
    sx.check(sx.and_(j["instrument_num"] == i, j["name"] == a.name, j["is_drum"] == d), "described")
    sx.check(sorted(j) == ["instrument_num", "is_drum", "name"], "entries")
    for k in filter(None, drop.split(",")):
        del j[k]
    b = MidiInstrumentInfo.from_dict(j)
    want = MidiInstrumentInfo(i, "" if "name" in drop else a.name, False if "drum" in drop else d)
    sx.check(b == want, "read back")


# ------------------------------------------------------------------ C32 notes from JSON
@harness("C32", "any field values; every subset of the optional fields given, missing or null",
         params=[{"null": n} for n in (False, True)])
def note_from_json(sx, null):
    from neural_graph_composer.midi.midi_note import MidiNote, MidiNoteJSONDecoder
    s, e = sx.time("s", 8), sx.time("e", 8)
    sx.assume(s < e)
    d = dict(pitch=sx.int("pitch", 0, 127), start_time=s, end_time=e, program=sx.int("prog", 0, 255),
             instrument=sx.int("inst", 0, 127), velocity=sx.int("vel", 0, 127))
    want = [d["pitch"], d["velocity"], s, e, d["program"], d["instrument"], -1, -1, 0, 4, 4, 0]
    qs, ql = sx.int("qs", 0, 99999), sx.int("ql", 1, 999)
    given = {}
    for k, (name, v, pos) in enumerate((("steps", (qs, qs + ql), 6), ("voice", sx.int("voice", 0, 999), 8),
                                        ("numerator", sx.int("num", 1, 255), 9), ("denominator", 8, 10),
                                        ("is_drum", True, 11))):
        if sx.flag("has." + name):
            if name == "steps":
                given["quantized_start_step"], given["quantized_end_step"] = v
                want[6], want[7] = v
            else:
                given[name] = v
                want[pos] = 1 if v is True else v
        elif null:
            for f in (("quantized_start_step", "quantized_end_step") if name == "steps" else (name,)):
                given[f] = None
    n = MidiNote.from_json({**d, **given})
    sx.check(sx.tup_eq(key(n), want), "every field read, missing ones by default")
    sx.check(sx.iff(n.is_quantized(), want[6] != -1), "quantised iff steps given")
    if not null:
        m = MidiNoteJSONDecoder.object_hook({"__MidiNote__": True, "data": {**d, **given}})
        sx.check(sx.tup_eq(key(m), want), "decoder agrees")
    plain = {"data": 3}
    sx.check(MidiNoteJSONDecoder.object_hook(plain) is plain, "other objects are left alone")


@harness("C32", "text and bytes, notes nested in lists and dictionaries, values solver-chosen",
         params=[{"form": f} for f in ("str", "bytes")], str_mode="concrete")
def json_text(sx, form):
    from neural_graph_composer.midi.midi_note import MidiNoteJSONDecoder
    import json
    p, n = int(sx.int("pitch", 58, 62)), int(sx.int("n", 0, 2))
    one = {"__MidiNote__": True, "data": {"pitch": p, "start_time": 0.5, "end_time": 1.25, "is_drum": True}}
    text = json.dumps({"notes": [one] * n, "other": {"x": 1}})
    r = MidiNoteJSONDecoder().decode(text.encode("utf-8") if form == "bytes" else text)
    sx.check(len(r["notes"]) == n and r["other"] == {"x": 1}, "structure")
    for x in r["notes"]:
        sx.check(sx.tup_eq((x.pitch, x.start_time, x.end_time, 1 if x.is_drum else 0), (p, 0.5, 1.25, 1)), "note")
