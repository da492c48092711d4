"""Notes: validity, overlap, order, quantisation, shift/stretch/copy."""
PROPS = ("C01", "C02", "C03", "C04", "C05")
PRELOAD = ("neural_graph_composer.midi.midi_note",)

from symex.api import harness
from harness.common import *  # noqa


@harness("C02", "start/end times k/8 in [0,8]; all pitches")
def overlap_iff(sx):
    a = mk_note(sx, "a", hi=8)
    b = mk_note(sx, "b", hi=8)
    r = a.overlaps(b)
    want = sx.and_(a.start_time < b.end_time, b.start_time < a.end_time)
    sx.observe("r", bool(r))
    sx.check(sx.iff(r, want), "overlap is interval intersection")
    sx.check(sx.iff(b.overlaps(a), r), "symmetric")
    sx.check(a.overlaps(a), "reflexive")


# ------------------------------------------------------------------ C01 validity
def valid(sx, n):
    return sx.and_(n.pitch >= 0, n.pitch <= 127, n.velocity >= 0, n.velocity <= 127,
                   n.instrument >= 0, n.instrument <= 127, n.program >= 0, n.program <= 255,
                   n.start_time < n.end_time, n.numerator >= 1, n.numerator <= 255)


def clamp(sx, v, lo, hi):
    return sx.max(lo, sx.min(v, hi))


@harness("C01", "every field in [-400, 400]; times k/8 in [-4,4]")
def construct_clamps(sx):
    from neural_graph_composer.midi.midi_note import MidiNote
    p, v = sx.int("pitch", -400, 400), sx.int("vel", -400, 400)
    i, g = sx.int("inst", -400, 400), sx.int("prog", -400, 400)
    num = sx.int("num", -3, 400)
    s, e = sx.time("s", 4, lo=-4), sx.time("e", 4, lo=-4)
    n, exc = sx.attempt(lambda: MidiNote(p, s, e, program=g, instrument=i, velocity=v,
                                         numerator=num), AssertionError, ValueError)
    ok = sx.and_(s < e, num >= 1)
    if n is None:
        sx.check(sx.not_(ok), "only an empty span or a non-positive numerator is refused")
        return
    sx.check(ok, "empty span or non-positive numerator refused")
    sx.check(valid(sx, n), "valid")
    sx.check(n.pitch == clamp(sx, p, 0, 127), "pitch clamped to nearest")
    sx.check(n.velocity == clamp(sx, v, 0, 127), "velocity clamped to nearest")
    sx.check(n.instrument == clamp(sx, i, 0, 127), "instrument clamped to nearest")
    sx.check(n.program == clamp(sx, g, 0, 255), "program clamped to nearest")
    sx.check(n.numerator == clamp(sx, num, 1, 255), "numerator")
    sx.check(sx.and_(n.start_time == s, n.end_time == e), "times kept")
    sx.check(sx.and_(n.event_start_time == s, n.event_end_time == e), "event times")
    sx.check(n.duration() == e - s, "duration")
    sx.check(name_of(sx, n.pitch_name, n.pitch), "pitch name")
    sx.check(sx.not_(n.is_quantized()), "not quantized")
    sx.observe("n", key(n))


@harness("C01", "denominator in [-2, 300], every value (solver-enumerated)")
def construct_denominator(sx):
    from neural_graph_composer.midi.midi_note import MidiNote
    den = sx.int("den", -2, 300)
    pow2 = sx.any_(den == (1 << k) for k in range(0, 9))
    n, exc = sx.attempt(lambda: MidiNote(60, 0.0, 1.0, denominator=den), AssertionError, ValueError)
    sx.check(sx.iff(n is not None, pow2), "accepted iff power of two")
    if n is not None:
        sx.check(sx.any_(n.denominator == (1 << k) for k in range(0, 9)), "power of two kept")
        sx.check(sx.implies(den <= 128, n.denominator == den), "denominator kept")


@harness("C01", "one and two setter calls with arbitrary values on an arbitrary valid note",
         params=[{"ops": o} for o in ("pitch", "program", "start", "end", "start,end", "end,start",
                                      "pitch,start", "qs", "qe", "qs,qe")])
def setters_guard(sx, ops):
    n = mk_note(sx, "n", vel=(0, 127), inst=(0, 127), prog=(0, 255))
    for k, op in enumerate(ops.split(",")):
        before = key(n)
        iv = sx.int(f"v{k}", -300, 300)
        tv = sx.time(f"t{k}", 6, lo=-2)
        if op == "pitch":
            legal, fn = sx.and_(iv >= 0, iv <= 127), lambda: setattr(n, "pitch", iv)
        elif op == "program":
            legal, fn = sx.and_(iv >= 0, iv <= 255), lambda: setattr(n, "program", iv)
        elif op == "start":
            legal = sx.and_(tv >= 0, tv < n.end_time)
            fn = lambda: setattr(n, "start_time", tv)
        elif op == "end":
            legal = sx.and_(tv >= 0, tv > n.start_time)
            fn = lambda: setattr(n, "end_time", tv)
        elif op == "qs":
            legal, fn = iv >= 0, lambda: setattr(n, "quantized_start_step", iv)
        else:
            legal, fn = iv >= 0, lambda: setattr(n, "quantized_end_step", iv)
        _, exc = sx.attempt(lambda: (fn(), 1)[1], AssertionError, ValueError)
        sx.check(sx.iff(exc is None, legal), f"{op}: refused iff illegal")
        if exc is not None:
            sx.check(sx.tup_eq(key(n), before), f"{op}: refused edit changes nothing")
        else:
            got = {"pitch": n.pitch, "program": n.program, "start": n.start_time,
                   "end": n.end_time, "qs": n.quantized_start_step,
                   "qe": n.quantized_end_step}[op]
            sx.check(got == (tv if op in ("start", "end") else iv), f"{op}: value stored")
        sx.check(valid(sx, n), f"{op}: still valid")
        if op == "pitch":
            sx.check(name_of(sx, n.pitch_name, n.pitch), "pitch name follows pitch")
    sx.observe("n", key(n))


@harness("C01", "12 pitch classes x octaves 0..8 (solver-enumerated), times k/8 in [0,4]")
def from_name(sx):
    from neural_graph_composer.midi.midi_note import MidiNote
    names = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]
    pc, octv = sx.int("pc", 0, 11), sx.int("oct", 0, 8)
    s, e, v = sx.time("s", 4), sx.time("e", 4), sx.int("v", 0, 127)
    sx.assume(s < e)
    n = MidiNote.from_name(names[int(pc)] + str(int(octv)), s, e, velocity=v, program=3,
                           instrument=5, is_drum=True)
    sx.check(sx.and_(n.pitch == 12 * (octv + 1) + pc, n.velocity == v, n.start_time == s,
                     n.end_time == e, n.program == 3, n.instrument == 5), "fields")
    sx.check(n.is_drum, "drum")
    n = MidiNote.from_name(names[int(pc)] + str(int(octv)), s, e)
    sx.check(sx.and_(n.velocity == 127, n.program == 0, n.instrument == 0, n.start_time == s, n.end_time == e), "defaults")
    sx.check(not n.is_drum, "melodic unless asked")


# ------------------------------------------------------------------ C03 order and equality
def any_note(sx, n, den=8, hi=4, drum=True, **kw):
    d = sx.flag(n + ".drum") if drum else False
    return mk_note(sx, n, hi=hi, den=den, prog=(0, 255), inst=(0, 127), is_drum=d,
                   voice=sx.int(n + ".voice", 0, 999),
                   numerator=sx.int(n + ".num", 1, 999), **kw)


@harness("C03", "two notes, every field symbolic; times k/8 in [0,4] or k/2^24 (around the 1e-6 tolerance)",
         params=[{"den": 8}, {"den": 1 << 24}])
def order_pair(sx, den):
    hi = 4 if den == 8 else 64.0 / den
    a, b = mk_note(sx, "a", hi=hi, den=den), mk_note(sx, "b", hi=hi, den=den)
    lt, gt = bool(a < b), bool(b < a)
    le, ge = bool(a <= b), bool(b <= a)
    sx.observe("r", [lt, gt, le, ge])
    sx.check(not (lt and gt), "lt asymmetric")
    sx.check(not lt or le, "lt implies le")
    sx.check(lt or ge, "not lt implies reverse le")
    sx.check(not bool(a < a) and bool(a <= a), "reflexive")
    if den == 8:
        want = sx.or_(a.start_time < b.start_time, sx.and_(a.start_time == b.start_time, sx.or_(
            a.end_time < b.end_time, sx.and_(a.end_time == b.end_time, a.pitch < b.pitch))))
        sx.check(sx.iff(lt, want), "lexicographic by start, end, pitch")
        wle = sx.or_(a.start_time < b.start_time, sx.and_(a.start_time == b.start_time,
                                                          a.end_time <= b.end_time))
        sx.check(sx.iff(le, wle), "le by start then end")


@harness("C03", "three notes, times k/8 in [0,4], all pitches")
def order_transitive(sx):
    a, b, c = (mk_note(sx, n, vel=(100, 100)) for n in "abc")
    if a < b and b < c:
        sx.check(bool(a < c), "transitive")
    elif not (a < b) and not (b < a) and not (b < c) and not (c < b):
        sx.check(not bool(a < c) and not bool(c < a), "incomparability transitive")
    else:
        sx.check(True, "other")


@harness("C03", "two notes, every field symbolic; times k/8 in [0,4]")
def equality_fields(sx):
    a, b = any_note(sx, "a"), any_note(sx, "b")
    same = sx.tup_eq(key(a), key(b))
    r = bool(a == b)
    sx.check(sx.iff(r, same), "equal iff every field equal")
    sx.check(bool(b == a) == r, "symmetric")
    sx.check(bool(a == a), "reflexive")
    sx.check(not (a == 5) and not (a == None), "not equal to other types")  # noqa
    sx.check(bool(a != b) == (not r), "ne is the negation")
    if r:
        sx.check(bool(a <= b) and bool(b <= a) and not bool(a < b), "equal notes are not ordered")


@harness("C03", "two notes, quantised steps in [-1,99999], denominators in {1,2,4,8}")
def equality_steps(sx):
    a = mk_note(sx, "a", vel=(90, 90), pitch=(60, 61), denominator=sx.choice("da", [1, 2, 4, 8]),
                quantized_start_step=sx.int("a.qs", -1, 99999), quantized_end_step=sx.int("a.qe", -1, 99999))
    b = mk_note(sx, "b", vel=(90, 90), pitch=(60, 61), denominator=sx.choice("db", [1, 2, 4, 8]),
                quantized_start_step=sx.int("b.qs", -1, 99999), quantized_end_step=sx.int("b.qe", -1, 99999))
    sx.check(sx.iff(bool(a == b), sx.tup_eq(key(a), key(b))), "equal iff every field equal")


# ------------------------------------------------------------------ C04 quantisation
QP = [{"sps": s, "amount": a} for s in (1, 2, 3, 4, 8) for a in (0.5, 0.25, 0.75, 1.0)]
QT = [{"sps": s, "amount": a} for s in (1, 2, 3, 4, 5, 8, 12, 16, 24, 100) for a in (0.5, 0.125, 0.25, 0.75, 1.0)]


def steps_ok(sx, n, s, e, sps, amount, msg):
    qs, qe = n.quantized_start_step, n.quantized_end_step
    sx.check(sx.and_(qs >= 0, qs < qe), msg + ": 0 <= start step < end step")
    sx.check(sx.and_(qs == int_of(sx, qs), qe == int_of(sx, qe)), msg + ": whole steps")
    sx.check(sx.and_(qs <= s * sps + (1 - amount), qs > s * sps - amount),
             msg + ": start step is the nearest step")
    lo = e * sps + (1 - amount)
    if sps == 1:
        sx.check(sx.and_(qe >= lo, qe < lo + 2), msg + ": end step covers the end")
    else:
        sx.check(sx.and_(qe >= lo, qe < lo + 1), msg + ": end step covers the end")
    sx.check(n.is_quantized(), msg + ": flagged quantised")
    sx.check(sx.and_(n.start_time >= 0, n.start_time < n.end_time), msg + ": span valid")


def int_of(sx, v):
    from symex import core
    return core.to_int(v)


@harness("C04", "times k/16 in [0,8]; sps/amount from the listed values", params=QP, thorough=QT)
def quantize_fresh(sx, sps, amount):
    n = mk_note(sx, "n", hi=8, den=16, prog=(0, 255), inst=(0, 127))
    before = key(n)
    s, e = n.start_time, n.end_time
    q = n.quantize(sps=sps, amount=amount)
    sx.check(q is not n, "new object")
    sx.check(sx.tup_eq(key(n), before), "original untouched")
    sx.check(not bool(n.is_quantized()), "original not quantised")
    steps_ok(sx, q, s, e, sps, amount, "fresh")
    sx.check(sx.tup_eq((q.pitch, q.velocity, q.program, q.instrument, q.voice, q.numerator,
                        q.denominator), (n.pitch, n.velocity, n.program, n.instrument, n.voice,
                                         n.numerator, n.denominator)), "other fields kept")
    d = q.start_time - q.quantized_start_step * (1.0 / sps)
    late = sx.and_(q.quantized_start_step * (1.0 / sps) > e - 0.00701,
                   sx.or_(q.start_time == e - 0.001, sx.eq(q.start_time, 0.0)))
    sx.check(sx.or_(sx.and_(d <= 0.00501, d >= -0.00501), late),
             "start time on the grid, or just before the end when the grid point is not earlier")
    d = q.end_time - q.quantized_end_step * (1.0 / sps)
    grid = sx.and_(d <= 0.00501, d >= -0.00501)
    kept = q.end_time - q.start_time - (e - s)
    sx.check(sx.or_(grid, sx.and_(kept <= 1e-9, kept >= -1e-9)),
             "end time on the grid or duration kept")
    sx.observe("q", [q.quantized_start_step, q.quantized_end_step, q.start_time, q.end_time])
    n.quantize_in_place(sps=sps, amount=amount)
    sx.check(sx.tup_eq(key(n), key(q)), "in place agrees with quantize")


@harness("C04", "times k/16 in [0,6]; quantised twice, second grid from the listed values",
         params=[{"s1": a, "s2": b} for a in (1, 2, 4) for b in (1, 2, 4, 8)])
def requantize(sx, s1, s2):
    n = mk_note(sx, "n", hi=6, den=16, vel=(100, 100))
    n.quantize_in_place(sps=s1)
    s, e = n.start_time, n.end_time
    n.quantize_in_place(sps=s2)
    steps_ok(sx, n, s, e, s2, 0.5, "again")
    sx.observe("q", [n.quantized_start_step, n.quantized_end_step, n.start_time, n.end_time])


@harness("C04", "times k/16 in [0,8]; grid and rounding amount left out")
def quantize_defaults(sx):
    n = mk_note(sx, "n", hi=8, den=16)
    q, r, m = n.quantize(sps=4, amount=0.5), n.quantize(), n.make_copy()
    m.quantize_in_place()
    sx.check(sx.tup_eq(key(q), key(r)), "four steps a second, half up")
    sx.check(sx.tup_eq(key(q), key(m)), "in place too")


@harness("C04", "sps in [-3,0], amount k/8 in [-1,0]")
def quantize_refuses(sx):
    n = mk_note(sx, "n")
    before = key(n)
    if sx.flag("badsps"):
        sps, am = sx.int("sps", -3, 0), 0.5
    else:
        sps, am = 4, sx.time("am", 0, lo=-1)
    _, e1 = sx.attempt(lambda: n.quantize(sps=sps, amount=am), ValueError)
    _, e2 = sx.attempt(lambda: n.quantize_in_place(sps=sps, amount=am), ValueError)
    sx.check(e1 is not None and e2 is not None, "refused")
    sx.check(sx.tup_eq(key(n), before), "unchanged")


@harness("C04", "time k/16 in [-4,8], sps in 1..8 symbolic pair via listed values",
         params=[{"sps": s} for s in (1, 2, 3, 4, 8)])
def nearest_step(sx, sps):
    from neural_graph_composer.midi.midi_note import MidiNote
    t = sx.time("t", 8, 16, lo=-4)
    r = MidiNote.quantize_to_nearest_step(t, sps)
    sx.check(r >= 0, "non negative")
    sx.check(sx.implies(t >= 0, sx.and_(r <= t * sps + 0.5, r > t * sps - 0.5)), "nearest")
    sx.check(sx.implies(t * sps <= -0.5, r == 0), "clamped at zero")
    u = sx.time("u", 8, 16, lo=-4)
    sx.check(sx.implies(t <= u, r <= MidiNote.quantize_to_nearest_step(u, sps)), "monotone")
    sx.observe("r", r)


@harness("C04", "quantised steps in [0,99999], sps in 1..8 listed", params=[{"sps": s} for s in (1, 2, 4, 8)])
def step_durations(sx, sps):
    a, b = sx.int("qs", 0, 99999), sx.int("qe", 0, 99999)
    sx.assume(a < b)
    n = mk_note(sx, "n", quantized_start_step=a, quantized_end_step=b)
    sx.check(n.step_duration_in_samples() == b - a + 1, "samples")
    sx.check(n.compute_step_duration_in_seconds(sps) == (b - a) / sps, "seconds")
    m = mk_note(sx, "m")
    _, e1 = sx.attempt(lambda: m.step_duration_in_samples(), ValueError)
    _, e2 = sx.attempt(lambda: m.compute_step_duration_in_seconds(sps), ValueError)
    sx.check(e1 is not None and e2 is not None, "unquantised note has no step duration")


# ------------------------------------------------------------------ C05 shift, stretch, copy
@harness("C05", "times k/8 in [0,4], offsets k/8 in [-8,8], factors k/4 in (0,4]")
def shift_stretch(sx):
    n = mk_note(sx, "n", prog=(0, 255), inst=(0, 127))
    s, e = n.start_time, n.end_time
    rest = key(n)[:2] + key(n)[4:]
    d = sx.time("d", 8, lo=-8)
    n.shift_time(d)
    sx.check(sx.and_(n.start_time == s + d, n.end_time == e + d), "shift moves both ends")
    sx.check(n.duration() == e - s, "shift keeps the duration")
    n.shift_time(-d)
    sx.check(sx.and_(n.start_time == s, n.end_time == e), "shift back")
    sx.check(sx.tup_eq(key(n)[:2] + key(n)[4:], rest), "shift changes nothing else")


@harness("C05", "times k/8 in [0,4], factor from the listed values",
         params=[{"f": f} for f in (0.25, 0.5, 1, 1.5, 2, 3.0, 8)])
def stretch_scale(sx, f):
    n = mk_note(sx, "n", prog=(0, 255), inst=(0, 127))
    s, e = n.start_time, n.end_time
    rest = key(n)[:2] + key(n)[4:]
    n.stretch(f)
    sx.check(sx.and_(n.start_time == s * f, n.end_time == e * f), "stretch scales both ends")
    sx.check(n.start_time < n.end_time, "span stays non-empty")
    sx.check(sx.tup_eq(key(n)[:2] + key(n)[4:], rest), "stretch changes nothing else")


@harness("C05", "every field symbolic, steps in [-1,99999]; then one edit of either object",
         params=[{"edit": e} for e in ("shift", "stretch", "pitch", "start", "end", "qs", "program",
                                       "none")])
def copy_independent(sx, edit):
    a, b = sx.int("qs", -1, 99999), sx.int("qe", -1, 99999)
    n = any_note(sx, "n", quantized_start_step=a, quantized_end_step=b,
                 denominator=sx.choice("den", [1, 2, 4, 8, 16]))
    c = n.make_copy()
    k = key(n)
    sx.check(c is not n, "new object")
    sx.check(sx.tup_eq(key(c), k), "copy has every field")
    sx.check(bool(c == n), "copy equals the original")
    sx.check(bool(c.is_quantized()) == bool(n.is_quantized()), "quantised state")
    x, y = (c, n) if sx.flag("which") else (n, c)
    if edit == "shift":
        x.shift_time(1.5)
    elif edit == "stretch":
        x.stretch(2)
    elif edit == "pitch":
        x.pitch = sx.int("p", 0, 127)
    elif edit == "start":
        x.start_time = x.end_time - 0.0625 if bool(x.end_time >= 1) else x.start_time
    elif edit == "end":
        x.end_time = x.end_time + 1
    elif edit == "qs":
        x.quantized_start_step = 3
    elif edit == "program":
        x.program = sx.int("g", 0, 255)
    sx.check(sx.tup_eq(key(y), k), "editing one leaves the other alone")


@harness("C05", "override steps in [0,99999]")
def copy_with_steps(sx):
    n = any_note(sx, "n", quantized_start_step=sx.int("qs", -1, 99999),
                 quantized_end_step=sx.int("qe", -1, 99999))
    a, b = sx.int("a", 0, 99999), sx.int("b", 0, 99999)
    c = n.make_copy(quantized_start_step=a, quantized_end_step=b)
    k = list(key(n))
    k[6], k[7] = a, b
    sx.check(sx.tup_eq(key(c), tuple(k)), "copy with new steps")
