"""Note sequences: total time, merging, slicing, cloning, quantisation."""
PROPS = ("C06", "C07", "C08", "C09", "C10")
PRELOAD = ("neural_graph_composer.midi.midi_sequence",)

import itertools

from symex.api import harness
from harness.common import *  # noqa


def mods():
    from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
    from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
    from neural_graph_composer.midi.midi_note import MidiNote
    return MidiNoteSequence, MidiInstrumentInfo, MidiNote


def notes_of(sx, pre, k, drum=False, **kw):
    kw.setdefault("vel", (90, 90))
    return [mk_note(sx, f"{pre}{i}", is_drum=note_drum(drum), **kw) for i in range(k)]


def note_drum(drum):
    """drum: melodic notes in a melodic track, drum notes in a drum track, or a track of the other kind"""
    return drum in (True, "drum notes")


def track_drum(drum):
    return drum in (True, "drum track")


ODD = ("drum notes", "drum track")


def seq_of(sx, pre, k, drum=False, **kw):
    S, I, _ = mods()
    ns = notes_of(sx, pre, k, drum, **kw)
    return S(notes=list(ns), instrument=I(0, name="Inst", is_drum=track_drum(drum)), resolution=480), ns


def sorted_by_start(sx, ns):
    return sx.all_(a.start_time <= b.start_time for a, b in zip(ns, ns[1:]))


def kept(sx, part, s):
    """a part of a sequence is one of its instrument and resolution"""
    sx.check(part.instrument == s.instrument and part.resolution == s.resolution, "a part keeps instrument and resolution")


# ------------------------------------------------------------------ C06 total time
OPS = ["append", "appendL", "append0", "extend", "extendL", "add", "insert", "merge", "cut",
       "stretch", "shift", "set", "quantize", "plus"]


def apply_op(sx, seq, op, k, drum):
    S, I, _ = mods()
    if op in ("append", "extend", "add", "insert"):
        n = mk_note(sx, f"o{k}", vel=(90, 90), is_drum=note_drum(drum))
        {"append": seq.append, "extend": seq.extend, "add": seq.add_note,
         "insert": seq.insert}[op](n)
    elif op == "append0":
        seq.append([])
        seq.extend([])
    elif op in ("appendL", "extendL"):
        ns = notes_of(sx, f"o{k}", 2, drum)
        (seq.append if op == "appendL" else seq.extend)(ns)
    elif op == "merge":
        o, _ = seq_of(sx, f"o{k}", 1, drum)
        seq.merge(o)
    elif op == "cut":
        seq.cut_in_place(sx.choice(f"cut{k}", [0, 1, 2]))
    elif op == "stretch":
        seq.stretch(sx.choice(f"f{k}", [0.5, 2]))
    elif op == "shift":
        if seq.notes and not seq.is_quantized():
            d = sx.time(f"d{k}", 4, lo=-2)
            sx.assume(sx.all_(n.start_time + d >= 0 for n in seq.notes))
            seq.shift_times(d)
    elif op == "set":
        seq.notes = notes_of(sx, f"o{k}", 2, drum)
    elif op == "quantize":
        seq.quantize(sps=2)
    elif op == "plus":
        o, _ = seq_of(sx, f"o{k}", 2, drum)
        seq = seq + o
    return seq


def total_ok(sx, seq):
    ends = [n.end_time for n in seq.notes]
    return seq.total_time == (sx.max(ends) if ends else 0)


def init_for(ops):
    if ops[0] in ("plus", "appendL", "extendL", "merge") and ops[1] in ("merge", "quantize"):
        return 0
    return 1 if set(ops) & {"merge", "insert"} else 2


@harness("C06", "initial 0-2 notes then every sequence of 2 edits (thorough: 3) out of 14 kinds; times "
                "k/4 in [0,3]; melodic and drum",
         params=[{"init": init_for(o), "ops": list(o), "drum": False}
                 for o in itertools.product(OPS, repeat=2)] +
                [{"init": i, "ops": [o], "drum": True} for o in OPS for i in (0, 2)] +
                [{"init": 1, "ops": [o], "drum": d} for o in OPS for d in ODD if o != "add"] +
                [{"init": 0, "ops": [o, p], "drum": False} for o in ("append0", "cut", "stretch", "quantize")
                 for p in OPS],
         thorough=[{"init": i, "ops": list(o), "drum": d}
                   for o in itertools.product(OPS, repeat=2) for i in (0, 1) for d in (False, True)] +
                  [{"init": 1, "ops": list(o), "drum": False} for o in
                   itertools.product(["appendL", "insert", "merge", "cut", "stretch", "shift", "quantize",
                                      "plus", "set"], repeat=3)])
def total_time_history(sx, init, ops, drum):
    seq, _ = seq_of(sx, "i", init, drum, hi=3, den=4)
    sx.check(total_ok(sx, seq), "after construction")
    for k, op in enumerate(ops):
        seq = apply_op(sx, seq, op, k, drum)
        sx.check(total_ok(sx, seq), f"after {op}")
    sx.check(len(seq) == len(seq.notes), "len")
    sx.observe("t", seq.total_time)
    sx.observe("n", briefs(seq.notes))


@harness("C06", "5 (thorough: 8) notes given in one list or one by one, times k/4 in [0,3]",
         params=[{"k": 5}], thorough=[{"k": 5}, {"k": 8}])
def total_time_wide(sx, k):
    S, I, _ = mods()
    ns = notes_of(sx, "n", k, hi=3, den=4, pitch=(60, 60))
    a = S(instrument=I(0, name="Inst"))
    a.append(list(ns))
    b = S(notes=list(ns))
    c = S.from_notes(list(ns))
    d = S()
    for n in ns:
        d.add_note(n)
    e = S()
    e.extend(ns[:k // 2])
    e.extend(ns[k // 2:])
    for s, l in ((a, "append list"), (b, "constructor"), (c, "from_notes"), (d, "add_note"),
                 (e, "extend")):
        sx.check(total_ok(sx, s), l)
        sx.check(sx.multiset_eq(keys(s.notes), keys(ns)) if len(s.notes) == k else False, l + " notes")
    sx.check(d.truncate_to_last_event(0.5) == d.total_time + 0.5, "last event")
    x = mk_note(sx, "x", pitch=(60, 60), hi=8)
    d.add_note(x)
    sx.check(d.truncate_to_last_event(0.5) == d.total_time + 0.5, "last event after an edit")


@harness("C06", "value k/8 in [-4,4], int or float")
def total_time_setter(sx):
    S, I, _ = mods()
    s = S()
    v = sx.time("v", 4, lo=-4) if sx.flag("float") else sx.int("i", -4, 4)
    s.total_time = v
    sx.check(s.total_time == sx.max(0, v), "never negative")
    _, e = sx.attempt(lambda: setattr(s, "total_time", "x"), TypeError)
    sx.check(e is not None, "type")


# ------------------------------------------------------------------ C07 merge, insert, add
@harness("C07", "two sequences of 0-3 notes; times k/8 in [0,2]; all pitches",
         params=[{"a": a, "b": b, "drum": d} for a in range(0, 4) for b in range(0, 4)
                 if a + b <= 3 for d in ((False, True) if a + b <= 3 else (False,))] +
                [{"a": 1, "b": 1, "drum": d} for d in ODD] +
                [{"a": 2, "b": 2, "drum": False, "part": i} for i in range(8)],
         thorough=[{"a": a, "b": b, "drum": d} for a in range(0, 5) for b in range(0, 4) if a + b <= 5
                   for d in ((False, True) if a + b <= 4 else (False,))])
def merge_union(sx, a, b, drum, part=None):
    x, xs = seq_of(sx, "a", a, drum, hi=2)
    y, ys = seq_of(sx, "b", b, drum, hi=2)
    if part is not None:      # case split, so that the cases run in parallel
        for bit, (p, q) in enumerate(((xs[0], xs[1]), (ys[0], ys[1]), (xs[0], ys[0]))):
            c = p.start_time < q.start_time
            sx.assume(c if part >> bit & 1 else sx.not_(c))
    allk = keys(xs) + keys(ys)
    ky = keys(y.notes)
    x.merge(y)
    sx.check(sx.multiset_eq(keys(x.notes), allk), "multiset union of the notes")
    sx.check(sorted_by_start(sx, x.notes), "sorted by start")
    sx.check(all(not bool(q < p) for p, q in zip(x.notes, x.notes[1:])), "sorted by note order")
    sx.check(total_ok(sx, x), "total time")
    sx.check(keys(y.notes) == ky if not sx.symbolic else
             len(y.notes) == len(ky) and bool(sx.all_(sx.tup_eq(p, q) for p, q in
                                                      zip(keys(y.notes), ky))), "other unchanged")
    sx.observe("n", briefs(x.notes))


@harness("C07", "1-4 notes inserted one by one in any order; times k/8 in [0,2]; all pitches",
         params=[{"k": k, "drum": d} for k in (1, 2, 3) for d in (False, True)] + [{"k": 2, "drum": d} for d in ODD] + [{"k": 4, "drum": False}],
         thorough=[{"k": k, "drum": d} for k in (1, 2, 3, 4) for d in (False, True)] + [{"k": 5, "drum": False}])
def insert_sorted(sx, k, drum):
    S, I, _ = mods()
    s = S(instrument=I(0, name="Inst", is_drum=track_drum(drum)))
    ns = notes_of(sx, "n", k, drum, hi=2)
    for i, n in enumerate(ns):
        s.insert(n)
        sx.check(len(s) == i + 1, "one more note")
        sx.check(total_ok(sx, s), "total time")
    sx.check(sx.multiset_eq(keys(s.notes), keys(ns)), "same notes")
    sx.check(all(not bool(q < p) for p, q in zip(s.notes, s.notes[1:])), "sorted by note order")
    sx.observe("n", briefs(s.notes))


@harness("C07", "one note inserted into 4 or 6 (thorough 8) notes in order; times k/4 in [0,3]", params=[{"k": 4}, {"k": 6}],
         thorough=[{"k": 4}, {"k": 6}, {"k": 8}])
def insert_among(sx, k):
    """a note finds its place among many"""
    S, I, _ = mods()
    ns = notes_of(sx, "n", k, hi=3, den=4, pitch=(60, 62))
    sx.assume(sx.all_(sx.or_(a.start_time < b.start_time, sx.and_(a.start_time == b.start_time, a.end_time < b.end_time))
                      for a, b in zip(ns, ns[1:])))
    s = S(notes=list(ns), instrument=I(0, name="Inst"))
    x = mk_note(sx, "x", hi=3, den=4, pitch=(61, 61))
    s.insert(x)
    sx.check(len(s) == k + 1 and sum(y is x for y in s.notes) == 1 and [y for y in s.notes if y is not x] == ns,
             "the note is added, the others keep their order")
    sx.check(sx.all_(sx.or_(a.start_time < b.start_time, sx.and_(a.start_time == b.start_time, sx.or_(
        a.end_time < b.end_time, sx.and_(a.end_time == b.end_time, a.pitch <= b.pitch)))) for a, b in zip(s.notes, s.notes[1:])),
        "the notes are in order")
    sx.check(total_ok(sx, s), "total time")


@harness("C07", "two sequences of 0-3 notes; instrument numbers and note instruments symbolic in 0..2",
         params=[{"a": a, "b": b} for a in range(0, 4) for b in range(0, 4) if a + b <= 4])
def plus_union(sx, a, b):
    S, I, _ = mods()
    i, j = sx.int("i", 0, 2), sx.int("j", 0, 2)
    xs, ys = notes_of(sx, "a", a, inst=(0, 2)), notes_of(sx, "b", b, inst=(0, 2))
    name, drum = (sx.choice("name", ["N", "M"]), sx.flag("drum")) if (a, b) == (1, 1) else ("N", False)
    x = S(notes=list(xs), instrument=I(i, name="N"), resolution=480 if a >= b else 220)
    y = S(notes=list(ys), instrument=I(j, name=name, is_drum=drum), resolution=480 if a <= b else 220)
    legal = sx.and_(i == j, name == "N", not drum, *[n.instrument == i for n in xs + ys])
    r, e = sx.attempt(lambda: x + y, ValueError)
    sx.check(sx.iff(e is None, legal), "refused iff instruments differ")
    sx.check(len(x.notes) == a and len(y.notes) == b, "operands unchanged")
    if r is not None:
        want = keys(xs) + keys(ys)
        sx.check(len(r.notes) == len(want) and sx.all_(
            sx.tup_eq(p, q) for p, q in zip(keys(r.notes), want)), "notes of both, in order")
        sx.check(total_ok(sx, r), "total time")
        sx.check(r is not x and r is not y and r.notes is not x.notes, "new sequence")
        kept(sx, r, x)
    _, e = sx.attempt(lambda: x + 3, TypeError)
    sx.check(e is not None, "type")


@harness("C07", "instrument numbers, note instruments in 0..2, resolutions from {220,480}")
def merge_refuses(sx):
    S, I, _ = mods()
    i, j = sx.int("i", 0, 2), sx.int("j", 0, 2)
    xs, ys = notes_of(sx, "a", 2, inst=(0, 2)), notes_of(sx, "b", 1, inst=(0, 2))
    rx, ry = sx.choice("rx", [220, 480]), sx.choice("ry", [220, 480])
    x = S(notes=list(xs), instrument=I(i, name="N"), resolution=rx)
    name, drum = sx.choice("name", ["N", "M"]), sx.flag("drum")
    y = S(notes=list(ys), instrument=I(j, name=name, is_drum=drum), resolution=ry)
    legal = sx.and_(i == j, rx == ry, name == "N", not drum, *[n.instrument == i for n in xs + ys])
    _, e = sx.attempt(lambda: x.merge(y), ValueError)
    sx.check(sx.iff(e is None, legal), "refused iff instrument or resolution differ")
    if e is not None:
        sx.check(sx.all_(sx.tup_eq(p, q) for p, q in zip(keys(x.notes), keys(xs)))
                 if len(x.notes) == 2 else False, "refused merge changes nothing")


@harness("C07", "note instrument and sequence instrument in 0..127")
def add_note_instrument(sx):
    S, I, _ = mods()
    i = sx.int("i", 0, 127)
    s = S(instrument=I(i, name="N"))
    n = mk_note(sx, "n", inst=(0, 127))
    _, e = sx.attempt(lambda: s.add_note(n), ValueError)
    sx.check(sx.iff(e is None, n.instrument == i), "refused iff the instrument differs")
    sx.check(len(s) == (1 if e is None else 0), "stored")


@harness("C07", "2-4 notes in any order; times k/8 in [0,3]", params=[{"k": k} for k in (0, 1, 2, 3)],
         thorough=[{"k": k} for k in (0, 1, 2, 3, 4)])
def note_seq_order(sx, k):
    s, ns = seq_of(sx, "n", k, hi=3)
    r = s.as_note_seq()
    sx.check(len(r) == k, "one entry per note")
    want = sorted(ns, key=lambda n: n.start_time)
    sx.check(sx.all_(p == n.pitch for p, n in zip(r, want)), "pitches in order of start, ties stable")
    sx.check(sx.multiset_eq(keys(s.notes), keys(ns)), "notes kept")


@harness("C07", "2-4 notes; times k/8 in [0,3]", params=[{"k": k} for k in (0, 1, 2, 3)],
         thorough=[{"k": k} for k in (0, 1, 2, 3, 4)])
def min_step(sx, k):
    s, ns = seq_of(sx, "n", k, hi=3, pitch=(60, 60))
    m = s.calculate_min_step()
    srt = sorted(ns, key=lambda n: n.start_time)
    gaps = [b.start_time - a.start_time for a, b in zip(srt, srt[1:]) if a.end_time < b.start_time]
    sx.check(m == (sx.min(gaps) if gaps else 0.0), "smallest start distance of separated neighbours")
    sx.check(m >= 0, "non negative")


# ------------------------------------------------------------------ C08 windows
def unchanged(sx, seq, ns, k0):
    return sx.and_(len(seq.notes) == len(k0) and all(a is b for a, b in zip(seq.notes, ns)),
                   sx.all_(sx.tup_eq(a, b) for a, b in zip(keys(seq.notes), k0))
                   if len(seq.notes) == len(k0) else False)


def clip(k, end, sx):
    k = list(k)
    k[3] = sx.min(k[3], end)
    return tuple(k)


def listed(sx, got, want):
    return len(got) == len(want) and sx.all_(sx.tup_eq(a, b) for a, b in zip(got, want))


@harness("C08", "0-3 notes, window bounds k/8 in [0,5]; times k/8 in [0,4]",
         params=[{"k": k, "drum": d} for k in (0, 1, 2, 3) for d in (False, True)] + [{"k": 2, "drum": d} for d in ODD],
         thorough=[{"k": k, "drum": d} for k in (0, 1, 2, 3, 4) for d in (False, True)])
def slice_window(sx, k, drum):
    s, ns = seq_of(sx, "n", k, drum, inst=(0, 2))
    k0 = keys(ns)
    a, b = sx.time("from", 5), sx.time("to", 5)
    t0 = s.total_time
    r = s.slice(a, b)
    want = [clip(key(n), b, sx) for n in ns if bool(n.start_time >= a) and bool(n.start_time < b)]
    sx.check(listed(sx, keys(r.notes), want), "exactly the notes starting in the window, clipped")
    sx.check(sx.all_(n.end_time <= b for n in r.notes), "nothing after the window")
    sx.check(unchanged(sx, s, ns, k0), "source unchanged")
    sx.check(s.total_time == t0, "source total time")
    sx.check(all(x is not y for x in r.notes for y in s.notes), "no shared notes")
    sx.check(sx.all_(n.end_time <= r.total_time for n in r.notes), "total time covers the notes")
    sx.check(r.total_time == sx.min(t0, b), "total time")
    kept(sx, r, s)
    sx.observe("n", briefs(r.notes))


@harness("C08", "0-3 notes, quantised or not, strict slice")
def slice_strict(sx):
    s, ns = seq_of(sx, "n", 2)
    if sx.flag("q"):
        for n in ns:
            n.quantize_in_place(sps=2)
    r, e = sx.attempt(lambda: s.slice(0, 4, is_strict=True), ValueError)
    sx.check((e is None) == bool(s.is_quantized()), "strict slice needs quantised notes")


@harness("C08", "0-3 notes, end k/8 in [0,5]; times k/8 in [0,4]",
         params=[{"k": k, "drum": d} for k in (0, 1, 2, 3) for d in (False, True)] + [{"k": 2, "drum": d} for d in ODD],
         thorough=[{"k": k, "drum": d} for k in (0, 1, 2, 3, 4, 5) for d in (False, True)])
def truncate_end(sx, k, drum):
    s, ns = seq_of(sx, "n", k, drum)
    k0 = keys(ns)
    t = sx.time("end", 5)
    t0 = s.total_time
    r = s.truncate(t)
    want = [key(n) for n in ns if bool(n.end_time <= t)]
    sx.check(listed(sx, keys(r.notes), want), "exactly the notes ending in time")
    sx.check(unchanged(sx, s, ns, k0), "source unchanged")
    sx.check(s.total_time == t0, "source total time")
    sx.check(all(x is not y for x in r.notes for y in s.notes), "no shared notes")
    sx.check(sx.all_(n.end_time <= r.total_time for n in r.notes), "total time covers the notes")
    sx.check(r.total_time == sx.min(t0, t), "total time")
    kept(sx, r, s)


@harness("C08", "0-4 notes, cut size 0..5; times k/8 in [0,4]",
         params=[{"k": k, "c": c, "drum": d} for k in range(0, 5) for c in range(0, 6) for d in (False, True)] +
                [{"k": 2, "c": 1, "drum": d} for d in ODD])
def cut_first(sx, k, c, drum):
    s, ns = seq_of(sx, "n", k, drum)
    k0 = keys(ns)
    t0 = s.total_time
    r = s.cut(c)
    sx.check(listed(sx, keys(r.notes), k0[:c]), "first notes")
    sx.check(unchanged(sx, s, ns, k0), "source unchanged")
    sx.check(s.total_time == t0, "source total time")
    sx.check(total_ok(sx, r), "total time")
    kept(sx, r, s)
    r.append(mk_note(sx, "x"))
    sx.check(len(s.notes) == k, "source list not shared")
    s.cut_in_place(c)
    sx.check(listed(sx, keys(s.notes), k0[:c]), "in place: first notes")
    sx.check(total_ok(sx, s), "in place: total time")


@harness("C08", "1-3 notes, 2-3 window bounds k/8 in [0,4] in order",
         params=[{"k": k, "w": w} for k in (1, 2) for w in (2, 3)] + [{"k": 3, "w": 3}] +
                [{"k": 1, "w": 3, "drum": d} for d in (True,) + ODD],
         thorough=[{"k": k, "w": w, "drum": d} for k in (1, 2, 3) for w in (2, 3, 4) for d in (False, True)])
def extract_windows(sx, k, w, drum=False):
    s, ns = seq_of(sx, "n", k, drum, hi=4, den=4)
    k0 = keys(ns)
    ts = [sx.time(f"t{i}", 4, 4) for i in range(w)]
    sx.assume(sx.all_(a <= b for a, b in zip(ts, ts[1:])))
    past = sx.any_(t >= s.total_time for t in ts[:-1])
    subs, e = sx.attempt(lambda: s.extract(ts), TypeError)
    sx.check(sx.iff(e is not None, past), "refused iff a window starts after the end")
    sx.check(unchanged(sx, s, ns, k0), "source unchanged")
    if subs is None:
        return
    sx.check(len(subs) == w - 1, "one subsequence per window")
    order = sorted(ns, key=lambda n: n.start_time)
    for i, sub in enumerate(subs):
        want = []
        for n in order:
            if bool(n.start_time >= ts[i]) and bool(n.start_time < ts[i + 1]):
                q = list(key(n))
                q[2] = q[2] - ts[i]
                q[3] = sx.min(q[3], ts[i + 1]) - ts[i]
                want.append(tuple(q))
        sx.check(listed(sx, keys(sub.notes), want), "notes starting in the window, rebased and clipped")
        sx.check(total_ok(sx, sub), "total time of the window")
        kept(sx, sub, s)
    sx.observe("n", [briefs(x.notes) for x in subs])


@harness("C08", "1-3 notes, 1-2 split points k/4 in (0,4000], or times up to 4 and a span of 1/2, 1 or 2 seconds",
         params=[{"k": k, "p": p} for k in (1, 2) for p in (1, 2)] + [{"k": k, "p": s} for k in (1, 2)
                 for s in (1.0, 2.0)],
         thorough=[{"k": k, "p": p} for k in (1, 2, 3) for p in (1, 2)] + [{"k": k, "p": s}
                   for k in (1, 2, 3) for s in (1.0, 2.0, 0.5)], narrow=True)
def split_windows(sx, k, p):
    sx.narrow = not isinstance(p, int)
    s, ns = seq_of(sx, "n", k, hi=4, den=4)
    k0 = keys(ns)
    T = s.total_time
    if isinstance(p, int):
        pts = [sx.time(f"p{i}", 4, 4, lo=0.25) for i in range(p)]
        sx.assume(sx.all_(x < T for x in pts))
        subs = s.split(list(pts))
        cuts = [0.0] + sorted(pts)
    else:
        subs = s.split(p)
        cuts = [0.0]
        while bool(p * len(cuts) < T):
            cuts.append(p * len(cuts))
    cuts = cuts + [T]
    sx.check(unchanged(sx, s, ns, k0), "source unchanged")
    sx.check(len(subs) == len(cuts) - 1, "one subsequence per window")
    order = sorted(ns, key=lambda n: n.start_time)
    for i, sub in enumerate(subs[:len(cuts) - 1]):
        want = []
        for n in order:
            if bool(n.start_time >= cuts[i]) and bool(n.start_time < cuts[i + 1]):
                q = list(key(n))
                q[2] = q[2] - cuts[i]
                q[3] = sx.min(q[3], cuts[i + 1]) - cuts[i]
                want.append(tuple(q))
        sx.check(listed(sx, keys(sub.notes), want), "every note in exactly one window")
        kept(sx, sub, s)


@harness("C08", "no notes; any span or 1-2 points", params=[{"drum": False}, {"drum": True}])
def split_nothing(sx, drum):
    s, _ = seq_of(sx, "n", 0, drum)
    how = sx.choice("how", ["span", "skip"])
    sx.check(list(s.split(sx.time("p", 4, 4, lo=0.25), skip_boundary=how == "skip")) == [], "nothing to split")
    sx.check(len(s.notes) == 0 and s.total_time == 0, "still empty")


@harness("C08", "1-3 notes, 1-2 split points, boundaries inside a note skipped",
         params=[{"k": k, "p": p} for k in (1, 2) for p in (1, 2)] + [{"k": 3, "p": 2, "den": 1}],
         thorough=[{"k": k, "p": p} for k in (1, 2, 3) for p in (1, 2)] + [{"k": 4, "p": 2, "den": 1}])
def split_skip(sx, k, p, den=4):
    s, ns = seq_of(sx, "n", k, hi=4, den=den)
    pts = [sx.time(f"p{i}", 4, den, lo=1 / den) for i in range(p)]
    sx.assume(sx.all_(x < s.total_time for x in pts))
    subs = s.split(list(pts), skip_boundary=True)
    cuts = [0.0] + [x for x in sorted(pts) if not bool(sx.any_(sx.and_(n.start_time < x, x < n.end_time) for n in ns))]
    cuts = cuts + [s.total_time]
    sx.check(len(subs) == len(cuts) - 1, "cut at every boundary that is in no note")
    for i, sub in enumerate(subs):
        want = [n for n in ns if bool(n.start_time >= cuts[i]) and bool(n.start_time < cuts[i + 1])]
        sx.check(sx.multiset_eq([(n.pitch, n.start_time) for n in sub.notes], [(n.pitch, n.start_time - cuts[i]) for n in want]),
                 "every note in its window")
    got = [n for sub in subs for n in sub.notes]
    sx.check(len(got) == k, "every note once")
    sx.check(sx.multiset_eq([(n.pitch, n.end_time - n.start_time) for n in got],
                            [(n.pitch, n.end_time - n.start_time) for n in ns]), "no note is clipped")


@harness("C08", "2 notes, offset k/8 in [-2,4]; quantised or not")
def shift_times(sx):
    s, ns = seq_of(sx, "n", 2)
    if sx.flag("q"):
        for n in ns:
            n.quantize_in_place(sps=2)
    k0 = keys(ns)
    d = sx.time("d", 4, lo=-2)
    t0 = s.total_time
    _, e = sx.attempt(lambda: s.shift_times(d), ValueError)
    sx.check((e is not None) == bool(s.is_quantized()), "refused iff quantised")
    dd = 0 if e is not None else d
    want = [tuple(v + dd if i in (2, 3) else v for i, v in enumerate(q)) for q in k0]
    sx.check(listed(sx, keys(s.notes), want), "every note moved by the offset")
    sx.check(s.total_time == (t0 if e is not None else sx.max(0, t0 + d)), "total time moved")


# ------------------------------------------------------------------ C09 clone
def ccs_of(sx, pre, k):
    from neural_graph_composer.midi.midi_control_change import MidiControlChange
    return [MidiControlChange(sx.int(f"{pre}{i}.num", 0, 127), sx.int(f"{pre}{i}.val", 0, 127),
                              cc_time=sx.time(f"{pre}{i}.t", 4), is_drum=sx.flag(f"{pre}{i}.d"))
            for i in range(k)]


def cc_key(c):
    return (c.cc_number, c.cc_value, c.cc_time, c.program, c.instrument, 1 if c.is_drum else 0,
            c.quantized_step, c.quantized_start_step, c.quantized_end_step)


def bends_of(sx, pre, k):
    from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend
    return [MidiPitchBend(sx.int(f"{pre}{i}.amt", -8192, 8191), midi_time=i + 0.5,
                          program=sx.int(f"{pre}{i}.prog", 0, 127)) for i in range(k)]


def pb_key(b):
    return (b.amount, b.midi_time, b.program, b.instrument, 1 if b.is_drum else 0)


@harness("C09", "0-2 notes, 0-2 control changes, 0-2 pitch bends, melodic and drum; one edit afterwards",
         params=[{"k": k, "c": c, "drum": d, "edit": e} for k, c in ((0, 1), (1, 0), (2, 2), (3, 1))
                 for d in (False, True) for e in ("none", "note", "insert", "cc", "bend", "stretch", "cut", "inst", "tempo")
                 if not (e == "note" and k == 0) and not (e in ("cc", "bend") and c == 0)])
def clone_faithful(sx, k, c, drum, edit):
    S, I, _ = mods()
    s, ns = seq_of(sx, "n", k, drum)
    num = sx.int("inum", 0, 127)
    inst = I(num, name="Inst", is_drum=track_drum(drum))
    s.instrument = I(num, name="Inst", is_drum=track_drum(drum))
    for x in ccs_of(sx, "c", c):
        s.add_control_changes(x)
    for x in bends_of(sx, "b", c):
        s.add_pitch_bends(x)
    from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature
    tempo = (sx.time("tempo.t", 4), sx.int("tempo.q", 1, 300))
    s.tempo_signature = [MidiTempoSignature(*tempo)]
    s.program = sx.int("prog", 0, 127)
    s.ticks_per_quarter = 480
    s.quantized_step = 3
    t0 = s.total_time
    k0, c0, b0 = keys(s.notes), [cc_key(x) for x in s.control_changes], [pb_key(x) for x in s.pitch_bends]
    r = s.clone()

    def same(q, who):
        sx.check(listed(sx, keys(q.notes), k0), who + ": notes")
        sx.check(listed(sx, [cc_key(x) for x in q.control_changes], c0), who + ": control changes")
        sx.check(listed(sx, [pb_key(x) for x in q.pitch_bends], b0), who + ": pitch bends")
        sx.check(listed(sx, [(t.midi_time, t.qpm) for t in q.tempo_signature], [tempo]), who + ": tempo")
        sx.check(q.total_time == t0, who + ": total time")
        sx.check(q.resolution == s.resolution and q.ticks_per_quarter == 480 and q.quantized_step == 3
                 and bool(q.program == s.program), who + ": settings")
        sx.check(bool(q.instrument == inst), who + ": instrument")
    same(r, "clone")
    sx.check(r.total_quantized_steps == s.total_quantized_steps, "total steps")
    sx.check(r is not s and r.notes is not s.notes and r.control_changes is not s.control_changes and
             all(x is not y for x in r.notes for y in s.notes), "nothing shared")
    x, y = (r, s) if sx.flag("which") else (s, r)
    if edit == "note":
        x.notes[0].shift_time(1)
        x.notes[0].pitch = 5
    elif edit == "insert":
        x.insert(mk_note(sx, "x", is_drum=note_drum(drum)))
    elif edit == "cc":
        x.control_changes[0].cc_value = 1
        x.control_changes[0].shift_time(2)
        x.add_control_changes(ccs_of(sx, "y", 1)[0])
    elif edit == "bend":
        x.pitch_bends[0].amount = 1
        x.pitch_bends[0].midi_time = 77.0
        x.add_pitch_bends(bends_of(sx, "y", 1)[0])
    elif edit == "tempo":
        x.tempo_signature[0].midi_time = 9.0
        x.tempo_signature.append(x.tempo_signature[0])
    elif edit == "stretch":
        x.stretch(2)
    elif edit == "cut":
        x.cut_in_place(0)
    elif edit == "inst":
        x.instrument.name, x.instrument.instrument_num, x.instrument.is_drum = "Other", 1, not drum
    same(y, "after editing the other")
    e = y.clone_empty()
    sx.check(len(e.notes) == 0, "empty clone has no notes")
    sx.check(sx.and_(e.total_time == t0, e.resolution == s.resolution, e.ticks_per_quarter == 480,
                     e.quantized_step == 3), "empty clone settings")
    sx.check(bool(e.instrument == inst), "empty clone instrument")
    e.instrument.name = "Third"
    sx.check(bool(y.instrument == inst), "empty clone has its own instrument")


# ------------------------------------------------------------------ C10 quantise a sequence
@harness("C10", "0-3 notes and 0-2 control changes; times k/8 in [0,4]; grids 1,2,4,8 steps/s; "
                "amounts 1/2, 1/4, 3/4, 1",
         params=[{"k": k, "c": c, "sps": s, "amount": 0.5, "drum": False} for k, c in ((0, 0), (0, 1), (1, 1), (2, 2), (3, 0))
                 for s in (1, 2, 4, 8)] +
                [{"k": 2, "c": 1, "sps": 4, "amount": a, "drum": True} for a in (0.25, 0.75, 1.0)] +
                [{"k": 1, "c": 0, "sps": 2, "amount": 0.5, "drum": d} for d in ODD],
         thorough=[{"k": k, "c": c, "sps": s, "amount": a, "drum": d}
                   for k, c in ((0, 0), (0, 2), (1, 1), (2, 2), (3, 1), (4, 0)) for s in (1, 2, 3, 4, 8, 16)
                   for a in (0.25, 0.5, 0.75, 1.0) for d in (False, True)])
def quantize_sequence(sx, k, c, sps, amount, drum):
    s, ns = seq_of(sx, "n", k, drum)
    cs = ccs_of(sx, "c", c)
    for x in cs:
        s.add_control_changes(x)
    k0, c0 = keys(ns), [cc_key(x) for x in cs]
    single = [n.quantize(sps=sps, amount=amount) for n in ns]
    s.quantize(sps=sps, amount=amount)
    sx.check(listed(sx, keys(s.notes), keys(single)), "each note quantised, in place in the order")
    sx.check(sx.all_(sx.tup_eq(a, b) for a, b in zip(keys(ns), k0)), "the note objects given are not edited")
    sx.check(s.is_quantized(), "quantised")
    sx.check(total_ok(sx, s), "total time")
    ends = [n.quantized_end_step for n in s.notes]
    sx.check(s.total_quantized_steps == (sx.max(ends) if ends else 0), "total steps = last end step")
    sx.check(len(s.control_changes) == c, "control changes kept")
    for x, o in zip(s.control_changes, cs):
        t = o.cc_time * sps + (1 - amount)
        q = x.quantized_start_step
        sx.check(sx.and_(q <= t, q > t - 1, x.quantized_end_step > q), "control change on its step")
        sx.check(sx.and_(x.cc_number == o.cc_number, x.cc_value == o.cc_value, x.cc_time == o.cc_time),
                 "control change kept")
        sx.check(x.is_drum == o.is_drum and bool(x.is_quantized()), "control change flags")
    sx.check(sx.all_(sx.tup_eq(cc_key(a), b) for a, b in zip(cs, c0)), "given control changes not edited")
    sx.observe("n", [(n.quantized_start_step, n.quantized_end_step) for n in s.notes])
