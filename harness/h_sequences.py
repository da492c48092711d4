"""The multi-track container: signature timelines, slices, tracks; sorted containers; intervals."""
PROPS = ("C11", "C12", "C13", "C14", "C15")
PRELOAD = ("neural_graph_composer.midi.midi_sequences",
           "neural_graph_composer.midi.sorted_interval_dict")

import itertools

from symex.api import harness
from harness.common import *  # noqa


def container(**kw):
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
    return MidiNoteSequences(is_debug=False, **kw)


DENS = (2, 8, 16, 1)


class Kind:
    """one of the three timelines, behind one interface"""

    def __init__(self, sx, kind):
        self.sx, self.kind = sx, kind

    def make(self, k, t, tag="s"):
        sx = self.sx
        if self.kind == "time":
            from neural_graph_composer.midi.midi_time_signature import MidiTimeSignature
            return MidiTimeSignature(midi_time=t, numerator=sx.int(f"{tag}{k}.num", 1, 20),
                                     denominator=DENS[k % 4])
        if self.kind == "tempo":
            from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature
            return MidiTempoSignature(midi_time=t, qpm=sx.time(f"{tag}{k}.qpm", 300, 2, lo=20),
                                      resolution=sx.int(f"{tag}{k}.res", 24, 960))
        from neural_graph_composer.midi.midi_key_signature import MidiKeySignature
        return MidiKeySignature(midi_time=t, midi_key=sx.int(f"{tag}{k}.key", 0, 11), midi_mode=k % 2)

    def value(self, s):
        if self.kind == "time":
            return (s.numerator, s.denominator)
        if self.kind == "tempo":
            return (s.qpm, s.resolution)
        return (s.mode.value, s.midi_key)

    def lookup_value(self, v):
        if self.kind == "tempo":
            from symex import core
            return (core.to_int(v[0]), v[1])     # the answer is given in whole quarter notes
        return v

    def default(self):
        from neural_graph_composer.midi.midi_spec import DEFAULT_PPQ
        return {"time": (4, 4), "tempo": (120, DEFAULT_PPQ), "key": (1, 0)}[self.kind]

    def add(self, c, s):
        {"time": c.add_time_signatures, "tempo": c.add_tempo_signature,
         "key": c.add_key_signatures}[self.kind](s)

    def all(self, c):
        return {"time": c.time_signatures, "tempo": c.tempo_signatures,
                "key": c.key_signatures}[self.kind]

    def lookup(self, c, t):
        r = {"time": c.time_signature, "tempo": c.tempo_signature,
             "key": c.key_signature}[self.kind](t)
        return (r[0].value if hasattr(r[0], "value") else r[0], r[1])

    def slice(self, c, *a, **k):
        return {"time": c.slice_time_signatures, "tempo": c.slice_tempo_signature,
                "key": c.slice_key_signatures}[self.kind](*a, **k)


def in_force(sx, kd, added, t):
    """latest change with the greatest time <= t; among equal times the one added last"""
    best_t, best = 0, kd.default()
    for at, v in added:
        c = sx.and_(at <= t, at >= best_t)
        best_t = sx.ite(c, at, best_t)
        best = tuple(sx.ite(c, x, y) for x, y in zip(v, best))
    return kd.lookup_value(best)


# ------------------------------------------------------------------ C11
@harness("C11", "1-3 (thorough 4) changes added in any order at times k/4 in [0,3] with any values (numerator "
                "1..20, qpm k/2 in [20,300], resolution 24..960, key 0..11), queried at any time k/8 in [0,4] "
                "before, between and after the edits",
         params=[{"kind": kd, "k": k} for kd in ("time", "tempo", "key") for k in (1, 2, 3)],
         thorough=[{"kind": kd, "k": k} for kd in ("time", "tempo", "key") for k in (1, 2, 3, 4)],
         grid_bits=3)
def signature_timeline(sx, kind, k):
    kd = Kind(sx, kind)
    c = container()
    q = sx.time("q", 4, 8)
    sx.check(sx.tup_eq(kd.lookup(c, q), kd.lookup_value(kd.default())), "default in force at first")
    if kind != "key":
        sx.check(sx.tup_eq(kd.lookup(c, -1), kd.lookup_value(kd.default())), "default before the start")
    added = []
    for i in range(k):
        t = sx.time(f"t{i}", 3, 4)
        s = kd.make(i, t)
        added.append((t, kd.value(s)))
        kd.add(c, s)
        sx.check(sx.tup_eq(kd.lookup(c, q), in_force(sx, kd, added, q)), "change in force at a time")
        ts = [x.midi_time for x in kd.all(c)]
        sx.check(sx.all_(a <= b for a, b in zip(ts, ts[1:])), "timeline in time order")
        if kind == "tempo":
            sx.check(c.initial_tempo() == in_force_raw(sx, kd, added, 0)[0], "initial tempo")
    rows = [(x.midi_time,) + kd.value(x) for x in kd.all(c)]
    later = [sx.not_(t == 0) for t, _ in added]
    sx.check(len(rows) == 1 + sx.count(later), "one entry at zero, the others all kept")
    for (t, v), l in zip(added, later):
        sx.check(sx.implies(l, sx.member((t,) + v, rows)), "added change is kept")
    for i in range(k):
        sx.check(sx.tup_eq(kd.lookup(c, added[i][0]), in_force(sx, kd, added, added[i][0])),
                 "change in force at its own time")
    sx.observe("rows", rows)
    sx.observe("q", kd.lookup(c, q))


def in_force_raw(sx, kd, added, t):
    best_t, best = 0, kd.default()
    for at, v in added:
        c = sx.and_(at <= t, at >= best_t)
        best_t = sx.ite(c, at, best_t)
        best = tuple(sx.ite(c, x * 1.0, y * 1.0) if j == 0 else sx.ite(c, x, y)
                     for j, (x, y) in enumerate(zip(v, best)))
    return best


@harness("C11", "timelines given at construction: 1-2 changes at times k/4 in [0.25,3] in order, or empty lists; "
                "query k/8 in [0,4]",
         params=[{"kind": kd, "k": k} for kd in ("time", "tempo", "key") for k in (0, 1, 2)])
def signature_given(sx, kind, k):
    kd = Kind(sx, kind)
    given, added = [], []
    for i in range(k):
        t = sx.time(f"t{i}", 3, 4, lo=0.25)
        if i:
            sx.assume(t > added[-1][0])
        s = kd.make(i, t)
        given.append(s)
        added.append((t, kd.value(s)))
    c = container(**{{"time": "time_signatures", "tempo": "tempo_signatures",
                      "key": "key_signatures"}[kind]: given})
    q = sx.time("q", 4, 8)
    got = kd.lookup(c, q)
    if kind == "key":      # before the first change only the key number is meaningful
        got, want = got[1:], in_force(sx, kd, added, q)[1:]
    else:
        want = in_force(sx, kd, added, q)
    sx.check(sx.tup_eq(got, want), "change in force at a time")
    t = sx.time("n", 3, 4)
    s = kd.make(3, t, "x")
    kd.add(c, s)
    sx.check(any(x is s for x in kd.all(c)), "added change is kept")
    ts = [x.midi_time for x in kd.all(c)]
    sx.check(sx.all_(a <= b for a, b in zip(ts, ts[1:])), "timeline in time order")
    sx.observe("ts", ts)


@harness("C11", "two containers, one change each at k/4 in [0,3]; query k/8 in [0,4]",
         params=[{"kind": kd} for kd in ("time", "tempo", "key")])
def signature_separate(sx, kind):
    kd = Kind(sx, kind)
    a, b = container(), container()
    q = sx.time("q", 4, 8)
    kd.lookup(a, q), kd.lookup(b, q)
    t, u = sx.time("t", 3, 4), sx.time("u", 3, 4)
    s, r = kd.make(0, t), kd.make(1, u)
    kd.add(a, s)
    sx.check(sx.tup_eq(kd.lookup(b, q), kd.lookup_value(kd.default())), "other container untouched")
    kd.add(b, r)
    sx.check(sx.tup_eq(kd.lookup(a, q), in_force(sx, kd, [(t, kd.value(s))], q)), "first container")
    sx.check(sx.tup_eq(kd.lookup(b, q), in_force(sx, kd, [(u, kd.value(r))], q)), "second container")
    for x in (a, b):
        for other in ("time", "tempo", "key"):
            if other != kind:
                ko = Kind(sx, other)
                sx.check(len(ko.all(x)) == 1, "other timelines untouched")
    sx.observe("q", [kd.lookup(a, q), kd.lookup(b, q)])


# ------------------------------------------------------------------ C12
@harness("C12", "0-3 changes at times k/4 in [0,3] added or given unsorted; bound k/8 in [0,4], including 0",
         params=[{"kind": kd, "k": k, "how": h} for kd in ("time", "tempo", "key") for k in (0, 1, 2, 3)
                 for h in ("add", "given") if not (h == "given" and k == 0)])
def signature_slice(sx, kind, k, how):
    kd = Kind(sx, kind)
    if how == "add":
        c = container()
        for i in range(k):
            kd.add(c, kd.make(i, sx.time(f"t{i}", 3, 4)))
    else:
        given = [kd.make(i, sx.time(f"t{i}", 3, 4, lo=0.25)) for i in range(k)]
        c = container(**{{"time": "time_signatures", "tempo": "tempo_signatures",
                          "key": "key_signatures"}[kind]: given})
    before = list(kd.all(c))
    entries = [x for x in kd.all(c)]
    if kind == "tempo":
        entries = [x for x in entries if not bool(x.midi_time == 0)]
    b = sx.time("b", 4, 8)
    got = list(kd.slice(c, b))
    full = list(kd.slice(c))
    raw = list(kd.slice(c, b, sort_first=False))
    for l, g in (("sorted", got), ("unsorted", raw)):
        for x in entries:
            inn = any(y is x for y in g)
            sx.check((x.midi_time <= b) if inn else sx.not_(x.midi_time <= b), l + ": exactly those up to the bound")
        sx.check(all(any(y is x for x in entries) for y in g), l + ": only entries of the timeline")
        sx.check(len(set(map(id, g))) == len(g), l + ": each once")
    sx.check(len(full) == len(entries), "without a bound all")
    for l, g in (("bounded", got), ("full", full)):
        sx.check(sx.all_(x.midi_time <= y.midi_time for x, y in zip(g, g[1:])), l + ": in time order")
    sx.check(len(before) == len(kd.all(c)) and all(x is y for x, y in zip(before, kd.all(c))),
             "timeline unchanged")
    sx.observe("n", [len(got), len(full)])


# ------------------------------------------------------------------ C13
def seq_for(sx, pre, inst, k=1, drum=False):
    from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
    from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
    ns = [mk_note(sx, f"{pre}{j}", vel=(90, 90), hi=2, den=4, is_drum=drum, instrument=inst)
          for j in range(k)]
    return MidiNoteSequence(notes=list(ns), instrument=MidiInstrumentInfo(inst, name="I", is_drum=drum)), ns


TOPS = ["create", "get", "set", "setlist", "set_sequence", "get_track"]


def track_op(sx, c, op, i, idx):
    """applies op to track idx, returns the sequence now stored there (or None if unknown)"""
    if op == "create":
        r = c.create_track(idx, sx.int(f"p{i}", 0, 127), "X", i % 2 == 1)
        sx.check(r == idx, "create returns the track id")
        return c[idx]
    if op == "get":
        return c[idx]
    if op == "get_track":
        return c.get_track(idx, "X", sx.int(f"p{i}", 0, 127), i % 2 == 0)
    s, ns = seq_for(sx, f"v{i}", 0)
    if op == "set":
        c[idx] = s
    elif op == "set_sequence":
        c.set_sequence(idx, s)
    else:
        c[idx] = ns
        sx.check(sx.multiset_eq(keys(c[idx].notes), keys(ns)), "list of notes becomes the track")
        return c[idx]
    sx.check(c[idx] is s, "what is stored is returned")
    return s


@harness("C13", "every sequence of 1-3 track operations (create, index, get, assign sequence or list) on any "
                "track ids 0..127 with any programs",
         params=[{"ops": list(o)} for n in (1, 2) for o in itertools.product(TOPS, repeat=n)] +
                [{"ops": [a, b, c]} for a in ("create", "set", "get") for b in TOPS for c in ("get", "create", "set_sequence")],
         thorough=[{"ops": list(o)} for n in (1, 2, 3) for o in itertools.product(TOPS, repeat=n)] +
                  [{"ops": [a, b, c, d]} for a in ("create", "set") for b in ("get", "setlist")
                   for c in ("set_sequence", "get_track") for d in TOPS])
def track_history(sx, ops):
    c = container()
    model = []      # (idx, sequence) newest last, one per distinct idx
    for i, op in enumerate(ops):
        idx = sx.int(f"t{i}", 0, 127)
        old = None
        for j, m in enumerate(model):
            if bool(m[0] == idx):
                old = j
        s = track_op(sx, c, op, i, idx)
        if old is None:
            model.append((idx, s))
            if op in ("create", "get_track"):
                got = s.instrument
                sx.check(sx.and_(got.instrument_num == sx.int(f"p{i}", 0, 127), got.name == "X", got.is_drum == (i % 2 == (op == "create"))),
                         "a track is made for the program, name and kind given")
        elif op in ("create", "get", "get_track"):
            sx.check(s is model[old][1], "existing track is returned, not replaced")
        else:
            model[old] = (idx, s)
        sx.check(len(c) == len(model) and c.num_track() == len(model), "one track per id")
        for m in model:
            sx.check(c[m[0]] is m[1], "every other track keeps its sequence")
            sx.check(c.instrument_midi_seq_len(m[0]) == len(m[1].notes), "length of a track")
        sx.check(len(c) == len(model), "reading adds nothing")
    ks = list(c)
    sx.check(sx.all_(a < b for a, b in zip(ks, ks[1:])), "track ids in ascending order")
    sx.check(len(c.instruments) == len(model), "one instrument per track")
    sx.observe("ks", ks)


@harness("C13", "index, program of any int in [-3,131]; wrong types")
def track_refuses(sx):
    c = container()
    i = sx.int("i", -3, 131)
    ok = sx.and_(i >= 0, i <= 127)
    r, e = sx.attempt(lambda: c[i], ValueError)
    sx.check(sx.iff(e is None, ok), "index range")
    s, _ = seq_for(sx, "s", 0)
    d = container()
    _, e = sx.attempt(lambda: d.__setitem__(i, s), ValueError)
    sx.check(sx.iff(e is None, ok), "assign range")
    sx.check(len(d) == (1 if e is None else 0), "nothing stored on refusal")
    _, e = sx.attempt(lambda: d.create_track(5, i, "x", False), ValueError)
    sx.check(sx.iff(e is None, ok), "program range")
    _, e = sx.attempt(lambda: d.get_track(i, "x", 3, False), ValueError)
    sx.check(sx.iff(e is None, ok), "track range")
    for bad in ("a", None, 1.5):
        _, e = sx.attempt(lambda: d[bad], TypeError)
        sx.check(e is not None, "index type")
    _, e = sx.attempt(lambda: d.__setitem__(3, 4), TypeError)
    sx.check(e is not None, "value type")


@harness("C13", "1-3 sequences of 0-2 notes with any instrument numbers in [0,127]; times k/4 in [0,2]",
         params=[{"k": k, "n": n, "drum": d} for k, n in ((1, 2), (2, 0), (2, 1), (3, 1)) for d in (False, True)],
         thorough=[{"k": k, "n": n, "drum": d} for k, n in ((1, 2), (2, 0), (2, 1), (2, 2), (3, 1)) for d in (False, True)])
def tracks_from_sequences(sx, k, n, drum):
    insts = [sx.int(f"inst{i}", 0, 127) for i in range(k)]
    pairs = [seq_for(sx, f"s{i}", insts[i], n, drum) for i in range(k)]
    groups = []
    for i in range(k):
        for g in groups:
            if bool(insts[g[0]] == insts[i]):
                g.append(i)
                break
        else:
            groups.append([i])
    want = [[key(x) for i in g for x in pairs[i][1]] for g in groups]
    c = container(midi_seq=[p[0] for p in pairs] if k > 1 else pairs[0][0])
    sx.check(len(c) == len(groups), "one track per instrument number")
    sx.check(c.num_instruments() == len(groups), "number of instruments")
    for g, w in zip(groups, want):
        s = c[insts[g[0]]]
        sx.check(sx.multiset_eq(keys(s.notes), w), "sequences of one instrument are united")
        if len(g) > 1:
            sx.check(sx.all_(sx.not_(y < x) for x, y in zip(s.notes, s.notes[1:])), "united notes are in order")
        ends = [x[3] for x in w]
        sx.check(s.total_time == (sx.max(ends) if ends else 0), "total time")
    sx.check(len(c) == len(groups), "nothing added by reading")
    sx.observe("n", [len(c[k2].notes) for k2 in c])


@harness("C13", "two tracks of 0-2 notes, times k/4 in [0,2]; cut point k/4 in [0,3]",
         params=[{"a": a, "b": b} for a in (0, 1, 2) for b in (0, 1, 2) if a + b <= 3] + [{"a": 1, "b": 2, "drum": True}])
def events_and_truncate(sx, a, b, drum=False):
    c = container()
    sa, na = seq_for(sx, "a", 0, a)
    sb, nb = seq_for(sx, "b", 1, b, drum)
    c[7] = sa
    c[3] = sb
    ev = c.get_all_sequence_events()
    sx.check(sx.multiset_eq(keys(ev), keys(na + nb)), "all events")
    sx.check(sx.all_(x.start_time <= y.start_time for x, y in zip(ev, ev[1:])), "events in time order")
    ends = [x.end_time for x in na + nb]
    r = c.truncate()
    sx.check(r == (sx.max(ends) if ends else 0), "truncate at the end gives the last event time")
    sx.check(sx.multiset_eq(briefs(c[7].notes), briefs(na)) and
             sx.multiset_eq(briefs(c[3].notes), briefs(nb)), "truncate at the end keeps all notes")
    t = sx.time("t", 3, 4, lo=-1)
    r, e = sx.attempt(lambda: c.truncate(from_start=t), ValueError)
    sx.check(sx.iff(e is not None, t < 0), "a negative offset is refused")
    left = [x for k in c for x in c[k].notes]
    within = [x for x in ends if bool(x <= t)]
    if e is not None or not within:
        sx.check(r is None and len(left) == a + b, "nothing to cut")
    else:
        r = sx.max(within) if r is None else r
        sx.check(r == sx.max(within), "cut at the last event within the offset")
        sx.check(sx.all_(x.end_time <= r for x in left), "nothing lasts beyond the cut")
        for x in na + nb:
            sx.check(sx.implies(x.end_time <= r, sx.member(brief(x), briefs(left))), "notes before the cut stay")
    for k in c:
        es = [x.end_time for x in c[k].notes]
        sx.check(c[k].total_time == (sx.max(es) if es else 0), "total time of a track")
    sx.observe("left", briefs(left))


@harness("C13", "two tracks of one or two notes, initial time and offset k/4 in [0,3]", params=[{"offset": False}, {"offset": True}, {"offset": True, "drum": True}])
def truncate_from(sx, offset, drum=False):
    """an initial time leaves out what starts before it, with or without an offset"""
    c = container()
    sa, na = seq_for(sx, "a", 0, 1)
    sb, nb = seq_for(sx, "b", 1, 2, drum)
    c[7] = sa
    c[3] = sb
    i, t = sx.time("i", 3, 4), sx.time("t", 3, 4)
    ends = [x.end_time for x in na + nb]
    want = {}
    r = c.truncate(initial_time=i, from_start=t) if offset else c.truncate(i)
    last = [x for x in ends if not offset or bool(x <= t)]
    if not last:
        sx.check(r is None, "nothing ends within the offset")
        want = {7: na, 3: nb}
    else:
        m = sx.max(last)
        sx.check(r == m, "the last event within the offset")
        for k, ns in ((7, na), (3, nb)):
            want[k] = [x for x in ns if bool(sx.and_(x.start_time >= i, x.start_time < m))]
    for k in (7, 3):
        sx.check(sx.multiset_eq([(x.pitch, x.start_time) for x in c[k].notes], [(x.pitch, x.start_time) for x in want[k]]),
                 "what starts from the initial time to the end stays on its track")
    sx.observe("n", [len(c[7].notes), len(c[3].notes)])


@harness("C13", "three tracks holding sequences of any instrument numbers", params=[{}])
def instrument_count(sx):
    """instruments are counted once each, however many tracks they have"""
    c = container()
    num = [sx.int(f"i{k}", 0, 127) for k in range(3)]
    for k in range(3):
        c[k + 4] = seq_for(sx, f"s{k}", num[k], 0)[0]
    want = 1 + sx.ite(num[1] == num[0], 0, 1) + sx.ite(sx.or_(num[2] == num[0], num[2] == num[1]), 0, 1)
    sx.check(c.num_instruments() == want, "number of different instruments")
    sx.check(c.num_track() == 3 and len(c) == 3, "number of tracks")
    sx.check(len(c.instruments) == 3 and sx.multiset_eq([(x.instrument_num,) for x in c.instruments], [(x,) for x in num]),
             "every track's instrument is listed")


@harness("C13", "two tracks of 1-2 notes quantised or not", params=[{"k": 1}, {"k": 2}, {"k": 1, "drum": True}])
def tracks_quantized(sx, k, drum=False):
    c = container()
    flags = []
    for i in range(2):
        s, ns = seq_for(sx, f"s{i}", i, k, drum and i == 1)
        q = sx.flag(f"q{i}")
        if q:
            s.quantize(sps=4)
        flags.append(q)
        c[i] = s
    sx.check(bool(c.is_quantized()) == all(flags), "quantized iff every track is")
    sx.observe("q", bool(c.is_quantized()))


# ------------------------------------------------------------------ C14
DOPS = ["set", "set", "del", "pop", "popdefault", "popitem", "popfirst", "clear", "update", "setdefault"]


def dict_ops(sx, d, model, op, i, mk):
    """model: list of [key, value]"""
    def find(k):
        for m in model:
            if bool(m[0] == k):
                return m
        return None

    def put(k, v):
        m = find(k)
        if m is None:
            model.append([k, v])
        else:
            m[1] = v
    if op == "set":
        k = mk(i)
        d[k] = i
        put(k, i)
    elif op == "del":
        k = mk(i)
        m = find(k)
        _, e = sx.attempt(lambda: d.__delitem__(k), KeyError)
        sx.check((e is None) == (m is not None), "delete refuses exactly the missing keys")
        if m is not None:
            model.remove(m)
    elif op in ("pop", "popdefault"):
        k = mk(i)
        m = find(k)
        r, e = sx.attempt(lambda: d.pop(k) if op == "pop" else d.pop(k, "none"), KeyError)
        if op == "pop":
            sx.check((e is None) == (m is not None), "pop refuses exactly the missing keys")
        sx.check(e is not None or r == (m[1] if m is not None else "none"), "pop returns the value")
        if m is not None:
            model.remove(m)
    elif op in ("popitem", "popfirst"):
        r, e = sx.attempt(lambda: d.popitem() if op == "popitem" else d.popitem(last=False), KeyError)
        sx.check((e is None) == bool(model), "popitem refuses only when empty")
        if e is None:
            m = find(r[0])
            sx.check(m is not None and m[1] == r[1], "popitem returns an item")
            if op == "popitem":
                sx.check(all(not bool(r[0] < x[0]) for x in model), "popitem takes the largest key")
            else:
                sx.check(all(not bool(r[0] > x[0]) for x in model), "popitem from the front takes the smallest key")
            model.remove(m)
    elif op == "clear":
        d.clear()
        model.clear()
    elif op == "update":
        a, b = mk(f"{i}a"), mk(f"{i}b")
        d.update({a: f"{i}a"})
        put(a, f"{i}a")
        d.update([(b, f"{i}b")])
        put(b, f"{i}b")
    elif op == "setdefault":
        k = mk(i)
        m = find(k)
        r = d.setdefault(k, i)
        sx.check(r == (m[1] if m is not None else i), "setdefault returns the stored value")
        if m is None:
            model.append([k, i])


def dict_check(sx, d, model):
    ks = list(d.keys())
    sx.check(len(ks) == len(model) and len(d) == len(model), "as many keys as entries")
    sx.check(all(bool(a < b) for a, b in zip(ks, ks[1:])), "keys ascending")
    sx.check(list(d) == ks or len(list(d)) == len(ks), "iteration over keys")
    for m in model:
        sx.check(m[0] in d and d[m[0]] == m[1], "every stored value is found")
    items = list(d.items())
    sx.check(len(items) == len(model), "items")
    for k, v in items:
        sx.check(any(bool(m[0] == k) and m[1] == v for m in model), "items match")
    sx.check(list(d.values()) == [v for _, v in items], "values in key order")


@harness("C14", "built from 0-2 entries, then every sequence of 2 operations (thorough 3) out of 9; any integer keys "
                "in [-50,50]",
         params=[{"init": i, "ops": list(o)} for i in (0, 2) for o in itertools.product(sorted(set(DOPS)), repeat=2)
                 if not (i == 2 and "update" in o)] +
                [{"init": 1, "ops": ["update", "pop"]}, {"init": 1, "ops": ["update", "set"]}],
         thorough=[{"init": i, "ops": list(o)} for i in (0, 1, 2) for o in itertools.product(sorted(set(DOPS)), repeat=3)
                   if i + 2 * o.count("update") <= 3])
def sorted_dict_history(sx, init, ops):
    from neural_graph_composer.midi.sorted_dict import SortedDict
    model = []
    mk = lambda i: sx.int(f"k{i}", -50, 50)
    pairs = [(mk(f"i{j}"), j) for j in range(init)]
    d = SortedDict(pairs)
    for k, v in pairs:
        for m in model:
            if bool(m[0] == k):
                m[1] = v
                break
        else:
            model.append([k, v])
    dict_check(sx, d, model)
    for i, op in enumerate(ops):
        dict_ops(sx, d, model, op, i, mk)
        dict_check(sx, d, model)
    rev = list(reversed(d))
    sx.check(all(bool(a > b) for a, b in zip(rev, rev[1:])) and len(rev) == len(model), "reversed")
    sx.observe("ks", list(d.keys()))


@harness("C14", "4 (thorough 5) keys inserted in any order, one deleted; any integers or k/4 in [-8,8]",
         params=[{"k": 4, "f": False}, {"k": 3, "f": True}], thorough=[{"k": 5, "f": False}, {"k": 4, "f": True}])
def sorted_dict_insert(sx, k, f):
    from neural_graph_composer.midi.sorted_dict import SortedDict
    d = SortedDict()
    ks = [sx.time(f"k{i}", 8, 4, lo=-8) if f else sx.int(f"k{i}", -1000, 1000) for i in range(k)]
    for i, x in enumerate(ks):
        d[x] = i
    dist = []
    for i, x in enumerate(ks):
        dist = [m for m in dist if not bool(m[0] == x)] + [[x, i]]
    dict_check(sx, d, dist)
    del d[ks[0]]
    dict_check(sx, d, [m for m in dist if not bool(m[0] == ks[0])])
    sx.observe("ks", list(d.keys()))


def mk_interval(sx, n, lo=-8, hi=8):
    from neural_graph_composer.midi.Interval import Interval
    a, b = sx.int(n + ".a", lo, hi), sx.int(n + ".b", lo, hi)
    sx.assume(a <= b)
    return Interval(a, b)


@harness("C14", "sorted interval dict: 1-3 (thorough 4) intervals inserted, one deleted, window query; bounds in [-8,8]",
         params=[{"k": 1, "win": True}, {"k": 2, "win": True}, {"k": 3, "win": False}],
         thorough=[{"k": 1, "win": True}, {"k": 2, "win": True}, {"k": 3, "win": True}, {"k": 4, "win": False}])
def sorted_interval_dict(sx, k, win):
    from neural_graph_composer.midi.sorted_interval_dict import SortedIntervalDict
    ivs = [mk_interval(sx, f"i{j}") for j in range(k)]
    d = SortedIntervalDict()
    dist = []
    for j, v in enumerate(ivs):
        d[v] = j
        dist = [m for m in dist if not bool(m[0] == v)] + [[v, j]]
    dict_check(sx, d, dist)
    lo = sx.int("lo", -8, 8)
    hi = sx.int("hi", -8, 8)
    sx.assume(lo <= hi)
    got = list(d[lo:hi].keys()) if win else []
    for m in dist if win else ():
        ov = sx.and_(m[0].start <= hi, lo <= m[0].end)
        inn = any(bool(w == m[0]) for w in got)
        sx.check(ov if inn else sx.not_(ov), "window holds exactly the overlapping intervals")
    del d[ivs[0]]
    dict_check(sx, d, [m for m in dist if not bool(m[0] == ivs[0])])
    _, e = sx.attempt(lambda: d.__delitem__(ivs[0]), KeyError)
    sx.check(e is not None, "deleted key is gone")
    _, e = sx.attempt(lambda: d.__setitem__(3, 1), KeyError)
    sx.check(e is not None, "only intervals are keys")
    sx.observe("n", [len(got), len(d)])


# ------------------------------------------------------------------ C15
@harness("C15", "any two intervals with integer bounds in [-1000,1000] and any point")
def interval_pair(sx):
    from neural_graph_composer.midi.Interval import Interval
    a, b = mk_interval(sx, "x", -1000, 1000), mk_interval(sx, "y", -1000, 1000)
    p = sx.int("p", -1001, 1001)
    ina, inb = sx.and_(a.start <= p, p <= a.end), sx.and_(b.start <= p, p <= b.end)
    sx.check(sx.iff(bool(p in a), ina), "contains exactly the points between the bounds")
    both = sx.and_(a.start <= b.end, b.start <= a.end)
    ov = a.overlaps(b)
    sx.check(sx.iff(ov, both), "overlap iff a common point exists")
    sx.check(sx.iff(b.overlaps(a), both), "overlap is symmetric")
    i = a.intersection(b)
    j = b.intersection(a)
    sx.check(sx.iff(i is not None, both), "intersection exists iff they overlap")
    sx.check((i is None) == (j is None), "intersection is symmetric")
    if i is not None:
        sx.check(sx.iff(sx.and_(i.start <= p, p <= i.end), sx.and_(ina, inb)), "intersection holds exactly the common points")
        sx.check(sx.tup_eq((i.start, i.end), (j.start, j.end)), "intersection is symmetric in value")
    u = a.union(b)
    v = b.union(a)
    sx.check(sx.tup_eq((u.start, u.end), (v.start, v.end)), "union is symmetric")
    sx.check(sx.implies(sx.or_(ina, inb), sx.and_(u.start <= p, p <= u.end)), "union holds the points of both")
    sx.check(sx.and_(sx.or_(u.start == a.start, u.start == b.start), sx.or_(u.end == a.end, u.end == b.end)),
             "union is the smallest hull")
    same = sx.and_(a.start == b.start, a.end == b.end)
    sx.check(sx.iff(bool(a == b), same), "equal iff same bounds")
    sx.check(sx.iff(bool(a != b), sx.not_(same)), "unequal iff other bounds")
    if bool(same):
        sx.check(hash(a) == hash(b), "equal intervals hash alike")
    lt, gt = bool(a < b), bool(b < a)
    sx.check(sx.iff(lt, sx.or_(a.start < b.start, sx.and_(a.start == b.start, a.end < b.end))), "ordered by start, then end")
    sx.check((1 if lt else 0) + (1 if gt else 0) + (1 if bool(a == b) else 0) == 1, "exactly one of less, greater, equal")
    sx.check(bool(a <= b) == (lt or bool(a == b)), "less or equal")
    sx.check(bool(a > b) == gt, "greater is the mirror of less")
    sx.check(bool(a >= b) == (gt or bool(a == b)), "greater or equal")
    sx.observe("u", [u.start, u.end, lt])


@harness("C15", "any three intervals with integer bounds in [-100,100]")
def interval_triple(sx):
    a, b, c = (mk_interval(sx, n, -100, 100) for n in "abc")
    if bool(a < b) and bool(b < c):
        sx.check(bool(a < c), "order is transitive")
    ab, bc = a.intersection(b), b.intersection(c)
    l = ab.intersection(c) if ab is not None else None
    r = a.intersection(bc) if bc is not None else None
    sx.check((l is None) == (r is None), "intersection is associative")
    if l is not None and r is not None:
        sx.check(bool(l == r), "intersection is associative in value")
    u, v = a.union(b).union(c), a.union(b.union(c))
    sx.check(sx.tup_eq((u.start, u.end), (v.start, v.end)), "union is associative")
    s = sorted([c, b, a])
    sx.check(sx.all_(sx.not_(y < x) for x, y in zip(s, s[1:])), "sorting works")
    sx.observe("s", [[x.start, x.end] for x in s])


@harness("C15", "float bounds k/8 in [-10,10]")
def interval_float(sx):
    from neural_graph_composer.midi.Interval import Interval
    a0, a1, b0, b1 = (sx.time(n, 10, lo=-10) for n in ("a0", "a1", "b0", "b1"))
    sx.assume(sx.and_(a0 <= a1, b0 <= b1))
    a, b = Interval(a0, a1), Interval(b0, b1)
    sx.check(sx.iff(a.overlaps(b), sx.and_(a0 <= b1, b0 <= a1)), "overlap")
    i = a.intersection(b)
    if i is not None:
        sx.check(sx.and_(i.start == sx.max(a0, b0), i.end == sx.min(a1, b1)), "intersection")
    u = a.union(b)
    sx.check(sx.and_(u.start == sx.min(a0, b0), u.end == sx.max(a1, b1)), "union")
    sx.observe("u", [u.start, u.end])


@harness("C15", "whole bounds in [-20,20], once as whole and once as fractional numbers")
def interval_mixed(sx):
    from neural_graph_composer.midi.Interval import Interval
    x, y = sx.int("x", -20, 20), sx.int("y", -20, 20)
    sx.assume(x <= y)
    a, b = Interval(x, y), Interval(x * 1.0, y * 1.0)
    sx.check(bool(a == b) and not bool(a < b) and not bool(b < a), "equal whatever the kind of number")
    sx.check(hash(a) == hash(b), "equal intervals hash alike whatever the kind of number")
