"""Music graph: grouping of notes, nodes, transitions, features, labels, emission, dataset, transforms."""
PROPS = ("C16", "C17", "C18", "C19", "C20", "C21", "C22")
PRELOAD = ("neural_graph_composer.midi_dataset", "neural_graph_composer.transforms",
           "neural_graph_composer.midi_graph_builder")

from symex.api import harness
from harness.common import *  # noqa


def mods():
    from neural_graph_composer.midi_graph_builder import MidiGraphBuilder, NodeAttributeType
    from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
    from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
    return MidiGraphBuilder, NodeAttributeType, MidiNoteSequence, MidiNoteSequences, MidiInstrumentInfo


def gnote(sx, n, start=None, hi=3, den=4, pitch=(0, 127), vel=(1, 127), drum=False, inst=0):
    from neural_graph_composer.midi.midi_note import MidiNote
    s = sx.time(n + ".start", hi, den) if start is None else start
    return MidiNote(pitch=sx.int(n + ".pitch", *pitch), velocity=sx.int(n + ".vel", *vel),
                    start_time=s, end_time=s + 0.5, is_drum=drum, instrument=inst)


def gseq(notes, inst=0, drum=False):
    B, T, S, C, I = mods()
    return S(notes=list(notes), instrument=I(inst, name="i", is_drum=drum))


def same_set(sx, a, b):
    a, b = list(a), list(b)
    return sx.and_(sx.all_(sx.member(x, b) for x in a), sx.all_(sx.member(x, a) for x in b))


# ------------------------------------------------------------------ C16 grouping
def check_groups(sx, notes, data, longest, tol, filtered):
    groups = [data[k] for k in sorted(data)]
    where = {}
    for gi, g in enumerate(groups):
        sx.check(len(g) > (1 if filtered else 0), "group size")
        for n in g:
            sx.check(any(n is m for m in notes), "only notes of the sequence")
            sx.check(id(n) not in where, "no note twice")
            where[id(n)] = gi
    sizes = [len(g) for g in groups]
    if not filtered:
        sx.check(longest == (max(sizes) if sizes else 0), "size of the largest group")
    for n in notes:
        sounding = sx.and_(sx.not_(n.is_drum), n.velocity != 0)
        if not filtered:
            sx.check(sx.iff(id(n) in where, sounding), "exactly the sounding melodic notes are grouped")
        elif id(n) in where:
            sx.check(sounding, "only sounding melodic notes")
    live = [n for n in notes if id(n) in where]
    for i, a in enumerate(live):
        for b in live[i + 1:]:
            if where[id(a)] == where[id(b)]:
                d = a.start_time - b.start_time
                sx.check(sx.and_(d <= tol + 0.0101, -d <= tol + 0.0101), "a group is within the tolerance")
            elif where[id(a)] < where[id(b)]:
                sx.check(a.start_time < b.start_time, "groups are in time order and equal starts together")
            else:
                sx.check(b.start_time < a.start_time, "groups are in time order and equal starts together")
    if filtered:
        for n in notes:
            if id(n) not in where:
                sx.check(sx.or_(n.is_drum, n.velocity == 0,
                                sx.all_(sx.or_(m is n, m.start_time != n.start_time, m.is_drum, m.velocity == 0)
                                        for m in notes)), "only notes alone in time are filtered")


@harness("C16", "2-3 (thorough 4) notes at any times k/4 in [0,3] in any order, any velocity incl. 0, drum or not; "
                "fixed tolerance 0, 0.25, 0.5 or 1, with and without the filter of single notes",
         params=[{"k": k, "tol": t, "filtered": f} for k in (2, 3) for t in (0.0, 0.25, 1.0) for f in (False, True)],
         thorough=[{"k": k, "tol": t, "filtered": f} for k in (2, 3, 4) for t in (0.0, 0.25, 0.5, 1.0)
                   for f in (False, True)])
def grouping_fixed(sx, k, tol, filtered):
    B, T, S, C, I = mods()
    notes = [gnote(sx, f"n{i}", pitch=(60, 60), vel=(0, 127), drum=(i == 1 and sx.flag("drum1"))) for i in range(k)]
    seq = gseq(notes)
    notes = list(seq.notes)
    data, longest = B.compute_data(seq, tol, filtered)
    check_groups(sx, notes, data, longest, tol, filtered)
    sx.observe("sizes", [len(data[t]) for t in sorted(data)])


@harness("C16", "3 (thorough 4) notes at any times k/4 in [0,2] in time order (thorough also unordered), automatic "
                "tolerance, with and without filter",
         params=[{"k": 2, "hi": 3, "filtered": False, "order": False}, {"k": 3, "hi": 2, "filtered": False, "order": True},
                 {"k": 3, "hi": 2, "filtered": True, "order": True}],
         thorough=[{"k": k, "hi": h, "filtered": f, "order": o} for k, h, o in ((2, 4, False), (3, 2, False), (4, 1, True))
                   for f in (False, True)], narrow=True)
def grouping_auto(sx, k, hi, filtered, order):
    B, T, S, C, I = mods()
    notes = [gnote(sx, f"n{i}", hi=hi, pitch=(60, 60), vel=(0, 127) if i == 0 else (64, 64)) for i in range(k)]
    if order:
        sx.assume(sx.all_(x.start_time <= y.start_time for x, y in zip(notes, notes[1:])))
    seq = gseq(notes)
    notes = list(seq.notes)
    tol = B.compute_tolerance(seq)
    gaps = sorted(n.start_time for n in notes)
    sx.check(sx.and_(tol >= 0, tol <= sx.max(b - a for a, b in zip(gaps, gaps[1:]))), "tolerance within the largest gap")
    data, longest = B.compute_data(seq, 0.2, filtered, tolerance_auto=True)
    check_groups(sx, notes, data, longest, tol, filtered)
    sx.observe("sizes", [len(data[t]) for t in sorted(data)])


# ------------------------------------------------------------------ C17 nodes and transitions
def reference(sx, groups):
    """pitch groups in time order -> (distinct groups, id of each, weights of unordered pairs)"""
    sets, ids = [], []
    for g in groups:
        for i, s in enumerate(sets):
            if bool(same_set(sx, g, s)):
                ids.append(i)
                break
        else:
            sets.append(g)
            ids.append(len(sets) - 1)
    w, first = {}, {}
    if ids:
        w[(ids[0], ids[0])] = 1
        first[(ids[0], ids[0])] = (ids[0], ids[0])
    for a, b in zip(ids, ids[1:]):
        u = (min(a, b), max(a, b))
        w[u] = w.get(u, 0) + 1
        first.setdefault(u, (a, b))
    return sets, ids, w, first


def node_ids(sx, builder, g, sets):
    """node -> index of its pitch set"""
    out = {}
    for n in g.nodes:
        ps = builder.hash_to_notes[n]
        for i, s in enumerate(sets):
            if bool(same_set(sx, ps, s)):
                out[n] = i
                break
        else:
            sx.check(False, "a node for every pitch group and no other")
    return out


PATTERNS = {"one": (0,), "two": (0, 1), "chord": (0, 0), "chord2": (0, 0, 1, 1), "four": (0, 1, 2, 3),
            "mix": (0, 1, 1, 2), "five": (0, 1, 2, 3, 4), "six": (0, 1, 2, 3, 4, 5),
            "chords3": (0, 0, 1, 1, 2, 2), "revmix": (2, 0, 1, 0), "rev": (1, 0, 3, 2)}


@harness("C17", "up to 5 (thorough 6) notes with any pitches in 1-5 (thorough 6) time groups",
         params=[{"pat": p, "lim": l} for p, l in (("one", 127), ("two", 127), ("chord2", 127), ("four", 127),
                                                   ("mix", 127), ("revmix", 127), ("rev", 127), ("five", 127))],
         thorough=[{"pat": p, "lim": 127} for p in PATTERNS], hash_constants=())
def transitions(sx, pat, lim):
    B, T, S, C, I = mods()
    slots = PATTERNS[pat]
    notes = [gnote(sx, f"n{i}", start=0.5 * t, pitch=(0, lim), vel=(64, 64)) for i, t in enumerate(slots)]
    seq = gseq(notes)
    data, _ = B.compute_data(seq, 0.2, False, tolerance_auto=True)
    groups = [[n.pitch for n in data[t]] for t in sorted(data)]
    b = B()
    g = b.build_sequence(seq)
    sets, ids, w, first = reference(sx, groups)
    nid = node_ids(sx, b, g, sets)
    sx.check(len(nid) == len(sets) and sorted(nid.values()) == list(range(len(sets))), "one node per distinct pitch group")
    got = {}
    for u, v, d in g.edges(data=True):
        a, c = nid[u], nid[v]
        key_ = (min(a, c), max(a, c))
        sx.check(key_ not in got, "one edge per connected pair")
        sx.check((a, c) == first.get(key_), "edge in the direction of the first transition")
        got[key_] = d["weight"]
    sx.check(got == {k: float(v) for k, v in w.items()}, "weight is the number of transitions between two groups")
    sx.observe("w", sorted(got.values()))


@harness("C17", "chords of 3-5 notes of any pitches, feature size 1-3: large groups are split",
         params=[{"k": 3, "size": 2, "tail": 1}, {"k": 3, "size": 1, "tail": 0}, {"k": 4, "size": 3, "tail": 0}],
         thorough=[{"k": k, "size": s, "tail": t} for k in (3, 4) for s in (1, 2, 3) for t in (0, 1)])
def split_groups(sx, k, size, tail):
    B, T, S, C, I = mods()
    notes = [gnote(sx, f"n{i}", start=0.0, vel=(64, 64)) for i in range(k)]
    notes += [gnote(sx, f"t{i}", start=1.0, vel=(64, 64)) for i in range(tail)]
    seq = gseq(notes)
    b = B()
    g = b.build_sequence(seq, feature_vec_size=size)
    nodes = [b.hash_to_notes[n] for n in g.nodes]
    for ps in nodes:
        sx.check(0 < len(ps) <= size, "no node larger than the feature vector")
        sx.check(sx.all_(sx.any_(p == n.pitch for n in notes) for p in ps), "only pitches of the piece")
    for n in notes:
        sx.check(sx.any_(p == n.pitch for ps in nodes for p in ps), "every pitch is in some node")
    distinct = []
    for n in notes[:k]:
        if not any(bool(n.pitch == q) for q in distinct):
            distinct.append(n.pitch)
    parts = -(-len(distinct) // size) + tail
    sx.check(sum(d["weight"] for _, _, d in g.edges(data=True)) == parts, "each part adds one transition")


@harness("C17", "several sequences into one graph: 2 sequences of 2 (thorough 3) single notes, any pitches",
         params=[{"k": 2}], thorough=[{"k": 2}, {"k": 3}])
def joined(sx, k):
    B, T, S, C, I = mods()
    b = B()
    a = [gnote(sx, f"a{i}", start=1.0 * i, vel=(64, 64)) for i in range(k)]
    c = [gnote(sx, f"b{i}", start=1.0 * i, vel=(64, 64)) for i in range(k)]
    g = b.build_sequence(gseq(a))
    h = b.build_sequence(gseq(c, inst=1), g=g)
    sx.check(h is g, "the given graph is extended")
    sets, _, _, _ = reference(sx, [[n.pitch] for n in a + c])
    nid = node_ids(sx, b, h, sets)
    sx.check(sorted(nid.values()) == list(range(len(sets))), "one node per distinct pitch group")
    sx.check(sum(d["weight"] for _, _, d in h.edges(data=True)) == 2 * k, "every group adds one transition")
    e = b.build_sequence(gseq([]))
    sx.check(len(e.nodes) == 0 and len(e.edges) == 0, "no notes give an empty graph")
    sx.check(b.build_sequence(gseq([]), g=h) is h, "no notes leave a given graph")


@harness("C17", "graph queries on 2-3 notes of any pitches; any two pitches asked for",
         params=[{"k": 3}], thorough=[{"k": 4}], hash_constants=())
def queries(sx, k):
    B, T, S, C, I = mods()
    notes = [gnote(sx, f"n{i}", start=0.5 * i, vel=(64, 64)) for i in range(k)]
    b = B()
    g = b.build_sequence(gseq(notes))
    u, v = sx.int("u", 0, 127), sx.int("v", 0, 127)
    edges = [(b.hash_to_notes[a], b.hash_to_notes[c]) for a, c in g.edges]
    isedge = sx.any_(sx.and_(same_set(sx, a, [u]), same_set(sx, c, [v])) for a, c in edges)
    r = B.get_edge_connected(g, [u], [v])
    sx.check(sx.iff(r is not None, isedge), "an edge is found iff the transition was recorded")
    if r is not None:
        sx.check(sx.and_(same_set(sx, b.hash_to_notes[r[0]], [u]), same_set(sx, b.hash_to_notes[r[1]], [v])), "the edge asked for")
    if bool(sx.any_(n.pitch == u for n in notes)):
        nb = list(B.neighbors(g, [u]))
        sx.check(sx.iff(sx.any_(same_set(sx, b.hash_to_notes[h], [v]) for h in nb), isedge), "neighbours are the successors")
        sx.check(len(nb) == len(set(nb)), "each neighbour once")


@harness("C17", "wrong arguments are refused; any feature size -2..130, any tolerance k/4 in [-1,2]")
def build_refuses(sx):
    B, T, S, C, I = mods()
    b = B()
    n = gseq([gnote(sx, "n0", start=0.0), gnote(sx, "n1", start=1.0)])
    f = sx.int("f", -2, 130)
    ok = sx.and_(f >= 1, f <= 128)
    if not bool(ok):
        _, e = sx.attempt(lambda: b.build_sequence(n, feature_vec_size=f), ValueError)
        sx.check(e is not None, "feature size refused iff out of range")
    t = sx.time("t", 2, 4, lo=-1)
    _, e = sx.attempt(lambda: b.build_sequence(n, tolerance=t), ValueError)
    sx.check(sx.iff(e is None, sx.and_(t >= 0, t <= 1)), "tolerance refused iff out of range")
    v = sx.int("v", -2, 3)
    _, e = sx.attempt(lambda: b.build_sequence(n, velocity_num_buckets=v), ValueError)
    sx.check(sx.iff(e is None, v >= 1), "bucket number refused iff not positive")
    _, e = sx.attempt(lambda: b.build_sequence([1]), TypeError)
    sx.check(e is not None, "only sequences")
    _, e = sx.attempt(lambda: B().build(), ValueError)
    sx.check(e is not None, "nothing to build from")


# ------------------------------------------------------------------ C18 features
def rows(x):
    v = x.tolist()
    return v if isinstance(v[0], list) else [v]


@harness("C18", "chords of 1-3 (thorough 4) notes of any pitches, feature sizes 1..5",
         params=[{"k": k, "size": s} for k, s in ((1, 3), (2, 2), (2, 5), (3, 3))],
         thorough=[{"k": k, "size": s} for k in (1, 2, 3, 4) for s in (k, k + 2)])
def pitch_features(sx, k, size):
    B, T, S, C, I = mods()
    notes = [gnote(sx, f"n{i}", start=0.0, vel=(64, 64)) for i in range(k)]
    notes.append(gnote(sx, "last", start=2.0, vel=(64, 64)))
    b = B()
    g = b.build_sequence(gseq(notes), feature_vec_size=size)
    for n, d in g.nodes(data=True):
        sx.check(d["node_hash"] == n, "node carries its hash")
        x = d["attr"]
        sx.check(tuple(x.shape) == (size,), "feature vector of the chosen size")
        v = x.tolist()
        ps = b.hash_to_notes[n]
        sx.check(same_set(sx, v[:len(ps)], ps), "pitches of the group")
        sx.check(sx.all_(z == 0 for z in v[len(ps):]), "padded with zeros")


@harness("C18", "chords of 1-3 notes of any pitches and velocities 1..127 (0..127 alone), feature size 3",
         params=[{"k": 1}, {"k": 2}], thorough=[{"k": 1}, {"k": 2}, {"k": 3}])
def velocity_features(sx, k):
    check_velocity(sx, [gnote(sx, f"n{i}", start=0.0) for i in range(k)])


@harness("C18", "chords of 2-3 notes of pitches 6..10 (6..8) in the real set order, any velocities; feature size 3, 2 or 1",
         params=[{"k": 2}, {"k": 3}, {"k": 3, "size": 2}, {"k": 2, "size": 1}], hash_mode="concrete")
def velocity_order(sx, k, size=3):
    check_velocity(sx, [gnote(sx, f"n{i}", start=0.0, pitch=(6, 10 if k == 2 else 8)) for i in range(k)], size)


def check_velocity(sx, notes, size=3):
    B, T, S, C, I = mods()
    b = B()
    g = b.build_sequence(gseq(notes), feature_vec_size=size, is_include_velocity=True)
    if size >= len(notes):
        sx.check(len(g.nodes) == 1, "one chord, one node")
    for q in notes:
        sx.check(sx.any_(sx.any_(p == q.pitch for p in d["attr"].tolist()[0][:len(b.hash_to_notes[n])]) for n, d in g.nodes(data=True)),
                 "every pitch is in some node")
    for n, d in g.nodes(data=True):
        x = d["attr"]
        sx.check(tuple(x.shape) == (2, size), "pitch and velocity rows")
        sx.check(same_set(sx, x.tolist()[0][:len(b.hash_to_notes[n])], b.hash_to_notes[n]), "pitches of the node")
        pv, vv = x.tolist()
        m = len(b.hash_to_notes[n])
        best = []
        for p in pv[:m]:
            r = 0
            for q in notes:
                r = sx.ite(sx.and_(q.pitch == p, q.velocity > r), q.velocity, r)
            best.append(r)
        sx.check(sx.all_(z == 0 for z in vv[m:]), "padded with zeros")
        for i in range(m):
            sx.check(sx.and_(vv[i] >= 32, vv[i] <= 127), "rescaled into the audible range")
            for j in range(m):
                sx.check(sx.implies(best[i] <= best[j], vv[i] <= vv[j]), "louder pitches stay louder")


@harness("C18", "lists of 1-3 (thorough 4) velocities 0..127",
         params=[{"k": 1}, {"k": 2}, {"k": 3}], thorough=[{"k": 1}, {"k": 2}, {"k": 3}, {"k": 4}])
def rescale(sx, k):
    B, T, S, C, I = mods()
    v = [sx.int(f"v{i}", 0, 127) for i in range(k)]
    r = B.rescale_velocities(list(v))
    sx.check(len(r) == k, "one value each")
    for i in range(k):
        sx.check(sx.and_(r[i] >= 32, r[i] <= 127), "in range")
        for j in range(k):
            sx.check(sx.implies(v[i] <= v[j], r[i] <= r[j]), "order kept")
    if k > 1:
        differ = sx.any_(x != v[0] for x in v)
        sx.check(sx.implies(differ, sx.and_(sx.any_(x == 32 for x in r), sx.any_(x == 127 for x in r))),
                 "the softest becomes 32 and the loudest 127")


@harness("C18", "sets of 1-3 pitches 0..11 or 0..127 one-hot encoded",
         params=[{"k": 1, "n": 128}, {"k": 2, "n": 12}], thorough=[{"k": k, "n": n} for k in (1, 2, 3) for n in (12, 128)])
def one_hot(sx, k, n):
    B, T, S, C, I = mods()
    ps = [sx.int(f"p{i}", 0, n - 1) for i in range(k)]
    vel = [sx.int(f"v{i}", 0, 127) for i in range(k)] if sx.flag("vel") else None
    x = B.create_tensor(T.OneHotTensor, list(ps), velocity_set=vel, num_classes=n)
    sx.check(tuple(x.shape) == (k, n + (1 if vel else 0)), "a row per pitch")
    r = x.tolist()
    for i in range(k):
        sx.check(sx.all_(r[i][c] == sx.ite(ps[i] == c, 1, 0) for c in range(n)), "one at the pitch, zero elsewhere")
        if vel:
            sx.check(r[i][n] == vel[i], "velocity in the last column")


# ------------------------------------------------------------------ C19 labels
def check_maps(sx, b):
    h2i, i2h, h2n, n2h = b.hash_to_index, b.index_to_hash, b.hash_to_notes, b.notes_to_hash
    sx.check(len(h2i) == len(i2h) == len(h2n) == len(n2h), "as many labels as pitch groups")
    sx.check(sorted(h2i) == sorted(h2n), "every pitch group has a label")
    for h, i in h2i.items():
        sx.check(i2h.get(i) == h, "label and group determine each other")
        sx.check(n2h[h2n[h]] == h, "pitches and group determine each other")
    idx = sorted(i2h)
    sx.check(idx == list(range(idx[0], idx[0] + len(idx))) if idx else True, "labels are consecutive")
    ns = list(h2n.values())
    for i, a in enumerate(ns):
        for c in ns[i + 1:]:
            sx.check(sx.not_(same_set(sx, a, c)), "no pitch group twice")


@harness(("C19",), "2 sequences of up to 3 single notes or a chord, any pitches, built one after the other",
         params=[{"pa": "two", "pb": "two"}, {"pa": "chord", "pb": "two"}, {"pa": "chord", "pb": "two", "size": 1}],
         thorough=[{"pa": "two", "pb": "two"}, {"pa": "chord", "pb": "mix"}, {"pa": "four", "pb": "two"},
                   {"pa": "chord2", "pb": "chord2"}, {"pa": "chord2", "pb": "chord", "size": 1}])
def label_maps(sx, pa, pb, size=12):
    B, T, S, C, I = mods()
    b = B()
    hashes = []
    for tag, pat in (("a", pa), ("b", pb)):
        ns = [gnote(sx, f"{tag}{i}", start=0.5 * t, vel=(64, 64)) for i, t in enumerate(PATTERNS[pat])]
        g = b.build_sequence(gseq(ns), feature_vec_size=size)
        before = dict(b.hash_to_index)
        for n in hashes:
            sx.check(before[n[0]] == n[1], "labels never change")
        hashes += [(n, before[n]) for n in g.nodes]
        check_maps(sx, b)
    b.hash_to_index[5] = 7
    b.index_to_hash.clear()
    b.hash_to_notes.clear()
    check_maps(sx, b)


@harness("C19", "any series of 1-4 hashes added to two mappers which are then merged",
         params=[{"a": 2, "b": 2}, {"a": 1, "b": 3}], thorough=[{"a": 2, "b": 2}, {"a": 3, "b": 3}])
def mapper(sx, a, b):
    from neural_graph_composer.midi_dataset import NodeHashIndexMapper
    ms = []
    for tag, k in (("a", a), ("b", b)):
        m = NodeHashIndexMapper()
        hs = [sx.int(f"{tag}{i}", -3, 1 << 40) for i in range(k)]
        for h in hs:
            m.add_node_hash(h)
        ms.append((m, hs))
    m, hs = ms[0]
    old = [m.get_index(h) for h in hs]
    m.merge_with(ms[1][0])
    allh = hs + ms[1][1]
    for h in allh:
        i = m.get_index(h)
        sx.check(sx.and_(i >= 0, i < len(m.index_to_hash)), "index in range")
        sx.check(m.get_node_hash(i) == h, "round trip")
    for h, i in zip(hs, old):
        sx.check(m.get_index(h) == i, "indices never change")
    sx.check(len(m.hash_to_index) == len(m.index_to_hash), "one index per hash")
    for i in range(len(m.index_to_hash)):
        sx.check(m.get_index(m.get_node_hash(i)) == i, "round trip back")


# ------------------------------------------------------------------ C20 emission
def container_of(sx, spec):
    """spec: per instrument (pattern, drum) -> container and the pitch groups of each"""
    B, T, S, C, I = mods()
    seqs, groups = [], []
    for i, (pat, drum) in enumerate(spec):
        ns = [gnote(sx, f"s{i}n{j}", start=0.5 * t, vel=(64, 64), inst=i, drum=drum)
              for j, t in enumerate(PATTERNS[pat])]
        seqs.append(gseq(ns, inst=i, drum=drum))
        data, _ = B.compute_data(seqs[-1], 0.2, False, tolerance_auto=True)
        groups.append([[n.pitch for n in data[t]] for t in sorted(data)] if not drum and len(ns) > 1 else [])
    return C(midi_seq=seqs, is_debug=False), groups


def check_pyg(sx, b, d, g_sets, total):
    n = len(g_sets)
    hs = list(d.node_hash)
    sx.check(len(hs) == n and d.x.shape[0] == n and d.y.shape[0] == n, "one row per distinct pitch group")
    x, y = d.x.tolist(), d.y.tolist()
    seen = []
    for i, h in enumerate(hs):
        ps = b.hash_to_notes[h]
        which = [j for j, s in enumerate(g_sets) if bool(same_set(sx, s, ps))]
        sx.check(len(which) == 1 and which[0] not in seen, "rows are the pitch groups of the instrument")
        seen += which
        sx.check(b.index_to_hash[y[i]] == h, "the target of a row is the label of its group")
        sx.check(same_set(sx, x[i][:len(ps)], ps), "features of a row are its pitches")
        sx.check(sx.all_(v == 0 for v in x[i][len(ps):]), "zero padded")
    ei = d.edge_index.tolist()
    sx.check(len(ei) == 2 and len(ei[0]) == len(ei[1]), "edge list")
    sx.check(all(0 <= v < n for r in ei for v in r), "edges between rows")
    w = d.edge_attr.tolist()
    sx.check(len(w) == len(ei[0]), "a weight per edge")
    sx.check(sum(r[0] for r in w) == total, "weights count the transitions")
    return hs, list(zip(ei[0], ei[1])), [r[0] for r in w]


SPECS = {"drum1": [("two", True), ("two", False)], "pair": [("two", False)], "one": [("four", False)], "two": [("two", False), ("two", False)],
         "drum": [("two", True), ("two", False), ("chord", False)],
         "single": [("one", False), ("two", False)],
         "three": [("two", False), ("chord", False), ("two", False)],
         "chords": [("chord2", False), ("mix", False)]}


@harness("C20", "1-3 instruments with 1-4 notes of any pitches, one of them a drum or with a single note",
         params=[{"spec": s} for s in ("one", "two", "drum", "single")], thorough=[{"spec": s} for s in SPECS],
         hash_constants=())
def emission(sx, spec):
    B, T, S, C, I = mods()
    c, groups = container_of(sx, SPECS[spec])
    b = B(c)
    b.build()
    sane = sx.flag("sanity")
    out = list(b.graphs(is_sanity_check=sane))
    want = [g for g in groups if g]
    sx.check(len(out) == len(want), "one graph per melodic instrument, each once")
    for d, g in zip(out, want):
        sets, ids, w, first = reference(sx, g)
        hs, edges, ws = check_pyg(sx, b, d, sets, len(ids))
        num = [[j for j, s in enumerate(sets) if bool(same_set(sx, s, b.hash_to_notes[h]))][0] for h in hs]
        got = {}
        for (u, v), q in zip(edges, ws):
            got[(num[u], num[v])] = q
        sx.check(got == {first[k]: float(v) for k, v in w.items()}, "edges and weights of the instrument")
        sx.check(list(d.label) == [b.hash_to_index[h] for h in hs], "labels of the rows")
    sx.check(list(b.graphs()) == [] and b.pyg_data == [] and b.sub_graphs == [], "nothing is emitted twice")
    check_maps(sx, b)


@harness("C20", "2-3 instruments merged into one graph; built twice",
         params=[{"spec": s} for s in ("two", "drum")], thorough=[{"spec": s} for s in SPECS], hash_constants=())
def emission_whole(sx, spec):
    B, T, S, C, I = mods()
    c, groups = container_of(sx, SPECS[spec])
    b = B()
    b.build(c, is_per_instrument=False)
    flat = [g for gs in groups for g in gs]
    sets, ids, w, first = reference(sx, flat)
    it = b.graphs(skip_label=True)
    d = next(it)
    check_pyg(sx, b, d, sets, len(flat))
    sx.check(getattr(d, "label", None) is None, "label left out on request")
    sx.check(b.pyg_data == [], "an emitted graph is released")
    b.build(c, is_per_instrument=False)
    sx.check(len(b.pyg_data) == 1, "one graph per build")
    d = next(b.graphs())
    check_pyg(sx, b, d, sets, len(flat))
    check_maps(sx, b)


OPTIONS = [{"feature_vec_size": 1}, {"feature_vec_size": 5}, {"filter_single_notes": True}, {"tolerance": 0.7}, {"is_include_velocity": True},
           {"is_include_velocity": True, "feature_vec_size": 3, "filter_single_notes": True}, {"node_attr_type": "OneHotTensor"}]


@harness("C20", "two instruments with a chord of two notes and with two notes of any pitches; seven settings of the options",
         params=[{"k": k} for k in range(len(OPTIONS))], hash_constants=())
def emission_options(sx, k):
    """the options asked for are those every instrument is built with"""
    B, T, S, C, I = mods()
    kw = dict(OPTIONS[k])
    if "node_attr_type" in kw:
        kw["node_attr_type"] = getattr(T, kw["node_attr_type"])
    seqs = []
    for i, times in enumerate(((0.0, 0.0, 0.5), (0.0, 0.5))):
        seqs.append(gseq([gnote(sx, f"s{i}n{j}", start=t, vel=(1, 127) if j == 0 else (64, 64), inst=i)
                          for j, t in enumerate(times)], inst=i))
    b, ref = B(C(midi_seq=seqs, is_debug=False)), B()
    b.build(**kw)
    got = list(b.sub_graphs)
    want = [g for g in (ref.build_sequence(s, **kw) for s in seqs) if len(g.nodes)]
    sx.check(len(got) == len(want), "one graph per instrument that has any groups")
    flat = lambda t: [float(v) if not sx.symbolic else v for r in (t.tolist() if t.ndim > 1 else [t.tolist()]) for v in r]  # noqa
    for g, w in zip(got, want):
        sx.check(list(g.nodes) == list(w.nodes), "the same groups")
        sx.check([(u, v, d["weight"]) for u, v, d in g.edges(data=True)] == [(u, v, d["weight"]) for u, v, d in w.edges(data=True)],
                 "the same transitions")
        for n in g.nodes:
            a, c = g.nodes[n]["attr"], w.nodes[n]["attr"]
            sx.check(tuple(a.shape) == tuple(c.shape), "features of the size asked for")
            sx.check(sx.all_(x == y for x, y in zip(flat(a), flat(c))), "the same features")


@harness("C20", "one-hot features of a chord of two notes and a note of any pitches, with and without velocities, feature sizes 2 and 4",
         params=[{"size": n, "vel": v} for n in (2, 4) for v in (False, True)], hash_constants=())
def emission_one_hot(sx, size, vel):
    B, T, S, C, I = mods()
    ns = [gnote(sx, f"n{j}", start=t, vel=(1, 127) if j == 2 else (64, 64)) for j, t in enumerate((0.0, 0.0, 0.5))]
    b = B(C(midi_seq=[gseq(ns)], is_debug=False))
    _, exc = sx.attempt(lambda: b.build(node_attr_type=T.OneHotTensor, feature_vec_size=size, is_include_velocity=vel), RuntimeError)
    sx.check(exc is None, "any chords can be given as one-hot features")
    if exc is not None:
        return
    d = next(b.graphs())
    sx.check(tuple(d.x.shape)[1:] == (size, 129 if vel else 128), "as many rows as asked for")
    for h, rows in zip(d.node_hash, d.x.tolist()):
        ps = list(b.hash_to_notes[h])
        sx.check(len(ps) <= size, "groups fit the rows")
        for c in range(128):
            sx.check(sum(r[c] for r in rows) == sx.count(p == c for p in ps), "a one for every pitch")
        for r in rows[len(ps):]:
            sx.check(sx.all_(v == 0 for v in r), "zero padded")
        for p, r in zip(ps, rows):
            sx.check(sx.all_(r[c] == sx.ite(p == c, 1, 0) for c in range(128)), "a row per pitch")
            if vel:
                sx.check(sx.and_(r[128] >= 1, r[128] <= 127), "velocity in the last column")


@harness("C20", "graphs of 2-3 nodes with any edges, directed or not, any features and weights; a node or edge lacking an attribute",
         params=[{"n": 2, "directed": True}, {"n": 3, "directed": False}], thorough=[{"n": 3, "directed": d} for d in (True, False)],
         hash_mode="concrete")
def converted(sx, n, directed):
    import networkx as nx
    from neural_graph_composer import midi_graph_builder as M
    g = nx.DiGraph() if directed else nx.Graph()
    odd = sx.choice("odd", ["", "node", "edge"])
    feats = [[sx.int(f"x{i}{j}", 0, 127) for j in range(2)] for i in range(n)]
    for i in range(n):
        g.add_node(100 - i, attr=M.torch.tensor(feats[i]))
    want, last = {}, None
    for i in range(n):
        for j in range(n):
            if (directed or i <= j) and sx.flag(f"e{i}{j}"):
                w = sx.int(f"w{i}{j}", 1, 99)
                g.add_edge(100 - i, 100 - j, weight=w)
                want[(i, j)] = w
                if not directed:
                    want[(j, i)] = w
                last = (100 - i, 100 - j)
    sx.assume(last is not None)
    if odd == "node":
        g.nodes[100 - n + 1]["extra"] = 1
    if odd == "edge":
        sx.assume(g.number_of_edges() > 1)
        g.edges[last]["extra"] = 1
    d, exc = sx.attempt(lambda: M.MidiGraphBuilder.from_midi_networkx(g), ValueError)
    sx.check((exc is not None) == bool(odd), "refused iff the attributes differ")
    if exc is not None:
        return
    sx.check([list(r) for r in d.x.tolist()] == feats if not sx.symbolic else
             sx.all_(sx.tup_eq(tuple(r), tuple(f)) for r, f in zip(d.x.tolist(), feats)), "a row of features per node, in order")
    es = [(int(a), int(b)) for a, b in zip(*d.edge_index.tolist())]
    sx.check(sorted(es) == sorted(want), "the edges, both ways if undirected")
    sx.check(sx.all_(q[0] == want.get(e, -1) for e, q in zip(es, d.edge_attr.tolist())), "weights of the edges")


# ------------------------------------------------------------------ C21 dataset
class Bundle:
    """stands for PyG's collated storage: the graphs, and the concatenated targets"""

    def __init__(self, graphs):
        self.graphs = list(graphs)

    def __len__(self):
        return 1

    @property
    def y(self):
        from neural_graph_composer import midi_dataset
        return midi_dataset.torch.cat([g.y for g in self.graphs])


class Saving:
    """the torch module as the dataset module sees it, with files in memory"""

    def __init__(self, torch, save, load):
        self._t, self.save, self.load = torch, save, load

    def __getattr__(self, n):
        return getattr(self._t, n)


class Crash(BaseException):
    pass


def dataset(sx, files, ratios, spec_kw, perms, again=(), reopened=None, crash=None):
    """runs the real MidiDataset constructor in a scratch folder, with reading, collating and
    saving replaced by in-memory stand-ins -> (dataset, {file name: saved object})"""
    import os
    import shutil
    import tempfile
    import numpy
    from neural_graph_composer import midi_dataset as M
    root = tempfile.mkdtemp(prefix="sxds")
    store, reads = {}, []

    def save(obj, path, *a, **k):
        if crash is not None and len(store) == crash[0]:
            crash[0] = None
            raise Crash
        store[os.path.basename(path)] = obj
        with open(path, "w"):
            pass

    def load(path, *a, **k):
        return store[os.path.basename(path)]

    def perm(n):
        k = len(perms)
        p = [sx.int(f"perm{k}.{i}", 0, n - 1) for i in range(n)]
        for i in range(n):
            for j in range(i):
                sx.assume(p[i] != p[j])
        perms.append(p)
        return p if sx.symbolic else numpy.array(p)

    class Reader:
        @staticmethod
        def read(path):
            reads.append(path)
            return files[os.path.basename(path)]

    with patched() as P:
        P.set(M, "MidiReader", Reader)
        P.set(M, "torch", Saving(M.torch, save, load))
        P.set(M.MidiDataset, "collate", staticmethod(lambda l: (Bundle(l), {})))
        if sx.symbolic:
            from symex import torchshim
            P.set(torchshim.SOURCES, "perm", perm)
        else:
            P.set(numpy.random, "permutation", perm)
        P.set(__import__("builtins"), "print", lambda *a, **k: None)
        try:
            names = []
            for f in sorted(files):
                with open(os.path.join(root, f), "w") as h:
                    h.write("x")
                names.append(os.path.join(root, f))
            make = lambda: M.MidiDataset(root=root, midi_files=list(names), default_midi_loc=root,  # noqa
                                         train_ratio=ratios[0], val_ratio=ratios[1], **spec_kw)
            if crash is not None:
                try:
                    make()
                    sx.check(False, "the stop is not swallowed")
                except Crash:
                    pass
                perms.clear()
            ds = make()
            for kw in again:
                more = M.MidiDataset(root=root, midi_files=[os.path.join(root, f) for f in sorted(files)],
                                     default_midi_loc=root, **kw)
                reopened.append((kw, more, dict(store), len(reads)))
        finally:
            shutil.rmtree(root)
    return ds, store


RATIOS = [(0.7, 0.15), (0.5, 0.5), (0.0, 0.0), (1.0, 0.0), (0.34, 0.33)]
DSETS = {"one": {"a.mid": "one"}, "two": {"a.mid": "two"}, "drum2": {"a.mid": "drum1", "b.mid": "pair"}, "multi": {"a.mid": "two", "b.mid": "pair"},
         "files": {"a.mid": "two", "b.mid": "one"}}


@harness("C21", "1-2 files with up to 3 instruments and 4 notes of any pitches, every random permutation of the nodes, five splits",
         params=[{"ds": "one", "ratio": r} for r in range(5)] + [{"ds": "drum2", "ratio": 0}, {"ds": "drum2", "ratio": 4}],
         thorough=[{"ds": d, "ratio": r} for d in ("one", "two", "drum2") for r in range(5)] + [{"ds": "multi", "ratio": 0}], hash_constants=())
def dataset_files(sx, ds, ratio):
    conts, groups = {}, {}
    for i, (f, spec) in enumerate(sorted(DSETS[ds].items())):
        conts[f], groups[f] = container_of(Prefixed(sx, f), SPECS[spec])
    per = sx.flag("per_instrument")
    perms = []
    d, store = dataset(sx, conts, RATIOS[ratio], {"per_instrument_graph": per}, perms)
    sx.check(sorted(store) == sorted(d.processed_file_names), "both files are written")
    one, whole = [store[n] for n in d.processed_file_names]
    want = [g for f in sorted(groups) for g in groups[f] if g]
    check_saved(sx, one, want, [len(g) for g in want], RATIOS[ratio])
    flat = [[x for g in groups[f] for x in g] for f in sorted(groups)]
    check_saved(sx, whole, flat, [len(g) for g in flat], RATIOS[ratio])
    sx.check(d.data is (one if per else whole)[0], "the chosen kind of graphs is loaded")
    mine = (d.hash_to_index, d.index_to_hash, d.hash_to_notes, d.notes_to_hash)
    extra = (one if per else whole)[2]
    sx.check(mine == (extra["hash_to_index"], extra["index_to_hash"], extra["hash_to_notes"], extra["notes_to_hash"]),
             "the maps are loaded with the graphs")
    sx.check(d.total_num_classes == len(extra["index_to_hash"]), "number of classes")


class Maps:
    def __init__(self, extra):
        self.hash_to_index = extra["hash_to_index"]
        self.index_to_hash = extra["index_to_hash"]
        self.hash_to_notes = extra["hash_to_notes"]
        self.notes_to_hash = extra["notes_to_hash"]


def check_saved(sx, saved, groups, totals, ratio):
    data, slices, extra = saved
    m = Maps(extra)
    check_maps(sx, m)
    sx.check(len(data.graphs) == len(groups), "every graph is in the file")
    for g, want, tot in zip(data.graphs, groups, totals):
        sets, _, _, _ = reference(sx, want)
        check_pyg(sx, m, g, sets, tot)
        n = len(sets)
        masks = [g.train_mask.tolist(), g.val_mask.tolist(), g.test_mask.tolist()]
        sx.check(all(len(q) == n for q in masks), "a mask entry per node")
        for i in range(n):
            sx.check(sx.count(q[i] for q in masks) == 1, "every node is in exactly one of the three parts")
        for q, size in zip(masks, (int(ratio[0] * n), int(ratio[1] * n))):
            sx.check(sx.count(q) == size, "parts of the chosen size")


@harness("C21", "a folder opened again: 1 file, 3 notes of any pitches, each kind of graph, same or other options",
         params=[{"other": o} for o in ("same", "velocity", "size", "tolerance")], hash_constants=())
def dataset_again(sx, other):
    conts, groups = {}, {}
    conts["a.mid"], groups["a.mid"] = container_of(sx, SPECS["one"])
    kw = {"same": {}, "velocity": {"include_velocity": True}, "size": {"feature_vec_size": 5}, "tolerance": {"tolerance": 0.5}}[other]
    per = sx.flag("per_instrument")
    kw = dict(kw, per_instrument_graph=per)
    out = []
    d, store = dataset(sx, conts, (0.5, 0.25), {}, [], again=[kw, {}], reopened=out)
    (_, b, s1, n1), (_, c, s2, n2) = out
    sx.check(n1 == (2 if other == "same" else 4) and n2 == n1, "graphs saved with the same options are not made again")
    sx.check(all(n in s1 for n in b.processed_file_names + d.processed_file_names), "graphs of other options are kept beside them")
    one = s1[b.processed_file_names[0 if per else 1]]
    sx.check(b.data is one[0] and b.hash_to_notes == one[2]["hash_to_notes"] and b.index_to_hash == one[2]["index_to_hash"]
             and b.hash_to_index == one[2]["hash_to_index"] and b.notes_to_hash == one[2]["notes_to_hash"],
             "the saved graphs of these options are loaded with their maps")
    sx.check(c.data is store[d.processed_file_names[0]][0] and c.data is d.data, "the first graphs can still be loaded")
    for g in b.data.graphs:
        sx.check(tuple(g.x.shape)[1:] == {"velocity": (2, 12), "size": (5,)}.get(other, (12,)),
                 "features of the size asked for")


@harness("C21", "stopped before the first or the second file is written, then opened again; 1 file, 3 notes of any pitches, each kind of graph",
         params=[{"at": k} for k in (0, 1)], hash_constants=())
def dataset_stopped(sx, at):
    conts, groups = {}, {}
    conts["a.mid"], groups["a.mid"] = container_of(sx, SPECS["two"])
    per = sx.flag("per_instrument")
    d, store = dataset(sx, conts, (0.5, 0.0), {"per_instrument_graph": per}, [], crash=[at])
    sx.check(sorted(store) == sorted(d.processed_file_names), "both files are written in the end")
    one, whole = [store[n] for n in d.processed_file_names]
    want = [g for g in groups["a.mid"] if g]
    check_saved(sx, one, want, [len(g) for g in want], (0.5, 0.0))
    flat = [x for g in groups["a.mid"] for x in g]
    check_saved(sx, whole, [flat], [len(flat)], (0.5, 0.0))
    sx.check(d.data is (one if per else whole)[0], "the chosen kind of graphs is loaded")
    sx.check(d.hash_to_index == (one if per else whole)[2]["hash_to_index"], "with its maps")


@harness("C21", "pre-filter and pre-transform: 2 instruments with 2 notes of any pitches, masks on or off",
         params=[{}], hash_constants=())
def dataset_hooks(sx):
    c, groups = container_of(sx, SPECS["two"])
    masks = sx.flag("masks")
    seen, drop = [], sx.choice("drop", [0, 1, 2])

    def flt(g):
        seen.append(g)
        return len(seen) != drop

    def tr(g):
        g.marked = len(seen)
        return g
    d, store = dataset(sx, {"a.mid": c}, (0.5, 0.25),
                       {"do_split_mask": masks, "pre_filter": flt, "pre_transform": tr}, [])
    one, whole = [store[n][0].graphs for n in d.processed_file_names]
    sx.check(len(one) == (2 if drop == 0 else 1) and len(whole) == 1, "filtered graphs are left out")
    for g in one + whole:
        sx.check(any(g is s for s in seen) and seen[g.marked - 1] is g, "the filter and the transform see every graph")
        sx.check(("train_mask" in g) == masks and ("test_mask" in g) == masks, "masks on request")


BAD_ARGS = {"root": 3, "transform": 3, "pre_transform": "x", "pre_filter": 1, "default_node_attr": 3, "midi_files": "a.mid",
            "default_webserver": 3, "train_ratio": "0.5", "val_ratio": None, "per_instrument_graph": 1, "per_graph_slit": "yes",
            "default_midi_loc": 7, "feature_vec_size": 2.5, "velocity_num_buckets": "8", "tolerance": 1,
            "filter_single_notes": 0, "include_velocity": None}


@harness("C21", "any split ratios in sixteenths in [-1/4, 5/4], any feature size in [-2,131] and bucket count in [-2,9]; every argument of a wrong kind",
         params=[{"what": w} for w in ("ratios", "sizes", "kinds")])
def dataset_args(sx, what):
    """the constructor up to the point where the files are processed: sizes and ratios it must
    refuse are refused before anything is read or written"""
    import os
    import shutil
    import tempfile
    from neural_graph_composer import midi_dataset as M
    root = tempfile.mkdtemp(prefix="sxda")
    began = []
    kw, bad = {"midi_files": ["a.mid"]}, False
    if what == "ratios":
        tr = sx.time("train", 1.25, 16, lo=-0.25)
        va = sx.time("val", 1.25, 16, lo=-0.25)
        kw.update(train_ratio=tr, val_ratio=va)
        bad = sx.or_(tr < 0, va < 0, tr > 1, va > 1, tr + va > 1)
    elif what == "sizes":
        f, b = sx.int("features", -2, 131), sx.int("buckets", -2, 9)
        f, b = None if sx.flag("nof") else f, None if sx.flag("nob") else b
        kw.update(feature_vec_size=f, velocity_num_buckets=b)
        bad = sx.or_(False if f is None else sx.or_(f < 1, f > 128), False if b is None else b < 1)
    else:
        k = sx.choice("arg", ["none", "names", "folder"] + sorted(BAD_ARGS))
        if k == "names":
            kw["midi_files"] = ["a.mid", 3]
        elif k == "folder":
            kw["default_midi_loc"] = os.path.join(root, "nothing")
        elif k != "none":
            kw[k] = BAD_ARGS[k]
        bad = k != "none"
    try:
        with patched() as P:
            P.set(M.MidiDataset, "processed_file_names", ["one.pt", "all.pt"])
            P.set(M.InMemoryDataset, "__init__", lambda self, *a, **k: began.append(a))
            P.set(M.MidiDataset, "processed_paths", [])
            P.set(M.MidiDataset, "processed_dir", os.path.join(root, "processed"))
            P.set(__import__("builtins"), "print", lambda *a, **k: None)
            kw.setdefault("default_midi_loc", root)
            kw.setdefault("root", root)
            _, e = sx.attempt(lambda: M.MidiDataset(**kw), TypeError, ValueError)
    finally:
        shutil.rmtree(root)
    sx.check(sx.iff(e is not None, bad), "refused exactly when an argument is not one of the values allowed")
    sx.check((e is None) == (len(began) == 1), "a refused dataset reads and writes nothing")


class Prefixed:
    """names inputs per file"""

    def __init__(self, sx, pre):
        self._sx, self._pre = sx, pre

    def int(self, name, lo, hi):
        return self._sx.int(self._pre + name, lo, hi)

    def time(self, name, *a, **k):
        return self._sx.time(self._pre + name, *a, **k)

    def __getattr__(self, n):
        return getattr(self._sx, n)


# ------------------------------------------------------------------ C22 transforms
def tmods():
    from neural_graph_composer import transforms
    return transforms, transforms.torch, transforms.Data


def tdata(sx, n, m, masks=True, attr=True, rows=2, vel=False):
    T, torch, Data = tmods()
    if vel:
        x = [[[sx.int(f"x{i}.{r}.{c}", 0, 127) for c in range(2)] for r in range(rows)] for i in range(n)]
    else:
        x = [[sx.int(f"x{i}.{c}", 0, 127) for c in range(rows)] for i in range(n)]
    e = [[sx.int(f"e{i}.{s}", 0, n - 1) for i in range(m)] for s in "uv"]
    w = [[sx.int(f"w{i}", 1, 9)] for i in range(m)]
    y = [sx.int(f"y{i}", 1, 99) for i in range(n)]
    d = Data(x=torch.FloatTensor(x), edge_index=torch.tensor(e, dtype=torch.long), y=torch.tensor(y, dtype=torch.long))
    d.node_hash = list(range(100, 100 + n))
    d.label = list(range(1, 1 + n))
    if attr:
        d.edge_attr = torch.FloatTensor(w)
    mk = {}
    if masks:
        for k in ("train_mask", "val_mask", "test_mask"):
            mk[k] = [sx.int(f"{k}{i}", 0, 1) for i in range(n)]
            setattr(d, k, torch.tensor(mk[k], dtype=torch.bool))
    return d, x, e, w, y, mk


@harness("C22", "graphs of 1-4 nodes and 1-4 edges between any nodes, any features, with or without velocity row",
         params=[{"n": 1, "m": 2, "vel": False}, {"n": 3, "m": 3, "vel": False}, {"n": 2, "m": 2, "vel": True}],
         thorough=[{"n": n, "m": m, "vel": v} for n in (1, 2, 4) for m in (1, 4, 6) for v in (False, True)])
def add_degree(sx, n, m, vel):
    T, torch, Data = tmods()
    d, x, e, w, y, mk = tdata(sx, n, m, vel=vel)
    r = T.AddDegreeTransform()(d)
    got = r.x.tolist()
    for i in range(n):
        flat = [v for row in x[i] for v in row] if vel else x[i]
        sx.check(sx.tup_eq(got[i][:-1], flat), "features are kept")
        sx.check(got[i][-1] == sx.count(u == i for u in e[0]), "number of transitions out of the node")
    sx.check(sx.all_(sx.tup_eq(a, b) for a, b in zip(r.edge_index.tolist(), e)), "edges are kept")
    sx.check(sx.tup_eq(r.y.tolist(), y), "targets are kept")


@harness("C22", "graphs of 2-3 (thorough 4) nodes and 1-2 (thorough 3) edges, every random choice, drop rate 0, 0.4, 0.5, 1",
         params=[{"n": 3, "m": 2, "p": p, "attr": a} for p, a in ((0.4, True), (0.7, False), (0.0, True))],
         thorough=[{"n": n, "m": m, "p": p, "attr": a} for n, m in ((2, 2), (3, 3), (4, 2)) for p in (0.0, 0.3, 0.5, 1.0)
                   for a in (True, False)])
def node_drop(sx, n, m, p, attr):
    T, torch, Data = tmods()
    d, x, e, w, y, mk = tdata(sx, n, m, attr=attr, rows=1)
    src = [sx.int(f"p{i}", 0, n - 1) for i in range(n)]
    for i in range(n):
        for j in range(i):
            sx.assume(src[i] != src[j])
    with patched() as P:
        if sx.symbolic:
            from symex import torchshim
            P.set(torchshim.SOURCES, "perm", lambda k: src)
        else:
            P.set(torch, "randperm", lambda k, *a, **kw: torch.tensor(src))
        r = T.RandomNodeDrop(p)(d)
    k = int(p * n)
    gone = [int(v) for v in src[:k]]
    keep = [i for i in range(n) if i not in gone]
    sx.check(r.num_nodes == len(keep), "the chosen share of nodes is dropped")
    sx.check(all(sx.tup_eq(a, x[i]) is not False for a, i in zip(r.x.tolist(), keep)) and len(r.x.tolist()) == len(keep), "rows")
    for j, i in enumerate(keep):
        sx.check(sx.tup_eq(r.x.tolist()[j], x[i]), "features stay with their node")
        sx.check(r.y.tolist()[j] == y[i], "target stays with its node")
        sx.check(r.node_hash[j] == 100 + i and r.label[j] == 1 + i, "hash and label stay with their node")
        for q in mk:
            sx.check(sx.iff(getattr(r, q).tolist()[j], mk[q][i] == 1), "masks stay with their node")
    sx.check(len(r.node_hash) == len(r.label) == len(keep), "hashes and labels of the nodes that remain")
    alive = [j for j in range(m) if bool(sx.and_(sx.any_(e[0][j] == i for i in keep), sx.any_(e[1][j] == i for i in keep)))]
    ei = r.edge_index.tolist()
    sx.check(len(ei) == 2 and len(ei[0]) == len(alive) == len(ei[1]), "edges between remaining nodes remain, all others go")
    for c, j in enumerate(alive):
        for s in (0, 1):
            sx.check(sx.all_(sx.implies(e[s][j] == i, ei[s][c] == keep.index(i)) for i in keep), "edges connect the same nodes as before")
        if attr:
            sx.check(r.edge_attr.tolist()[c][0] == w[j][0], "weights stay with their edge")
    if not attr:
        sx.check(r.edge_attr is None, "no weights, none invented")


@harness("C22", "graphs of 2-3 nodes and 2-3 edges, every random choice k/8, drop rate 0, 0.25, 0.5, 1",
         params=[{"n": 2, "m": 3, "p": p, "full": f} for p, f in ((0.25, True), (0.5, False), (0.0, True), (1.0, False))],
         thorough=[{"n": 3, "m": m, "p": p, "full": f} for m in (2, 4) for p in (0.0, 0.25, 0.5, 1.0) for f in (True, False)])
def edge_drop(sx, n, m, p, full):
    T, torch, Data = tmods()
    d, x, e, w, y, mk = tdata(sx, n, m, masks=full, attr=full, rows=1)
    src = [sx.time(f"r{i}", 0.875, 8) for i in range(m)]
    with patched() as P:
        if sx.symbolic:
            from symex import torchshim
            P.set(torchshim.SOURCES, "rand", lambda k: src)
        else:
            P.set(torch, "rand", lambda k, *a, **kw: torch.tensor(src))
        r = T.RandomEdgeDrop(p)(d)
    keep = [j for j in range(m) if bool(src[j] >= p)]
    ei = r.edge_index.tolist()
    sx.check(len(ei) == 2 and len(ei[0]) == len(keep), "exactly the edges drawn at or above the rate remain")
    for c, j in enumerate(keep):
        sx.check(sx.and_(ei[0][c] == e[0][j], ei[1][c] == e[1][j]), "remaining edges are unchanged and in order")
        if full:
            sx.check(r.edge_attr.tolist()[c][0] == w[j][0], "weights stay with their edge")
    sx.check(sx.and_(sx.tup_eq(r.y.tolist(), y), sx.all_(sx.tup_eq(a, b) for a, b in zip(r.x.tolist(), x))), "nodes are kept")
    for q in mk:
        sx.check(sx.all_(sx.iff(a, b == 1) for a, b in zip(getattr(r, q).tolist(), mk[q])), "masks are kept")
    sx.check(list(r.node_hash) == list(d.node_hash) and list(r.label) == list(d.label), "hashes and labels are kept")


@harness("C22", "graphs of 3 nodes and 1-3 edges, any nodes to keep, the number of nodes given or not",
         params=[{"m": m, "attr": a, "given": g} for m, a, g in ((1, True, True), (3, True, False), (2, False, True), (2, False, False))])
def adjacency(sx, m, attr, given):
    T, torch, Data = tmods()
    n = 3
    e = [[sx.int(f"e{i}.{s}", 0, n - 1) for i in range(m)] for s in "uv"]
    w = [[sx.int(f"w{i}", 1, 9)] for i in range(m)]
    keep = [i for i in range(n) if sx.flag(f"k{i}")]
    if not given:  # then the highest node of an edge is the last one
        sx.assume(sx.all_(sx.any_(v >= k for r in e for v in r) for k in keep))
    ei, ea = T.RandomNodeDrop.filter_adj(torch.tensor(e, dtype=torch.long), torch.tensor(w) if attr else None,
                                         torch.tensor(keep, dtype=torch.long), *([n] if given else []))
    got = [(a, b) for a, b in zip(*ei.tolist())]
    want = [j for j in range(m) if bool(sx.and_(sx.member(e[0][j], keep), sx.member(e[1][j], keep)))]
    sx.check(len(got) == len(want), "edges between the kept nodes")
    for g, j in zip(got, want):
        sx.check(sx.tup_eq(g, (e[0][j], e[1][j])), "edges keep their ends and order")
    if attr:
        sx.check(sx.all_(a[0] == w[j][0] for a, j in zip(ea.tolist(), want)) and len(ea.tolist()) == len(want), "and their weights")
    else:
        sx.check(ea is None, "no weights, none invented")


@harness("C22", "any graph number")
def graph_id(sx):
    T, torch, Data = tmods()
    d, x, e, w, y, mk = tdata(sx, 2, 1)
    i = sx.int("id", 0, 1000)

    class Ds:
        num_classes = 3

        def get_graph_id(self):
            return i
    with patched() as P:
        P.set(__import__("builtins"), "print", lambda *a, **k: None)
        r = T.GraphIDTransform(Ds())(d)
    sx.check(r.graph_id.item() == i, "the number of the graph being read")
    sx.check(sx.all_(sx.tup_eq(a, b) for a, b in zip(r.x.tolist(), x)), "features are kept")
