"""Music graph: connection queries, merging of nodes, ways to make a builder."""
PROPS = ("C39",)
PRELOAD = ("neural_graph_composer.midi_graph_builder",)

from symex.api import harness
from harness.common import *  # noqa
from harness.h_graph import mods, gnote, gseq, same_set, reference, check_pyg


@harness("C39", "sequences of 3 (thorough 4) notes of any pitches; any two pitches asked for, as node ids, pitches or notes",
         params=[{"k": 3, "form": f} for f in ("id", "pitch", "note")], thorough=[
             {"k": k, "form": f} for k in (3, 4) for f in ("id", "pitch", "note")], hash_constants=())
def connected(sx, k, form):
    B, T, S, C, I = mods()
    notes = [gnote(sx, f"n{i}", start=0.5 * i, vel=(64, 64)) for i in range(k)]
    b = B()
    g = b.build_sequence(gseq(notes))
    u, v = gnote(sx, "u", start=0.0, vel=(0, 127)), gnote(sx, "v", start=sx.time("v.at", 8, 4), vel=(0, 127))
    edges = [(b.hash_to_notes[a], b.hash_to_notes[c]) for a, c in g.edges]
    want = sx.any_(sx.or_(sx.and_(same_set(sx, a, [u.pitch]), same_set(sx, c, [v.pitch])),
                          sx.and_(same_set(sx, a, [v.pitch]), same_set(sx, c, [u.pitch]))) for a, c in edges)
    arg = {"id": lambda n: [h for h in g if bool(same_set(sx, b.hash_to_notes[h], [n.pitch]))][0],
           "pitch": lambda n: [n.pitch], "note": lambda n: [n]}[form]
    known = [sx.any_(n.pitch == m.pitch for n in notes) for m in (u, v)]
    sx.assume(known[0])
    if form == "id":
        sx.assume(known[1])
    sx.check(sx.iff(B.is_connected(g, arg(u), arg(v)), want), "connected iff there is an edge between them")
    sx.check(sx.iff(B.is_connected(g, arg(v), arg(u)), want), "in both orders")
    for bad in (["x"], [0.5]):
        _, exc = sx.attempt(lambda: B.is_connected(g, bad, arg(u)), ValueError, TypeError)
        sx.check(exc is not None, "what is no chord is refused")
    r = list(B.neighbors(g, arg(u) if form != "id" else [u]))
    nxt = sx.any_(sx.and_(same_set(sx, a, [u.pitch]), same_set(sx, c, [v.pitch])) for a, c in edges)
    sx.check(sx.iff(sx.any_(same_set(sx, b.hash_to_notes[h], [v.pitch]) for h in r), nxt), "neighbours are the successors")


@harness("C39", "a chord of two notes and a third note, any pitches; the chord asked for in any order, with repeats, of any velocities",
         params=[{"form": f, "order": o} for f in ("pitch", "note") for o in ("ab", "ba", "aba", "a")], hash_constants=())
def connected_chords(sx, form, order):
    """a chord is the set of its pitches, however it is given"""
    B, T, S, C, I = mods()
    notes = [gnote(sx, n, start=t, vel=(1, 127)) for n, t in (("a", 0.0), ("b", 0.0), ("c", 1.0))]
    b = B()
    g = b.build_sequence(gseq(notes))
    ask = {n: gnote(sx, n + "q", start=sx.time(n + ".at", 8, 4), vel=(0, 127)) for n in set(order)}
    for n in ask:
        ask[n].pitch = notes["ab".index(n)].pitch
    u = [ask[n].pitch if form == "pitch" else ask[n] for n in order]
    v = [notes[2].pitch] if form == "pitch" else [notes[2]]
    edges = [(b.hash_to_notes[x], b.hash_to_notes[y]) for x, y in g.edges]
    p, q = [ask[n].pitch for n in order], [notes[2].pitch]
    want = sx.any_(sx.or_(sx.and_(same_set(sx, x, p), same_set(sx, y, q)), sx.and_(same_set(sx, x, q), same_set(sx, y, p))) for x, y in edges)
    sx.check(sx.iff(B.is_connected(g, u, v), want), "a chord asked for as a list is found by its set of pitches")
    sx.check(sx.iff(B.is_connected(g, v, u), want), "in both orders")
    if bool(want):
        r = list(B.neighbors(g, [ask[n] for n in order]))
        sx.check(sx.any_(same_set(sx, b.hash_to_notes[h], q) for h in r), "its successor is its neighbour")


@harness("C39", "graphs of 4 (thorough 5) nodes with any edges, directed or not; 1-3 of the nodes merged", params=[
    {"n": 4, "m": m, "directed": d} for m in (1, 2, 3) for d in (True, False)], thorough=[
    {"n": n, "m": m, "directed": d} for n in (4,) for m in (1, 2, 3, 4) for d in (True, False)], hash_mode="concrete")
def merged(sx, n, m, directed):
    import networkx as nx
    B = mods()[0]
    g = nx.DiGraph() if directed else nx.Graph()
    g.add_nodes_from(range(n))
    edges = {}
    for i in range(n):
        for j in range(n):
            # edges among the nodes kept do not matter to the code: one of them is enough
            if (directed or i <= j) and (i < m or j < m or (i, j) == (n - 2, n - 1)) and not (i == j and i >= m):
                if i >= m and j < m and directed and (i, j) != (m, 0):
                    continue
                if i < m and j < m and (i, j) not in ((0, 0), (0, 1)):
                    continue
                if sx.flag(f"e{i}{j}"):
                    w = sx.int(f"w{i}{j}", 1, 9)
                    g.add_edge(i, j, weight=w)
                    edges[(i, j)] = w
    gone = list(range(m))
    new = B.merge_nodes(g, gone)
    sx.check(sorted(g.nodes) == list(range(m, n)) + [new] and new not in range(n), "the merged nodes become one new node")
    sx.check(g.nodes[new]["merged_nodes"] == list(range(m)), "which remembers them")
    und = lambda i, j: [(i, j)] if directed else [(i, j), (j, i)]  # noqa
    for i in range(m, n):
        ws = [edges[e] for x in gone for e in und(x, i) if e in edges]
        sx.check(g.has_edge(new, i) == bool(ws), "edges to the others are taken over")
        if ws and g.has_edge(new, i):
            sx.check(sx.any_(g.edges[new, i]["weight"] == w for w in ws), "with a weight of theirs")
        for j in range(m, n):
            old = [edges[e] for e in und(i, j) if e in edges]
            sx.check(g.has_edge(i, j) == bool(old), "the other edges stay")
            if old:
                sx.check(g.edges[i, j]["weight"] == old[0], "with their weight")


@harness("C39", "one sequence or a container of two, 2-3 notes of any pitches; from a file, a sequence, a container or given to the "
         "constructor", params=[{"door": d} for d in ("sequence", "container", "file", "init", "init-seq", "build")],
         hash_constants=())
def doors(sx, door):
    import os
    import tempfile
    import shutil
    from neural_graph_composer import midi_graph_builder as M
    B, T, S, C, I = mods()
    one = gseq([gnote(sx, f"a{i}", start=0.5 * i, vel=(64, 64)) for i in range(2)])
    two = gseq([gnote(sx, f"b{i}", start=0.5 * i, vel=(64, 64), inst=1) for i in range(2)], inst=1)
    single = door in ("sequence", "init-seq")
    seqs = [one] if single else [one, two]
    groups = [[[n.pitch] for n in s.notes] for s in seqs]
    if door == "sequence":
        b = B.from_midi_sequence(one)
    elif door == "init-seq":
        b = B(one)
    elif door == "init":
        b = B(C(midi_seq=seqs))
    elif door == "container":
        b = B.from_midi_sequences(C(midi_seq=seqs))
    elif door == "build":
        b = B(C(midi_seq=[two]))
    else:
        root = tempfile.mkdtemp(prefix="sxgb")
        path = os.path.join(root, "x.mid")

        class Reader:
            @staticmethod
            def read(p):
                sx.check(str(p) == path, "the file asked for")
                return C(midi_seq=seqs)
        try:
            open(path, "w").close()
            with patched() as P:
                P.set(M, "MidiReader", Reader)
                b = B.from_file(path)
        finally:
            shutil.rmtree(root)
    if door == "build":
        b.build(C(midi_seq=seqs))
    else:
        b.build()
    out = list(b)
    sx.check(len(out) == len(seqs), "one graph per sequence")
    for d, g in zip(out, groups):
        sets, ids, w, first = reference(sx, g)
        check_pyg(sx, b, d, sets, len(ids))
    sx.check(list(b) == [], "iterating emits each graph once")


@harness("C39", "wrong files, empty sequences and foreign objects", params=[{}], str_mode="concrete")
def doors_refuse(sx):
    import os
    import tempfile
    import shutil
    B, T, S, C, I = mods()
    root = tempfile.mkdtemp(prefix="sxgb")
    try:
        for name in ("a.txt", "b", "c.mid.bak"):
            open(os.path.join(root, name), "w").close()
        for name in ("a.txt", "b", "c.mid.bak", "missing.mid", "."):
            _, e = sx.attempt(lambda: B.from_file(os.path.join(root, name)), ValueError)
            sx.check(e is not None, "not an existing midi file: " + name)
    finally:
        shutil.rmtree(root)
    _, e = sx.attempt(lambda: B.from_midi_sequence(gseq([])), ValueError)
    sx.check(e is not None, "no notes")
    for bad in (None, 3, [gseq([])], C()):
        _, e = sx.attempt(lambda: B.from_midi_sequence(bad), ValueError)
        sx.check(e is not None, "not a sequence")
    for bad in (None, 3, gseq([])):
        _, e = sx.attempt(lambda: B.from_midi_sequences(bad), TypeError)
        sx.check(e is not None, "not a container")
    for bad in (3, "x", [gseq([])]):
        _, e = sx.attempt(lambda: B(bad), TypeError)
        sx.check(e is not None, "nothing to build from")
    t = sx.time("t", 2, 4, lo=-2)
    _, e = sx.attempt(lambda: B(tolerance=t), ValueError)
    sx.check(sx.iff(e is None, t >= 0), "tolerance refused iff negative")
    f = sx.int("f", -5, 140)
    b, e = sx.attempt(lambda: B(feature_size=f), ValueError)
    sx.check(sx.iff(e is None, sx.and_(f >= 1, f <= 127)), "feature size refused iff out of range")
    if e is None:
        sx.check(b.feature_size == f, "feature size kept")
