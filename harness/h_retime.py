"""Re-timing a parsed piece: adjust_times of the real class, over symbolic events and a list of mappings."""
PROPS = ("C41",)
PRELOAD = ("neural_graph_composer.custom_pretty_midi", "neural_graph_composer.midi_reader")

from symex.api import harness
from harness.common import *  # noqa
from harness.midifile import Midi
from harness.h_reader import RES, scale, tempo_map

MAPS = {"half": ([0.0, 4.0], [0.0, 2.0]), "middle": ([1.0, 3.0], [0.0, 4.0]), "late": ([0.0, 2.0], [1.0, 2.0]),
        "bent": ([0.0, 2.0, 4.0], [0.0, 1.0, 5.0]), "flat": ([0.0, 1.0, 2.0, 4.0], [0.0, 2.0, 2.0, 3.0]),
        "mixed": ([2.0, 0.0, 4.0, 0.0], [1.0, 0.0, 5.0, 7.0]), "back": ([0.0, 2.0, 4.0], [0.0, 3.0, 1.0])}


def cleaned(name):
    """the mapping as it is applied: ascending, the first value for a repeated time, never going back"""
    xs, ys = MAPS[name]
    seen = {}
    for x, y in zip(xs, ys):
        seen.setdefault(x, y)
    ks = sorted(seen)
    vs, top = [], None
    for k in ks:
        top = seen[k] if top is None else max(top, seen[k])
        vs.append(top)
    return ks, vs


def moved(sx, ks, vs, t):
    r = vs[-1]
    for i in range(len(ks) - 2, -1, -1):
        r = sx.ite(t < ks[i + 1], vs[i] + (t - ks[i]) * ((vs[i + 1] - vs[i]) / (ks[i + 1] - ks[i])), r)
    return sx.ite(t < ks[0], vs[0], r)


def kept(sx, ks, vs, events, stay=()):
    """(payload, time) of the events left: the last one moved to the start, then those inside"""
    ev = []
    for t, p in events:
        at = len(ev)
        while at and bool(ev[at - 1][0] > t):
            at -= 1
        ev.insert(at, (t, p))
    ev = [(moved(sx, ks, vs, t), p) for t, p in ev]
    first = [e for e in ev if bool(e[0] == vs[0])][-1:]
    return [(p, t) for t, p in first + [e for e in ev if bool(e[0] > vs[0]) and bool(e[0] < vs[-1])]]


def same(sx, got, want, why):
    sx.check(len(got) == len(want), why)
    for (p, t), (q, u) in zip(got, want):
        sx.check(sx.and_(p is q, t == u), why)


def apply(sx, pm, name):
    import numpy as np
    xs, ys = MAPS[name]
    pm.adjust_times(np.array(xs), np.array(ys))


@harness("C41", "one or two notes of one or two instruments at any times k/8 in [0,5], seven mappings (bent, flat, unordered, repeated "
         "or falling ones included)", params=[{"map": k, "spec": (1,)} for k in MAPS] + [{"map": k, "spec": (1, 1)} for k in ("bent", "flat")],
         thorough=[{"map": k, "spec": s} for k in MAPS for s in ((2,), (1, 1))], narrow=True)
def notes(sx, map, spec):
    import pretty_midi
    from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI
    ks, vs = cleaned(map)
    with Midi(sx):
        pm = CustomPrettyMIDI(resolution=RES)
        src = []
        for i, k in enumerate(spec):
            ins = pretty_midi.Instrument(program=i)
            for j in range(k):
                s, l = sx.time(f"i{i}n{j}.s", 4, 8), sx.time(f"i{i}n{j}.l", 1, 8)
                sx.assume(l > 0)
                v, p = sx.int(f"i{i}n{j}.v", 1, 127), sx.int(f"i{i}n{j}.p", 0, 127)
                ins.notes.append(pretty_midi.Note(velocity=v, pitch=p, start=s, end=s + l))
                src.append((i, v, p, s, s + l))
            pm.instruments.append(ins)
        apply(sx, pm, map)
        got = [(i, n.velocity, n.pitch, n.start, n.end) for i, ins in enumerate(pm.instruments) for n in ins.notes]
    want = []
    for i, v, p, s, e in src:
        a, b = moved(sx, ks, vs, s), moved(sx, ks, vs, e)
        if bool(s >= ks[0]) and bool(e <= ks[-1]) and bool(a < b):
            want.append((i, v, p, a, b))
    sx.check(len(got) == len(want), "the notes inside the mapped span are kept")
    for a, b in zip(got, want):
        sx.check(sx.tup_eq(a, b), "a note keeps its instrument, pitch and velocity and moves by the mapping")
    sx.observe("n", len(got))


@harness("C41", "one note and two control changes, pitch bends, key changes or words at any times k/8 in [0,5], in any order; seven mappings",
         params=[{"map": k, "what": w} for k in MAPS for w in ("controls", "keys")] +
         [{"map": k, "what": w} for k in ("middle", "bent", "flat") for w in ("bends", "lyrics")], narrow=True)
def events(sx, map, what):
    import pretty_midi
    from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI
    ks, vs = cleaned(map)
    ts = [sx.time(f"t{i}", 5, 8) for i in range(2)]
    with Midi(sx):
        pm = CustomPrettyMIDI(resolution=RES)
        one, two = pretty_midi.Instrument(program=0), pretty_midi.Instrument(program=1)
        pm.instruments += [one, two]
        two.notes.append(pretty_midi.Note(velocity=64, pitch=60, start=1.0, end=2.0))
        if what == "controls":
            ev = [pretty_midi.ControlChange(7, i + 1, t) for i, t in enumerate(ts)]
            two.control_changes.extend(ev)
        elif what == "bends":
            ev = [pretty_midi.PitchBend(i + 1, t) for i, t in enumerate(ts)]
            one.pitch_bends.extend(ev)
        elif what == "keys":
            ev = [pretty_midi.KeySignature(i, t) for i, t in enumerate(ts)]
            pm.key_signature_changes.extend(ev)
        else:
            ev = [pretty_midi.Lyric("la" * (i + 1), t) for i, t in enumerate(ts)]
            pm.lyrics.extend(ev)
        want = kept(sx, ks, vs, list(zip(ts, ev)))
        apply(sx, pm, map)
        got = {"controls": two.control_changes, "bends": one.pitch_bends, "keys": pm.key_signature_changes, "lyrics": pm.lyrics}[what]
        got = [(e, e.time) for e in got]
    same(sx, got, want, "changes inside the mapped span move by the mapping; the last one before it moves to its start")
    sx.observe("n", len(got))


@harness("C41", "a file with one or two tempo changes (the second 64 ticks after the first), the first at any second tick (any of 11 places if there are two), and one note; "
         "four mappings; slow or fast",
         params=[{"map": k, "tempo": t} for k in ("half", "middle", "bent", "mixed") for t in (1000000,)] +
         [{"map": "half", "tempo": 250000}, {"map": "half", "tempo": 1000000, "second": 250000}, {"map": "middle", "tempo": 1000000, "second": 250000}],
         thorough=[{"map": k, "tempo": t, "second": u} for k in ("half", "middle", "bent", "mixed") for t, u in ((1000000, 0), (250000, 0), (
             1000000, 250000), (250000, 500000))])
def tempi(sx, map, tempo, second=0):
    ks, vs = cleaned(map)
    with Midi(sx) as m:
        at = sx.int("at", 0, 300) * 2 if not second else sx.choice("at", (0, 24, 64, 128, 192, 212, 256, 364, 448, 512, 600))
        eot = [("end_of_track", 0, {})]
        note = [("note_on", 0, dict(channel=0, note=60, velocity=64)), ("note_off", 600, dict(channel=0, note=60, velocity=64))]
        more = [("set_tempo", 64, dict(tempo=second))] if second else []
        m.put("a.mid", RES, [[("set_tempo", at, dict(tempo=tempo))] + more + eot, note + eot])
        pm = m.load("a.mid")
        sec = tempo_map([(0, scale(500000)), (at, scale(tempo))] + ([(at + 64, scale(second))] if second else []))
        xs = [(sec(sx, at), tempo)] + ([(sec(sx, at + 64), second)] if second else [])
        apply(sx, pm, map)
        tt, qq = pm.get_tempo_changes()
        tt, qq = [t if sx.symbolic else float(t) for t in tt], [float(q) if not sx.symbolic else q for q in qq]
    want = []
    for a, b, c, d in zip(ks, ks[1:], vs, vs[1:]):
        if c == d:
            continue
        r = (b - a) / (d - c)
        first = 120.0
        for x, t in xs:
            first = sx.ite(x <= a, 60e6 / t, first)
        want.append((c, first * r))
        for x, t in xs:
            if bool(x > a) and bool(x < b):
                want.append((moved(sx, ks, vs, x), 60e6 / t * r))

    def force(changes, t):
        r = 120.0
        for u, q in changes:
            r = sx.ite(u <= t, q, r)
        return r
    q = sx.time("q", 6, 8)
    sx.assume(q >= vs[0])
    for u, _ in want:
        sx.assume(sx.or_(q < u - 0.0625, q > u + 0.0625, q == u) if u in vs else sx.or_(q < u - 0.0625, q > u + 0.0625))
    have = force(list(zip(tt, qq)), q)
    sx.check(sx.and_(have < force(want, q) + 0.01, have > force(want, q) - 0.01), "the tempo is scaled as the times are")
    sx.observe("n", len(tt))
