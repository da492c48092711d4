"""Beats, downbeats, onsets and end of a parsed midi file."""
PROPS = ("C40",)
PRELOAD = ("neural_graph_composer.custom_pretty_midi", "neural_graph_composer.midi_reader")

from symex.api import harness
from harness.common import *  # noqa
from harness.midifile import Midi
from harness.h_reader import RES, scale, tempo_map


def beat_factor(meter):
    """(denominator notes per quarter, denominator notes per beat)"""
    n, d = meter
    return d / 4.0, 3 if n % 3 == 0 and n != 3 else 1


def timeline(sx, m, tempi, meters, span, first=0):
    """parsed file; its changes in seconds: [(time, tempo)], [(time, (num, den))], end"""
    evs, tick, ch = [], 0, [(0, scale(500000))]
    for i, t in enumerate(tempi):
        d = sx.int(f"t{i}.d", 0, span)
        tick = tick + d
        evs.append(("set_tempo", d, dict(tempo=t)))
        ch.append((tick, scale(t)))
    sec = tempo_map(ch)
    ms, tick, mt = [], 0, []
    for i, (a, b) in enumerate(meters):
        d = sx.int(f"m{i}.d", 0 if i or not first else first, span)
        tick = tick + d
        ms.append(("time_signature", d, dict(numerator=a, denominator=b)))
        mt.append((sec(sx, tick), (a, b)))
    s, l = sx.int("n.s", 0, span), sx.int("n.l", 1, span)
    notes = [("note_on", s, dict(channel=0, note=60, velocity=64)), ("note_off", l, dict(channel=0, note=60, velocity=64))]
    eot = [("end_of_track", 0, {})]
    m.put("a.mid", RES, [evs + ([] if evs else ms) + eot, notes + eot])
    pm = m.load("a.mid")
    if evs and ms:  # tempo and meter changes mixed: the meters are set by hand
        import pretty_midi
        pm.time_signature_changes = [pretty_midi.TimeSignature(a, b, x) for x, (a, b) in mt]
    tc = [(sec(sx, t), 60.0 / (q * RES)) for t, q in ch]
    end = sec(sx, s + l)
    end = sx.max(end, *[t for t, _ in tc], *[t for t, _ in mt]) if len(tc) + len(mt) > 1 else end
    return pm, tc, mt, end


def phase(sx, tc, t, per_quarter=1.0):
    """number of denominator notes from 0 to t, with the meter fixed"""
    r = 0.0
    for i, (a, q) in enumerate(tc):
        stop = tc[i + 1][0] if i + 1 < len(tc) else None
        x = sx.max(0, t - a) if stop is None else sx.max(0, sx.min(t, stop) - a)
        r = r + x * (q / 60.0 * per_quarter)
    return r


def listed(sx, xs):
    return [x if sx.symbolic else float(x) for x in xs]


TEMPI = {"slow": 1000000, "fast": 250000}
M4, M3, M6, M2, M38 = (4, 4), (3, 4), (6, 8), (2, 2), (3, 8)
CASES = [{"tempi": a, "meters": b} for a, b in (((), ()), (("slow",), ()), (("fast", "slow"), ()), ((), (M4,)), ((), (M6,)),
         ((), (M4, M6)), ((), (M4, M3, M6)), (("fast",), (M4,)), (("fast",), (M3, M2)))]


@harness("C40", "files of 0-2 tempo changes of known tempi and 0-2 (thorough 3) meter changes at any ticks, one note anywhere, any start",
         params=CASES, thorough=CASES + [{"tempi": ("slow",), "meters": (M2, M38)},
                                         {"tempi": ("slow", "fast"), "meters": (M2,)}], grid_bits=12)
def beats(sx, tempi, meters):
    span = 192 if len(tempi) + len(meters) < 2 else 128
    with Midi(sx) as m:
        pm, tc, mt, end = timeline(sx, m, [TEMPI[t] for t in tempi], meters, span)
        start = sx.time("start", 1, 8)
        bs = listed(sx, pm.get_beats(start))
        sx.check(pm.get_end_time() == end, "end of the piece")
    sx.check(sx.iff(len(bs) > 0, start < end), "there are beats iff the piece is not over")
    if bs:
        sx.check(bs[0] == start, "the first beat is where asked")
    for x in bs:
        sx.check(x < end, "beats lie before the end")

    def in_force(t):
        """for every meter: is it the one in force at t, and its beat"""
        if not mt:
            return [(True, (1.0, 1))]
        return [(sx.and_(i == 0 or x <= t, *[y > t for y, _ in mt[i + 1:]]), beat_factor(mm)) for i, (x, mm) in enumerate(mt)]

    def step_ok(b, c):
        """c is the beat after b: one beat later, unless a meter change comes first"""
        cut = None
        for x, _ in mt:
            nxt = sx.ite(x > b, x, 1e6)
            cut = nxt if cut is None else sx.min(cut, nxt)
        oks = []
        for on, (f, k) in in_force(b):
            pb, pc = phase(sx, tc, b, f), phase(sx, tc, c, f)
            plain = pc - pb == k
            if cut is not None:
                pcut = phase(sx, tc, cut, f)
                plain = sx.ite(pcut - pb <= k, c == cut, plain)
            oks.append(sx.and_(on, plain))
        return sx.any_(oks)
    for b, c in zip(bs, bs[1:]):
        sx.check(step_ok(b, c), "a beat follows after one beat of the tempo and meter in force, or at a meter change")
    if bs:
        nxt = sx.any_(sx.and_(on, phase(sx, tc, end, f) - phase(sx, tc, bs[-1], f) <= k) for on, (f, k) in in_force(bs[-1]))
        sx.check(sx.and_(nxt, sx.all_(sx.or_(x <= bs[-1], x >= end) for x, _ in mt)), "no beat is missing at the end")
    sx.observe("n", len(bs))


@harness("C40", "files of 0-1 tempo changes and 0-2 meter changes at any ticks, one note anywhere, any start",
         params=[{"tempi": a, "meters": b} for a, b in (((), ()), ((), (M4,)), ((), (M3,)), ((), (M6,)), ((), (M3, M2)), ((), (M6, M3)), ((), (M38, M2)),
                                                        (("fast",), (M3,)))], grid_bits=12)
def downbeats(sx, tempi, meters):
    with Midi(sx) as m:
        pm, tc, mt, end = timeline(sx, m, [TEMPI[t] for t in tempi], meters, 256 if len(tempi) + len(meters) < 2 else 160)
        start = sx.time("start", 1, 8)
        bs = listed(sx, pm.get_beats(start))
        ds = listed(sx, pm.get_downbeats(start))
    segs = [(x, mm) for x, mm in mt]
    if not segs or bool(segs[0][0] > start):
        segs.insert(0, (start, (4, 4)))
    want, k = [], 0
    for i, b in enumerate(bs):
        cur, new = segs[0][1], i == 0
        for j, (x, mm) in enumerate(segs):
            if bool(x <= b):
                cur = mm
                if bool(x == b):
                    new = True
        if new:
            k = 0
        n = cur[0] // 3 if cur[0] % 3 == 0 and cur[0] != 3 else cur[0]
        if k % n == 0:
            want.append(b)
        k += 1
    sx.check(len(ds) == len(want), "number of downbeats")
    for a, b in zip(ds, want):
        sx.check(a == b, "every measure starts with a downbeat")
    sx.observe("n", len(ds))


@harness("C40", "one or two instruments with up to 2 notes at any times, some of no or negative length", params=[
    {"spec": s} for s in ((0,), (1,), (2,), (2, 1), (0, 2))], thorough=[{"spec": s} for s in ((2, 2), (3,), (3, 1))])
def onsets(sx, spec):
    import pretty_midi
    from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI
    with Midi(sx):
        pm = CustomPrettyMIDI()
        notes = []
        for i, k in enumerate(spec):
            ins = pretty_midi.Instrument(program=i)
            for j in range(k):
                s, e = sx.time(f"i{i}n{j}.s", 4, 8), sx.time(f"i{i}n{j}.e", 4, 8)
                note = pretty_midi.Note(velocity=64, pitch=60 + j, start=s, end=s + 1)
                note.end = e
                ins.notes.append(note)
            notes.append(list(ins.notes))
            pm.instruments.append(ins)
        got = listed(sx, pm.get_onsets())
        flat = [x for ns in notes for x in ns]
        sx.check(sx.multiset_eq([(x,) for x in got], [(x.start,) for x in flat]), "the onsets of all notes")
        sx.check(sx.all_(a <= b for a, b in zip(got, got[1:])), "in time order")
        sx.check(pm.get_end_time() == sx.max(0, *[x.end for x in flat]) if flat else pm.get_end_time() == 0, "end of the piece")
        pm.remove_invalid_notes()
        for ins, ns in zip(pm.instruments, notes):
            left = [x for x in ns if bool(x.end > x.start)]
            sx.check(len(ins.notes) == len(left) and all(a is b for a, b in zip(ins.notes, left)), "notes without length are removed")
    sx.observe("n", len(got))
