"""Reading and writing midi files: parser, tick/time map, reader, exporter."""
PROPS = ("C23", "C24", "C25", "C34", "C35", "C42")
PRELOAD = ("neural_graph_composer.midi_reader", "neural_graph_composer.custom_pretty_midi")

from symex.api import harness
from harness.common import *  # noqa
from harness.midifile import Midi

RES = 128          # ticks per quarter: with the tempi below every tick lies on a dyadic time
TEMPI = (500000, 250000, 1000000)
S0 = 0.5 / RES     # seconds per tick at the default tempo


def scale(tempo, res=RES):
    return tempo / 1e6 / res


def stream(sx, n, chans=(0,), dmax=10000, offs=True, tag="e", kinds=None, chs=None):
    """n key events: (delta, tick, channel, pitch, velocity, type); kinds and chs fix types and channels"""
    out = []
    tick = 0
    for i in range(n):
        d = sx.int(f"{tag}{i}.d", 0, dmax)
        tick = tick + d
        ch = chs[i] if chs else sx.choice(f"{tag}{i}.ch", chans)
        p = sx.int(f"{tag}{i}.pitch", 0, 127)
        v = sx.int(f"{tag}{i}.vel", 0, 127)
        kind = "note_on"
        if kinds:
            kind = kinds[i]
        elif offs and sx.flag(f"{tag}{i}.off"):
            kind = "note_off"
        out.append((d, tick, ch, p, v, kind))
    return out


def expected(sx, evs, end, progs=None):
    """for each event: (is a note-on, (drum, program, pitch, velocity, start, end))"""
    res = []
    for i, (d, t, ch, p, v, kind) in enumerate(evs):
        on = sx.and_(kind == "note_on", v > 0)
        e = end
        for j in range(len(evs) - 1, i, -1):
            _, tj, cj, pj, vj, kj = evs[j]
            off = sx.or_(kj == "note_off", vj == 0)
            if cj != ch:
                continue
            e = sx.ite(sx.and_(off, pj == p, tj > t), tj, e)
        res.append((on, (1 if ch == 9 else 0, (progs or {}).get(ch, 0), p, v, t * S0, e * S0)))
    return res


def same_notes(sx, got, exp, label):
    n_on = sx.count(on for on, _ in exp)
    sx.check(len(got) == n_on, label + ": as many notes as note-ons")
    for on, x in exp:
        sx.check(sx.implies(on, sx.count(sx.tup_eq(g, x) for g in got) ==
                            sx.count(sx.and_(o, sx.tup_eq(y, x)) for o, y in exp)), label)


def to_events(evs, end_gap):
    return [(k, d, dict(channel=ch, note=p, velocity=v)) for d, t, ch, p, v, k in evs] + \
        [("end_of_track", end_gap, {})]


@harness("C23", "one track of n key events (on/off, any pitch, velocity, spacing), end of track any "
         "time later; channel 0 or 9", params=[{"n": 2, "chans": (0, 9)}, {"n": 3, "chans": (0,)}],
         thorough=[{"n": 3, "chans": (0, 9)}, {"n": 4, "chans": (0,)}])
def parse_notes(sx, n, chans):
    evs = stream(sx, n, chans)
    gap = sx.int("end.d", 0, 10000)
    end = evs[-1][1] + gap
    progs = {c: sx.int(f"prog{c}", 0, 127) for c in chans}
    with Midi(sx) as m:
        m.put("a.mid", RES, [[("program_change", 0, dict(channel=c, program=progs[c])) for c in chans]
                             + to_events(evs, gap)])
        pm, err = sx.attempt(lambda: m.load("a.mid"))
    sx.check(err is None, "a readable file is read")
    got = [(1 if i.is_drum else 0, i.program, x.pitch, x.velocity, x.start, x.end)
           for i in pm.instruments for x in i.notes]
    same_notes(sx, got, expected(sx, evs, end, progs), "each note-on becomes one note")
    sx.observe("n", len(got))


@harness("C23", "one track: control change, pitch bend and one held note (on, off) in any order and "
         "at any distance; values over their full ranges; channel 0 or 9",
         params=[{"ch": 0}, {"ch": 9}])
def parse_controls(sx, ch):
    """controllers before, inside and after the note; a program change in front"""
    prog = sx.int("prog", 0, 127)
    p, v = sx.int("pitch", 0, 127), sx.int("vel", 1, 127)
    ds = [sx.int(f"d{i}", 0, 5000) for i in range(4)]
    cc, cv, pb = sx.int("cc", 0, 127), sx.int("cv", 0, 127), sx.int("pb", -8192, 8191)
    sx.assume(ds[3] > 0)
    order = sx.choice("order", [("c", "b", "n"), ("c", "n", "b"), ("n", "c", "b"), ("b", "n", "c")])
    ticks, t, evs = {}, 0, [("program_change", 0, dict(channel=ch, program=prog))]
    for k, d in zip(order, ds):
        t = t + d
        ticks[k] = t
        evs.append({"c": ("control_change", d, dict(channel=ch, control=cc, value=cv)),
                    "b": ("pitchwheel", d, dict(channel=ch, pitch=pb)),
                    "n": ("note_on", d, dict(channel=ch, note=p, velocity=v))}[k])
    end = t + ds[3]
    evs.append(("note_off", ds[3], dict(channel=ch, note=p, velocity=0)))
    with Midi(sx) as m:
        m.put("a.mid", RES, [evs])
        pm = m.load("a.mid")
    sx.check(len(pm.instruments) == 1, "one instrument for the channel")
    i = pm.instruments[0]
    sx.check(i.program == prog and i.is_drum == (ch == 9), "the instrument has the channel's program and kind")
    sx.check(len(i.notes) == 1 and sx.tup_eq((i.notes[0].start, i.notes[0].end), (ticks["n"] * S0, end * S0)),
             "the note keeps its time")
    sx.check(len(i.control_changes) == 1 and sx.tup_eq(
        (i.control_changes[0].number, i.control_changes[0].value, i.control_changes[0].time),
        (cc, cv, ticks["c"] * S0)), "the control change is kept with its time")
    sx.check(len(i.pitch_bends) == 1 and sx.tup_eq((i.pitch_bends[0].pitch, i.pitch_bends[0].time),
                                                   (pb, ticks["b"] * S0)), "the pitch bend is kept with its time")
    sx.observe("t", [i.notes[0].start, i.control_changes[0].time])


@harness("C23", "two control changes, two pitch bends and one or two notes of any programs in five orders on one channel, any distances and values",
         params=[{"order": o} for o in ("ccbbn", "cbncb", "cnbpncb", "bcpcbn", "ncpbnc")])
def parse_many_controls(sx, order):
    """p is a program change; controllers belong to the channel, so each is found with some instrument of it"""
    evs, cc, pb, t, progs = [("program_change", 0, dict(channel=0, program=sx.int("q0", 0, 127)))], [], [], 0, []
    prog, want = evs[0][2]["program"], []
    off = None
    for i, k in enumerate(order):
        d = sx.int(f"d{i}", 1 if k == "n" else 0, 2000)
        t = t + d
        if k == "p":
            prog = sx.int(f"q{i}", 0, 127)
            evs.append(("program_change", d, dict(channel=0, program=prog)))
        elif k == "c":
            cc.append((sx.int(f"cc{i}", 0, 127), sx.int(f"cv{i}", 0, 127), t * S0))
            evs.append(("control_change", d, dict(channel=0, control=cc[-1][0], value=cc[-1][1])))
        elif k == "b":
            pb.append((sx.int(f"pb{i}", -8192, 8191), t * S0))
            evs.append(("pitchwheel", d, dict(channel=0, pitch=pb[-1][0])))
        else:
            evs.append(("note_on", d, dict(channel=0, note=60, velocity=64)))
            evs.append(("note_off", 10, dict(channel=0, note=60, velocity=0)))
            want.append((prog, t * S0, (t + 10) * S0))
            t = t + 10
    with Midi(sx) as m:
        m.put("a.mid", RES, [evs])
        pm = m.load("a.mid")
    sx.check(sx.multiset_eq([(i.program, x.start, x.end) for i in pm.instruments for x in i.notes], want), "notes have the program in force")
    progs = [i.program for i in pm.instruments]
    sx.check(sx.all_(a != b for i, a in enumerate(progs) for b in progs[i + 1:]), "one instrument per program")
    for name, mine in (("control_changes", cc), ("pitch_bends", pb)):
        tup = (lambda e: (e.number, e.value, e.time)) if name == "control_changes" else (lambda e: (e.pitch, e.time))
        lists = [[tup(e) for e in getattr(i, name)] for i in pm.instruments]
        for e in mine:
            sx.check(sx.any_(sx.tup_eq(e, f) for l in lists for f in l), "every controller is found with its value and time")
        for l in lists:
            sx.check(len(l) <= len(mine), "none twice")
            sx.check(sx.all_(sx.any_(sx.tup_eq(e, f) for e in mine) for f in l), "none that is not in the file")
    if len(pm.instruments) == 1:
        sx.check(len(pm.instruments[0].control_changes) == len(cc) and len(pm.instruments[0].pitch_bends) == len(pb), "each once")
    sx.observe("n", [len(i.control_changes) for i in pm.instruments])


@harness("C23", "two tracks of up to n key events each on the same or different channels, with names "
         "and programs", params=[{"n": 1}], thorough=[{"n": 2}])
def parse_tracks(sx, n):
    ca, cb = sx.choice("chans", [(0, 0), (0, 9), (3, 5)])
    a = stream(sx, n + 1, (ca,), offs=False, tag="a")
    b = stream(sx, n, (cb,), offs=False, tag="b")
    ga, gb = sx.int("ga", 0, 2500), sx.int("gb", 0, 2500)
    pa, pb = sx.int("pa", 0, 127), sx.int("pb", 0, 127)
    with Midi(sx) as m:
        m.put("a.mid", RES, [
            [("track_name", 0, dict(name="one")), ("program_change", 0, dict(channel=ca, program=pa))]
            + to_events(a, ga),
            [("track_name", 0, dict(name="two")), ("program_change", 0, dict(channel=cb, program=pb))]
            + to_events(b, gb)])
        pm = m.load("a.mid")
    got = {"one": [], "two": []}
    for i in pm.instruments:
        got[i.name] += [(1 if i.is_drum else 0, i.program, x.pitch, x.velocity, x.start, x.end)
                        for x in i.notes]
    same_notes(sx, got["one"], expected(sx, a, a[-1][1] + ga, {ca: pa}), "first track's notes")
    same_notes(sx, got["two"], expected(sx, b, b[-1][1] + gb, {cb: pb}), "second track's notes")
    sx.observe("n", [len(got["one"]), len(got["two"])])


# ------------------------------------------------------------------------------- time map
def tempo_map(changes):
    """[(tick, seconds per tick)] with the one in force at 0 first -> tick -> seconds"""
    def f(sx, t):
        r = 0.0
        for i, (a, s) in enumerate(changes):
            if i + 1 < len(changes):
                b = changes[i + 1][0]
                r = r + sx.ite(t > b, b - a, sx.ite(t > a, t - a, 0)) * s
            else:
                r = r + sx.ite(t > a, t - a, 0) * s
        return r
    return f


def tempo_file(sx, m, n, span=15000):
    """a file with n tempo changes; returns the parsed file, the changes and the last tick"""
    evs, ch, tick = [], [(0, scale(500000))], 0
    for i in range(n):
        d = sx.int(f"t{i}.d", 0, span)
        tick = tick + d
        tempo = sx.choice(f"t{i}.tempo", TEMPI)
        evs.append(("set_tempo", d, dict(tempo=tempo)))
        ch.append((tick, scale(tempo)))
    g = sx.int("tail", 0, span)
    evs.append(("end_of_track", g, {}))
    m.put("a.mid", RES, [evs])
    return m.load("a.mid"), ch, tick + g


@harness("C24", "0-2 (thorough 3) tempo changes of three tempi at any ticks up to 15000 apart; any two ticks of the file and "
         "beyond", params=[{"n": 0}, {"n": 1}, {"n": 2}], thorough=[{"n": 2}, {"n": 3}])
def ticks_to_seconds(sx, n):
    with Midi(sx) as m:
        pm, ch, last = tempo_file(sx, m, n)
        a, b = sx.int("a", 0, 65000), sx.int("b", 0, 65000)
        sx.assume(a < b)
        ta, tb = pm.tick_to_time(a), pm.tick_to_time(b)
        sec = tempo_map(ch)
        sx.check(ta == sec(sx, a), "a tick lies at the time the tempo changes add up to")
        sx.check(tb == sec(sx, b), "a tick lies at the time the tempo changes add up to")
        sx.check(ta < tb, "later ticks are later in time")
        back = pm.time_to_tick(ta)
        sx.check(back == a, "the tick of a tick's time is that tick")
    sx.observe("t", [ta, tb, back])


@harness("C24", "0-1 (thorough 2) tempo changes; any time on a fine grid up to beyond the end",
         params=[{"n": 0}, {"n": 1}], thorough=[{"n": 1}, {"n": 2}])
def seconds_to_ticks(sx, n):
    with Midi(sx) as m:
        pm, ch, last = tempo_file(sx, m, n, span=60)
        t = sx.time("t", 4, 2048)
        k = pm.time_to_tick(t)
        sec = tempo_map(ch)
        d = abs(sec(sx, k) - t)
        sx.check(k >= 0, "ticks are not negative")
        sx.check(sx.and_(d <= abs(sec(sx, k + 1) - t), sx.or_(k == 0, d <= abs(sec(sx, k - 1) - t))),
                 "a time is mapped to the nearest tick")
    sx.observe("k", k)


@harness("C24", "0-2 (thorough 3) tempo changes of three tempi at any ticks",
         params=[{"n": 1}, {"n": 2}], thorough=[{"n": 2}, {"n": 3}])
def tempo_changes_listed(sx, n):
    """the reported tempo in force at any tick is the one of the last change up to it"""
    with Midi(sx) as m:
        pm, ch, last = tempo_file(sx, m, n)
        times, tempi = pm.get_tempo_changes()
        times, tempi = [float(x) if not sx.symbolic else x for x in times], list(tempi)
        sx.check(len(times) == len(tempi) and bool(times[0] == 0), "a tempo stands at the start")
        for x, y in zip(times, times[1:]):
            sx.check(x <= y, "tempo changes are in time order")
        q = sx.int("q", 0, 35000)
        sec = tempo_map(ch)(sx, q)
        want, have = ch[0][1], None
        for tick, s in ch[1:]:
            want = sx.ite(tick <= q, s, want)
        for x, tempo in zip(times, tempi):
            if have is None:
                have = 60.0 / (tempo * RES)
            have = sx.ite(x <= sec, 60.0 / (tempo * RES), have)
        sx.check(have == want, "the tempo at any tick is that of the last change up to it")
    sx.observe("n", len(times))


# ------------------------------------------------------------------------------- reader
def all_notes(seqs):
    return [(1 if n.is_drum else 0, n.program, n.instrument, n.pitch, n.velocity, n.start_time, n.end_time,
             n.numerator, n.denominator) for k in seqs for n in seqs[k].notes]


ON, OFF = "note_on", "note_off"


@harness("C25", "one track of two (thorough three) key events on channels 0/9, any spacing, pitch and velocity; a "
         "meter change at any tick or none",
         params=[{"kinds": k, "chs": c, "sig": g} for k in ((ON, OFF), (ON, ON)) for c, g in (((0, 0), True), ((0, 9), False))]
         + [{"kinds": (ON, ON, OFF), "chs": (0, 0, 0), "sig": False}],
         thorough=[{"kinds": k, "chs": c, "sig": g} for k in ((ON, OFF), (ON, ON)) for c in ((0, 0), (0, 9)) for g in (True, False)]
         + [{"kinds": k, "chs": c, "sig": False} for k in ((ON, ON, OFF), (ON, OFF, ON), (ON, ON, ON)) for c in ((0, 0, 0), (0, 9, 0))])
def read_notes(sx, kinds, chs, sig):
    """every note of the file is in the result, with its track's program and the meter in force"""
    chans = sorted(set(chs))
    evs = stream(sx, len(kinds), kinds=kinds, chs=chs)
    gap = sx.int("end.d", 0, 10000)
    end = evs[-1][1] + gap
    progs = {c: sx.int(f"prog{c}", 0, 127) for c in chans}
    at, num, den = 0, 4, 4
    if sig:
        at, num, den = sx.int("sig.tick", 0, 25000), sx.int("sig.num", 1, 12), sx.choice("sig.den", (2, 8))
    with Midi(sx) as m:
        m.put("a.mid", RES, [
            [("time_signature", at, dict(numerator=num, denominator=den))] if sig else [],
            [("track_name", 0, dict(name="solo"))]
            + [("program_change", 0, dict(channel=c, program=progs[c])) for c in chans] + to_events(evs, gap)])
        seqs, err = sx.attempt(lambda: m.read("a.mid"))
    sx.check(err is None, "a readable file is read")
    exp = []
    for on, (drum, prog, p, v, s, e) in expected(sx, evs, end, progs):
        after = at * S0 <= s
        # a note from a tick to the same tick has no length and is not kept
        exp.append((sx.and_(on, s < e), (drum, prog, prog, p, v, s, e, sx.ite(after, num, 4), sx.ite(after, den, 4))))
    same_notes(sx, all_notes(seqs), exp, "each note of the file is kept, with its meter")
    for k in seqs:
        t = seqs[k]
        sx.check(sx.and_(t.instrument.name == "solo", sx.all_(sx.and_(
            x.instrument == t.instrument.instrument_num, bool(x.is_drum) == bool(t.instrument.is_drum)) for x in t.notes)),
                 "notes stand in the track of their instrument")
        sx.check(t.total_time == sx.max([x.end_time for x in t.notes]) if t.notes else True, "a track lasts to its last note")
    sx.check(seqs.total_time == sx.max([x[6] for x in all_notes(seqs)] + [0.0]), "the piece lasts to its last note")
    sx.observe("n", len(all_notes(seqs)))


@harness("C25", "tempo, key and meter changes at any ticks, control change and pitch bend around a note of "
         "any place; all values", params=[{"ch": 0}, {"ch": 9}])
def read_controls(sx, ch):
    prog = sx.int("prog", 0, 127)
    p, v = sx.int("pitch", 0, 127), sx.int("vel", 1, 127)
    ds = [sx.int(f"d{i}", 0, 5000) for i in range(4)]
    cc, cv, pb = sx.int("cc", 0, 127), sx.int("cv", 0, 127), sx.int("pb", -8192, 8191)
    sx.assume(ds[3] > 0)
    order = sx.choice("order", [("c", "b", "n"), ("c", "n", "b"), ("n", "c", "b"), ("b", "n", "c")])
    ticks, t, evs = {}, 0, [("track_name", 0, dict(name="solo")), ("program_change", 0, dict(channel=ch, program=prog))]
    for k, d in zip(order, ds):
        t = t + d
        ticks[k] = t
        evs.append({"c": ("control_change", d, dict(channel=ch, control=cc, value=cv)),
                    "b": ("pitchwheel", d, dict(channel=ch, pitch=pb)),
                    "n": ("note_on", d, dict(channel=ch, note=p, velocity=v))}[k])
    end = t + ds[3]
    evs.append(("note_off", ds[3], dict(channel=ch, note=p, velocity=0)))
    with Midi(sx) as m:
        m.put("a.mid", RES, [evs])
        seqs = m.read("a.mid")
    sx.check(len(seqs) == 1, "one track for the instrument")
    tr = seqs[list(seqs)[0]]
    sx.check(sx.tup_eq(all_notes(seqs)[0], (1 if ch == 9 else 0, prog, prog, p, v, ticks["n"] * S0, end * S0, 4, 4))
             if len(tr.notes) == 1 else False, "the note is kept")
    sx.check(len(tr.control_changes) == 1 and sx.tup_eq(
        (tr.control_changes[0].cc_number, tr.control_changes[0].cc_value, tr.control_changes[0].cc_time,
         tr.control_changes[0].program), (cc, cv, ticks["c"] * S0, prog)), "the control change is kept with its time")
    sx.check(len(tr.pitch_bends) == 1 and sx.tup_eq(
        (tr.pitch_bends[0].amount, tr.pitch_bends[0].midi_time, tr.pitch_bends[0].program),
        (pb, ticks["b"] * S0, prog)), "the pitch bend is kept with its time")
    sx.check(bool(tr.control_changes[0].is_drum) == bool(tr.pitch_bends[0].is_drum) == (ch == 9), "drum controllers stay drum controllers")
    sx.observe("t", [tr.control_changes[0].cc_time, tr.pitch_bends[0].midi_time])


KEYS = ("C", "Am", "F#", "Bbm")
KEYNUM = {"C": (0, 0), "Am": (9, 1), "F#": (6, 0), "Bbm": (10, 1)}


@harness("C25", "up to two changes of one kind (key, meter, tempo) at any ticks",
         params=[{"what": w} for w in ("key", "meter", "tempo")])
def read_signatures(sx, what):
    """the key, meter and tempo in force at any tick are those of the file"""
    evs, ch, tick = [], [], 0
    for i in range(2):
        d = sx.int(f"s{i}.d", 0, 15000)
        tick = tick + d
        if what == "key":
            k = sx.choice(f"s{i}.key", KEYS)
            evs.append(("key_signature", d, dict(key=k)))
            ch.append((tick, KEYNUM[k]))
        elif what == "meter":
            a, b = sx.int(f"s{i}.num", 1, 16), sx.choice(f"s{i}.den", (2, 4, 8))
            evs.append(("time_signature", d, dict(numerator=a, denominator=b)))
            ch.append((tick, (a, b)))
        else:
            t = sx.choice(f"s{i}.tempo", TEMPI)
            evs.append(("set_tempo", d, dict(tempo=t)))
            ch.append((tick, t))
    q = sx.int("q", 0, 35000)
    with Midi(sx) as m:
        m.put("a.mid", RES, [evs + [("end_of_track", 100, {})]])
        seqs = m.read("a.mid")
    sx.check(seqs.resolution == RES, "the resolution is kept")
    if what == "tempo":
        sec = tempo_map([(0, scale(500000))] + [(a, scale(t)) for a, t in ch])(sx, q)
        want = 120
        for a, t in ch:
            want = sx.ite(a <= q, int(6e7 / t), want)
        have = seqs.tempo_signature(sec)
        sx.check(sx.tup_eq(have, (want, RES)), "the tempo at any tick is that of the last change up to it")
        sx.check(sx.all_(a.midi_time <= b.midi_time for a, b in zip(seqs.tempo_signatures, seqs.tempo_signatures[1:])), "tempo changes stand in time order")
    elif what == "meter":
        have = seqs.time_signature(q * S0)
        want = (4, 4)
        for a, x in ch:
            want = (sx.ite(a <= q, x[0], want[0]), sx.ite(a <= q, x[1], want[1]))
        sx.check(sx.tup_eq(have, want), "the meter at any tick is that of the last change up to it")
    else:
        have = seqs.key_signature(q * S0)
        want = (0, 0)
        for a, x in ch:
            want = (sx.ite(a <= q, x[0], want[0]), sx.ite(a <= q, x[1], want[1]))
        mode = 1 if str(getattr(have[0], "name", have[0])).upper() == "MINOR" else 0
        sx.check(sx.tup_eq((int(getattr(have[1], "value", have[1])), mode), want),
                 "the key at any tick is that of the last change up to it")
    sx.observe("h", [str(x) for x in have] if what == "key" else list(have))


LETTERS = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}
SIGNS = ([(t, False) for t in ("Cb", "Gb", "Db", "Ab", "Eb", "Bb", "F", "C", "G", "D", "A", "E", "B", "F#", "C#")]
         + [(t + "m", True) for t in ("Ab", "Eb", "Bb", "F", "C", "G", "D", "A", "E", "B", "F#", "C#", "G#", "D#", "A#")])


@harness("C25", "every one of the 30 keys a file can name, at any tick")
def read_keys(sx):
    name, minor = sx.choice("key", SIGNS)
    tonic = (LETTERS[name[0]] + (1 if "#" in name else -1 if "b" in name else 0)) % 12
    d = sx.int("d", 0, 15000)
    q = sx.int("q", 0, 20000)
    with Midi(sx) as m:
        m.put("a.mid", RES, [[("key_signature", d, dict(key=name)), ("end_of_track", 100, {})]])
        seqs = m.read("a.mid")
    have = seqs.key_signature(q * S0)
    mode = str(getattr(have[0], "name", have[0])).upper() == "MINOR"
    key_ = int(getattr(have[1], "value", have[1]))
    if bool(q >= d):
        sx.check(key_ == tonic and mode == minor, "the key of the file is in force from its tick on")
    else:
        sx.check(key_ == 0 and not mode, "no key before it")
    sx.observe("h", [key_, mode])


# ------------------------------------------------------------------------------- writer
def piece(sx, tracks, tempi=((0.0, 120.0),), meters=((0.0, 4, 4),), keys=((0.0, 0, 0),), res=RES):
    """tracks: [(program, is_drum, name, notes, control changes, pitch bends)]"""
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
    from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
    from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
    from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature, MidiTimeSignature
    from neural_graph_composer.midi.midi_key_signature import MidiKeySignature
    out = []
    for prog, drum, name, notes, ccs, pbs in tracks:
        t = MidiNoteSequence(notes=list(notes), resolution=res,
                             instrument=MidiInstrumentInfo(prog, is_drum=drum, name=name))
        for c in ccs:
            t.add_control_changes(c)
        for b in pbs:
            t.add_pitch_bends(b)
        out.append(t)
    s = MidiNoteSequences(resolution=res, midi_seq=out,
                          tempo_signatures=[MidiTempoSignature(t, q, res) for t, q in tempi],
                          time_signatures=[MidiTimeSignature(t, a, b) for t, a, b in meters],
                          key_signatures=[MidiKeySignature(t, a, b) for t, a, b in keys])
    return s


def grid_note(sx, n, sec, prog=0, drum=False, dmax=5000, after=0):
    """a note on the tick grid; sec maps ticks to seconds.  Returns note and ticks."""
    from neural_graph_composer.midi.midi_note import MidiNote
    a = after + sx.int(n + ".start", 0, dmax)
    b = a + sx.int(n + ".len", 1, dmax)
    return MidiNote(sx.int(n + ".pitch", 0, 127), sec(sx, a), sec(sx, b), velocity=sx.int(n + ".vel", 1, 127),
                    program=prog, instrument=prog, is_drum=drum), a, b


def note_ids(seqs):
    return [(1 if n.is_drum else 0, n.program, n.pitch, n.velocity, n.start_time, n.end_time)
            for k in seqs for n in seqs[k].notes]


DEFMAP = tempo_map([(0, S0)])


@harness("C34", "one or two tracks (second a drum track or a second instrument) of one or two notes on ticks, any "
         "programs, pitches, velocities", params=[{"n": 2, "kind": "solo"}, {"n": 1, "kind": "drum"}, {"n": 1, "kind": "two"}],
         thorough=[{"n": 2, "kind": "solo"}, {"n": 3, "kind": "solo"}, {"n": 2, "kind": "drum"}, {"n": 2, "kind": "two"}])
def round_trip_notes(sx, n, kind):
    """notes, programs, kinds and names survive writing and reading"""
    pa = sx.int("pa", 0, 127)
    a, ticks = [], []
    for i in range(n):
        x, s, e = grid_note(sx, f"a{i}", DEFMAP, pa)
        for y, s2, e2 in ticks:  # a midi track cannot hold two sounding notes of one pitch
            sx.assume(sx.or_(x.pitch != y.pitch, s >= e2, s2 >= e))
        a.append(x)
        ticks.append((x, s, e))
    tracks = [(pa, False, "one", a, [], [])]
    if kind != "solo":
        pb = sx.int("pb", 0, 127)
        sx.assume(pa != pb)
        b = [grid_note(sx, "b0", DEFMAP, pb, kind == "drum")[0]]
        tracks.append((pb, kind == "drum", "two", b, [], []))
    with Midi(sx) as m:
        src = piece(sx, tracks)
        before = note_ids(src)
        _, err = sx.attempt(lambda: m.write(src, "x.mid"))
        sx.check(err is None, "a piece can be written")
        back = m.read("x.mid")
    sx.check(sx.multiset_eq(note_ids(src), before), "writing leaves the piece as it is")
    sx.check(sx.multiset_eq(note_ids(back), before), "the notes survive a round trip")
    for nm, prog, drum in [("one", pa, False)] + ([("two", pb, kind == "drum")] if kind != "solo" else []):
        ts = [back[k] for k in back if back[k].instrument.name == nm]
        sx.check(len(ts) == 1 and sx.and_(ts[0].instrument.instrument_num == prog, bool(ts[0].instrument.is_drum) == drum),
                 "tracks keep their name, program and kind")
    sx.check(back.total_time == sx.max([x[5] for x in before]), "the piece lasts as long as before")
    sx.observe("n", len(note_ids(back)))


@harness("C34", "a piece with one or two tempo changes at any ticks and one note anywhere on the ticks",
         params=[{"ts": (250000,)}, {"ts": (1000000,)}, {"ts": (1000000, 250000), "span": 20}],
         thorough=[{"ts": (250000,)}, {"ts": (1000000,)}, {"ts": (1000000, 250000)}, {"ts": (250000, 1000000)}, {"ts": (1000000, 500000)}])
def round_trip_tempo(sx, ts, span=60):
    """tempo changes survive a round trip, and with them every time"""
    ch, tick = [(0, scale(500000))], 0
    tempi = [(0.0, 120.0)]
    for i, t in enumerate(ts):
        tick = tick + sx.int(f"t{i}.d", 1, span)
        tempi.append((tempo_map(ch)(sx, tick), 6e7 / t))
        ch.append((tick, scale(t)))
    x, s, e = grid_note(sx, "a", tempo_map(ch), dmax=3 * span)
    sx.assume(e > tick)
    q = sx.int("q", 0, 6 * span)
    with Midi(sx) as m:
        src = piece(sx, [(0, False, "one", [x], [], [])], tempi)
        before = note_ids(src)
        _, err = sx.attempt(lambda: m.write(src, "x.mid"))
        sx.check(err is None, "a piece with tempo changes can be written")
        back = m.read("x.mid")
    sx.check(sx.multiset_eq(note_ids(back), before), "notes keep their times under tempo changes")
    sec = tempo_map(ch)(sx, q)
    want = 120
    for a, sc in ch:
        want = sx.ite(a <= q, int(60 / (sc * RES)), want)
    sx.check(sx.tup_eq(back.tempo_signature(sec), (want, RES)), "the tempo in force at any tick survives")
    sx.observe("t", [back.total_time])


@harness("C34", "one note, one control change and one pitch bend before its end, any values; drum or not",
         params=[{"drum": False}, {"drum": True}])
def round_trip_controls(sx, drum):
    from neural_graph_composer.midi.midi_control_change import MidiControlChange
    from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend
    prog = sx.int("prog", 0, 127)
    x, s, e = grid_note(sx, "a", DEFMAP, prog, drum)
    tc, tb = sx.int("tc", 0, 10000), sx.int("tb", 0, 10000)
    sx.assume(sx.and_(tc < e, tb < e))
    cc = MidiControlChange(sx.int("cc", 0, 127), sx.int("cv", 0, 127), cc_time=tc * S0, program=prog, instrument=0, is_drum=drum)
    pb = MidiPitchBend(sx.int("pb", -8192, 8191), midi_time=tb * S0, program=prog, instrument=0, is_drum=drum)
    with Midi(sx) as m:
        src = piece(sx, [(prog, drum, "one", [x], [cc], [pb])])
        want = (cc.cc_number, cc.cc_value, cc.cc_time), (pb.amount, pb.midi_time)
        m.write(src, "x.mid")
        back = m.read("x.mid")
    tr = [back[k] for k in back]
    sx.check(len(tr) == 1 and sx.multiset_eq([(c.cc_number, c.cc_value, c.cc_time) for c in tr[0].control_changes], [want[0]]),
             "control changes survive a round trip")
    sx.check(sx.multiset_eq([(b.amount, b.midi_time) for b in tr[0].pitch_bends], [want[1]]), "pitch bends survive a round trip")
    sx.check(sx.multiset_eq(note_ids(back), note_ids(src)), "the note survives with its controllers")
    sx.observe("n", len(tr))


@harness("C34", "up to two meter or key changes at any ticks before the end of a long note",
         params=[{"what": "meter", "n": 2}, {"what": "key", "n": 1}, {"what": "key", "n": 2}])
def round_trip_signatures(sx, what, n):
    from neural_graph_composer.midi.midi_note import MidiNote
    ch = []
    tick = 0
    for i in range(n):
        tick = tick + sx.int(f"s{i}.d", 1, 5000)
        if what == "meter":
            ch.append((tick, (sx.int(f"s{i}.num", 1, 16), sx.choice(f"s{i}.den", (2, 4, 8)))))
        else:
            ch.append((tick, (sx.int(f"s{i}.key", 0, 11), sx.choice(f"s{i}.mode", (0, 1))) if n == 1 else
                       sx.choice(f"s{i}.key", ((0, 0), (9, 1), (6, 0)))))
    q = sx.int("q", 0, 15000)
    x = MidiNote(60, 0.0, 15000 * S0, velocity=64)
    with Midi(sx) as m:
        rows = [(0.0,) + ((4, 4) if what == "meter" else (0, 0))] + [(t * S0,) + v for t, v in ch]
        src = piece(sx, [(0, False, "one", [x], [], [])], **{"meters" if what == "meter" else "keys": rows})
        m.write(src, "x.mid")
        back = m.read("x.mid")
    f = "time_signature" if what == "meter" else "key_signature"
    want = getattr(src, f)(q * S0)
    have = getattr(back, f)(q * S0)
    own = rows[0][1:]
    for t, v in ch:
        own = tuple(sx.ite(t <= q, a, b) for a, b in zip(v, own))
    sx.check(sx.tup_eq(have, want) if what == "meter" else sx.and_(have[0] == want[0], have[1] == want[1]),
             "the " + what + " in force at any time survives")
    if what == "meter":
        sx.check(sx.tup_eq(have, own), "the meter in force is the last one set")
    sx.observe("n", 1)


@harness("C34", "every resolution and tempo of a list of common and odd values, as tempo of the piece or as a change",
         params=[{}], str_mode="concrete")
def tempo_values(sx):
    """the tempo of a file is read and written back to the microsecond"""
    res = sx.choice("res", (96, 128, 220, 480, 960))
    tempo = sx.choice("tempo", (200028, 200140, 250003, 333333, 350001, 412345, 454545, 500000, 600001, 652174, 789473, 999999))
    at = sx.choice("at", (0, 100))
    with Midi(sx) as m:
        m.put("a.mid", res, [[("set_tempo", at, dict(tempo=tempo)), ("end_of_track", 1, {})],
                             [("note_on", 0, dict(note=60, velocity=60)), ("note_off", 1000, dict(note=60, velocity=0)),
                              ("end_of_track", 0, {})]])
        m.write(m.read("a.mid"), "x.mid")
        got = m.tempi("x.mid")
    sx.check([t for t in got if t[0] == at] == [(at, tempo)] or (at > 0 and tempo == 500000), "a tempo is written as it was read")
    sx.observe("n", [list(x) for x in got])


@harness("C34", "a sequence of one or two notes on the ticks of its resolution, any pitch, velocity, program; drum or not",
         params=[{"n": 1, "drum": False}, {"n": 1, "drum": True}, {"n": 2, "drum": False}])
def sequence_file(sx, n, drum):
    """a single sequence saved to a file reads back with its notes, program and name"""
    from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
    from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
    res = 220
    sec = tempo_map([(0, 0.5 / res)])
    prog = sx.int("prog", 0, 127)
    notes, ticks = [], []
    for i in range(n):
        x, s, e = grid_note(sx, f"a{i}", sec, prog, drum)
        for y, s2, e2 in ticks:
            sx.assume(sx.or_(x.pitch != y.pitch, s >= e2, s2 >= e))
        notes.append(x)
        ticks.append((x, s, e))
    want = [(1 if drum else 0, prog, t[0].pitch, t[0].velocity, t[1], t[2]) for t in ticks]
    with Midi(sx) as m:
        t = MidiNoteSequence(notes=notes, resolution=res, instrument=MidiInstrumentInfo(prog, is_drum=drum, name="solo"))
        t.to_midi_file(m.path("x.mid"))
        back = m.read("x.mid")
    got = [(a, b, p, v, s * 440, e * 440) for a, b, p, v, s, e in note_ids(back)]

    def near(x, y):
        return sx.and_(sx.tup_eq(x[:4], y[:4]), abs(x[4] - y[4]) < 1e-3, abs(x[5] - y[5]) < 1e-3)
    sx.check(len(got) == n and sx.all_(sx.count(near(x, y) for y in got) == sx.count(near(x, y) for y in want) for x in want),
             "a saved sequence reads back with its notes")
    sx.check(sx.all_(back[k].instrument.name == "solo" and back[k].instrument.instrument_num == prog for k in back),
             "a saved sequence keeps its instrument")
    sx.observe("n", len(got))


@harness("C25", "one track of two key events and a control change, given as a path, as bytes or as an opened file",
         params=[{"how": "bytes"}, {"how": "object"}])
def read_sources(sx, how):
    evs = stream(sx, 2, dmax=20)
    with Midi(sx) as m:
        m.put("a.mid", RES, [[("track_name", 0, dict(name="solo"))] + to_events(evs, 5)])
        a = m.read("a.mid")
        b, err = sx.attempt(lambda: m.read("a.mid", how))
    sx.check(err is None, "every kind of source is read")
    sx.check(sx.multiset_eq(all_notes(a), all_notes(b)), "every kind of source gives the same notes")
    sx.check(a.resolution == b.resolution and len(a) == len(b), "every kind of source gives the same piece")
    sx.observe("n", len(all_notes(b)))


@harness("C25", "files of seven resolutions with one note at a tick up to 12000, any pitch and velocity", params=[
    {"res": r} for r in (24, 96, 120, 128, 220, 480, 960)])
def read_resolution(sx, res):
    on, ln = sx.int("on", 0, 12000), sx.int("len", 1, 12000)
    p, v = sx.int("p", 0, 127), sx.int("v", 1, 127)
    with Midi(sx) as m:
        m.put("a.mid", res, [[("note_on", on, dict(note=p, velocity=v)), ("note_off", ln, dict(note=p, velocity=0)),
                              ("end_of_track", 0, {})]])
        a = m.read("a.mid")
    got = [n for k in a for n in a[k].notes]
    sx.check(a.resolution == res, "a piece has the resolution of its file")
    sx.check(all(a[k].resolution == res for k in a), "a track has the resolution of its file")
    sx.check(len(got) == 1 and sx.and_(got[0].pitch == p, got[0].velocity == v), "the note is read")
    for have, want in ((got[0].start_time, on), (got[0].end_time, on + ln)):
        d = have * (2 * res) - want
        sx.check(sx.and_(d < 1e-3, d > -1e-3), "a tick lasts as long as the resolution says")
    sx.observe("n", len(got))


@harness("C25", "a file of 1-2 tracks with a note of any pitch and tick each, opened as a piece; files that are missing or not midi", params=[
    {"tracks": t} for t in (1, 2)] + [{"tracks": t} for t in ("missing", "text", "seq")])
def read_doors(sx, tracks):
    """opening a file as a piece gives the piece the reader reads from it"""
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
    from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
    from neural_graph_composer.midi_reader import MidiReader
    import os
    import tempfile
    if tracks == "seq":
        # a reader of single sequences
        seq = MidiNoteSequence()
        seq.notes.append(mk_note(sx, "n"))
        a = MidiNoteSequences.from_file("x.mid", type("One", (), {"read": staticmethod(lambda f: seq)}))
        sx.check(sx.multiset_eq([key(n) for k in a for n in a[k].notes], [key(n) for n in seq.notes]), "the sequence read is the piece")
        return
    if tracks in ("missing", "text"):
        with tempfile.TemporaryDirectory(prefix="sxrd") as d:
            f = os.path.join(d, "a.mid")
            if tracks == "text":
                open(f, "w").close()
            _, e = sx.attempt(lambda: MidiNoteSequences.from_file(f, MidiReader), ValueError)
        sx.check(e is not None, "a file that cannot be read is refused")
        return
    on = [sx.int(f"on{i}", 0, 960) for i in range(tracks)]
    ps = [sx.int(f"p{i}", 0, 127) for i in range(tracks)]
    with Midi(sx) as m:
        m.put("a.mid", 220, [[("note_on", on[i], dict(note=ps[i], velocity=64, channel=i)),
                              ("note_off", 220, dict(note=ps[i], velocity=0, channel=i)), ("end_of_track", 0, {})]
                             for i in range(tracks)])
        a = m.read("a.mid")
        b, e = sx.attempt(lambda: MidiNoteSequences.from_file(m.path("a.mid"), MidiReader), TypeError, ValueError)
    sx.check(e is None, "a readable file is opened")
    if e is None:
        sx.check(sx.multiset_eq([key(n) for k in a for n in a[k].notes], [key(n) for k in b for n in b[k].notes]),
                 "the same notes either way")
        sx.check(list(a) == list(b) and b.resolution == a.resolution and b.filename.endswith("a.mid"), "the same tracks")
        sx.check(len(a.tempo_signatures) == len(b.tempo_signatures) and len(a.time_signatures) == len(b.time_signatures),
                 "the same signatures")


@harness("C35", "every combination of an existing or new target and asking to overwrite; every window given by two numbers "
         "(or none) in [-4, 4]", params=[{}])
def write_refusals(sx):
    """a write that is refused leaves the file system as it was"""
    from neural_graph_composer.midi.midi_note import MidiNote
    from neural_graph_composer.midi_reader import MidiReader
    exists = sx.flag("exists")
    kw = {}
    ask = sx.choice("ask", ("default", "no", "yes"))
    if ask != "default":
        kw["do_overwrite"] = ask == "yes"
    a = sx.choice("from", ("none", "num", "text"))
    b = sx.choice("to", ("none", "num", "text"))
    bad = False
    if a == "num":
        kw["from_start"] = x = sx.time("a", 4, 2, -4)
        bad = sx.or_(bad, x < 0)
    elif a == "text":
        kw["from_start"] = "1"
        bad = True
    if b == "num":
        kw["to_end"] = y = sx.time("b", 4, 2, -4)
        bad = sx.or_(bad, y < 0)
        if a == "num":
            bad = sx.or_(bad, x > y)
    elif b == "text":
        kw["to_end"] = "1"
        bad = True
    bad = sx.or_(bad, exists and ask != "yes")
    note = MidiNote(60, 0.0, 1.0)
    with Midi(sx) as m:
        # what a legal window selects is another matter (C42): here it selects everything
        whole = MidiReader.to_pretty_midi
        m.p.set(MidiReader, "to_pretty_midi", staticmethod(lambda sequence, from_start=None, to_end=None: whole(sequence)))
        src = piece(sx, [(0, False, "one", [note], [], [])])
        if exists:
            m.put("x.mid", RES, [[("end_of_track", 7, {})]])
        before = m.stamp("x.mid") if exists else None
        _, err = sx.attempt(lambda: m.write(src, "x.mid", **kw))
        there = m.exists("x.mid")
        same = there and m.stamp("x.mid") == before
    sx.check(sx.iff(err is not None, bad), "a write is refused exactly when it would overwrite or its window is illegal")
    if err is not None:
        sx.check(there == exists and (same or not exists), "a refused write leaves the file as it was")
    else:
        sx.check(there and not same, "an accepted write leaves the new piece in the file")
    sx.observe("e", type(err).__name__ if err else None)


@harness("C35", "no piece, an empty piece, a foreign object; an empty or non-text file name", params=[{}])
def write_arguments(sx):
    from neural_graph_composer.midi.midi_note import MidiNote
    from neural_graph_composer.midi_reader import MidiReader
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
    from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
    from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
    from neural_graph_composer.midi.callbacks import save_midi_callback
    what = sx.choice("what", ("none", "list", "text", "single", "empty", "good"))
    name = sx.choice("name", ("good", "empty", "none", "number"))
    with Midi(sx) as m:
        note = MidiNote(60, 0.0, 1.0)
        good = piece(sx, [(0, False, "one", [note], [], [])])
        src = {"none": None, "list": [note], "text": "x", "single": MidiNoteSequence(notes=[note]),
               "empty": MidiNoteSequences(), "good": good}[what]
        fn = {"good": m.path("x.mid"), "empty": "", "none": None, "number": 7}[name]
        _, err = sx.attempt(lambda: MidiReader.write(src, fn))
        ok = what == "good" and name == "good"
        sx.check(sx.iff(err is None, ok), "writing needs a piece with a track and a file name")
        sx.check(m.exists("x.mid") == ok, "a refused write creates no file")
        for notes, ins in (([], MidiInstrumentInfo(0)), (None, MidiInstrumentInfo(0)), ([note], None)):
            _, err = sx.attempt(lambda: save_midi_callback(m.path("y.mid"), ins, notes, 1.0))
            sx.check(err is not None and not m.exists("y.mid"), "saving no notes or no instrument is refused")
    sx.observe("e", type(err).__name__ if err else None)


WINDOWS = {"whole": (None, None), "from": (256, None), "to": (None, 512), "both": (256, 768), "odd": (131, 517),
           "over": (384, 4000), "all": (0, 4000), "short": (500, 501)}


@harness("C42", "a piece of 8 beats with one or two tracks and one or two notes on any ticks; eight windows", params=[
    {"window": w, "n": n, "kind": k} for w in WINDOWS for n, k in ((1, "solo"), (1, "drum"))] + [
    {"window": w, "n": 2, "kind": "same"} for w in ("to", "all", "short")], thorough=[
    {"window": w, "n": n, "kind": k} for w in WINDOWS for n in (1, 2) for k in ("solo", "drum", "same")])
def written_window(sx, window, n, kind):
    """writing from a start to an end time writes what lies between them"""
    from neural_graph_composer.midi.midi_note import MidiNote
    lo, hi = WINDOWS[window]
    kw = {}
    if lo is not None:
        kw["from_start"] = lo * S0
    if hi is not None:
        kw["to_end"] = hi * S0
    a, b = lo or 0, min(1024, hi if hi is not None else 1024)
    notes, ticks = [], []
    for i in range(n):
        x, s, e = grid_note(sx, f"a{i}", DEFMAP, 0, kind == "drum", dmax=512)
        for y, s2, e2 in ticks:
            sx.assume(sx.or_(x.pitch != y.pitch, s >= e2, s2 >= e))
        sx.assume(sx.and_(x.pitch != 0, e < 1024))
        notes.append(x)
        ticks.append((x, s, e))
    last = MidiNote(0, 1000 * S0, 1024 * S0, velocity=100, program=0 if kind == "same" else 5, instrument=5)
    if kind == "same":
        tracks = [(0, False, "one", notes + [last], [], [])]
    else:
        tracks = [(0, kind == "drum", "one", notes, [], []), (5, False, "two", [last], [], [])]
    with Midi(sx) as m:
        src = piece(sx, tracks)
        before = note_ids(src)
        if sx.symbolic:  # the last note ends the piece: let the solver say so once
            from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI
            length = CustomPrettyMIDI.get_end_time
            m.p.set(CustomPrettyMIDI, "get_end_time", lambda self: sx.fixed(length(self)))
        _, err = sx.attempt(lambda: m.write(src, "x.mid", **kw))
        sx.check(err is None, "a window of a piece can be written")
        back = m.read("x.mid")
        sx.check(sx.multiset_eq(note_ids(src), before), "writing leaves the piece as it is")
    rows = [(1 if kind == "drum" else 0, 0, x.pitch, x.velocity, s, e) for x, s, e in ticks]
    rows.append((0, 0 if kind == "same" else 5, 0, 100, 1000, 1024))
    want = [(r[:4] + ((r[4] - a) * S0, (r[5] - a) * S0)) for r in rows if bool(sx.and_(r[4] >= a, r[5] <= b))]
    sx.check(sx.multiset_eq(note_ids(back), want), "exactly the notes inside the window are written, from its start")
    sx.observe("n", len(note_ids(back)))


@harness("C42", "a note and one control change, pitch bend or key change on any ticks of a piece of 8 beats; eight windows",
         params=[{"window": w, "what": k} for w in WINDOWS for k in ("control", "bend", "key", "pair")])
def window_events(sx, window, what):
    """controllers, bends and keys inside a window are written; those in force at its start are there from the start"""
    from neural_graph_composer.midi.midi_note import MidiNote
    from neural_graph_composer.midi.midi_control_change import MidiControlChange
    from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend
    lo, hi = WINDOWS[window]
    kw = {}
    if lo is not None:
        kw["from_start"] = lo * S0
    if hi is not None:
        kw["to_end"] = hi * S0
    a, b = lo or 0, min(1024, hi if hi is not None else 1024)
    t = sx.int("t", 0, 1023)
    v = sx.int("v", 0, 127) if what in ("control", "pair") else sx.int("v", -8192, 8191) if what == "bend" else sx.int("v", 1, 11)
    cc, pb, keys = [], [], [(0.0, 0, 0)]
    if what in ("control", "pair"):
        cc = [MidiControlChange(7, v, cc_time=t * S0, program=0, instrument=0)]
        if what == "pair":
            u, nr = sx.int("u", 0, 1023), sx.choice("nr", (7, 64))
            sx.assume(u > t)
            cc.append(MidiControlChange(nr, 9, cc_time=u * S0, program=0, instrument=0))
    elif what == "bend":
        pb = [MidiPitchBend(v, midi_time=t * S0, program=0, instrument=0)]
    else:
        sx.assume(t > 0)
        keys.append((t * S0, v, 0))
    notes = [MidiNote(60, (a + 0) * S0, b * S0, velocity=90), MidiNote(0, 1000 * S0, 1024 * S0, velocity=100)]
    with Midi(sx) as m:
        src = piece(sx, [(0, False, "one", notes, cc, pb)], keys=keys)
        if sx.symbolic:
            from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI
            length = CustomPrettyMIDI.get_end_time
            m.p.set(CustomPrettyMIDI, "get_end_time", lambda self: sx.fixed(length(self)))
        m.write(src, "x.mid", **kw)
        back = m.read("x.mid")
    at = sx.max(t, a) - a
    if what == "key":
        q = sx.int("q", 0, 1023)
        sx.assume(q < b - a)
        want = sx.ite(q + a >= t, v, 0)
        have = back.key_signature(q * S0)
        sx.check(sx.and_(have[1] == want, have[0] == src.key_signature((q + a) * S0)[0]), "the key in force inside the window is the one of the piece")
    elif what == "pair":
        want = [(7, v, sx.max(t, a) - a)] if bool(t < b) and not (nr == 7 and bool(u <= a)) else []
        if bool(u < b):
            want.append((nr, 9, sx.max(u, a) - a))
        got = [(x.cc_number, x.cc_value, x.cc_time) for k in back for x in back[k].control_changes]
        sx.check(sx.multiset_eq(got, [(n, w, at * S0) for n, w, at in want]),
                 "the controllers inside the window and the last setting of each before it are written")
    else:
        got = [x for k in back for x in (back[k].control_changes if what == "control" else back[k].pitch_bends)]
        inside = bool(t < b)
        sx.check(len(got) == inside, "exactly the controllers before the end of the window are written")
        if inside and what == "control":
            sx.check(sx.tup_eq((got[0].cc_number, got[0].cc_value, got[0].cc_time), (7, v, at * S0)),
                     "a controller keeps its value and takes effect where it did, or from the start")
        elif inside:
            sx.check(sx.tup_eq((got[0].amount, got[0].midi_time), (v, at * S0)),
                     "a bend keeps its amount and takes effect where it did, or from the start")
    sx.observe("n", len(note_ids(back)))


@harness("C42", "a note on any ticks of a piece of 8 beats whose tempo changes once or twice; six windows before, across and behind the changes",
         params=[{"window": w, "at": at} for w in ("whole", "from", "to", "both", "odd", "all") for at in (128, 512)] +
         [{"window": w, "at": at, "then": t} for w, at, t in (("from", 64, 192), ("both", 300, 400), ("to", 100, 200))],
         thorough=[{"window": w, "at": at} for w in WINDOWS for at in (1, 128, 256, 400, 512, 800)] +
         [{"window": w, "at": at, "then": t} for w in WINDOWS for at, t in ((64, 192), (300, 400), (500, 900))])
def window_tempo(sx, window, at, then=None):
    """a window keeps the tempi, so notes keep their seconds and their ticks"""
    from neural_graph_composer.midi.midi_note import MidiNote
    lo, hi = WINDOWS[window]
    ch = tempo_map([(0, S0), (at, 2 * S0)] + ([(then, S0 / 2)] if then else []))

    def sec(t):
        return ch(sx, t)
    a, b = lo or 0, min(1024, hi if hi is not None else 1024)
    kw = {}
    if lo is not None:
        kw["from_start"] = sec(lo)
    if hi is not None:
        kw["to_end"] = sec(hi)
    x, s, e = grid_note(sx, "a", ch, dmax=512)
    sx.assume(sx.and_(x.pitch != 0, e < 1024))
    q = sx.int("q", 0, 1023)
    sx.assume(q < b - a)
    last = MidiNote(0, sec(1000), sec(1024), velocity=100)
    with Midi(sx) as m:
        src = piece(sx, [(0, False, "one", [x, last], [], [])], tempi=[(0.0, 120.0), (sec(at), 60.0)] + ([(sec(then), 240.0)] if then else []))
        if sx.symbolic:
            from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI
            length = CustomPrettyMIDI.get_end_time
            m.p.set(CustomPrettyMIDI, "get_end_time", lambda self: sx.fixed(length(self)))
        m.write(src, "x.mid", **kw)
        back = m.read("x.mid")
    rows = [(0, 0, x.pitch, x.velocity, s, e), (0, 0, 0, 100, 1000, 1024)]
    want = [(r[:4] + (sec(r[4]) - sec(a), sec(r[5]) - sec(a))) for r in rows if bool(sx.and_(r[4] >= a, r[5] <= b))]
    sx.check(sx.multiset_eq(note_ids(back), want), "the notes inside the window keep their seconds")
    sx.check(back.tempo_signature(sec(q + a) - sec(a))[0] == (
        sx.ite(q + a >= (then or 4000), 240, sx.ite(q + a >= at, 60, 120))), "the tempo inside the window is the one of the piece")
    sx.observe("n", len(note_ids(back)))
