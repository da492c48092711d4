"""Music theory tables: scales, triads, chords, compound intervals."""
PROPS = ("C26", "C27")
PRELOAD = ("neural_graph_composer.midi.midi_scales",)

from symex.api import harness
from harness.common import *  # noqa

# whole/half step patterns (semitones between neighbours), the textbook definition
STEPS = {"major": "2212221", "minor": "2122122", "dorian": "2122212", "phrygian": "1222122",
         "lydian": "2221221", "mixolydian": "2212212", "aeolian": "2122122", "locrian": "1221222",
         "harmonic_minor": "2122131", "melodic_minor": "2122221"}
NAMES = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]
TRIAD = {(4, 3): "maj", (3, 4): "min", (3, 3): "dim", (4, 4): "aug"}
SEMI = {"P1": 0, "m2": 1, "M2": 2, "m3": 3, "M3": 4, "P4": 5, "A4": 6, "d5": 6, "P5": 7, "A5": 8, "m6": 8,
        "M6": 9, "d7": 9, "m7": 10, "M7": 11, "P8": 12, "m9": 13, "M9": 14, "m10": 15, "M10": 16, "P11": 17, "A11": 18,
        "d12": 18, "m13": 20, "M13": 21}


def theory():
    from neural_graph_composer.midi.midi_scales import MusicTheory, Interval, ScaleType
    return MusicTheory, Interval, ScaleType


def degrees(scale):
    r = [0]
    for c in STEPS[scale][:-1]:
        r.append(r[-1] + int(c))
    return r


def pc(name):
    return NAMES.index(name)


@harness("C26", "every root 0..11 or by name, in any case, all ten scales, by name or type",
         params=[{"scale": s} for s in STEPS])
def scale_notes(sx, scale):
    M, I, S = theory()
    r = sx.int("root", 0, 11)
    form = sx.choice("form", ["int", "name", "lower"])
    root = int(r) if form == "int" else NAMES[int(r)] if form == "name" else NAMES[int(r)].lower()
    sc = scale if sx.flag("byname") else S(scale)
    got = M.notes_from_scale(root, sc)
    want = degrees(scale)
    sx.check(len(got) == 7, "seven notes")
    for g, w in zip(got, want):
        sx.check((pc(g) - r - w) % 12 == 0, "each note is its step pattern above the root")
    sx.check(sorted(i.value for i in M.intervals_from_scale(sc)) == want, "intervals of the scale")
    tri = M.triads_from_scale_tuple(root, sc)
    plain = M.triads_from_scale(root, sc)
    sx.check(len(tri) == 7 and len(plain) == 7, "one triad per degree")
    for i, (t, q) in enumerate(zip(tri, plain)):
        ns = [got[i], got[(i + 2) % 7], got[(i + 4) % 7]]
        sx.check(list(t[0]) == ns and q == "".join(ns), "triad stacks every other scale note")
        gap = ((pc(ns[1]) - pc(ns[0])) % 12, (pc(ns[2]) - pc(ns[1])) % 12)
        sx.check(t[1] == TRIAD[gap], "triad type names its intervals")
    sx.observe("n", got)


@harness("C26", "any root in [-3,14], out-of-range refused; unknown names refused")
def scale_refuses(sx):
    M, I, S = theory()
    r = sx.int("root", -3, 14)
    ok = sx.and_(r >= 0, r <= 11)
    for f in (lambda: M.notes_from_scale(r, "major"), lambda: M.triads_from_scale(r, "minor"),
              lambda: M.triads_from_scale_tuple(r, "dorian"), lambda: M.chord_pitch_from_interval(r, ["P1"])):
        _, e = sx.attempt(f, ValueError)
        sx.check(sx.iff(e is None, ok), "root range")
    bad = sx.choice("bad", ["H", "", "Cb", "C##", "c #", "do"])
    for f in (lambda: M.notes_from_scale(bad, "major"), lambda: M.triads_from_scale(bad, "major"),
              lambda: M.triads_from_scale_tuple(bad, "major"), lambda: M.chord_pitch_from_interval(bad, ["P1"])):
        _, e = sx.attempt(f, ValueError, KeyError)
        sx.check(e is not None, "unknown note name")
    for f in (lambda: M.intervals_from_scale("bogus"), lambda: M.notes_from_scale(0, "bogus"),
              lambda: M.triads_from_scale(0, "bogus"), lambda: M.triads_from_scale_tuple(0, "bogus")):
        _, e = sx.attempt(f, ValueError, KeyError)
        sx.check(e is not None, "unknown scale")


@harness("C27", "any root and any two intervals out of 25, by name or type",
         params=[{"byname": True}, {"byname": False}])
def chord_pitches(sx, byname):
    M, I, S = theory()
    r = sx.int("root", 0, 11)
    a = sx.choice("a", list(SEMI))
    b = sx.choice("b", list(SEMI)[::3])
    iv = [a, b] if byname else [I[a], I[b]]
    got = M.chord_pitch_from_interval(r, iv)
    sx.check(len(got) == 2, "one pitch per interval")
    for g, n in zip(got, (a, b)):
        sx.check(sx.and_(g >= 0, g <= 11, (g - r - SEMI[n]) % 12 == 0), "pitch is the interval above the root")
    sx.observe("g", got)


@harness("C27", "every root as number, name or lower-case name; six kinds of malformed or well-formed chords")
def chord_asked(sx):
    M, I, S = theory()
    r = sx.int("root", 0, 11)
    form = sx.choice("form", ["int", "name", "lower"])
    root = r if form == "int" else NAMES[int(r)] if form == "name" else NAMES[int(r)].lower()
    kind = sx.choice("kind", ["names", "intervals", "set", "nameset", "tuple", "text", "mixed", "numbers", "none"])
    want = (0, 4, 7)
    iv = {"names": ["P1", "M3", "P5"], "intervals": [I.P1, I.M3, I.P5], "set": frozenset([I.P1, I.M3, I.P5]),
          "nameset": frozenset(["P1", "M3", "P5"]), "tuple": ("P1", "M3", "P5"), "text": "P5",
          "mixed": ["P1", I.M3], "numbers": [0, 4, 7], "none": None}[kind]
    got, e = sx.attempt(lambda: M.chord_pitch_from_interval(root, iv), TypeError)
    sx.check((e is None) == (kind in ("names", "intervals", "set", "nameset")), "a chord is a list or set of intervals or of their names")
    if got is not None:
        sx.check(len(got) == 3, "one pitch per interval")
        order = [SEMI[i] if isinstance(i, str) else i.value for i in iv]
        for g, w in zip(got, order):
            sx.check((g - r - w) % 12 == 0, "pitch is the interval above the root, however the root is given")
        sx.observe("g", got)


@harness("C27", "every interval of the table")
def interval_bases(sx):
    M, I, S = theory()
    n = sx.choice("n", sorted(x.name for x in I))
    for b in (M.bases(I[n]), I[n].bases()):
        sx.check(len(b) >= 1 and sum(b) == I[n].value, "the bases of an interval add up to it")


@harness("C27", "every kind of argument")
def chord_name_refusals(sx):
    M, I, S = theory()
    a = sx.int("a", 0, 6)
    arg = {"text": "43", "none": None, "int": a, "float": [4, 3.0], "words": ["4", "3"], "set": {4, 3},
           "mixed": [a, "3"]}[sx.choice("kind", ["text", "none", "int", "float", "words", "set", "mixed"])]
    for f in (M.get_chord_name, M.get_chord_name_from_intervals):
        _, e = sx.attempt(lambda: f(arg), TypeError)
        sx.check(e is not None, "only lists of whole numbers name a chord")
    _, e = sx.attempt(lambda: M.get_chord_intervals("bogus"), KeyError, ValueError)
    sx.check(e is not None, "unknown chord")


@harness("C27", "minor and major fourteenth above any root", params=[{"name": "m14"}, {"name": "M14"}])
def fourteenths(sx, name):
    M, I, S = theory()
    r = sx.int("root", 0, 11)
    got = M.chord_pitch_from_interval(r, [name])
    sx.check((got[0] - r - {"m14": 22, "M14": 23}[name]) % 12 == 0, name + " is an octave above the seventh")
    sx.observe("g", got)


@harness("C27", "every chord of the chord table on any root")
def chord_table(sx):
    M, I, S = theory()
    r = sx.int("root", 0, 11)
    name = sx.choice("chord", sorted(M.chord_intervals_mapping))
    iv = M.chord_intervals_mapping[name]
    steps = M.get_chord_intervals(name)
    got = M.chord_pitch_from_interval(r, iv)
    tot, cum = 0, [0]
    for s in steps:
        tot += s
        cum.append(tot)
    if name not in ("13", "M13", "m13"):       # the 11th may be left out of a 13th chord
        sx.check(len(cum) == len(iv), "as many notes as intervals")
        for g, c in zip(got, cum):
            sx.check((g - r - c) % 12 == 0, "both tables of a chord agree")
    for g in got:
        sx.check(sx.any_((g - r - c) % 12 == 0 for c in cum), "pitches of the chord")
    if len(name) == 1:
        notes = M.chord_from_scale(NAMES[int(r)] + name, [])
        sx.check([pc(n) for n in notes] == [int(g) for g in got], "chord by name")
    sx.observe("g", got)


# ------------------------------------------------------------------ C27
@harness("C27", "every integer in [-30,200]; every base in [-3,15] and octave in [-2,12]")
def compound(sx):
    M, I, S = theory()
    n = sx.int("n", -30, 200)
    r, e = sx.attempt(lambda: M.compound_interval_to_base(n), ValueError)
    sx.check(sx.iff(e is None, n >= 0), "refused iff negative")
    if r is not None:
        sx.check(sx.and_(r[0] >= 0, r[0] <= 11, r[1] >= 0), "base in an octave")
        sx.check(M.base_to_compound_interval(r[0], r[1]) == n, "round trip")
    b, o = sx.int("b", -3, 15), sx.int("o", -2, 12)
    c, e = sx.attempt(lambda: M.base_to_compound_interval(b, o), ValueError)
    sx.check(sx.iff(e is None, sx.and_(b >= 0, b <= 11, o >= 0)), "refused iff out of range")
    if c is not None:
        sx.check(sx.tup_eq(M.compound_interval_to_base(c), (b, o)), "round trip back")
    sx.observe("c", c)


@harness("C27", "all pairs of intervals")
def compound_sum(sx):
    M, I, S = theory()
    names = sorted(x.name for x in I)
    a, b = sx.choice("a", names), sx.choice("b", names)
    known = [x.value for x in I]
    r, e = sx.attempt(lambda: M.compound_interval_from_bases(I[a], I[b]), ValueError)
    s = I[a].value + I[b].value
    sx.check((e is None) == (s in known), "named iff an interval of that size exists")
    if r is not None:
        sx.check(r.value == s, "compound is the sum")


@harness("C27", "all semitone counts in [-5,40]")
def semitones(sx):
    M, I, S = theory()
    known = [x.value for x in I]
    n = sx.int("n", -5, 40)
    r, e = sx.attempt(lambda: M.from_semitones(n), ValueError)
    sx.check(sx.iff(e is None, sx.member(n, known)), "named iff known")
    if r is not None:
        sx.check(r.value == n, "interval of that many semitones")


@harness("C27", "all lists of 1-3 (thorough 4) integers in [-1,8]", params=[{"k": k} for k in (1, 2, 3)],
         thorough=[{"k": k} for k in (1, 2, 3, 4)], hash_constants=(2, 3, 4, 5, 7))
def chord_names(sx, k):
    M, I, S = theory()
    iv = [sx.int(f"i{j}", -1, 8) for j in range(k)]
    a = M.get_chord_name(iv)
    b = M.get_chord_name_from_intervals(tuple(iv))
    c = M.get_chord_name_from_intervals(list(iv))
    rows = [v for v in M.chord_intervals.values() if len(v) == k]
    found = sx.any_(sx.tup_eq(tuple(iv), tuple(v)) for v in rows)
    sx.check(sx.iff(a is not None, found), "named iff in the chord table")
    sx.check(b == c, "tuple and list give the same name")
    for n in (a, b):
        if n is not None:
            sx.check(sx.tup_eq(tuple(M.get_chord_intervals(n)), tuple(iv)), "the name gives the intervals back")
    sx.check((a is None) == (b is None), "both lookups know the same chords")
    sx.observe("a", a)


@harness("C27", "every chord of the table with any one interval replaced by any number in [-1,8], or cut short, or turned round",
         params=[{"edit": e} for e in ("one", "cut", "turn")], hash_constants=(2, 3, 4, 5, 7))
def chord_near_misses(sx, edit):
    M, I, S = theory()
    name = sx.choice("chord", sorted(M.chord_intervals))
    iv = list(M.get_chord_intervals(name))
    if edit == "one":
        iv[int(sx.int("at", 0, 5)) % len(iv)] = sx.int("new", -1, 8)
    elif edit == "cut":
        iv = iv[:int(sx.int("len", 0, 6))]
    else:
        iv = iv[::-1] if bool(sx.flag("reversed")) else sorted(iv)
    found = sx.any_(sx.tup_eq(tuple(iv), tuple(v)) for v in M.chord_intervals.values() if len(v) == len(iv))
    for n in (M.get_chord_name(list(iv)), M.get_chord_name_from_intervals(tuple(iv)), M.get_chord_name_from_intervals(list(iv))):
        sx.check(sx.iff(n is not None, found), "named iff in the chord table")
        if n is not None:
            sx.check(sx.tup_eq(tuple(M.get_chord_intervals(n)), tuple(iv)), "the name gives the intervals back")


@harness("C27", "every pitch 0..127", hash_mode="concrete", str_mode="concrete")
def pitch_names(sx):
    M, I, S = theory()
    p = sx.int("p", 0, 127)
    n = M.pitch_to_note(p)
    sx.check(n == NAMES[int(p) % 12] + str(int(p) // 12), "pitch name")
