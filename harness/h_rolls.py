"""Piano roll, chroma and pitch statistics of a piece against those of its instruments."""
PROPS = ("C43",)
PRELOAD = ("neural_graph_composer.custom_pretty_midi",)

import numpy as np

from symex.api import harness
from harness.common import *  # noqa

ROWS = (0, 5, 12, 59, 60, 67, 127)
CLASSES = (0, 4, 7, 11)


class Part:
    """an instrument whose rolls and counts are given; remembers what it was asked"""

    def __init__(self, roll=None, hist=None, trans=None, shares=None):
        self.roll, self.hist, self.trans, self.shares = roll, hist, trans, shares
        self.asked = []
        self.is_drum, self.program, self.name, self.notes = False, 0, "", []

    def get_piano_roll(self, fs=100, times=None, pedal_threshold=64):
        self.asked.append((fs, times, pedal_threshold))
        return self.roll.copy()

    def get_pitch_class_histogram(self, use_duration=False, use_velocity=False, normalize=False):
        self.asked.append((use_duration, use_velocity))
        assert not normalize
        return self.hist.copy()

    def get_pitch_class_transition_matrix(self, normalize=False, time_thresh=0.05):
        self.asked.append(time_thresh)
        if not normalize:
            return self.trans.copy()
        return self.trans / float(self.shares or 1)  # what the library does: the share of every transition


class Piece:
    """with Piece(sx) as pm: an empty parsed piece whose numpy makes arrays of anything"""

    def __init__(self, sx):
        self.sx = sx

    def __enter__(self):
        import neural_graph_composer.custom_pretty_midi as own
        self.p = patched()
        self.p.__enter__()
        if self.sx.symbolic:
            from symex import npshim

            class AnyNp(npshim._Np):
                @staticmethod
                def zeros(shape, *a, **k):
                    return np.full(shape, 0.0, dtype=object)
            self.p.set(own, "np", AnyNp())
        return own.CustomPrettyMIDI()

    def __exit__(self, *a):
        return self.p.__exit__(*a)


def array(sx, shape, cells):
    """array of that shape, zero but for the given cells"""
    r = np.full(shape, 0.0, dtype=object if sx.symbolic else float)
    for k, v in cells.items():
        r[k] = v
    return r


def close(sx, a, b):
    return a == b if sx.symbolic else abs(float(a) - float(b)) < 1e-6


def times_of(kind, n):
    return None if kind is None else [0.5 * i for i in range(n)]


@harness("C43", "rolls of 0-3 instruments, 0-3 columns each, of any values at seven pitches; all ways to ask",
         params=[{"widths": w, "ask": a} for w, a in (((), 0), ((2,), 1), ((1, 3), 0), ((3, 1), 2), ((0, 2), 1), ((2, 2), 3), ((0, 0), 0), ((2, 1, 3), 3))],
         thorough=[{"widths": w, "ask": a} for w in ((4, 1, 2, 3), (0, 5, 5), (5, 2)) for a in (0, 1, 2, 3)])
def rolls(sx, widths, ask):
    fs = sx.int("fs", 1, 200)
    pedal = None if ask == 1 else sx.int("pedal", 0, 127)
    times = [0.0, 0.5, 2.0] if ask == 3 else None
    with Piece(sx) as pm:
        cells = []
        for i, w in enumerate(widths):
            cells.append({(r, c): sx.int(f"i{i}r{r}c{c}", 0, 127) for r in ROWS for c in range(w)})
            pm.instruments.append(Part(roll=array(sx, (128, w), cells[-1])))
        parts = list(pm.instruments)
        args = dict(fs=fs, times=times, pedal_threshold=pedal) if ask else {}
        asked = (fs, times, pedal) if ask else (100, None, 64)
        for what in ("roll", "chroma"):
            got = pm.get_piano_roll(**args) if what == "roll" else pm.get_chroma(**args)
            width = max(widths) if widths else 0
            rows = 128 if what == "roll" else 12
            sx.check(tuple(got.shape) == (rows, width), f"{what}: as wide as the widest instrument")
            for p in parts:
                sx.check(len(p.asked) == 1 and sx.and_(p.asked[0][0] == asked[0], p.asked[0][1] is asked[1],
                                                       p.asked[0][2] is None if asked[2] is None else p.asked[0][2] == asked[2]),
                         f"{what}: every instrument is asked for what was asked")
                p.asked.clear()
            oks = []
            for r in range(rows):
                for c in range(width):
                    want = 0
                    for d in cells:
                        for (a, b), v in d.items():
                            if b == c and (a == r if what == "roll" else a % 12 == r):
                                want = want + v
                    oks.append(close(sx, got[r, c], want))
            sx.check(sx.all_(oks), f"{what}: the sum over the instruments")
        sx.check(sx.all_(close(sx, p.roll[k], v) for p, d in zip(parts, cells) for k, v in d.items())
                 and [p.roll.shape[1] for p in parts] == list(widths), "the rolls of the instruments are left alone")
        sx.check(pm.instruments == parts, "the piece is left alone")
    sx.observe("n", len(widths))


@harness("C43", "0-3 instruments of any counts at four pitch classes; all weightings",
         params=[{"n": n, "weights": w, "norm": s} for n, w, s in ((0, 0, None), (1, 0, True), (2, 1, True), (2, 2, False), (3, 3, None), (3, 2, True))],
         thorough=[{"n": n, "weights": w, "norm": s} for n in (4, 5) for w in range(4) for s in (None, True, False)])
def histogram(sx, n, weights, norm):
    dur, vel = bool(weights & 1), bool(weights & 2)
    with Piece(sx) as pm:
        counts = [[sx.int(f"i{i}c{c}", 0, 40) for c in CLASSES] for i in range(n)]
        pm.instruments = [Part(hist=array(sx, (12,), dict(zip(CLASSES, cs)))) for cs in counts]
        parts = list(pm.instruments)
        got = pm.get_pitch_class_histogram(**dict({} if not weights else dict(use_duration=dur, use_velocity=vel),
                                                  **({} if norm is None else {"normalize": norm})))
        sums = {c: sum((cs[i] for cs in counts), 0) for i, c in enumerate(CLASSES)}
        total = sum(sums.values(), 0)
        for p in parts:
            sx.check(p.asked == [(dur, vel)], "every instrument is weighted as asked")
        sx.check(tuple(got.shape) == (12,), "twelve classes")
        if norm is False:
            sx.check(sx.all_(close(sx, got[c], sums.get(c, 0)) for c in range(12)), "the sum over the instruments")
        else:
            sx.check(sx.all_(close(sx, got[c] * sx.max(total, 1), sums.get(c, 0)) for c in range(12)), "shares of the whole")
        sx.check(sx.all_(close(sx, p.hist[c], v) for p, cs in zip(parts, counts) for c, v in zip(CLASSES, cs)), "the counts of the instruments are left alone")
    sx.observe("n", n)


@harness("C43", "0-2 (thorough 3) instruments of any counts of five transitions; any threshold; when scaled, of any shares of a total",
         params=[{"n": n, "totals": s, "t": t} for n, s, t in ((0, None, False), (1, (16,), True), (1, None, True), (2, None, False), (2, (16, 16), False),
                                                             (2, (16, 4), True), (2, (8, 0), True), (1, (0,), False), (0, (), True))],
         thorough=[{"n": len(s), "totals": s, "t": t} for s in ((16, 4, 1), (0, 2, 0), (8, 8, 8)) for t in (False, True)] + [{"n": 3, "totals": None, "t": True}])
def transitions(sx, n, totals, t):
    cells = ((0, 0), (0, 7), (7, 0), (11, 4), (4, 11))
    norm = totals is not None
    with Piece(sx) as pm:
        counts = [[sx.int(f"i{i}c{c}", 0, 20) for c in range(len(cells))] for i in range(n)]
        for cs, whole in zip(counts, totals or ()):
            cs[-1] = whole - sum(cs[:-1], 0)  # the sum is a known number: division stays linear
            sx.assume(cs[-1] >= 0)
        pm.instruments = [Part(trans=array(sx, (12, 12), dict(zip(cells, cs))), shares=totals[i] if norm else None) for i, cs in enumerate(counts)]
        parts = list(pm.instruments)
        th = sx.time("threshold", 2, 16)
        args = {"normalize": True} if norm else {"normalize": False} if t else {}
        got = pm.get_pitch_class_transition_matrix(**dict(args, **({"time_thresh": th} if t else {})))
        for p in parts:
            sx.check(len(p.asked) == 1 and p.asked[0] == (th if t else 0.05), "every instrument is asked with the threshold")
        sx.check(tuple(got.shape) == (12, 12), "twelve by twelve classes")
        total = 0
        for a in range(12):
            for b in range(12):
                made = sum((cs[cells.index((a, b))] for cs in counts), 0) if (a, b) in cells else 0
                total = total + got[a, b]
                if norm:
                    sx.check(got[a, b] >= 0 and sx.iff(got[a, b] > 0, made > 0), "a share for just the transitions that are made")
                else:
                    sx.check(close(sx, got[a, b], made), "the sum over the instruments")
        if norm:
            sx.check(close(sx, total, 1 if sum(totals) else 0), "shares of the whole, if there is any")
    sx.observe("n", n)
