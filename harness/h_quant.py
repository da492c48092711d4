"""Stand-alone quantisers."""
PROPS = ("C29",)
PRELOAD = ()

import sys
import types

from symex.api import harness
from harness.common import *  # noqa


def utils():
    """The module imports scipy for a distance function only; where scipy is missing, as in the
    test environment, an empty stand-in takes its place while the module is imported."""
    name = "neural_graph_composer.midi.midi_utils"
    if name not in sys.modules:
        own = {k: v for k, v in sys.modules.items() if k == "scipy" or k.startswith("scipy.")}
        spatial, scipy = types.ModuleType("scipy.spatial"), types.ModuleType("scipy")
        spatial.distance = types.SimpleNamespace(euclidean=lambda a, b: abs(a - b))
        scipy.spatial, scipy.__path__ = spatial, []
        for k in own:
            del sys.modules[k]
        sys.modules.update({"scipy": scipy, "scipy.spatial": spatial})
        try:
            __import__(name)
        finally:
            del sys.modules["scipy"], sys.modules["scipy.spatial"]
            sys.modules.update(own)
    return sys.modules[name]


# ------------------------------------------------------------------ C29 stand-alone quantisers
@harness("C29", "times k/16 in [-4,8], frame rates 1..100 (solver-chosen integers)",
         params=[{"fps": f} for f in (1, 2, 4, 10, 30, 100)])
def frames_cover(sx, fps):
    f = utils().frames_from_times.pyfunc
    s, e = sx.time("s", 8, 16, lo=-4), sx.time("e", 8, 16, lo=-4)
    r, exc = sx.attempt(lambda: f(s, e, fps), ValueError)
    legal = sx.and_(s >= 0, e >= 0)
    if exc is not None:
        sx.check(sx.or_(sx.not_(legal), e <= s), "refused only for negative or empty spans")
        return
    sx.check(legal, "negative times refused")
    a, b = r
    sx.check(sx.and_(a <= s * fps, s * fps < a + 1), "first frame holds the start")
    sx.check(sx.and_(b >= e * fps, e * fps > b - 1), "last frame holds the end")
    sx.check(a < b, "at least one frame")


@harness("C29", "times k/16 in [-8,8], grids 1..64 steps/s, thresholds 1/4, 1/2, 3/4",
         params=[{"thr": t} for t in (0.25, 0.5, 0.75)])
def nearest_step(sx, thr):
    ft_quantize_to_nearest_step = utils().ft_quantize_to_nearest_step
    t, sps = sx.time("t", 8, 16, lo=-8), sx.int("sps", -2, 64)
    r, exc = sx.attempt(lambda: ft_quantize_to_nearest_step(t, sps, thr), ValueError)
    sx.check(sx.iff(exc is None, sps > 0), "refused iff the grid is not positive")
    if exc is None:
        x = t * sps
        y = sx.ite(x < 0, -x, x)          # symmetric around zero
        q = sx.ite(x < 0, -r, r)
        sx.check(sx.and_(q <= y + (1 - thr), y + (1 - thr) < q + 1), "rounded up from the threshold on")


@harness("C29", "bad thresholds, non-numbers", params=[{"bad": b} for b in ("thr", "time", "sps", "text")])
def nearest_step_refused(sx, bad):
    ft_quantize_to_nearest_step = utils().ft_quantize_to_nearest_step
    thr = sx.time("thr", 2, lo=-2)
    args = [sx.time("t", 4), 4.0, thr if bad == "thr" else 0.5]
    if bad in ("time", "sps", "text"):
        args[("time", "sps", "text").index(bad)] = sx.choice("x", ["1", None, [1]])
    r, exc = sx.attempt(lambda: ft_quantize_to_nearest_step(*args), ValueError, TypeError)
    legal = sx.and_(thr >= 0, thr < 1) if bad == "thr" else False
    sx.check(sx.iff(exc is None, legal), "refused iff illegal")
    if bad != "thr":
        sx.check(type(exc) is TypeError, "kind of refusal")


@harness("C29", "times k/32 in [-4,8]; steps 1/8, 1/4, 1/2, 1, 2; grids of 1..4 steps",
         params=[{"step": s, "grid": g} for s in (0.125, 0.25, 0.5, 1.0, 2.0) for g in (1, 2, 4)])
def note_on_grid(sx, step, grid):
    quantize_note_to_step_grid = utils().quantize_note_to_step_grid
    s, e = sx.time("s", 8, 32, lo=-4), sx.time("e", 8, 32, lo=-4)
    r, exc = sx.attempt(lambda: quantize_note_to_step_grid(s, e, step, step * grid), ValueError)
    sx.check(sx.iff(exc is None, sx.and_(s >= 0, e >= 0)), "refused iff negative")
    if exc is None:
        for who, t, q in (("start", s, r[0]), ("end", e, r[1])):
            k = sx.int("k." + who, 0, 200)
            sx.check(sx.and_(q - t <= step / 2, t - q <= step / 2), who + " moves at most half a step")
            near_other = sx.and_(k * step - t < q - t, t - k * step < sx.ite(q > t, q - t, t - q),
                                 k * step - t > -1 * sx.ite(q > t, q - t, t - q),
                                 k * step < t + sx.ite(q > t, q - t, t - q))
            sx.check(sx.not_(near_other), who + " on the nearest step")
            sx.check((q / step) % 1 == 0, who + " on a step")
        sx.check(sx.implies(s <= e, r[0] <= r[1]), "order kept")


@harness("C29", "times k/32 in [0,16]; steps of 1, 2, 4, 8, 16 per measure; 60 and 120 beats per minute; 4/4 and 3/4",
         params=[{"size": s, "tempo": t, "sig": g} for s in (1, 2, 4, 8, 16) for t in (60, 120)
                 for g in ((4, 4), (3, 4))])
def nearest_subdivision(sx, size, tempo, sig):
    quantize_to_nearest_step = utils().quantize_to_nearest_step
    t = sx.time("t", 16, 32)
    r = quantize_to_nearest_step(t, size, tempo, sig)
    step = 60.0 / tempo * sig[0] / size
    sx.check(sx.and_(r - t <= step / 2, t - r <= step / 2), "moves at most half a step")
    sx.check((r / step) % 1 == 0, "on a step")
