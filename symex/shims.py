"""Wrappers for library modules the code under test calls with symbolic arguments."""
import math as _math

from . import core


class MathShim:
    """math, with the functions that would otherwise concretise handled symbolically."""

    def __getattr__(self, name):
        return getattr(_math, name)

    @staticmethod
    def floor(x):
        return x.__floor__() if core.is_sym(x) else _math.floor(x)

    @staticmethod
    def ceil(x):
        return x.__ceil__() if core.is_sym(x) else _math.ceil(x)

    @staticmethod
    def trunc(x):
        return x.__trunc__() if core.is_sym(x) else _math.trunc(x)

    @staticmethod
    def fabs(x):
        return abs(core.to_float(x)) if core.is_sym(x) else _math.fabs(x)

    @staticmethod
    def fmod(a, b):
        if core.is_sym(a) or core.is_sym(b):
            if bool(a >= 0) and bool(b > 0):
                return core.to_float(a % b)
        return _math.fmod(a, b)

    @staticmethod
    def isnan(x):
        return False if core.is_sym(x) else _math.isnan(x)

    @staticmethod
    def isinf(x):
        return False if core.is_sym(x) else _math.isinf(x)

    @staticmethod
    def isfinite(x):
        return True if core.is_sym(x) else _math.isfinite(x)

    @staticmethod
    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if not (core.is_sym(a) or core.is_sym(b)):
            return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        if not core.is_sym(a) and not _math.isfinite(a):
            return False
        if not core.is_sym(b) and not _math.isfinite(b):
            return False
        from .loader import HOOKS
        d = abs(a - b)
        return d <= HOOKS.max(rel_tol * HOOKS.max(abs(a), abs(b)), abs_tol)


MATH = MathShim()


class NoteName(str):
    """librosa.midi_to_note(p) for a symbolic p: equal to another name iff the pitches are equal
    (the function is injective on 0..127)."""

    def __new__(cls, pitch):
        s = super().__new__(cls, f"note<{pitch.e.get_id()}>")
        s.pitch = pitch
        return s

    def _cmp(self, o):
        if isinstance(o, NoteName):
            return self.pitch == o.pitch
        if isinstance(o, str):
            import librosa
            try:
                return self.pitch == int(librosa.note_to_midi(o))
            except Exception:
                return False
        return False

    def __eq__(self, o):
        return self._cmp(o)

    def __ne__(self, o):
        r = self._cmp(o)
        return ~r if type(r) is core.SymBool else not r

    def __hash__(self):
        return hash(self.pitch)

    def __deepcopy__(self, memo):
        return self


class LibrosaShim:
    def __getattr__(self, name):
        import librosa
        return getattr(librosa, name)

    @staticmethod
    def midi_to_note(midi, *a, **k):
        if core.is_sym(midi):
            return NoteName(midi)
        import librosa
        return librosa.midi_to_note(midi, *a, **k)

    @staticmethod
    def note_to_midi(name, *a, **k):
        if isinstance(name, NoteName):
            return name.pitch
        import librosa
        return librosa.note_to_midi(name, *a, **k)


LIBROSA = LibrosaShim()


def patch_module(module):
    import sys
    d = module.__dict__
    for k, v in list(d.items()):
        if v is _math:
            d[k] = MATH
        elif getattr(v, "__module__", None) == "math" and callable(v) and hasattr(_math, k):
            d[k] = getattr(MATH, k)
    librosa = sys.modules.get("librosa")
    if librosa is not None:
        for k, v in list(d.items()):
            if v is librosa:
                d[k] = LIBROSA
    torch = sys.modules.get("torch")
    np = sys.modules.get("numpy")
    if torch is None and np is None:
        return
    if torch is None:
        from . import npshim
        for k, v in list(d.items()):
            if v is np:
                d[k] = npshim.NP
        return
    from . import torchshim
    pyg = sys.modules.get("torch_geometric")
    data = getattr(sys.modules.get("torch_geometric.data"), "Data", None)
    for k, v in list(d.items()):
        if v is torch:
            d[k] = torchshim.TORCH
        elif v is torch.Tensor:
            d[k] = torchshim.ST
        elif np is not None and v is np:
            d[k] = torchshim.NUMPY
        elif pyg is not None and v is pyg:
            d[k] = torchshim.PYG
        elif data is not None and v is data:
            d[k] = torchshim.symdata()
