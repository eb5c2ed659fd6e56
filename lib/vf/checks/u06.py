"""U06: folding, and what happens to folded objects later, against specs/Spectra.tla."""
from .. import spectra

OPS = ["make", "make", "fold", "fold", "fold", "select", "select", "write", "read", "tile", "combinetile", "copy", "eq"]


def run(chk):
    import hera_pspec  # noqa: F401
    traces = spectra.behaviours(chk, OPS, 1600 if chk.thorough else 240, 14)
    spectra.replay(chk, traces)
