"""U04: combination against specs/Spectra.tla."""
from .. import spectra

OPS = ["tile", "tile", "tile", "combinetile", "combine", "make", "select", "fold"]


def run(chk):
    import hera_pspec  # noqa: F401
    spectra.laws(chk, chk.thorough)
    traces = spectra.behaviours(chk, OPS, 2000 if chk.thorough else 280, 14)
    spectra.replay(chk, traces)
