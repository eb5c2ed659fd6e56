"""U02: selection against specs/Spectra.tla."""
from .. import spectra

OPS = ["make", "make", "select", "select", "select", "select", "select", "copy", "eq", "tile", "combinetile", "fold"]


def run(chk):
    import hera_pspec  # noqa: F401
    spectra.laws(chk, chk.thorough)
    traces = spectra.behaviours(chk, OPS, 2400 if chk.thorough else 320, 16)
    spectra.replay(chk, traces)
