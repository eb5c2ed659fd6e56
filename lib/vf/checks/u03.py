"""U03: writing and (partial) reading against specs/Spectra.tla."""
from .. import spectra

OPS = ["make", "make", "write", "write", "write", "read", "read", "read", "read", "fold", "select", "tile", "combinetile", "eq"]


def run(chk):
    import hera_pspec  # noqa: F401
    traces = spectra.behaviours(chk, OPS, 1600 if chk.thorough else 240, 16)
    spectra.replay(chk, traces)
