"""A frozen copy of the numpy namespace.

auto_diff rebinds numpy.zeros, numpy.array, numpy.ndarray, ... inside its `with` blocks; the
verifier's own code must keep the real ones while the code under contract is in such a block.
"""
import numpy as _np

globals().update({k: v for k, v in vars(_np).items() if k not in ("__name__", "__doc__", "__file__", "__path__", "__package__", "__spec__", "__loader__")})
