"""Merged streams."""
from cov.run import Unit
from . import hoppers as H
from . import vector as W


def units():
    return [Unit("gcl/vector_hopper.cc", H.public_contracts, c) for c in W.vec_contracts() + W.ctor_contracts()]


PROP = {
    "id": "P04", "units": units,
    "driver": {"src": "vector.cc", "tus": ["gcl/gcl.cc", "gcl/vector_hopper.cc", "src/hopper.cc", "src/array_hopper.cc", "src/core.cc"],
               "rule": "0..13 generated operands with access histories; non-trivial: distinct operand list of two or more operands with two or more answers",
               "bounded": "lists of up to 9 intervals over up to 36 positions (also at both ends of the address range), 26 accesses per stream, sweeping up, down or at random"},
    "assumptions": H.ASSUME, "explanation": "",
}
