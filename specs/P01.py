"""Structural operators."""
from cov.run import Unit
from . import hoppers as H


def units():
    pc = H.public_contracts
    return [Unit("gcl/gcl.cc", pc, c) for c in H.gcl_contracts() + H.merge_contracts()]


PROP = {
    "id": "P01", "units": units,
    "driver": {"src": "gcl.cc", "tus": ["gcl/gcl.cc", "src/hopper.cc", "src/array_hopper.cc", "src/core.cc"],
               "rule": "operator trees over generated interval lists; non-trivial: distinct tree whose operands (or result) are not empty",
               "bounded": "all pairs of interval lists over 4 positions (sampled 1/2 in quick), random trees to depth 3, lists at both ends of the address range"},
    "assumptions": H.ASSUME,
    "explanation": "",
}
