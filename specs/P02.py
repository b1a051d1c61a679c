"""Leaf streams: stored lists, constants, fixed windows."""
from cov.run import Unit
from . import hoppers as H


def units():
    pc = H.public_contracts
    return [Unit("src/hopper.cc", pc, c) for c in H.leaf_contracts()] + [Unit("src/array_hopper.cc", pc, c, deadline=240) for c in H.array_contracts()]


PROP = {
    "id": "P02", "units": units,
    "driver": {"src": "leaf.cc", "tus": ["src/hopper.cc", "src/array_hopper.cc", "src/simple_posting.cc", "src/core.cc"],
               "rule": "generated posting lists (1 to 400 entries, dense, sparse, nested-free wide intervals, both ends of the address range); non-trivial: distinct list of 3 or more entries",
               "bounded": "sequences of 80 accesses per generated list at, before and after every stored coordinate; fixed windows at both ends of the range"},
    "assumptions": H.ASSUME + ["arrays handed to a stream are not changed while it lives"],
    "explanation": "",
}
