"""Answers do not depend on access history."""
from cov.run import Unit
from . import hoppers as H


def units():
    pc = H.public_contracts
    w = H.wrapper_contracts()
    return [Unit("src/hopper.cc", H.virtual_contracts, c) for c in w if not c.q.endswith("_")] + [Unit("src/hopper.cc", pc, c) for c in w if c.q.endswith("_")]


def side(tus):
    return H.reentrancy(["src/hopper.cc", "src/array_hopper.cc", "gcl/gcl.cc", "gcl/vector_hopper.cc"])


PROP = {
    "id": "P03", "units": units, "side": side,
    "driver": {"src": "memo.cc", "tus": ["gcl/gcl.cc", "src/hopper.cc", "src/array_hopper.cc", "src/core.cc"],
               "rule": "random interleavings of the six access methods over a handful of arguments on one object; every case is a distinct object",
               "bounded": "40 accesses per object on generated leaf and operator objects, each answer compared with the set oracle"},
    "assumptions": H.ASSUME,
    "explanation": "",
}
