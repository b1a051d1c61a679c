"""Posting lists: merging and erasing."""
from cov.run import Unit, Lemma
from . import posting as K
from .P06 import TU, TUS


def units():
    return [Unit(TU, K.contracts, c, deadline=300) for c in (K.merge(),)]


PROP = {
    "id": "P07", "units": units,
    "driver": {"src": "posting.cc", "tus": TUS, "flags": ["-DPART=2"],
               "rule": "0..6 generated lists of one feature, with and without a list of erased intervals; non-trivial: distinct inputs whose answer has more than two entries",
               "bounded": "lists of up to 60 entries"},
    "assumptions": [],
    "explanation": "",
}
