"""Posting lists: building."""
from cov.run import Unit, Lemma
from . import posting as K

TU = "src/simple_posting.cc"
TUS = ["src/simple_posting.cc", "src/array_hopper.cc", "src/hopper.cc", "src/core.cc", "src/compressor.cc", "src/post_compressor.cc", "src/tfdf_compressor.cc", "src/zlib_compressor.cc"]


def units():
    return [Unit(TU, K.contracts, c) for c in (K.get(), K.push(), K.append(), K.tokens(), K.annotations(), K.feature(), K.invariants())] + [Lemma("kept annotations", K.ann_lemmas)]


PROP = {
    "id": "P06", "units": units,
    "driver": {"src": "posting.cc", "tus": TUS, "flags": ["-DPART=1"],
               "rule": "token runs, annotation runs and push/append sequences; non-trivial: distinct lists of more than two entries",
               "bounded": "lists of up to 300 entries"},
    "assumptions": [],
    "explanation": "",
}
