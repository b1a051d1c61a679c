"""Compressed shards."""
from cov.run import Unit
from . import planner as K


def units():
    has, grp = K.shard_lists()
    seq, pair = K.choices()
    return [Unit("src/hazel.cc", {}, has), Unit("src/hazel.cc", {}, grp), Unit("src/bigwig.cc", {}, seq), Unit("src/bigwig.cc", {}, pair), Unit("src/hazel.cc", {}, K.locate()), Unit("src/hazel.cc", {}, K.chunk())]


PROP = {
    "id": "P20", "units": units,
    "driver": {"src": "shards.cc", "tus": None, "flags": ["-DPART=2"], "rule": "one to five random shards of text, annotations and erasures; each alone, merged at once and in two steps, written and read back, converted to compressed files of random chunk size, those merged; every form must answer every feature, extents and some text alike; non-trivial: distinct cases of two or more shards",
               "bounded": "up to five shards of up to some hundred tokens; the encoding of the files is bounded only"},
    "assumptions": [
        "the directory of a compressed shard is in order of features and its chunk list in order of text (checked by the driver only)",
        "file sizes are below 2^62"],
    "explanation": "Finding a feature's entry and a byte's chunk in a compressed shard, and choosing what to merge, are proved for all lists; writing, merging and reading the files themselves is bounded only.",
}
