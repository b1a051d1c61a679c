"""Addresses, annotations, erasure."""
from cov.run import Unit
from . import append as K

TU = "src/fiver.cc"


def units():
    return [Unit(TU, {}, c) for c in K.annotator()] + [Unit(TU, K.callees, c) for c in K.appender()] + [Unit(TU, K.shard_callees, K.shard_ready())]


PROP = {
    "id": "P10", "units": units,
    "driver": {"src": "warren.cc", "tus": None, "flags": ["-DPART=2"], "rule": "random histories of up to 60 steps of several transactions appending text, annotating staged and committed addresses, erasing; after each step every feature a reader sees is compared with a model of the minimal intervals not inside an erased one; non-trivial: distinct histories with two or more finished transactions",
               "bounded": "histories of up to 60 steps, texts of up to 900 tokens; erased intervals that do not nest (nesting is the known finding)"},
    "assumptions": [
        "tokenizers return tokens with ascending addresses from 0 and offsets inside the text (checked by the tokenizer checks); a feature's number depends only on its text",
        "an appender's ready step only adds entries to its annotator's log (proved for FiverAppender::ready_ against the abstract log)",
        "values are 64-bit patterns compared bit for bit; a map keyed by integers is a finite function",
        "posting_from_annotations by its contract (P06)"],
    "explanation": "What append, annotate, erase and ready record is proved entry by entry for every text and log; that a shard's lists are built from exactly its relocated entries in order is proved; merging and subtraction across shards are the contracts of P01, P06 and P07, joined by the driver.",
}
