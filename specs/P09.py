"""Transactions and visibility."""
from cov.run import Unit
from . import warren as K

TU = "src/fiver.cc"


def units():
    return [Unit(TU, K.contracts, c) for c in K.protocol()] + [Unit("src/bigwig.cc", K.bw_contracts, c) for c in K.bigwig()] + [Unit(TU, K.fiver_contracts, c) for c in K.fiver_hooks()] + [Unit("src/bigwig.cc", K.snap_contracts, c) for c in K.snapshots()]


PROP = {
    "id": "P09", "units": units,
    "driver": {"src": "warren.cc", "tus": None, "flags": ["-DPART=1"], "rule": "random histories of up to 60 steps of several overlapping transactions (append, annotate, erase, ready, commit, abort), readers and clones of one in-memory database, merging on or off; every view is compared with a model, old readers again later; non-trivial: distinct histories with two or more finished transactions",
               "bounded": "histories of up to 60 steps, up to 4 open transactions and 5 readers, one client thread plus the background merging threads"},
    "assumptions": [
        "Warren::start, Txt::wrap, Featurizer::featurize, Fiver::make/merge and try_merge by assumed contracts",
        "the class-specific parts of ready/commit/abort change only state of their own objects; what FiverAppender::appended returns is a fixed number per shard",
        "a mutex is a 0/1 flag and every field it guards may change arbitrarily (within the stated invariant) whenever the lock is taken; accesses of other threads in between are covered by that, data races outside the guarded fields are not",
        "callers keep the invariant that a transaction's flags agree with its phase (established by the proved functions, assumed when they are entered)"],
    "explanation": "The transaction state machine, the vote and the publication steps are proved function by function against a ghost phase, including that the critical sections which assign addresses and publish are atomic; a reader's start is proved to take exactly the visible shards of one moment, in order.",
}
