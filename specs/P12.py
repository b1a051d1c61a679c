"""Opening a database after any interruption."""
from cov.run import Unit
from . import recovery as R


def units():
    f = R.owsla_fns()
    tu = ("src/fiver.cc", "src/hazel.cc")
    sh = [{x.q: [x]} for x in f["shadow"]]
    rg = {x.q: [x] for x in f["range"]}
    order, order2, comb, rm = R.order_and_combine()
    return [Unit("src/bigwig.cc", {}, order)] + [Unit("src/owsla.cc", {}, x) for x in f["range"]] + [Unit(tu[x], {}, f["norm"][x]) for x in (0, 1)] + [Unit(tu[x], rg, f["shadow"][x]) for x in (0, 1)] + [Unit(tu[x], sh[x], f["verify"][x]) for x in (0, 1)]


PROP = {
    "id": "P12", "units": units,
    "driver": {"src": "recover.cc", "tus": None, "flags": [], "rule": "a process works on a database on disk (transactions of text, annotations and erasures, commits in groups, aborts, background merging, conversion of shards to compressed files) and is killed before a random file operation, or not; the next process opens it and compares everything a reader sees with a model in which a transaction is committed, or not, or (if the kill fell inside its commit) either but not partly; several kills in a row on one database; non-trivial: distinct histories with a kill",
               "bounded": "histories of up to four sessions; kills at file operations (link, rename, remove, unlink, open, write), completed operations are durable"},
    "assumptions": [
        "strings are ordered by a total order (compared as ranks)",
        "a killed process leaves completed file operations in place; loss of unsynced pages in a power failure is not covered",
        "the operating system's link, rename and unlink are atomic"],
    "explanation": "Which of the shards found on disk are kept when a database is opened (and which are taken as leftovers of a finished merge) is proved for any set of shards; that what they hold is exactly the committed transactions is decided by the driver, bounded.",
}
