"""Reading text back."""
from cov.run import Unit
from . import text as K

TU = "src/fiver.cc"


def units():
    return [Unit(TU, K.callees, c) for c in (K.fiver_translate(), K.fiver_tokens(), K.fiver_range())] + [Unit("src/bigwig.cc", K.all_callees, c) for c in K.bigwig_txt()]


PROP = {
    "id": "P11", "units": units,
    "driver": [
        {"src": "warren.cc", "tus": None, "flags": ["-DPART=3"], "rule": "random histories of several transactions, as for P09; after each step the text of random address intervals (reversed, unbounded, inside gaps), the number of tokens and the extent are compared with a model; non-trivial: distinct histories with two or more finished transactions",
         "bounded": "histories of up to 60 steps, texts of up to 900 tokens, ascii tokenizer"},
        {"src": "shards.cc", "tus": None, "flags": ["-DPART=1"], "rule": "one to five random shards, with gaps from aborted transactions and appends without tokens; each alone, merged at once and in two steps, written and read back, converted to compressed files of random chunk size, those merged; 40 random intervals of text each; non-trivial: distinct cases of two or more shards",
         "bounded": "up to five shards; file forms are bounded only"}],
    "assumptions": [
        "Tokenizer::skip stops at the start of the next token or the end of the text, depends only on text, offset and count, and skipping in two steps is skipping at once (driver: ascii tokenizer)",
        "the chunk list of a shard is disjoint and ascending with ascending offsets (established by the append contract of P10 and the list contracts of P06, P07)",
        "FiverTxt::range_ is verified for one thread at a time; its unlocked flag is not covered"],
    "explanation": "Text of any address interval, token counts and extents of one shard and of all shards together are proved against the chunk list; the compressed file form is bounded only.",
}
