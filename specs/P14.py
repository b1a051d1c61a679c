"""Tokens."""
from cov.run import Unit, Lemma
from . import tokens as K

TU = "src/ascii_tokenizer.cc"


def units():
    return [Unit(TU, {}, K.skip(), deadline=300), Lemma("tokens", K.lemma_goals)]


PROP = {
    "id": "P14", "units": units,
    "driver": {"src": "tokens.cc", "tus": None, "flags": [], "rule": "every text of up to four (thorough: five) of twelve characters that matter, random mixtures of words, markup, entities and multi-byte characters, every byte, code points of every class, malformed and cut UTF-8; tokens, skipping by every count, in one and two steps, and splitting are compared with each other and, for well-formed text, with a reference written from the statement and the Unicode tables; non-trivial: distinct texts of two or more tokens",
               "bounded": "texts of up to some hundred bytes; tokenize_, split_ and all of the UTF-8 tokenizer are bounded only"},
    "assumptions": [
        "the Unicode tables of src/unicode.h are data, not checked against the standard",
        "a char is an 8-bit value"],
    "explanation": "Skipping of the ascii tokenizer is proved against a recursive definition of where token n starts, for any text and count, with lemmas (also proved) that tokens lie inside the text, in order, and that skipping in two steps is skipping at once. That tokenizing and splitting agree with it is bounded.",
}
