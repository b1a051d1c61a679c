"""Byte codecs."""
from cov.run import Unit, Lemma
from . import codec as K


def units():
    u = [Unit("src/post_compressor.cc", K.contracts, c) for c in (K.encode_1(), K.decode_1(), K.encode_all(), K.decode_all(), K.post_crush(), K.post_tang(), K.post_extra())]
    u += [Unit("src/compressor.cc", K.contracts, c) for c in K.copy_codecs()]
    return u + [Lemma("codes of lists", K.lemma_goals)]


PROP = {
    "id": "P05", "units": units,
    "driver": {"src": "codec.cc", "tus": ["src/compressor.cc", "src/post_compressor.cc", "src/tfdf_compressor.cc", "src/zlib_compressor.cc", "src/core.cc"],
               "rule": "inputs per codec (boundary values of every bit length, random lists and byte strings); non-trivial: distinct inputs longer than one word",
               "bounded": "lists of up to 3000 numbers, byte strings up to 200000; the bit codec and zlib are only exercised here"},
    "assumptions": ["a byte block accessed as 64-bit words through a cast pointer is accessed as words only (aligned, no overlap with byte accesses)",
                    "zlib's deflate/inflate are lossless (external library; exercised by the driver)",
                    "the bit codec for counts (tfdf) is bounded only"],
    "explanation": "",
}
