prop("P01", "Structural query operators return exactly the algebra's answers",
     "For any operand interval streams, the and, or, followed-by, contained-in, containing, not-contained-in, not-containing and merge operators denote exactly the set the interval algebra defines: minimal covers for the combinational ones, filtered operands for the containment ones, minimal intervals of the union for merge. Each of the four access directions, asked at any address including both infinities, returns the first or last interval of that set, with the value the operator's definition gives it, and the call terminates.",
     ["inputs", "histories"], "all operand streams, all operator trees, all arguments over the full 64-bit address range",
     "The tests check a few fixed queries on a few texts; the claim ranges over every pair of streams and every argument, and wrong answers appear only for particular interval overlaps (shared starts, nested ends, values next to the infinities).",
     ["gcl/gcl.cc", "gcl/gcl.h", "src/hopper.h"],
     [("access by minimal-cover ends", "gcl/gcl.cc Combinational::tau_/rho_/uat_/ohr_, And/Or/FollowedBy L_/R_"), ("containment filters", "gcl/gcl.cc ContainedIn..NotContaining"), ("merge", "gcl/gcl.cc Merge")],
     "Every access method of every structural operator is verified against the set it must denote, operands known only by their contracts; the native driver adds an exhaustive small-case comparison. The link operator is bounded only.")
prop("P02", "Leaf streams return exactly the stored intervals",
     "A stream over a stored, sorted list of intervals answers each of the four access directions, and the two end queries, with exactly the first or last stored interval at or beyond the argument, whatever position earlier accesses left it in, with that entry's stored value (zero if none is stored). Empty, single-interval and fixed-width streams answer as the one-interval, no-interval or every-window sets they stand for, up to both ends of the address range.",
     ["inputs", "histories"], "all list lengths and contents, all cursor positions, all arguments over the 64-bit address range",
     "Tests walk short fixed lists forwards and backwards; the galloping search has an outcome per length, cursor and argument, and its corner cases need particular combinations of the three.",
     ["src/array_hopper.cc", "src/array_hopper.h", "src/hopper.cc"],
     [("galloping search", "src/array_hopper.cc hopping, gnippoh"), ("constant and window streams", "src/hopper.cc")],
     "All access methods proved with loop invariants and termination measures; binding to a cache entry or posting object is exercised by the driver only.")
prop("P03", "Answers of a stream do not depend on what was asked before",
     "Asking a stream the same question again, after any sequence of other questions through any of its entry points (with value, with raw value, without value, end queries), returns the same interval and value as asking a fresh stream. In particular the remembered last answer of each direction is only ever reused for the argument it belongs to, including right after construction.",
     ["histories", "inputs"], "all sequences of accesses, all arguments, all stream classes",
     "Tests mostly scan in one direction with fresh arguments; reuse of a remembered answer depends on the history of calls.",
     ["src/hopper.h", "src/hopper.cc"],
     [("one remembered answer per direction", "src/hopper.h tau/rho/uat/ohr"), ("sentinel initial state", "src/hopper.h member initialisers")],
     "The remembered-answer invariant is established by construction and preserved by every entry point (all overloads); that no access method re-enters itself on the same object is decided on the call graph of every class.")
prop("P04", "A merged stream is the minimal union of its operands",
     "One stream over any number of operand streams (as the optimiser builds for flattened or lists) denotes the minimal intervals of the union of all operands, each with the value of the last operand that holds it, for every access direction, argument and earlier access history. No operand is lost or consulted twice when the stream is built, none or one operand degenerates to the empty stream or that operand, and every access terminates.",
     ["inputs", "histories"], "all operand lists of any length, all access histories, all arguments",
     "The stream keeps per-operand positions between calls in two priority queues; a wrong answer needs a tie between operands or a backward step after a forward one.",
     ["gcl/vector_hopper.cc", "gcl/vector_hopper.h"],
     [("first/last element queues", "gcl/vector_hopper.cc InnerHopper tau_/uat_"), ("end queries and ohr/rho", "gcl/vector_hopper.cc L_/R_/rho_/ohr_"), ("construction", "gcl/vector_hopper.cc make, constructor")],
     "All access methods are proved with queue invariants over any number of operands (heap order from the code's own comparator, executed symbolically); make's dispatch on the operand count is exercised by the driver.")
prop("P05", "Stored data expands to exactly what was compressed",
     "Every codec that posting lists and text chunks can be stored with is lossless: expanding what was compressed returns the original bytes, for every ascending list of non-negative addresses (address codec), every sequence of 64-bit values (count codec, which falls back to plain storage for values it cannot encode) and every byte string (general and plain codecs). Compressing never writes beyond the room the codec advertises for the input's length.",
     ["inputs"], "all lists and byte strings of every length, all 64-bit values",
     "Tests round-trip a few short lists; a codec fails on particular magnitudes, bit lengths or lengths modulo the word size.",
     ["src/post_compressor.cc", "src/tfdf_compressor.cc", "src/bits.h", "src/zlib_compressor.cc", "src/null_compressor.h", "src/bad_compressor.h", "src/compressor.cc"],
     [("address codec", "src/post_compressor.cc encode_1, encode_all, decode_1, decode_all, crush_, tang_"), ("count codec", "src/tfdf_compressor.cc, src/bits.h"), ("advertised room", "src/compressor.h extra_, crush")],
     "The address codec (whole chain from the byte loops to crush/tang, with inductive lemmas about codes of lists) and the plain and doubling codecs are proved for all inputs; the count codec and the zlib wrapper are bounded only.")
prop("P06", "Posting lists are built exactly from what was indexed",
     "Building one feature's list from a sorted run of tokens keeps every distinct address once; building it from a sorted run of annotations keeps exactly the intervals with no other interval of the run inside, with their values, in ascending order of both ends, and consumes exactly that feature's run. Appending, pushing and reading entries preserve every interval and value, whichever compact form (ends equal to starts, no values) a list is in.",
     ["inputs", "histories"], "all runs of any length, all lists, all push/append histories",
     "Tests build a few short lists; the compact forms switch on the first differing end or non-zero value, and nesting or repetition within a run is rare in fixtures.",
     ["src/simple_posting.cc", "src/simple_posting.h", "src/simple_annotator.cc"],
     [("building", "src/simple_posting.cc posting_from_tokens, posting_from_annotations"), ("compact forms", "src/simple_posting.cc push, append, get"), ("self check", "src/simple_posting.cc invariants")],
     "All building functions proved for lists of any length, with a lemma that what the code keeps is the minimal intervals of the run. The sort order that feeds them is checked where the runs are produced.")
prop("P07", "Merging posting lists loses, invents and resurrects nothing",
     "Merging any number of lists of one feature yields exactly the minimal intervals of their union in ascending order, each with the value of the last list holding it; every given interval contains an answer. Merging with a list of erased intervals yields exactly those answers that lie inside no erased interval.",
     ["inputs"], "all numbers of lists, all list contents in any compact form, all erased lists",
     "The tests merge two or three short lists; ties, nesting across lists and the quick path for disjoint lists depend on particular combinations.",
     ["src/simple_posting.cc"],
     [("merge", "src/simple_posting.cc posting_from_merge"), ("erasing merge", "src/simple_posting.cc posting_from_merge with exclude"), ("queue order", "src/simple_posting.cc Compare")],
     "The merge (queue path, concatenation path, its guard, termination) is proved for any number of lists of any length; the erasing overload is bounded only.")
prop("P09", "Transactions become visible whole, in order, or not at all",
     "A transaction's changes are invisible to every reader until it commits, then wholly visible to every reader started later; an aborted or never committed transaction is never visible. A reader started at any moment keeps seeing exactly what was committed at that moment, whatever commits, aborts and background merging happen later. Ready, commit and abort are accepted exactly in the order begin, ready, commit or abort, and repeating ready repeats the vote.",
     ["histories", "schedules"], "all interleavings of operations of any number of transactions and readers, with and without background merging",
     "Tests run a handful of fixed histories; visibility goes wrong for a particular overlap of transactions, readers and merges.",
     ["src/committable.h", "src/committable.cc", "src/bigwig.cc", "src/fiver.cc", "src/fluffle.h"],
     [("state machine and vote", "src/committable.h transaction, ready, commit, abort"), ("address and order assignment", "src/bigwig.cc Bigwig::ready_"), ("publication", "src/bigwig.cc Bigwig::commit_, abort_"), ("reader's snapshot", "src/bigwig.cc Bigwig::start_, end_")],
     "State machine, the warren's own ready/commit/abort with their critical sections, and the reader's snapshot are proved; background merging and true parallelism are bounded (driver) only.")
prop("P10", "Appending assigns consecutive addresses; annotations and erasures stick",
     "Each appended text gets the interval of the next consecutive addresses, one per token, and inside a database every committed transaction's addresses follow those of the transactions that became ready before it; each token, the transaction and the text itself are recorded at exactly these addresses. Every annotation given in a committed transaction, of its own text or of text already there, is visible at its final addresses with its value, together with all others of that feature reduced to minimal intervals. Content inside an erased interval is visible to no reader started later, and everything else stays visible.",
     ["inputs", "histories"], "all texts, all sequences of append, annotate and erase in any number of transactions",
     "Tests append a few texts and annotate them once; wrong addresses or lost annotations need particular token counts, long texts or annotations across transactions.",
     ["src/fiver.cc", "src/bigwig.cc", "src/appender.h", "src/annotator.h"],
     [("append and ready", "src/fiver.cc FiverAppender::append_, ready_"), ("annotate and erase", "src/fiver.cc FiverAnnotator::annotate_, erase_"), ("relocation and list building", "src/fiver.cc Fiver::ready_, relocate"), ("erasure at query time", "src/bigwig.cc BigwigIdx::hopper_")],
     "What is recorded and how it becomes lists is proved for all inputs; the union over shards and the erasure filter at query time are composed from proved contracts by the driver only. Known finding: an erased interval inside another erased interval hides the larger one.")
prop("P11", "Text comes back exactly as appended",
     "Asking for the text of any interval of addresses returns exactly the stored characters from the first token at or after its start to just before the token that follows its last, across appends, transactions and gaps left by aborted ones, and nothing if no address of the interval is used; unbounded and reversed intervals included. The number of tokens and the extent reported are those of the text. This holds for freshly committed, merged, stored and compressed data alike.",
     ["inputs", "histories"], "all texts, all intervals, all sequences of appends, transactions, merges and conversions",
     "Tests translate a few intervals inside one text; chunk borders, gaps, unbounded ends and chunk sizes of the compressed form combine in ways fixtures do not hit.",
     ["src/fiver.cc", "src/bigwig.cc", "src/hazel.cc"],
     [("one shard", "src/fiver.cc FiverTxt::translate_, tokens_, range_"), ("all shards", "src/bigwig.cc BigwigTxt"), ("compressed form", "src/hazel.cc HazelTxt")],
     "Reading from one shard and from all shards is proved for all intervals; the compressed form is bounded only, and tokenizers are known by an assumed contract.")
prop("P12", "A database on disk survives interruption with exactly its commits",
     "A process may be killed at any moment while it works on a database on disk; when the database is opened again, every transaction whose commit had returned is there completely, every transaction that was aborted or had not begun to commit leaves no trace, and one interrupted while committing is there completely or not at all. Of shards found on disk those that a finished merge already contains are the only ones dropped, shards that overlap in any other way are refused, and new transactions continue behind all that is there. This holds for repeated interruptions, including during recovery, background merging and conversion to the compressed form.",
     ["crash_points", "histories"], "all histories of transactions, merges and conversions, killed before any file operation",
     "Tests open databases that were closed in order; what is left on disk depends on the exact operation the process was killed at.",
     ["src/fiver.cc", "src/hazel.cc", "src/owsla.cc", "src/bigwig.cc"],
     [("which shards are kept", "src/fiver.cc and src/hazel.cc normalize_shards, shadowed_by_living, verify_dead_shards"), ("ranges and order", "src/owsla.cc owsla_ranges_overlap, owsla_range_contains; src/bigwig.cc verify_shard_order"), ("recovery", "src/fiver.cc Fiver::sanitize, src/hazel.cc Hazel::sanitize, src/bigwig.cc sanitize, combine_shards")],
     "The decisions on any set of shards are proved; the whole of recovery against file operations is bounded (driver kills real processes at file operations).")
prop("P14", "Tokenizing, skipping and splitting a text agree",
     "For any bytes, the tokens of a text are numbered from 0 without gaps in order of position, each lies inside the text and none overlaps another; skipping n tokens stops exactly where token n starts (or at the end of the text), at once or in steps; and splitting gives one term per token, each of which is indexed at that token. Words are found whole and matched without regard to case, tags and entities are recognised if asked for, and ideographs and symbols are tokens of their own, as Unicode classifies them. No byte outside the text is written.",
     ["inputs"], "all texts, well-formed or not, all counts of tokens to skip, with and without markup",
     "Tokenizing, skipping and splitting are separate copies of one scanner (as the code says); tests run a few texts through some of them, and a difference shows only for particular neighbourhoods of characters or a cut at a particular byte.",
     ["src/ascii_tokenizer.cc", "src/utf8_tokenizer.cc", "src/tokenizer.h"],
     [("skipping", "src/ascii_tokenizer.cc skip_"), ("tokens and terms", "src/ascii_tokenizer.cc tokenize_, split_; src/utf8_tokenizer.cc")],
     "skip_ of the ascii tokenizer is proved for all texts; the other scanners are bounded (exhaustive over short texts, random beyond).")
prop("P20", "Compressing and merging stored shards keeps every answer",
     "Converting shards to the compressed file form, and merging compressed shards, in any order and grouping and with any chunk size, changes no answer: the intervals and values of every feature, the text of every address interval and the extents stay what they were, erased ones stay erased, and shards that do not follow one another are refused. Looking up a feature in a compressed shard finds its entry if and only if there is one, and a byte of text is sought in the chunk that holds it. Background merging chooses only neighbouring shards that are free, the smallest pair of compressed ones first.",
     ["inputs", "histories"], "all sets of shards, all groupings of conversions and merges, all chunk sizes",
     "Tests convert and merge one small collection with default chunks; what goes wrong needs a chunk or shard boundary at a particular place, gaps between shards, or features present in only some of them.",
     ["src/hazel.cc", "src/bigwig.cc", "src/fiver.cc"],
     [("lookup", "src/hazel.cc locate_posting, HazelTxt::chunk_containing"), ("what a recovered merge consists of", "src/hazel.cc hazel_source_group, has_hazel"), ("choice of what to merge", "src/bigwig.cc find_sequence, find_smallest_pair"), ("writing and merging files", "src/hazel.cc HazelIdx, HazelTxt, Hazel::merge; src/fiver.cc")],
     "Lookups and choices are proved for all lists; the file forms are bounded (driver compares every form of random shards).")
na("P08", "A posting file read back equals what was written",
   "Writing a list of intervals to a stream of bytes and reading it back, with any pair of codecs, gives the same feature, intervals and values, and leaves the stream exactly behind what was written. A damaged or truncated list is refused and never read as a different list.",
   ["inputs", "fault_sequences"], "all lists, all pairs of codecs, all truncations",
   "Tests write and read a few short lists.", ["src/simple_posting.cc"],
   [("writing and reading", "src/simple_posting.cc write, posting_from_file, posting_from_compressed_blob")],
   "The functions are sequences of stream reads and writes whose meaning is the C++ stream library and the state of a file; a contract would have to assume exactly what is to be shown (that bytes come back as written), leaving only the codecs, which P05 proves. What can be observed is covered by the drivers of P06, P11, P12 and P20.")
na("P13", "Committed data survives a power failure",
   "After a commit has returned, the transaction is there when the machine comes back from a power failure at any later moment.",
   ["crash_points"], "all moments of a power failure, all orders in which unsynced pages reach the disk",
   "Tests cannot lose pages.", ["src/fiver.cc", "src/working.cc"],
   [("writing shards", "src/fiver.cc Fiver::pickle"), ("names", "src/working.cc")],
   "The code does not sync files or directories, so it does not provide this; nor is the order of page writes expressible as a function contract without a model of the file system, which is a different family. Kills of the process are covered by P12.")
na("P15", "Readers and writers on several threads see no torn state",
   "Any number of threads may read, append and commit through clones of one database at the same time, and each observes a result that some order of their operations on one thread gives. No access to shared memory is unsynchronised.",
   ["schedules"], "all interleavings of instructions of any number of threads",
   "Tests run a few threads under the scheduler's usual interleavings.", ["src/bigwig.cc", "src/fluffle.h", "src/simple_posting.cc", "src/fiver.cc"],
   [("shared state of a database", "src/fluffle.h"), ("shared caches", "src/simple_posting.h, src/owsla.h, src/fiver.cc FiverTxt::range_")],
   "Contracts here are sequential; the critical sections that order and publish transactions are proved atomic with respect to their lock (P09), but absence of data races outside them needs a concurrent separation logic or a race detector, and no deductive verifier for concurrent C++ is installed.")
na("P16", "A query means the same however it is written, parsed or optimised",
   "A query expression written as text and parsed again has the same answers; so does the optimised form of any query. Malformed queries are refused with an explanation and never crash or hang.",
   ["programs", "inputs"], "all query texts, all expression trees",
   "Tests parse and optimise a few dozen fixed expressions.", ["gcl/parse.cc", "gcl/optimizer.cc", "gcl/materialize.cc"],
   [("parsing", "gcl/parse.cc"), ("rewriting", "gcl/optimizer.cc")],
   "The rewrites are recursive functions over shared-pointer trees of named operators with unbounded fan-out, whose meaning is the algebra of P01 and P04 evaluated on data; the verifier has no recursive heap predicates for such trees, and without them no contract within reach can state that a rewrite keeps the denotation. What the operators denote is proved by P01, P02 and P04.")
na("P17", "Ranking returns the best documents in order of score",
   "A ranked query returns the requested number of documents, or all there are, in descending order of the score the ranking formula defines, whichever evaluation strategy is used and however the index is sharded.",
   ["inputs", "configurations"], "all queries, collections and formulas",
   "Tests compare a few rankings with stored ones.", ["src/ranking.cc", "src/ranker.cc"],
   [("scoring and selection", "ranking functions")],
   "Scores are floating-point sums of logarithms in an evaluation order that differs between strategies; the verifier treats a floating-point value as an opaque bit pattern (no floating-point reasoning), so neither the order nor equality up to rounding can be expressed.")
na("P18", "Structured records are indexed so that every field is found",
   "Every field of every JSON record that is indexed can be found by its path, with its value and exact text, and the records rendered from the index equal those that were added.",
   ["inputs"], "all JSON values",
   "Tests index a few records.", ["src/json.cc", "src/json.h"],
   [("walking a record", "src/json.cc")],
   "The walk is driven by a third-party header-only JSON library through its templates and iterators, whose contracts would have to be assumed wholesale; what remains is string building.")
na("P19", "Configuration texts say what they were made from",
   "Every component that can be described by a configuration text is made again equal from that text, and texts that describe nothing are refused with an explanation.",
   ["configurations", "inputs"], "all configuration texts",
   "Tests round-trip a few texts.", ["src/recipe.cc", "src/warren.cc"],
   [("parsing and composing", "src/recipe.cc")],
   "Parsing is search and substring arithmetic on strings through std::map<string,string>; the verifier's strings are byte arrays with ranks for order, without the substring theory that cook/freeze round trips need. Bounded testing alone would be a different family.")
