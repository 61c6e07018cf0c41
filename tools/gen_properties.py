#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line).  Edit here, then re-run."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ROWB, ROWO = "src/row/borrowed.rs", "src/row/owned.rs"
SSV, BLK = "src/row/same_stage_vec.rs", "src/block.rs"
PN, MUS, MASK = "src/place_not.rs", "src/music.rs", "src/mask.rs"

p("C01", "Safe calls never yield an invalid row, misaligned row list or lopsided block",
  "Whatever sequence of safe calls a program makes, including calls that are refused with an error or that panic, every row it can then reach contains each bell of its stage exactly once. Every collection of rows holds a whole number of rows, all of its one stage, and every block holds exactly one more row than it has annotations. A call that panics because of an out-of-range index or range leaves its receiver exactly as it was.",
  ["histories", "inputs"],
  "all sequences of safe operations on rows, row collections, blocks, masks and accumulators, with in-range, boundary, reversed and out-of-range arguments and matching and mismatching stages",
  "The invariants are used to justify unchecked memory accesses, so one reachable bad state is unsoundness; the tests only call a few operations once, with good arguments, and never look at an object after a refused or panicking call.",
  [ROWO, ROWB, SSV, BLK, MASK, "src/row/accumulator.rs"],
  [("stage checks before unchecked writes", SSV), ("bounds handling of ranges", "src/utils.rs"), ("row/annotation lock-step updates", BLK), ("validity check when a mask becomes a row", MASK)],
  ["bells of every row", "lengths", "annotations", "behaviour after a refused or panicking call"],
  [("row storage", "concatenated bells plus one stage", SSV), ("annotations", "one per row except the left-over", BLK)])

p("C02", "Rows are built exactly from permutations, and display/parse round-trips",
  "Every safe way of building a row (from text, from bells, with or without a given stage, or as rounds, backrounds or queens) succeeds exactly when the given bells are a permutation - for a given stage: a permutation of the lowest bells, which is then extended with cover bells - and yields that row; characters that name no bell are ignored. Every refusal names a fault that the input really has. Displaying a row of at most 33 bells and parsing the text gives the same row back.",
  ["inputs"], "all strings/bell sequences over a small alphabet up to a length bound, every stage, plus structured permutations and corruptions of them on large stages",
  "The existing examples cover a few dozen short strings; a validity slip for one duplicate position, bell number or stage would create an invalid row that unchecked code then trusts.",
  [ROWO, ROWB, "src/row/errors.rs"], [("checklist validation", ROWO), ("cover-bell extension", ROWO), ("display via bell names", ROWB)],
  ["returned row", "returned error", "displayed text"])

p("C03", "Row arithmetic is exactly the permutation group, in every variant",
  "For rows of equal stage, multiplication, inversion, integer powers and the two equation solvers compute exactly the permutation-group result: (a*b) at place p is a at place (b at p), a row times its inverse is rounds, powers follow repeated multiplication for every integer exponent, and the solvers return the unique solution. All allocating, in-place and operator forms agree whatever the output held before. For unequal stages every checked form reports the mismatch (operators panic) and leaves its outputs unmodified.",
  ["inputs"], "all pairs of rows on small stages, all stage combinations, all earlier contents of outputs, exponents from large negative to large positive, and structured rows on stages into the hundreds",
  "Tests multiply a handful of fixed pairs; the law is about every pair, every output state and every exponent.",
  [ROWB, "src/row/accumulator.rs"], [("products", ROWB), ("inverse into an existing buffer of any stage", ROWB), ("powers via an accumulator", ROWB)],
  ["products, inverses, powers", "outputs after a refused call"])

p("C04", "Row observers describe the row, and the fast hash is perfect up to 16 bells",
  "Parity is the permutation's sign (so the parity of a product is the product of parities); effective stage is the smallest stage the row can be cut to; place-of is the inverse lookup (none for absent bells); fixed bells, rounds, backrounds, indexing and iteration report exactly what the row contains. The fast hash never panics, and two different rows of the same stage of at most 16 bells always have different hashes (on 64-bit machines).",
  ["inputs"], "all rows on small stages, and structured rows on every stage into the hundreds",
  "Tests check a few literals, none beyond 8 bells for the hash.",
  [ROWB, "src/parity.rs"], [("cycle-sort parity", ROWB), ("base-n positional hash", ROWB)],
  ["observer return values", "hash collisions"])

p("C05", "Closures, groups and cartesian products of rows are computed exactly",
  "The closure of a row is exactly its distinct powers in order (ending or starting with rounds, as documented). The least group containing a non-empty set of rows is exactly the set of their finite products, and a set is reported as a group exactly when it is non-empty and closed under products and inverses. The cartesian product of row sets contains exactly one product per choice of one row from each set, and any stage mismatch that makes a product undefined is an error.",
  ["inputs"], "all rows, all small sets of rows and all lists of small row sets on small stages (including empty, duplicated and mixed-stage ones), all subgroups of small symmetric groups, and longer cyclic groups",
  "Tests list about ten groups and non-groups by hand.",
  [ROWB], [("breadth-first closure", ROWB), ("a*!b subgroup test with reused buffers", ROWB), ("buffer swapping in the product", ROWB)],
  ["returned sets and lists", "errors"])

p("C06", "Bells and stages have exact, unambiguous names, numbers and conversions",
  "Bell names are a one-to-one correspondence between the first 33 bells and their standard symbols 1-9, 0, E, T, A, B, C, D, F, G, H, J, K, L, M, N, P, Q, R, S, U, V, W, Y, Z: every other character names no bell and later bells are shown as their number in angle brackets. Index, number, tenor and arithmetic on bells agree with each other. Stages 1 to 22 have distinct standard names found again by their lower-case form (and no other text names a stage), a stage of zero bells cannot be made, and mismatched stages are reported with both stages.",
  ["inputs"], "every Unicode character, every bell and stage up to a large bound, and every edit of every stage name",
  "Tests sample a few bells and a few stages; a swapped or duplicated name affects just one symbol.",
  ["src/bell.rs", "src/stage.rs"], [("name table", "src/bell.rs"), ("stage name tables (three copies)", "src/stage.rs")],
  ["names, numbers, displays, errors"])

p("C07", "A single place notation means exactly one change, or a truthful error",
  "Text denotes a place notation on a stage exactly when it is a lone cross symbol on an even stage, or contains place symbols (other characters ignored, order irrelevant) that are distinct, within the stage and leave no ambiguous gap; the result then makes exactly the given places plus the forced implicit ones, and on up to 33 bells it is shown in canonical form that parses back to an equal value. Every refusal names a fault that the text really has. Whether it is a cross, contains a place or has internal places is reported according to the places it makes.",
  ["inputs"], "all subsets and multisets of places in all orders on small stages, all short strings over an alphabet with every character class, and structured place sets on every stage with names and beyond",
  "About thirty strings are tested; ambiguity and implicit places depend on every combination of gap parities and stage parity.",
  [PN], [("implicit place expansion", PN), ("ambiguity detection by gap parity", PN)],
  ["places made", "display", "errors", "cross / internal place queries"])

p("C08", "Applying a place notation swaps exactly the pairs it leaves unplaced",
  "Applying a place notation to a row keeps the bells at its places and swaps each remaining adjacent pair, is its own inverse, and gives the same result in place, as a copy, and by multiplying by its transposition; a row of another stage is refused and left unmodified. The notation between two rows exists exactly when their stages match and every bell stays or swaps with a neighbour, and it is then the unique notation taking one to the other.",
  ["inputs"], "all place notations times all rows, and all pairs of rows, on small stages; all place notations on medium stages; structured ones on large stages",
  "No test enumerates pairs of rows; adjacency has many near misses that differ in one place.",
  [PN], [("pairwise swap walk", PN), ("pairwise adjacency scan", PN)], ["resulting rows", "the derived notation"])

p("C09", "Place-notation blocks expand as written, and errors point at the culprit",
  "A block of place notation denotes the concatenation of its comma-separated parts: with a single part, or a part marked with a leading '+', the notations as written; otherwise the notations followed by their mirror image without repeating the last. It is refused exactly when a '+' occurs other than at the start of a part, some notation in it is invalid, or it contains no notation at all. An error about a notation or a '+' gives the byte position in the original text where exactly that culprit is found.",
  ["inputs"], "all strings up to a length bound over an alphabet with every token class (places, both cross forms, dot, space, comma, plus, an ignored ASCII and a multi-byte character), on several stages, plus all combinations of well-formed parts",
  "Parsing tests use about twenty strings and check error positions in two single-part strings only.",
  [PN], [("tokeniser with look-ahead", PN), ("symmetric expansion via a reused buffer", PN), ("byte offsets", PN)],
  ["parsed notations", "error kind and byte range"])

p("C10", "Place-notation blocks generate exactly the rows that ringing them gives",
  "Ringing a block of place notation from a row yields that row followed by the successive results of applying each notation, one row more than there are notations, whether asked for as a row list, as a block with default annotations, from rounds, or through a call; a start row of another stage is refused. A block is constructible from a list of notations exactly when the list is non-empty and all have one stage, it keeps them in order, and a refusal names the first notation that differs. Calls report the block, stage, covered length, notation and location they were made with.",
  ["inputs", "histories"], "all short sequences of all place notations from all start rows on small stages, and all notation lists over mixed stages",
  "Tests generate one or two well-known leads from rounds.",
  [PN, BLK, "src/call.rs"], [("row generation loop with unchecked permute", PN), ("stage check over the list", PN)],
  ["row sequences", "errors", "call getters"])

p("C11", "A same-stage row collection behaves exactly like a list of rows",
  "After any sequence of operations, a same-stage row collection contains exactly the rows that the same operations would give on a plain list of rows: pushes, pops, extensions (whole, ranged, transposed, from within), pre-multiplication, splitting, parsing and all lookups, paths, equality, hash and length included. An operation given a row or collection of the wrong stage is refused with an error naming both stages and leaves the collection unchanged. Lookups and splits outside the collection report absence for every index.",
  ["histories", "inputs"], "all operation sequences up to a depth over small stages (also from non-empty start states and with allocation left over from earlier contents), all range forms, all multi-line texts over small alphabets, and every index up to the largest integer",
  "Only a few single operations are tested, mostly through documentation examples; the quantifier is over sequences.",
  [SSV, "src/utils.rs"], [("stage-aligned slices of one bell vector", SSV), ("rollback on error", SSV), ("range clamping", "src/utils.rs")],
  ["every row and lookup after every step", "errors"], [("bells", "rows stored back to back", SSV), ("stage", "stage of every row", SSV)])

p("C12", "Annotated blocks keep rows, annotations and left-over row in step",
  "After any sequence of operations, a block equals the reference list of (row, annotation) pairs plus one left-over row: extending by another block or part of it (or of itself) appends those pairs transposed so that they start from the previous left-over row, with their own annotations; pre-multiplication transposes every row and keeps annotations; annotation mapping keeps rows; splitting cuts at the index and shares the row at the cut. All getters, paths, iterators, effective stage and debug output agree with that list. A stage mismatch is refused and changes nothing.",
  ["histories", "inputs"], "all operation sequences up to a depth over blocks of small stages with distinguishable annotations, with every range inside the blocks",
  "A couple of literal blocks are tested; partial ranges and self-extension after earlier operations are not.",
  [BLK], [("solve-then-transpose extension", BLK), ("left-over row handling", BLK), ("annotation range copy", BLK)],
  ["rows, annotations, left-over row, paths, iterators, debug text"],
  [("rows", "all rows including the left-over", BLK), ("annots", "annotations of all but the left-over", BLK)])

p("C13", "Repeating a block yields the infinite ringing of that block",
  "Repeating a block that starts from rounds, from any start row, yields for every n the n-th row of ringing the block over and over from that start row, together with its index inside the block and its annotation, no matter how the allocating and the buffer-reusing ways of advancing are mixed or when the iterator is cloned. Repeating an empty block ends at once and stays ended. A start row of the wrong stage is refused.",
  ["histories", "inputs"], "all interleavings of both ways of advancing (and clones) over several repetitions, all blocks of up to three rows on small stages, all start rows, and output buffers of every stage",
  "One test repeats one block; the interplay of block head, wrap-around and reused buffers needs sequences.",
  [BLK], [("block-head update at wrap-around", BLK), ("enumerated zip of rows and annotations", BLK)],
  ["yielded row, index, annotation", "output buffer"], [("block head", "row that the current repetition starts from", BLK)])

p("C14", "A method's plain course, rows and lead labels follow from its first lead",
  "The plain course of a method is its first lead rung repeatedly until a lead first ends in rounds, each row annotated with its index in the lead and the label there; row n of the infinite plain course equals row n of that repetition for every n. Labels set or cleared at an index are reported at exactly that index and in the label search, in increasing order; creating a method with a lead end labels exactly the last row of the lead. Title, name, class, stage, lead head and lead length are those it was made with.",
  ["inputs", "histories"], "all methods with leads of up to four changes on small stages, known methods on larger stages, every index over several courses, and all short sequences of label operations",
  "Tests check one course; wrong behaviour may need several leads, an unusual lead head order or label layout.",
  ["src/method/mod.rs", BLK], [("lead repetition until rounds", "src/method/mod.rs"), ("index split into leads and rows", "src/method/mod.rs")],
  ["plain course rows and annotations", "row lookups", "labels"])

p("C15", "Methods are classified according to the framework's documented rules",
  "A first lead made of place notation is classified as the documented rules say: hunt bells are those that return to their own place at the lead head; a method without one is a principle; otherwise the dominant hunt bell path decides plain (place or bob), treble dodging (treble bob, delight or surprise), treble place, alliance or hybrid; it is little when no hunt bell of that class visits every place, and differential when its working bells form cycles of different lengths. The classification depends only on the rows of the lead, not on annotations or how the lead was made.",
  ["inputs"], "all leads of up to a bounded number of changes on stages up to 6 or 8, palindromic leads of bounded half-length, and published methods of every class on stages up to 12",
  "The repository's only classification test downloads a library and cannot run offline; nothing else exercises the rules.",
  ["src/method/class.rs"], [("hunt/working cycle partition", "src/method/class.rs"), ("hunt path classification", "src/method/class.rs"), ("sub-classification by internal places", "src/method/class.rs")],
  ["class, little and differential flags"])

p("C16", "Titles and class names compose exactly the parts the convention requires",
  "A generated title is the name (if any), then 'Jump', 'Differential', 'Little' and the class as the convention requires, then the stage, separated by single spaces: principles and hybrids contribute no class word and no 'Little'. The full class name always names every flag and the class. It never panics, and different classes get different full names.",
  ["inputs"], "all flag combinations, all classes, stages into the hundreds, and names including empty, multi-word and Unicode ones",
  "No test generates titles for most combinations; titles are the keys of the method library.",
  ["src/method/mod.rs", "src/method/class.rs"], [("title composition", "src/method/mod.rs"), ("class names", "src/method/class.rs")],
  ["generated text", "class predicates"])

p("C17", "A method library survives JSON and answers every title query correctly",
  "Writing a library as JSON and reading it back gives a library with the same methods: every stored method title that ends in the name of its (named) stage, in any ASCII letter case, finds the method with the same title, name, class and rows as before (titles of one stage which differ only in case count as one), and every other title is reported as not found (or, for a stored notation that is invalid, as that error). When a title is not found, the suggestions are the requested number (or all, if fewer) of stored titles with the smallest edit distances, closest first, with their true distances.",
  ["inputs", "configurations"], "all small libraries over an alphabet of names, stages, classes, flags, standard and overridden titles and valid and invalid notations; all suggestion counts; queries at every small edit of a title",
  "The library tests need a downloaded file; no test builds a library offline or reads one back.",
  ["src/method_lib/mod.rs", "src/method_lib/lib_serde.rs"], [("grouping by stage and class", "src/method_lib/lib_serde.rs"), ("title elision when standard", "src/method_lib/lib_serde.rs"), ("shortlist of suggestions", "src/method_lib/mod.rs")],
  ["JSON text", "query results", "suggestions"])

p("C18", "Broken library data, cache or network never crash it or get cached",
  "Reading library JSON that is truncated, damaged or has impossible field values never panics and fails cleanly unless it is well-formed. Loading the central library returns the cached copy when that is readable and valid; otherwise it fetches, returning the fetched library exactly when the response arrives whole and valid, and returning nothing otherwise. Only a response that was parsed successfully is ever written to the cache, unmodified; it is written there whenever the cache can be written, and failure to write it does not lose the result.",
  ["crash_points", "fault_sequences", "inputs"], "every byte prefix of library files (torn cache writes), every single-field corruption, and every combination of cache state, network answer and cache-write outcome, over consecutive loads",
  "The behaviour depends on faults that no unit test can inject; the only test needs a live network.",
  ["src/method_lib/mod.rs", "src/method_lib/lib_serde.rs"], [("cache then fetch", "src/method_lib/mod.rs"), ("validate before caching", "src/method_lib/mod.rs"), ("fallible conversion from JSON", "src/method_lib/lib_serde.rs")],
  ["returned library", "cache file contents", "number of requests"])

p("C19", "Music patterns match exactly the rows they describe",
  "A pattern of bells, single wildcards and globs matches a row exactly when the row can be cut so that each bell matches itself, each wildcard any one bell and each glob any number of bells, and the reported match positions are exactly, in order, where the pattern's bells lie. Normalising (which happens on construction) never changes which rows match, is idempotent, orders wildcards before a single glob, and parsing the displayed pattern gives an equal one. Characters with no meaning are ignored.",
  ["inputs"], "all patterns up to a length bound over all element kinds against all rows on small stages (including repeated bells and bells outside the stage), and structured patterns on large stages",
  "About a dozen patterns are tested against a few rows.",
  [MUS], [("wildcard normalisation", MUS), ("greedy single-pass matcher", MUS)], ["match result", "match positions", "normal form"])

p("C20", "The number of rows matching a pattern is exact",
  "The reported number of rows of a stage matching a pattern equals the number of rows that the pattern actually matches, including zero for patterns that are too long, too short, repeat a bell or use a bell outside the stage. It is reported as unknown only when integer arithmetic overflows, and it never panics or wraps.",
  ["inputs"], "all patterns up to a length bound over all element kinds, counted by brute force over all rows on stages up to 6 or 7; closed-form counts on stages into the thirties",
  "Tests pin a few counts for one kind of pattern (and pinned a formula that is wrong for others).",
  [MUS, "src/utils.rs"], [("counting formula", MUS), ("binomial coefficient with overflow checks", "src/utils.rs")], ["reported count"])

p("C21", "Run patterns and run lengths detect exactly the runs",
  "The generated front, back, combined and anywhere run patterns for a stage and length are each matched exactly by the rows with such a run: for each set, some pattern matches a row exactly when the row has a run of that length (rising or falling) in that position; if the length exceeds the stage there are no patterns. For length at least two each distinct run appears once. The run length of a sequence of distinct bells is the length of its longest rising or falling run at the front: zero only if it is empty.",
  ["inputs"], "all rows on small stages, all run lengths from zero to beyond the stage; structured rows on larger stages",
  "Three literals are tested for run length; run patterns only for one stage and length.",
  [MUS, "src/utils.rs"], [("run pattern generators", MUS), ("run length scan", "src/utils.rs")], ["patterns and what they match", "run length"])

p("C22", "Masks are exact sets of rows under every operation",
  "A mask with distinct in-range bells stands for the set of rows of its stage that have those bells in those places: matching, subset, compatibility, combination (exact intersection, absent if empty), emptiness, conversion to the only matching row, conversion to a pattern, and multiplication by a row on either side all agree with that set. Fixing or setting a bell adds that condition, or reports the bell as already set elsewhere and changes nothing. Parsing and display are inverse, and masks of different stages never match, contain or combine with each other, and multiplying by a row of another stage panics.",
  ["inputs", "histories"], "all masks and all pairs of masks on small stages against all rows, all sequences of fixing operations to a depth, and structured masks on large stages",
  "Three tests with literals; subset, compatibility and combination are untested.",
  [MASK], [("place-wise comparison", MASK), ("bell position lookups", MASK)], ["membership of every row", "returned masks and rows"])

p("C23", "Bells and stages survive serialization and reject impossible values",
  "Serializing any bell or stage and deserializing it gives the same value in human-readable and binary-style formats. Bells and stages are also accepted from their names where the format can carry text (stages in any letter case), numbers are 1-based, and zero, negative, fractional or otherwise meaningless input is an error, never a panic or a wrong value.",
  ["inputs"], "all bells and stages up to a large bound and around integer-width limits, every integer width, every character, every stage name and edit of it, and all short JSON texts over a small alphabet",
  "There is no test of serialization at all.",
  ["src/bell.rs", "src/stage.rs"], [("serialize as number", "src/bell.rs"), ("visitor for numbers and names", "src/stage.rs")], ["round-tripped values", "errors"])

p("C24", "The row accumulator always holds the exact running product",
  "After any sequence of post-multiplications, pre-multiplications, resets and clones, an accumulator's total is exactly the product of those rows in order. A row of another stage is refused (operators panic) and the total is unchanged; resetting to a row of any stage makes that row the total and its stage the accumulator's.",
  ["histories"], "all operation sequences up to a depth with all rows on small stages, including refused operations and stage-changing resets",
  "It keeps a second buffer with stale contents that is swapped in; one documentation example cannot show that no sequence leaks it.",
  ["src/row/accumulator.rs"], [("double buffer swap", "src/row/accumulator.rs")], ["total after every step"],
  [("total", "current product", "src/row/accumulator.rs"), ("temp row", "stale buffer", "src/row/accumulator.rs")])

p("C25", "Borrowed, owned and shared rows are interchangeable and mutually consistent",
  "All forms of a row (borrowed, owned, reference-counted, atomically shared, cloned, copied into an existing buffer of any stage) hold the same bells, compare equal, hash alike and order alike, so that an owned row stored in a hash or ordered set is found by its borrowed form. Equality holds exactly for the same bells in the same order, order is a total order consistent with equality. Extending a row to a larger stage adds cover bells, in-place swaps exchange just two places, and conversions to and from bells lose nothing.",
  ["inputs", "histories"], "all pairs of rows over mixed small stages, all prior contents of target buffers, and structured rows on large stages; sequences of conversions",
  "Coherence is a relation over all pairs of values that no test checks.",
  [ROWB, ROWO], [("transparent layout casts", ROWB), ("derived comparisons on both forms", ROWO)], ["equality, hash, order", "pointer conversions"])

p("C26", "Row iterators agree with the list under every mix of front and back steps",
  "Iterating over a row collection or the rows of a block yields exactly the rows in order, under every interleaving of taking from the front, from the back, skipping, cloning and asking for the remaining number, which is always exact, so that length-based adaptors work. Each row is yielded exactly once and an exhausted iterator stays exhausted.",
  ["histories"], "every sequence of front/back/skip/clone steps to exhaustion and beyond, on all collections of up to five rows of several stages, and all standard adaptors that rely on the exact length",
  "No test uses the iterators from the back or mixes directions.",
  [SSV, BLK], [("slice splitting from both ends", SSV), ("exact size", SSV)], ["yielded rows", "remaining length"])

p("C27", "Every text parser accepts or refuses any text without panicking",
  "Parsing any text whatsoever as a row (with or without stage), row list, block, place notation, block of place notation, method, mask, pattern, bell or stage name or library JSON, or looking it up as a method title, returns a value or an error for every stage and never panics, and whatever is returned can be displayed. The result depends only on the text and stage, and equal results display equally.",
  ["inputs"], "all strings up to a length bound over an alphabet with a member of every character class (names, separators, line breaks, multi-byte, combining, NUL), on stages from 1 to beyond the last named bell, plus every Unicode character on its own and inside a template",
  "Random tests cover three parsers with text that is nearly always ignored characters; none covers line-based parsers or positions.",
  [ROWO, SSV, BLK, PN, MASK, MUS, "src/method/mod.rs", "src/method_lib/mod.rs", "src/bell.rs", "src/stage.rs"], [("character filters", PN), ("line splitting", SSV)], ["absence of panics", "determinism"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
