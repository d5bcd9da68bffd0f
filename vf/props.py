"""Which proof tasks and which native programs decide which property."""
READER = ["utf8-decode", "reader-cps", "reader-utf8", "reader-null"]


READEROPS = ["readerops-cps", "readerops-utf8"]
RANGES = ["range-" + a for a in ("character", "word", "sentence", "line")]
ALGOS = ["character", "word", "sentence", "line"]
FORMS = ["cps", "utf8"]
BOUNDS = ["bounds-%s-%s" % (a, f) for a in ALGOS for f in FORMS]
NULLS = ["%s-%s-null" % (a, f) for a in ALGOS for f in FORMS]
PROPER = ["proper-%s-%s" % (x, f) for f in reversed(FORMS) for x in ("advance", "init")]
WRITER = ["utf8-encode", "writer-cps", "writer-utf8"]
CASETABS = ["table-map", "table-case"]


BIDISAFE = ["bidi-" + n for n in ("seq", "para", "reorder", "pairs", "preprocess", "words", "line", "pair", "level", "isolated", "last-strong", "last-number", "ir-init", "ir-advance")]


LVL = ["lvl-para", "lvl-preprocess", "lvl-level", "lvl-isolated"]


def segproofs(w):
    return ["%s-utf8" % w, "%s-cps" % w, "table-" + w] + READER + ["%s-cps-null" % w, "%s-utf8-null" % w]


PROOF = "contract-based deductive verification: "
LOOP = PROOF + "loop invariants (inferred, committed, re-proved), ghost history automaton of the standard, callee contracts; CBMC discharges every obligation on the real code"
UNB = "Proof for texts of any length: loops by invariants, callees by contracts which are proved themselves. "
CASE = PROOF + "loop invariants (inferred, committed, re-proved), ghost output and ghost context, contracts of the reader, the writer and the lookups; CBMC discharges every obligation on the real code"
PROPS = {
    "C01": dict(
        title="UTF-8 decoding", proofs=["utf8-decode"], native=[("utf8", "decode")],
        technique=PROOF + "postcondition against a loop-free specification, complete unwinding (at most 4 bytes)",
        note="Proof for every buffer, length (also without one) and codepoint place; pointer and bounds checks included."),
    "C02": dict(
        title="UTF-8 encoding", proofs=["utf8-encode", "utf8-roundtrip", "utf8-decode"], native=[("utf8", "encode")],
        technique=PROOF + "postcondition against a loop-free specification, complete unwinding (at most 4 bytes), round-trip lemma over the real functions",
        note="Proof for every codepoint, buffer and length."),
    "C03": dict(
        title="one text in four forms", proofs=["forms-" + a for a in ALGOS] + BOUNDS + READER + READEROPS + RANGES + NULLS,
        native=[("segforms", a) for a in ALGOS],
        technique=PROOF + "reader contract over an abstract text, proved for all four forms; frame condition: the algorithms use nothing else of the text; bounds and termination by loop invariants",
        note=UNB + "The equality of the forms is the frame condition (syntax tree) together with the reader contracts; where the frame condition fails, both forms are proved against the standard instead."),
    "C04": dict(
        title="grapheme cluster boundaries", proofs=segproofs("character"), native=[("seg", "character"), ("tab", "character")],
        technique=LOOP, note=UNB + "Trusts the specification automaton in spec/uax29c.h."),
    "C05": dict(
        title="word boundaries", proofs=PROPER + segproofs("word"), native=[("seg", "word"), ("tab", "word")],
        technique=LOOP, note=UNB + "Trusts the specification automaton in spec/uax29w.h."),
    "C06": dict(
        title="sentence boundaries", proofs=PROPER + segproofs("sentence"), native=[("seg", "sentence"), ("tab", "sentence")],
        technique=LOOP, note=UNB + "Trusts the specification automaton in spec/uax29s.h."),
    "C07": dict(
        title="line break opportunities", proofs=segproofs("line"), native=[("seg", "line"), ("tab", "line")],
        technique=LOOP, note=UNB + "Trusts the specification automaton in spec/uax14.h."),
    "C08": dict(
        title="progress, termination, tiling", proofs=BOUNDS + READER + RANGES + PROPER + NULLS,
        native=[("segprogress", a) for a in ALGOS],
        technique=PROOF + "loop invariants and variants for every loop, whatever the classes; postcondition: result within the text, at a codepoint boundary, greater than zero",
        note=UNB),
    "C09": dict(
        title="property tables", proofs=["table-" + n for n in ("character", "word", "sentence", "line", "case", "bidi", "bracket")],
        native=[("tab", n) for n in ("character", "word", "sentence", "line", "case", "bidi", "bracket")],
        technique=PROOF + "lookup contracts over the generated tables against an independent reading of the UCD, all 32-bit values",
        note="Proof over the tables which the generators of this tree write; trusts the reading of the UCD data files in ucd/."),
    "C10": dict(
        title="upper and lower case conversion",
        proofs=["to-%s-%s" % (c, f) for f in reversed(FORMS) for c in ("lower", "upper")] + CASETABS + READER + READEROPS + WRITER + ["case-null-to"],
        native=[("case", "CONV"), ("tab", "map"), ("tab", "case")],
        technique=CASE, note=UNB + "Trusts the specification of Final_Sigma and the mappings in harness/case_pre.h and ucd/."),
    "C11": dict(
        title="title case conversion",
        proofs=["to-title-%s%s" % (x, f) for f in reversed(FORMS) for x in ("rest-", "lead-", "")] + ["cpbreak-%s" % f for f in FORMS] + CASETABS + READER + READEROPS + WRITER + ["case-null-to"],
        native=[("case", "TITLE"), ("tab", "map"), ("tab", "case")],
        technique=CASE, note=UNB + "Words are those that next_word_break() reports (C05); its contract here is only that a word ends within the text at a codepoint boundary, which C08 proves."),
    "C12": dict(
        title="case detection",
        proofs=["is-title-utf8", "is-title-cps"] + ["is-%s-%s" % (c, f) for f in reversed(FORMS) for c in ("lower", "upper")] + ["cpbreak-%s" % f for f in FORMS] + CASETABS + READER + READEROPS + ["case-null-is"],
        native=[("case", "IS"), ("tab", "map"), ("tab", "case")],
        technique=CASE, note=UNB),
    "C13": dict(
        title="truncation and termination of converted output",
        proofs=["out-title-utf8", "out-title-cps"] + ["out-%s-%s" % (c, f) for f in reversed(FORMS) for c in ("lower", "upper")] + WRITER + READER + READEROPS + CASETABS + ["case-null-to"],
        native=[("case", "TRUNC")],
        technique=CASE, note=UNB + "The writer contract (what was written so far, for every output size) is proved of the writer's functions and used in the conversions."),
    "C14": dict(
        title="stateful grapheme detection", proofs=["character-state", "table-character"], native=[("segstate", "character"), ("tab", "character")],
        technique=PROOF + "simulation relation between state words and histories (found by running the code, proved inductive), for every pair of codepoints and every history",
        note="Proof for call sequences of any length by induction over the history; trusts the specification automaton in spec/uax29c.h."),
    "C16": dict(
        title="bidirectional functions: buffers, termination, sizes", proofs=BIDISAFE + READER + ["table-bidi"],
        native=[("bidi", "BUF")],
        technique=PROOF + "loop invariants and variants (inferred, committed, re-proved), callee contracts, frame conditions at an arbitrary offset; CBMC discharges every bounds, pointer and overflow obligation on the real code",
        note=UNB + "Buffers, lines and outputs of any size; every function of src/bidirectional.c is under contract."),
    "C15": dict(
        title="embedding levels", proofs=LVL + ["table-bidi", "table-bracket", "bidi-words"] + READER, native=[("bidi", "LEVELS")], level="other",
        explanation="proved for every paragraph: its end and its level, the level of FSI (P1-P3), the explicit levels and overrides (X1-X9), the implicit levels (I1, I2), the reset of separators and trailing whitespace (L1.1-L1.3), with the classes that W1-N2 give as an arbitrary function of the place; that the resolution of a sequence (W1-W7, N0-N2) gives the classes of the standard, and touches only its own sequence, is not proved: it is compared with an independent implementation of UAX #9 on enumerated and random paragraphs",
        technique=PROOF + "loop invariants (inferred, committed, re-proved), ghost stack of X1-X8 and functions of places, callee contracts; the resolution of isolating run sequences by comparison of the real code with an executable specification",
        note=UNB + "Assumed: the contract of preprocess_isolating_run_sequence() (classes of its sequence, frame). CBMC reads _Bool results of uninterpreted functions as any byte; they are masked."),
    "C17": dict(
        title="line reordering", proofs=["table-bracket", "bidi-words"], native=[("bidi", "REORDER")], level="other",
        explanation="proved: mirrored characters and state words; the order itself is compared with an independent implementation of L1 and L2 on enumerated and random lines",
        technique=PROOF + "contracts of the lookups and state words; the order by comparison of the real code with an executable specification",
        note="Proof for the lookups and state words (all values); the order of L2 by comparison with an independent implementation on enumerated and random lines, which is bounded. Buffers, sizes and termination of the same functions are proved under C16."),
}
NOT_APPLICABLE = {}
