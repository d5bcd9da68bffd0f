import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None,
                   **({"state":[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}))))
p("C01","UTF-8 decoding is exact for every byte sequence",
  "Decoding the bytes at the start of a text yields exactly the scalar value of the well-formed sequence there, and U+FFFD for every ill-formed one (overlong, surrogate, above U+10FFFF, stray or missing continuation bytes). The returned length is the sequence's length; an ill-formed sequence ends before the first byte that cannot continue it, and a sequence cut off by the end of the data is reported with the number of bytes it would need, which is more than the data has. Nothing outside the given bytes (or behind a terminating NUL) is read and nothing is written but the codepoint.",
  ["inputs"],"every byte string, every length including 0 and SIZE_MAX for terminated texts, with and without a place for the codepoint",
  "the tests sample a few dozen byte strings; 2^32 four-byte prefixes and all cut-off positions are out of reach",
  ["src/utf8.c"],[("grapheme_decode_utf8","src/utf8.c"),("sequence type table","src/utf8.c lut[]")],["grapheme_decode_utf8()"])
p("C02","UTF-8 encoding is exact and inverse to decoding",
  "Encoding a codepoint writes exactly its UTF-8 form if the buffer is large enough and nothing at all otherwise, and always returns the number of bytes needed; surrogates and values above U+10FFFF are encoded as U+FFFD. Decoding the encoding of any scalar value gives that value back, and encoding what was decoded from a well-formed sequence gives the same bytes.",
  ["inputs"],"every 32-bit codepoint, every buffer length, with and without a buffer",
  "the tests encode a handful of codepoints",
  ["src/utf8.c"],[("grapheme_encode_utf8","src/utf8.c")],["grapheme_encode_utf8()","grapheme_decode_utf8()"])
p("C03","Text is read only within its bounds and alike in all four forms",
  "Every segmentation function gives the same boundary for the same text no matter whether it is passed as codepoints or as UTF-8, with its length or terminated by NUL (offsets counted in the units of the form), treats a NULL text as empty, an explicit length includes embedded NUL codepoints, and ill-formed UTF-8 is the same text as with U+FFFD in its place. A UTF-8 sequence cut off by the end of the given length ends the text. No byte behind the given length or the terminator is ever read.",
  ["inputs"],"every text of every length in each of the four forms",
  "the conformance tests use well-formed short texts with one fixed length each, and no test runs with exact buffers",
  ["src/util.c","src/utf8.c","src/character.c","src/word.c","src/sentence.c","src/line.c"],
  [("herodotus_read_codepoint","src/util.c"),("herodotus_reader_copy and the limits","src/util.c"),("*_utf8 entry points","src/*.c")],
  ["grapheme_next_*_break(), grapheme_next_*_break_utf8()"],
  [("reader offset, length, terminated_by_null, soft_limit","position within the text and what ends it","src/util.h HERODOTUS_READER")])
p("C04","Grapheme cluster boundaries are those of UAX #29",
  "The next character break of a text is its first extended grapheme cluster boundary after its start according to UAX #29 (Unicode 15.0), or its end. That holds in particular for emoji ZWJ sequences and flag sequences of any length.",
  ["inputs"],"every text (unbounded), all classes",
  "the conformance file samples short texts; the rules depend on unbounded left context (emoji sequences, flag parity)",
  ["src/character.c","gen/character.c"],[("next_character_break","src/character.c"),("rule tables","src/character.c dont_break*, flag_update_*")],
  ["grapheme_next_character_break(), grapheme_next_character_break_utf8()"])
p("C05","Word boundaries are those of UAX #29",
  "The next word break of a text is its first word boundary after its start according to UAX #29 (Unicode 15.0), or its end. Rules that look behind or ahead over ignored characters (Extend, Format, ZWJ) hold however many of these there are.",
  ["inputs"],"every text (unbounded), all classes",
  "the conformance file samples short texts with at most one ignored character; lookahead and flag parity are unbounded",
  ["src/word.c","src/util.c","gen/word.c"],[("next_word_break","src/word.c"),("proper_init, proper_advance","src/util.c")],
  ["grapheme_next_word_break(), grapheme_next_word_break_utf8()"],[("struct proper","two elements to the left and right, raw and with ignored characters skipped","src/util.h")])
p("C06","Sentence boundaries are those of UAX #29",
  "The next sentence break of a text is its first sentence boundary after its start according to UAX #29 (Unicode 15.0), or its end. The rules for what may follow a terminator (closing marks, spaces, continuation punctuation, a lower case letter any distance ahead) hold for sequences of any length.",
  ["inputs"],"every text (unbounded), all classes",
  "the conformance file samples short texts; SB8 looks ahead without a bound",
  ["src/sentence.c","src/util.c","gen/sentence.c"],[("next_sentence_break","src/sentence.c"),("is_skippable_prop, sentence_skip_shift_callback","src/sentence.c"),("proper_init, proper_advance","src/util.c")],
  ["grapheme_next_sentence_break(), grapheme_next_sentence_break_utf8()"],[("aterm_resolved_level, saterm_resolved_level","progress through ATerm/SATerm Close* Sp* ParaSep?","src/sentence.c")])
p("C07","Line break opportunities are those of UAX #14",
  "The next line break of a text is its first line break opportunity (mandatory or not) after its start according to UAX #14 (Unicode 15.0, with the number tailoring of its test data), or its end. Combining mark sequences, space runs, numbers and regional indicators of any length are treated as the standard says.",
  ["inputs"],"every text (unbounded), all classes",
  "the conformance file samples short texts; the state that the rules need depends on unbounded context",
  ["src/line.c","gen/line.c"],[("next_line_break","src/line.c")],
  ["grapheme_next_line_break(), grapheme_next_line_break_utf8()"],[("lb25_level, lb21a_level, lb30a_level, last_non_cm_or_zwj_prop, last_non_sp_prop ...","what the rules need to know of the text to the left","src/line.c")])
p("C08","Segmentation makes progress, terminates and tiles every text",
  "Every segmentation function terminates on every text and returns an offset that is at most the length of the text, lies on a codepoint boundary, and is greater than zero unless there is nothing to read. Therefore calling it again and again from where it stopped cuts every text into consecutive pieces without gap or overlap, whatever the algorithm.",
  ["inputs"],"every text of every length in each form, for the four algorithms",
  "termination and progress on all texts cannot be sampled",
  ["src/character.c","src/word.c","src/sentence.c","src/line.c","src/util.c"],
  [("loops of next_*_break","src/{character,word,sentence,line}.c"),("proper_advance","src/util.c")],["grapheme_next_*_break()"])
p("C09","Per-codepoint properties are those of the Unicode Character Database",
  "For every 32-bit value, the grapheme cluster, word, sentence and line break class, the bidirectional class, the case properties, and the bracket and mirror properties which the library uses are those of the Unicode 15.0 Character Database, with the database's defaults for what it does not list and the default class above U+10FFFF. Bracket pairs match up to canonical equivalence.",
  ["inputs","configurations"],"all 2^32 codepoint values, for each property, with the tables generated from the data files",
  "tests reach the classes of the few thousand codepoints in the conformance files, and defaults and range limits hardly at all",
  ["gen/util.c","gen/character.c","gen/word.c","gen/sentence.c","gen/line.c","gen/case.c","gen/bidirectional.c","src/character.c","src/word.c","src/sentence.c","src/line.c","src/case.c","src/bidirectional.c"],
  [("table generators","gen/*.c"),("get_break_prop, get_case_property, get_bidi_property, get_bidi_bracket_off, get_mirror_offset","src/*.c")],["everything that classifies a codepoint"])
p("C10","Upper and lower case conversion is the full Unicode mapping",
  "Converting a text to upper or lower case replaces every codepoint by its full mapping (UnicodeData.txt and the unconditional entries of SpecialCasing.txt), in order, and nothing else. In lower case, a capital sigma becomes a final sigma exactly if a cased letter comes before it and none after it, case-ignorable characters in between not counting however many there are.",
  ["inputs"],"every text (unbounded), both forms",
  "the tests convert a few words; the sigma context is unbounded and there are 1400 mappings per direction",
  ["src/case.c","gen/case.c"],[("to_case","src/case.c"),("get_case_offset","src/case.c")],["grapheme_to_uppercase(), grapheme_to_lowercase() and _utf8"],
  [("final_sigma_level","context to the left of a sigma","src/case.c")])
p("C11","Title case conversion works word by word",
  "Converting a text to title case maps, in every word of the text's word segmentation, the first cased codepoint to its full title case mapping and every codepoint behind it within the word to its lower case mapping (a capital sigma to a final sigma by the same rule as in lower case conversion, with the word as the whole context), and keeps everything else as it is.",
  ["inputs"],"every text (unbounded), both forms",
  "the tests convert a few words",
  ["src/case.c","gen/case.c","src/util.c"],[("to_titlecase, to_case","src/case.c"),("herodotus_reader_push_advance_limit, herodotus_reader_pop_limit","src/util.c")],["grapheme_to_titlecase(), grapheme_to_titlecase_utf8()"])
p("C12","Case detection agrees with case conversion",
  "The detection of upper or lower case is true exactly for the texts whose codepoints the conversion to that case leaves unchanged (an ill-formed UTF-8 sequence counts as U+FFFD; the sigma context, which concerns only capital sigmas, never matters), and the reported length is the offset of the first codepoint that the conversion changes, or the whole length. The same holds for title case.",
  ["inputs"],"every text (unbounded), both forms",
  "the tests check a few words",
  ["src/case.c"],[("is_case, is_titlecase","src/case.c")],["grapheme_is_uppercase(), grapheme_is_lowercase(), grapheme_is_titlecase() and _utf8"])
p("C13","Converted output is truncated cleanly and always terminated",
  "A conversion returns the length of the complete result whatever the size of the output buffer, and writes only within that buffer. If the result and its terminator fit, they are there; otherwise the buffer (unless it has no room at all) holds the longest prefix of whole codepoints that fits and is terminated by NUL within it.",
  ["inputs"],"every text, every output size including 0, with and without a buffer",
  "the tests use a few output sizes",
  ["src/util.c","src/case.c"],[("herodotus_write_codepoint, herodotus_writer_nul_terminate","src/util.c")],["grapheme_to_*case(), grapheme_to_*case_utf8()"],
  [("first_unwritable_offset","where truncation began","src/util.h HERODOTUS_WRITER")])
p("C14","Stateful grapheme break detection agrees with segmentation",
  "Passing the codepoints of a text pair by pair with the state carried along, the detection reports a break exactly at the extended grapheme cluster boundaries of UAX #29, for texts of any length. Without a state it behaves as with a reset state.",
  ["inputs","histories"],"every sequence of calls (unbounded) from a reset state, every pair of 32-bit codepoints",
  "the state word must represent every history; the tests reach a few",
  ["src/character.c"],[("grapheme_is_character_break","src/character.c"),("state_serialize, state_deserialize","src/character.c")],["grapheme_is_character_break()"],
  [("state word","class of the last codepoint and the flags for emoji and flag sequences","src/character.c struct character_break_state")])
p("C15","Bidirectional embedding levels are those of UAX #9",
  "For a paragraph and a direction (left to right, right to left or taken from the text), the embedding levels that the library assigns are those of the Unicode bidirectional algorithm (Unicode 15.0, rules P2 to I2, with X9), including isolates, overrides, embedding overflow, bracket pairs and neutrals; the reported direction is that of the paragraph.",
  ["inputs"],"every paragraph, every direction",
  "the conformance files have short texts; nesting depth, overflow counters and bracket queues are exercised by few of them",
  ["src/bidirectional.c","gen/bidirectional.c"],[("grapheme_bidirectional_preprocess_paragraph","src/bidirectional.c"),("isolating runs, bracket pair queue","src/bidirectional.c")],["grapheme_bidirectional_preprocess_paragraph(), grapheme_bidirectional_get_line_embedding_levels()"],
  [("per-codepoint state word","level, class and bracket of a codepoint packed in 32 bits","src/bidirectional.c")])
p("C16","Bidirectional functions stay within their buffers",
  "The bidirectional functions terminate, read and write only within the arrays whose sizes they are given (paragraph, state buffer, level array, output), compute without arithmetic overflow, and report the size that the complete result needs even if the given space is smaller.",
  ["inputs"],"every paragraph and line, every combination of input and output sizes",
  "the tests always pass buffers that are large enough and short paragraphs",
  ["src/bidirectional.c"],[("grapheme_bidirectional_preprocess_paragraph, grapheme_bidirectional_get_line_embedding_levels, grapheme_bidirectional_reorder_line","src/bidirectional.c")],["the three grapheme_bidirectional_*() functions"])
p("C17","Line reordering is the permutation of rule L2",
  "Reordering a line (of codepoints up to U+10FFFF) outputs its codepoints in the order that rule L2 gives for the line's levels (rule L1 applied to the end of the line and separators), each exactly once, mirrored characters replaced where the library mirrors them, and drops only what X9 removes. The levels reported for a line are the same.",
  ["inputs"],"every line of every preprocessed paragraph",
  "the tests have short lines with few level changes",
  ["src/bidirectional.c"],[("grapheme_bidirectional_reorder_line","src/bidirectional.c"),("grapheme_bidirectional_get_line_embedding_levels","src/bidirectional.c")],["grapheme_bidirectional_reorder_line(), grapheme_bidirectional_get_line_embedding_levels()"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
