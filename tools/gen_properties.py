#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
PROG, T2N, T2O = "src/type2/program.rs", "src/type2/number.rs", "src/type2/operation.rs"
STATE = [("stack","operands pending for the next operator",PROG),("stems","number of stem hints declared so far",PROG),("width","width difference found on the first stack-clearing operator",PROG),("routine","current position and chain of callers",PROG)]

p("C01","Charstring operands decode to exactly the number they encode",
  "Every operand encoding of a Type 2 charstring (one byte, two bytes, 16-bit integer, 16.16 fixed point) decodes to the number the format assigns to it, rounded to the nearest single-precision value. It consumes exactly its own bytes wherever it stands among other operands and operators. An operand cut off by the end of the data is an error, never a value.",
  ["inputs"],"all operand encodings: the complete 1-, 2- and 3-byte domains and the 2^32 fixed-point domain, and all short sequences of encodings of mixed length",
  "The tests read one fixed-point constant and whatever two fonts happen to contain; the encoding has 2^32 members and its mistakes sit on range borders and sign bits.",
  [T2N,PROG],[("number::read",T2N),("operand loop of Program::next",PROG)],["operands of the operations returned by Program::next"],STATE)
p("C02","Arithmetic, conditional and stack operators compute what the format defines",
  "In a charstring, abs, add, sub, div, neg, mul, sqrt, drop, exch, index, roll, dup, and, or, not, eq and ifelse replace their operands on the stack by exactly the single-precision results that the Type 2 format defines, leave the operands beneath untouched, and compose in any order. Too few operands, a negative or too large roll span, a fractional value where an integer is required, and operators the interpreter does not support (put, get, random, reserved codes) are errors.",
  ["programs","inputs"],"all operator/operand sequences up to a depth, all operand pairs of a value grid, all index and roll arguments on stacks of every small size, extreme arguments included",
  "No test executes a single arithmetic operator; the fonts of the test suite do not contain any.",
  [PROG,T2O],[("arithmetic arms of Program::next",PROG),("pop!/push!/read! stack macros",PROG),("Operator::from",T2O)],["operands of the operations returned by Program::next"],STATE)
p("C03","Path and hint operators report their operands completely and in order",
  "Each path or hint operator of a charstring is reported exactly once, in program order, with its operands in the order written: the longest run of topmost operands that the form of the operator admits (for example 4k or 4k+1 for hhcurveto). Operands beneath that run are dropped and never reach a later operation, because the stack is empty after every such operator; hintmask and cntrmask report no operands. Fewer operands than the smallest admissible form are an error.",
  ["programs","inputs"],"all operators x all operand counts, and all sequences of operators with all small operand counts",
  "The tests pin two glyphs and only check that the others do not fail; a dropped, duplicated or leaked operand in any other shape or count is not seen.",
  [PROG],[("clear! operand-form matcher",PROG),("stack drain",PROG)],["operations returned by Program::next"],STATE)
p("C04","Hint masks consume exactly one bit per declared stem, rounded up to bytes",
  "A hintmask or cntrmask operator is followed by ceil(n/8) mask bytes, where n counts every stem pair declared so far by hstem, vstem, hstemhm and vstemhm, in any subroutine, plus the pairs still on the stack at the mask operator itself (implied vertical stems). These bytes are skipped whatever their values, and interpretation resumes right after them. Data that ends inside the mask is an error.",
  ["programs","histories"],"all sequences of stem and mask operators up to a depth, all stem counts from 0 to 100, all 256 values of a mask byte",
  "Tests cover the stem counts of two fonts; the failure needs a particular count modulo 8, implied stems, or mask bytes that look like operators.",
  [PROG],[("stem counting in Program::next",PROG),("mask skipping in Program::next",PROG)],["operations returned by Program::next"],STATE)
p("C05","The width difference comes from the first stack-clearing operator only",
  "A program reports a width difference if and only if its first stack-clearing operator (stem, hint mask, moveto, path or endchar) carries one operand more than it needs, at the bottom of the stack; for hintmask and cntrmask that means an odd number of operands, for endchar one operand or five. The reported value is that operand; it is available once that operator has been processed, it is never changed by anything later, and a program whose first stack-clearing operator has no such operand never reports a width.",
  ["programs","histories"],"all first operators x operand counts with and without the extra operand, followed by all short sequences of further operators, directly or inside subroutines",
  "One glyph in the tests has its width asserted; glyphs with the default width, with implied stems, or ending at once are not examined.",
  [PROG],[("width capture in clear! and EndChar",PROG),("Program::width",PROG)],["Program::width after each Program::next"],STATE)
p("C06","Subroutine calls are transparent",
  "callsubr and callgsubr run the local or global subroutine whose number is the operand plus the bias of that table (107 below 1240 subroutines, 1131 below 33900, 32768 otherwise) on the same operand stack and hint count, and continue after the call on return. Moving any part of a program into subroutines, nested up to at least ten levels, therefore changes neither the reported operations nor the width, and endchar inside a subroutine that is in final position ends the whole program. A number without a subroutine, a fractional number, return outside a call, and unbounded recursion are errors.",
  ["programs","configurations"],"all ways to outline segments of short programs into nested local and global subroutines; all table sizes around the bias borders with every border index",
  "The tests run the subroutine tables of two fonts, whose sizes never come near 1240 or 33900, and compare the operations of two glyphs.",
  [PROG],[("CallSubr/CallGSubr/Return/EndChar arms of Program::next",PROG),("bias",PROG),("Routine caller chain",PROG)],["operations returned by Program::next","Program::width"],STATE)
p("C07","The interpreter is total and its end is final",
  "For arbitrary charstring bytes and arbitrary subroutine tables, every request for the next operation returns an operation, the end, or an error; it never panics, overflows the call stack or loops without progress, however long the program, however its subroutines call each other, and however extreme its operands are. Once the end has been reported, every further request reports the end again.",
  ["inputs","programs"],"all byte strings up to a length, all short token programs over recursive subroutine tables, and very long single-operator programs",
  "Totality quantifies over all programs; the tests only run well-formed glyphs and stop at the first end.",
  [PROG,T2N],[("Program::next main loop",PROG),("nesting limit",PROG),("bounds checks of pop!/read!",PROG)],["return value of Program::next, called repeatedly"],STATE)
p("C08","Dictionary numbers decode to exactly the number they encode",
  "Every integer encoding of a dictionary operand decodes to the integer the Compact Font Format assigns to it, and every real encoding (packed nibbles) to the single-precision value nearest to the written decimal; each consumes exactly its own bytes. A nibble string that does not spell a decimal number (reserved nibble, no digits, stray sign, point or exponent), a reserved leading byte, and a number cut off by the end of the data are errors.",
  ["inputs"],"all 1-, 2-, 3- and 5-byte integers; all nibble strings up to a length and long digit strings",
  "Eleven constants are tested; the domain has 2^32 integers and unboundedly many nibble strings.",
  ["src/compact1/number.rs"],[("Number as value::Read","src/compact1/number.rs"),("parse","src/compact1/number.rs")],["tape.take::<Number>()","operands of Operations"])
p("C09","Dictionaries decode to their operator-to-operands mapping, with defaults",
  "Reading a dictionary yields, for every operator in it, exactly the operands written before that operator, in order; a later entry for the same operator replaces the earlier one, every operator code of the format (one-byte or escaped) maps to its own operator, and reserved codes are errors. Looking up an operator that is absent yields the default operands of the format if it has any and nothing otherwise; looking up a present one yields what was written. Data that ends inside an entry yields the entries completed before it.",
  ["inputs","histories"],"all 65536 operator codes, all token sequences (operands in every encoding, operators) up to a depth, all byte strings up to a length",
  "Tests compare three dictionaries; order, replacement, reserved codes and most defaults are never exercised.",
  ["src/compact1/operation.rs","src/compact1/index/dictionaries.rs"],[("Operations as value::Read","src/compact1/operation.rs"),("Operator::from, Operator::default","src/compact1/operation.rs"),("Operations::get, get_single, get_double","src/compact1/operation.rs"),("Dictionaries::get","src/compact1/index/dictionaries.rs")],["Operations","Operations::get"])
p("C10","An index yields exactly the objects that its offsets delimit",
  "Reading an index with any count, any offset size from 1 to 4 bytes and any non-decreasing offsets yields as many objects as counted, each exactly the bytes between its two offsets, and stops right after the last object; an index with count zero is two bytes long and has no objects. The name, dictionary, string, subroutine and character-string indices all behave this way. A first offset other than one, decreasing offsets, an offset size outside 1 to 4, an unknown character-string format, or data that ends early are errors.",
  ["inputs"],"all small counts x offset sizes x offset arrays over a small domain, plus counts and object sizes across the 8-, 16- and 24-bit borders",
  "The tests read indices of two fonts with well-formed offsets and only compare counts.",
  ["src/compact1/index/mod.rs","src/compact1/index/character_strings.rs","src/compact1/index/subroutines.rs","src/compact1/index/names.rs","src/compact1/index/strings.rs","src/compact1/index/dictionaries.rs","src/compact1/offset.rs"],[("Index as value::Read","src/compact1/index/mod.rs"),("Offset as walue::Read","src/compact1/offset.rs"),("CharacterStrings as walue::Read","src/compact1/index/character_strings.rs")],["Index fields and data","tape position after reading"])
p("C11","String identifiers resolve to the string they denote",
  "A string identifier below 391 resolves to the standard string of the format with that number, whatever the font contains; any other identifier n resolves to entry n-391 of the string index of the font, or to nothing if there is no such entry. A dictionary number converts to a string identifier only if it is an integer that fits, and then without change; anything else is an error. Names and strings that are not valid UTF-8 are still returned, with replacement characters, and in their order.",
  ["inputs","configurations"],"all 65536 identifiers x string indices of many sizes; all border numbers",
  "Five identifiers are resolved by the tests, out of 65536, and the number conversion is tested for two values.",
  ["src/compact1/index/strings.rs","src/compact1/index/names.rs","src/compact1/mod.rs"],[("Strings::get","src/compact1/index/strings.rs"),("get_standard_string","src/compact1/index/strings.rs"),("TryFrom<Number> for StringID","src/compact1/mod.rs"),("TryFrom<Names> for Vec<String>","src/compact1/index/names.rs")],["Strings::get","StringID::try_from","Vec::<String>::try_from(names)"])
p("C12","Predefined encodings and character sets follow the tables of the format",
  "The Standard and Expert encodings give, for each code from 0 to 255, the string identifier of the corresponding table of the Compact Font Format specification, and nothing for larger codes. The ISOAdobe, Expert and ExpertSubset character sets give, for each glyph index from 1 on, the name of the glyph at that position of the corresponding table, and nothing past its last glyph. Names and identifiers agree with the standard strings.",
  ["inputs","configurations"],"all 65536 codes or glyph indices x the five predefined tables",
  "Two codes of one table are looked up by the tests.",
  ["src/compact1/encoding.rs","src/compact1/character_set.rs"],[("get_standard, get_expert","src/compact1/encoding.rs"),("get_iso_adobe, get_expert, get_expert_subset","src/compact1/character_set.rs")],["Encoding::get","CharacterSet::get"])
p("C13","A custom character set covers exactly the glyphs of its font",
  "Reading a custom character set for n glyphs yields in format 0 the n-1 identifiers written, and in formats 1 and 2 the ranges written, which together cover exactly n-1 glyphs; it consumes exactly those bytes. Ranges that overshoot, a font without glyphs, an unknown format, and data that ends early are errors.",
  ["inputs","configurations"],"all glyph counts up to a bound x all compositions into ranges over a small domain, plus the 8- and 16-bit border lengths",
  "The tests read one character set and only look at its format.",
  ["src/compact1/character_set.rs"],[("CharacterSet, CharacterSet0/1/2 as walue::Read","src/compact1/character_set.rs")],["CharacterSet fields","tape position after reading"])
p("C14","A custom encoding is read completely, supplements included",
  "Reading a custom encoding yields in format 0 the codes and in format 1 the ranges written. If the high bit of the format byte is set, the codes or ranges are followed by supplements, which are yielded as well, together with the codes or ranges they supplement. The reading consumes exactly those bytes; an unknown format and data that ends early are errors.",
  ["inputs"],"all 256 format bytes x all counts 0 to 255 x small contents, all short byte strings",
  "No test reads a custom encoding.",
  ["src/compact1/encoding.rs"],[("Encoding, Encoding0, Encoding1, EncodingSupplemental as value::Read","src/compact1/encoding.rs")],["Encoding fields","tape position after reading"])
p("C15","A font set is assembled from what its offsets designate",
  "Reading a font set yields its header, names, top dictionaries, strings and global subroutines, and for every font, in order, the character strings, character set, encoding, private dictionary and local subroutines that the offsets in its dictionaries designate, with the defaults of the format for absent entries. The result does not depend on the order, spacing or sharing of these parts, on the header size, on how offsets are encoded, or on the position in the stream at which the font set begins. The number of fonts counted without reading the set equals the number of fonts read.",
  ["inputs","configurations"],"all combinations of character-set, encoding and private-dictionary kinds, all orders of the parts, one to three fonts, several header sizes and starting positions; all glyphs of the fonts in the repository",
  "Tests cover two fonts, each with one layout, one font per set and the predefined encoding.",
  ["src/compact1/font_set/mod.rs","src/compact1/font_set/character_name_keyed.rs","src/compact1/header.rs"],[("FontSet as value::Read","src/compact1/font_set/mod.rs"),("FontSet::count","src/compact1/font_set/mod.rs"),("Record as walue::Read","src/compact1/font_set/character_name_keyed.rs"),("get! macro","src/compact1/font_set/mod.rs")],["FontSet fields","FontSet::count"])
p("C16","Character-ID-keyed fonts yield their glyph mapping and all font dictionaries",
  "A font whose top dictionary has a registry-ordering-supplement entry is read as character-ID-keyed, any other as name-keyed, in any mixture within one set. Reading it yields that triple unchanged, the glyph-to-dictionary mapping in format 0 (one byte per glyph) or format 3 (all ranges and the sentinel), and, for each font dictionary in order, the dictionary, its own private dictionary and its own local subroutines. A triple of another length, an unknown mapping format, or a missing mapping, array or private dictionary are errors.",
  ["inputs","configurations"],"all combinations of mapping formats, glyph counts, numbers of font dictionaries, presence of local subroutines, and orders of parts",
  "The only tests that read such a font cannot run (the font is not in the repository), so nothing that passes exercises it.",
  ["src/compact1/font_set/character_id_keyed.rs","src/compact1/font_set/mod.rs"],[("Record, RecordInner, Encoding, Encoding0, Encoding3 as walue/value::Read","src/compact1/font_set/character_id_keyed.rs"),("Record as walue::Read","src/compact1/font_set/mod.rs")],["FontSet::records"])
p("C17","Malformed font data is reported as an error and never crashes the reader",
  "For arbitrary bytes, reading a font set or any of its parts either succeeds or returns an error: it never panics, overflows, loops without progress or reads before the beginning of the font set. Negative offsets and sizes, offsets beyond the data, numbers of the wrong kind where an offset is expected, missing mandatory entries, and inconsistent counts are errors. When it succeeds, everything it returns was decoded from the bytes that the data itself designates.",
  ["inputs","fault_sequences"],"every single-byte corruption (all 256 values at every position), every truncation, all extreme values of every offset, size and count, and pairs of corruptions of small font sets; all short byte strings for every reader",
  "Tests only read well-formed fonts; malformed input has no test at all.",
  ["src/compact1/font_set/mod.rs","src/compact1/font_set/character_name_keyed.rs","src/compact1/font_set/character_id_keyed.rs","src/compact1/index/mod.rs","src/compact1/character_set.rs","src/compact1/encoding.rs","src/compact1/operation.rs","src/compact1/number.rs"],[("get! macro and offset arithmetic","src/compact1/font_set/mod.rs"),("validation in all readers","src/compact1")],["result of FontSet::read and of each reader"])
p("C18","Reading is independent of how the stream delivers, and stream failures surface",
  "The result of reading does not depend on how the underlying stream splits its data into reads or on interrupted reads that are retried. If a read or seek of the underlying stream fails while a font set or one of its parts is read, the reader returns an error of that kind rather than a value. The bytes delivered are the only source of the result: reading the same data again gives an equal result.",
  ["fault_sequences","inputs"],"every read or seek call of a reading x failure kinds, every short-read pattern up to a number of deviations, byte-at-a-time delivery",
  "The tests read from plain files that never fail and deliver everything asked for.",
  ["src/compact1/font_set/mod.rs","src/compact1/index/mod.rs","src/compact1/operation.rs","src/compact1/offset.rs"],[("error propagation in all readers","src/compact1"),("end-of-data handling of Operations","src/compact1/operation.rs")],["result of FontSet::read and of each reader over a faulty stream"])
p("C19","Readers compose: each consumes exactly its own bytes",
  "Every reader of a self-delimiting structure (header, offset, dictionary number, any index, character set, encoding, glyph-to-dictionary mapping) leaves the stream right after the structure, wherever in the stream the structure begins. Structures written one after another can therefore be read back one after another in any order of kinds, with the same results as when each stands alone.",
  ["histories","inputs"],"all sequences of up to three structures over a catalogue of kinds and sizes, at several starting positions",
  "Tests chain header, names and dictionaries of one font (and those tests cannot run here).",
  ["src/compact1/index/mod.rs","src/compact1/header.rs","src/compact1/offset.rs","src/compact1/number.rs","src/compact1/character_set.rs","src/compact1/encoding.rs","src/compact1/font_set/character_id_keyed.rs"],[("value::Read and walue::Read implementations","src/compact1"),("format peeking in CharacterSet and Encoding","src/compact1")],["values read and tape position"])
p("C20","Memory requested stays proportional to the data present",
  "While a font set or any of its parts is read, the memory requested at any time is bounded by a constant plus a constant multiple of the number of bytes that the stream has delivered, whatever counts, sizes and offsets the data claims. A few bytes of input can thus not make the reader reserve gigabytes.",
  ["inputs"],"every count, offset and size field of small structures set to every extreme value",
  "No test measures allocation or feeds an inflated size.",
  ["src/compact1/index/mod.rs","src/compact1/font_set/character_name_keyed.rs","src/compact1/font_set/character_id_keyed.rs","src/compact1/character_set.rs"],[("buffer allocation in the index and private-dictionary readers","src/compact1")],["peak of live allocated bytes during a reading"])
p("C21","Interpreters are independent of each other and of history",
  "Programs created over the same or different font data can be advanced in any interleaving, on one thread or several, and be dropped at any point, also after an error; each yields exactly the operations, width, end or error that it yields when run alone. The result of interpreting a charstring depends only on its bytes and its subroutine tables.",
  ["schedules","histories"],"all interleavings of the steps of two and three programs from a catalogue, all orders of running them after one another",
  "Tests run one program at a time.",
  [PROG],[("all interpreter state is owned by Program",PROG)],["operations returned by Program::next","Program::width"],STATE)
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
