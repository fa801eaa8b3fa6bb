//! What the evidence says about the cases of each check and about what it rests on.

/// How cases are made and what makes two of them different.
pub fn rule(id: &str) -> &'static str {
    match id {
        "C01" => "Every encoding of the 1-, 2- and 3-byte domains and, per upper half, every (thorough) or the significant (quick) lower halves of the 16.16 domain are interpreted, by whole numbers and by fractions, and compared bit by bit; sequences of encodings of mixed length are enumerated as words over a catalogue. A state is a distinct state of the reference machine (operand stack, stem count, width, call chain, position) reached in lockstep.",
        "C02" => "Words over an alphabet of operators and operands up to a depth from every small stack; operator x operand grids; index and roll over all stack sizes, spans and shifts; breadth-first reachability to a fixed point for two sub-algebras. A state is a distinct state of the reference machine reached in lockstep.",
        "C03" => "Operator x number of operands, then words of such pairs, each followed by endings that reveal what is left on the stack. All glyphs of the real fonts among the fixtures are interpreted step by step alongside the reference. A state is a distinct state of the reference machine reached in lockstep.",
        "C04" => "Words over stem and mask operators with varying operand numbers, all stem counts and all values of mask bytes, directly and inside subroutines. All glyphs of the real fonts among the fixtures are interpreted step by step alongside the reference. A state is a distinct state of the reference machine reached in lockstep.",
        "C05" => "First stack-clearing operator x number of operands x later operators, directly and inside subroutines; the width is compared after every request. All glyphs of the real fonts among the fixtures are interpreted step by step alongside the reference. A state is a distinct state of the reference machine reached in lockstep.",
        "C06" => "Every way to move segments of base programs into nested subroutines, compared with the program written inline and with the reference machine; table sizes around the borders of the bias with all border numbers; depth of nesting; errors. All glyphs of the real fonts among the fixtures are interpreted step by step alongside the reference. A state is a distinct state of the reference machine reached in lockstep.",
        "C07" => "All byte strings up to a length over tables of mutually recursive subroutines and words of tokens; every request after the end or an error is repeated. Glyphs of the real fonts among the fixtures are cut off and corrupted. A state is a distinct state of the reference machine reached in lockstep.",
        "C08" => "Complete 1-, 2-, 3- and 5-byte domains, all nibble strings up to a length, decimals around rounding midpoints, long digit strings. A state is a distinct input; an outcome a distinct decoded value or error.",
        "C09" => "All pairs of bytes as operator codes; words over operands in every encoding and operators; all byte strings up to a length; lookups of all operators in what was read and in dictionaries put together by hand; all 65536 codes asked for directly. A state is a distinct reading (bytes and position); an outcome a distinct dictionary.",
        "C10" => "Counts x offset sizes x arrays of offsets over a small domain for all kinds of indices, plus counts and sizes across the 8-, 16- and 24-bit borders. A state is a distinct reading (bytes, reader, position); an outcome a distinct result.",
        "C11" => "All 65536 identifiers over string indices of all border sizes, the conversion of integers of every upper half (quick) or of all 32-bit integers (thorough) and of reals; all texts of short byte strings and long ones by class. A state is a distinct lookup or reading.",
        "C12" => "All 65536 codes or glyph indices over five predefined tables, each compared with tables typed in from the specification. A state is a distinct pair of table and index.",
        "C13" => "All compositions of glyph counts into ranges over a small domain in every format, overshoots, truncations, all short byte strings, border lengths. A state is a distinct reading (bytes, parameter, position).",
        "C14" => "All format bytes x counts x contents, supplements of all counts, all short byte strings, truncations. A state is a distinct reading (bytes, position).",
        "C15" => "Font descriptions (character set, encoding, private dictionary, subroutines, glyphs, offsets' encodings) x orders of the parts x number of fonts x header sizes x positions, built to bytes and read back; streams whose beginning lies up to 2^62 bytes in, and parts up to 2 GiB apart. A state is a distinct reading of a structure at a position.",
        "C16" => "Font descriptions (mapping formats, glyph counts, numbers of font dictionaries, subroutines, orders of parts, triples) built to bytes and read back, single mappings of every form, and mixtures with name-keyed fonts. A state is a distinct reading of a structure at a position.",
        "C17" => "Every byte of every base font set replaced by every value, pairs of bytes, every truncation, every field set to extreme numbers, all short byte strings for every reader, every reader on the structure of every other. The outcome is compared with the reference reader. A state is a distinct reading of a structure at a position.",
        "C18" => "For every subject: a whole reading on another thread after each machine instruction (small subjects); every read or seek call fails in every way (once or persistently), all patterns of delivery sizes and interruptions up to a length, all placements of up to so many deviating deliveries; the result is compared with that of the undisturbed reading. Readings within each call of the stream of another, and readings on two threads with all pairs of points of switching. A state is a distinct call of a stream in its context.",
        "C19" => "All sequences of up to three structures over a catalogue, at several starting positions; values and stream positions are compared with the reference reader. A state is a distinct reading of a structure at a position.",
        "C20" => "Every count, offset and size field at every extreme value over little data; the peak of live allocated bytes is measured by the global allocator. A state is a distinct reading; an outcome a distinct power of two of the peak with the kind of result.",
        "C21" => "All interleavings of the requests to two and three programs from a catalogue, all points of dropping, all orders of histories, all schedules of requests on two threads, a step or a whole life of another program after each machine instruction, one preemption after any machine instruction, all patterns of handing programs over between threads; each program is compared with running alone. A state is a distinct state of the reference machine reached in lockstep.",
        _ => "",
    }
}

const MACHINE: &str = "The reference machine (harness/src/model/t2.rs) renders Adobe Technical Note 5177 for what the property states; it was written from the specification, not from the code.";
const READER: &str = "The reference reader (harness/src/model/cff.rs) renders Adobe Technical Note 5176 for what the property states; it was written from the specification, not from the code.";
const BOUNDED: &str = "The verdict extends to the enumerated space named in bounds; nothing is inferred about larger inputs.";

pub fn assumptions(id: &str) -> Vec<&'static str> {
    match id {
        "C01" | "C02" | "C03" | "C04" | "C05" => vec![MACHINE, BOUNDED],
        "C06" => vec![MACHINE, BOUNDED, "Calls nested deeper than ten and up to the limit of the implementation are compared with the reference machine only as far as one of them is not an error."],
        "C07" => vec![MACHINE, BOUNDED, "A case that does not answer within 20 s counts as a loop."],
        "C21" => vec![MACHINE, BOUNDED, "Schedules on threads are controlled at the granularity of requests, and, for pairs of threads of which one makes progress between the instructions of the other, at that of machine instructions (sequential consistency; a thread that waits for a lock is passed over for 2 ms)."],
        "C08" => vec![READER, BOUNDED, "The nearest single-precision value of a decimal is computed exactly with integers of arbitrary size."],
        "C12" => vec!["The tables of the specification were typed in independently (harness/src/model/tables.rs) and cross-checked against each other."],
        "C18" => vec![BOUNDED, "Streams keep to the contract of Read and Seek: a failed call consumes nothing, an interrupted one may be retried."],
        "C20" => vec![BOUNDED, "The bound is 8 MiB plus 256 bytes per byte delivered by the stream, counted at the global allocator."],
        _ => vec![READER, BOUNDED],
    }
}
