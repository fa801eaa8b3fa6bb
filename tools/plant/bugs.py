"""The planted bugs, each written from the text of a property and the code alone."""
BUGS = []
def bug(id, property, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))
PROGRAM, NUMBER2 = "src/type2/program.rs", "src/type2/number.rs"
T2 = """
use postscript::type2::{Operator, Program};
#[allow(dead_code)]
fn run(code: &[u8], global: &[Vec<u8>], local: &[Vec<u8>]) -> (Vec<(Operator, Vec<f32>)>, Option<f32>, bool) {
    let mut program = Program::new(code, global, local);
    let mut list = vec![];
    loop {
        match program.next() {
            Ok(Some(operation)) => list.push(operation),
            Ok(None) => return (list, program.width(), true),
            Err(_) => return (list, program.width(), false),
        }
    }
}
"""
CFF = """
#[allow(unused_imports)]
use postscript::compact1 as ps;
#[allow(unused_imports)]
use postscript::tape::Read;
#[allow(unused_imports)]
use std::io::Cursor;
"""

bug("fixed-point-precision", "C01", "a 16.16 operand whose bits below the eighth of the fraction matter",
  "two bits of the fraction of a 16.16 number are dropped",
  [(NUMBER2, "0xff => tape.take::<q32>()?.into(),", "0xff => (tape.take::<u32>()? as i32 >> 2) as f32 / 16384.0,"), (NUMBER2, "use typeface::q32;\n\n", "")],
  T2 + """
fn main() {
    let (list, _, _) = run(&[0xff, 0x00, 0x00, 0x00, 0x03, 22, 14], &[], &[]);
    assert_eq!(list[0].1, vec![3.0 / 65536.0]);
}""")
bug("ifelse-equal", "C02", "an ifelse whose two compared operands are equal",
  "ifelse picks the second branch for equal operands",
  [(PROGRAM, "push!(if left <= right { yes } else { no });", "push!(if left < right { yes } else { no });")],
  T2 + """
fn main() {
    // 1 2 3 3 ifelse hmoveto
    let (list, _, _) = run(&[0x8c, 0x8d, 0x8e, 0x8e, 12, 22, 22, 14], &[], &[]);
    assert_eq!(list[0].1, vec![1.0]);
}""")
bug("or-short-circuit", "C02", "an or whose right operand is true, followed by an operator that looks beneath",
  "or does not take its left operand off the stack when the right one already decides",
  [(PROGRAM, """                let (right, left) = (pop!(bool), pop!(bool));
                push!(left || right, bool);""", """                let result = pop!(bool) || pop!(bool);
                push!(result, bool);""")],
  T2 + """
fn main() {
    // 5 1 1 or rmoveto
    let (list, width, _) = run(&[0x90, 0x8c, 0x8c, 12, 4, 21, 14], &[], &[]);
    assert_eq!(list[0].1, vec![5.0, 1.0]);
    assert_eq!(width, None);
}""", also=["C05"])
bug("index-off-by-one", "C07", "index with an argument equal to the number of operands beneath it",
  "index with an argument one too large subtracts with overflow instead of reporting an error",
  [(PROGRAM, "if $index >= length {", "if $index > length {")],
  T2 + """
fn main() {
    let (_, _, fine) = run(&[0x8c, 0x8c, 12, 29, 22, 14], &[], &[]);
    assert!(!fine);
}""", also=["C02"])
bug("curves-before-line", "C03", "rcurveline with more than one curve",
  "rcurveline reports only the last of its curves",
  [(PROGRAM, "RCurveLine => clear!([modulo(6), equal(2)]),", "RCurveLine => clear!([equal(6), equal(2)]),")],
  T2 + """
fn main() {
    let mut code = vec![0x8c; 14];
    code.extend([24, 14]);
    let (list, _, _) = run(&code, &[], &[]);
    assert_eq!(list[0].1.len(), 14);
}""")
bug("stray-operands", "C03", "an operator with operands beneath those of its form, followed by another operator",
  "operands beneath the ones of an operator stay on the stack",
  [(PROGRAM, """                let mut stack = std::mem::take(&mut self.stack);
                let operands = stack.drain(min..).collect();
                if min > 0 && !self.cleared {
                    self.width = Some(stack[min - 1]);
                }
""", """                let operands = self.stack.split_off(min);
                if min > 0 && !self.cleared {
                    self.width = Some(self.stack[min - 1]);
                    self.stack.clear();
                }
""")],
  T2 + """
fn main() {
    // 0 hmoveto; 1 2 hmoveto; 3 rmoveto, which lacks an operand
    let (list, _, fine) = run(&[0x8b, 22, 0x8c, 0x8d, 22, 0x8e, 21, 14], &[], &[]);
    assert_eq!(list.len(), 2);
    assert!(!fine);
}""")
bug("implied-stems-of-cntrmask", "C04", "a cntrmask with implied vertical stems",
  "implied stems are only counted at hintmask",
  [(PROGRAM, """            HintMask | CntrMask => {
                self.stems += self.stack.len() >> 1;""", """            HintMask | CntrMask => {
                if operator == HintMask {
                    self.stems += self.stack.len() >> 1;
                }""")],
  T2 + """
fn main() {
    // 1 2 cntrmask ff; 3 hmoveto
    let (list, _, fine) = run(&[0x8c, 0x8d, 20, 0xff, 0x8e, 22, 14], &[], &[]);
    assert!(fine);
    assert_eq!(list[1].1, vec![3.0]);
}""")
bug("mask-of-many-stems", "C04", "more than 32 stems declared before a mask",
  "a mask is cut off at 32 stems",
  [(PROGRAM, "let _ = self.routine.take_given::<Vec<u8>>((self.stems + 7) >> 3)?;", "let _ = self.routine.take_given::<Vec<u8>>((self.stems.min(32) + 7) >> 3)?;")],
  T2 + """
fn main() {
    let mut code = vec![];
    for _ in 0..33 { code.extend([0x8c, 0x8d, 18]); }
    code.extend([19, 0xff, 0xff, 0xff, 0xff, 22, 0x8e, 22, 14]);
    let (list, _, fine) = run(&code, &[], &[]);
    assert!(fine);
    assert_eq!(list.last().unwrap().1, vec![3.0]);
}""")
bug("odd-mask", "C04", "a mask with a width before its implied stems",
  "an odd number of operands at a mask counts as one stem more",
  [(PROGRAM, "self.stems += self.stack.len() >> 1;\n                let _ =", "self.stems += (self.stack.len() + 1) >> 1;\n                let _ =")],
  T2 + """
fn main() {
    // 7 hintmask, no stems: a width, and no bytes of a mask
    let (list, width, fine) = run(&[0x92, 19, 0x8e, 22, 14], &[], &[]);
    assert!(fine);
    assert_eq!(width, Some(7.0));
    assert_eq!(list[1].1, vec![3.0]);
}""", also=["C05"])
bug("zero-width", "C05", "a width difference of zero written out",
  "a width difference of zero is not reported",
  [(PROGRAM, "-> Option<Operand> {\n        self.width\n", "-> Option<Operand> {\n        self.width.filter(|width| *width != 0.0)\n")],
  T2 + """
fn main() {
    let (_, width, _) = run(&[0x8b, 0x8c, 22, 14], &[], &[]);
    assert_eq!(width, Some(0.0));
}""")
bug("bias-border", "C06", "a table of exactly 33900 subroutines",
  "the bias of a table of 33900 subroutines is that of a smaller one",
  [(PROGRAM, "} else if count < 33900 {", "} else if count <= 33900 {")],
  T2 + """
fn main() {
    let mut local = vec![vec![11u8]; 33900];
    local[32768] = vec![0x8c, 22, 11];
    let (list, _, fine) = run(&[0x8b, 10, 14], &[], &local);
    assert!(fine);
    assert_eq!(list.len(), 1);
}""")
bug("shared-bias", "C06", "local and global tables on different sides of a border of the bias",
  "the bias of the global table is computed from the number of local subroutines",
  [(PROGRAM, "let address = pop!(i32);", "let mut address = pop!(i32);\n                if operator == CallGSubr && self.local.len() > self.global.len() {\n                    address = address.saturating_add(bias(self.local.len()) - bias(self.global.len()));\n                }")],
  T2 + """
fn main() {
    let local = vec![vec![11u8]; 1240];
    let global = vec![vec![0x8c, 22, 11]];
    let (list, _, fine) = run(&[0x20, 29, 14], &global, &local);
    assert!(fine);
    assert_eq!(list.len(), 1);
}""")
bug("double-rounding", "C08", "a real number that lies between two single-precision values, next to the middle",
  "a real number is rounded twice, first to double precision",
  [("src/compact1/number.rs", "match buffer.parse() {\n        Ok(value) => Ok(value),", "match buffer.parse::<f64>() {\n        Ok(value) => Ok(value as f32),")],
  CFF + """
fn main() {
    // 1.000000059604644775390625 is the middle of 1 and the next number; a little more must go up.
    let text = "1.0000000596046447753906250000000001";
    let mut data = vec![0x1e];
    let mut nibbles: Vec<u8> = text.bytes().map(|b| if b == b'.' { 0xa } else { b - b'0' }).collect();
    nibbles.push(0xf);
    if nibbles.len() % 2 == 1 { nibbles.push(0xf); }
    for pair in nibbles.chunks(2) { data.push(pair[0] << 4 | pair[1]); }
    match Cursor::new(data).take::<ps::Number>().unwrap() {
        ps::Number::Real(value) => assert_eq!(value.to_bits(), 0x3f800001),
        _ => panic!(),
    }
}""")
bug("reserved-nibble", "C08", "a real number with the reserved nibble d",
  "the reserved nibble is read as a minus sign",
  [("src/compact1/number.rs", "0x0e => buffer.push('-'),", "0x0d | 0x0e => buffer.push('-'),")],
  CFF + """
fn main() {
    assert!(Cursor::new(vec![0x1e, 0xd2, 0xff]).take::<ps::Number>().is_err());
}""")
bug("first-entry-wins", "C09", "a dictionary with two entries of the same operator",
  "the first entry of an operator is kept instead of the last",
  [("src/compact1/operation.rs", "operations.insert(operator, operands);", "operations.entry(operator).or_insert(operands);")],
  CFF + """
fn main() {
    let operations = Cursor::new(vec![0x8c, 0x00, 0x8d, 0x00]).take::<ps::Operations>().unwrap();
    assert_eq!(operations.get(ps::Operator::Version), Some(&[ps::Number::Integer(2)][..]));
}""")
bug("empty-entry", "C09", "an operator that has defaults, written without operands",
  "an entry without operands is answered with the defaults",
  [("src/compact1/operation.rs", "Some(operands) => Some(operands),", "Some(operands) if !operands.is_empty() => Some(operands),")],
  CFF + """
fn main() {
    let operations = Cursor::new(vec![0x0c, 0x03]).take::<ps::Operations>().unwrap();
    assert_eq!(operations.get(ps::Operator::UnderlinePosition), Some(&[][..]));
}""")
bug("object-of-65536-bytes", "C10", "an index with an object of 64 KB or more",
  "the sizes of objects are computed in 16 bits",
  [("src/compact1/index/mod.rs", "let size = (offsets[i + 1].0 - offsets[i].0) as usize;", "let size = (offsets[i + 1].0 - offsets[i].0) as u16 as usize;")],
  CFF + """
fn main() {
    let mut data = vec![0, 1, 3, 0, 0, 1, 1, 0, 1];
    data.extend(vec![7u8; 65536]);
    let index = Cursor::new(data).take::<ps::Index>().unwrap();
    assert_eq!(index[0].len(), 65536);
}""")
bug("last-standard-string", "C11", "the first string of a font",
  "the identifier of the first string of a font is taken for a standard one",
  [("src/compact1/index/strings.rs", "i if i < NUMBER_OF_STANDARD_STRINGS => {", "i if i <= NUMBER_OF_STANDARD_STRINGS => {")],
  CFF + """
fn main() {
    let strings = Cursor::new(vec![0, 1, 1, 1, 2, b'x']).take::<ps::index::Strings>().unwrap();
    assert_eq!(strings.get(391), Some("x".to_string()));
}""")
bug("accented-glyph", "C12", "one glyph of the ISOAdobe character set",
  "two neighbouring glyphs of the ISOAdobe character set share a name",
  [("src/compact1/character_set.rs", "180 => \"Edieresis\",", "180 => \"Egrave\",")],
  CFF + """
fn main() {
    assert_eq!(ps::CharacterSet::ISOAdobe.get(180), Some("Edieresis"));
}""")
bug("full-range", "C13", "a range of 256 glyphs in format 1",
  "the length of a range is computed in 8 bits",
  [("src/compact1/character_set.rs", """            let range = tape.take::<Range1>()?;
            found_count += 1 + range.left_count as usize;""", """            let range = tape.take::<Range1>()?;
            found_count += range.left_count.wrapping_add(1) as usize;""")],
  CFF + """
fn main() {
    let mut tape = Cursor::new(vec![1, 0, 1, 255]);
    assert!(tape.take_given::<ps::CharacterSet>(257).is_ok());
}""")
bug("overshooting-range", "C13", "ranges of format 2 that cover more glyphs than there are",
  "ranges that overshoot are accepted",
  [("src/compact1/character_set.rs", """        if found_count != glyph_count {
            reject!();""", """        if found_count < glyph_count {
            reject!();""")],
  CFF + """
fn main() {
    assert!(Cursor::new(vec![2, 0, 1, 0, 9]).take_given::<ps::CharacterSet>(5).is_err());
}""", also=["C17"])
bug("encoding-ranges-by-codes", "C14", "an encoding of format 1 with more than 127 ranges",
  "the number of ranges is masked like the format",
  [("src/compact1/encoding.rs", """        ranges (Vec<Range1>) |this, tape| { // Range1
            tape.take_given(this.range_count as usize)""", """        ranges (Vec<Range1>) |this, tape| { // Range1
            tape.take_given((this.range_count & 0x7f) as usize)""")],
  CFF + """
fn main() {
    let mut data = vec![1, 128];
    data.extend(vec![0u8; 256]);
    let mut tape = Cursor::new(data);
    match tape.take::<ps::Encoding>().unwrap() {
        ps::Encoding::Format1(encoding) => assert_eq!(encoding.ranges.len(), 128),
        _ => panic!(),
    }
}""")
bug("supplement-byte", "C14", "an encoding whose supplements name glyphs beyond the first 256 strings",
  "supplements are read with a glyph of one byte less",
  [("src/compact1/encoding.rs", "        code  (u8      ), // code\n        glyph (StringID), // glyph", "        glyph (StringID), // glyph\n        code  (u8      ), // code")],
  CFF + """
fn main() {
    match Cursor::new(vec![0x80, 0, 1, 7, 1, 2]).take::<ps::Encoding>().unwrap() {
        ps::Encoding::FormatSupplemental(encoding) => {
            assert_eq!(encoding.supplements[0].code, 7);
            assert_eq!(encoding.supplements[0].glyph, 0x102);
        }
        _ => panic!(),
    }
}""")
SET = CFF + """
// header, one name, one top dictionary, no strings, no subroutines; then glyphs, then a private dictionary.
#[allow(dead_code)]
fn font(start: usize) -> Vec<u8> {
    let mut data = vec![0xaa; start];
    let top = vec![28, 0, 30, 17, 0x8b, 28, 0, 36, 18];
    data.extend([1, 0, 4, 1]);
    data.extend([0, 1, 1, 1, 2, b'A']);
    data.extend([0, 1, 1, 1, 1 + top.len() as u8]);
    data.extend(&top);
    data.extend([0, 0]);
    data.extend([0, 0]);
    while data.len() < start + 30 { data.push(0); }
    data.extend([0, 1, 1, 1, 2, 14]);
    data
}
"""
bug("fixed-header", "C15", "a header that is longer than four bytes",
  "the names are expected right behind the fields of the header",
  [("src/compact1/font_set/mod.rs", "let names: Names = jump_take!(@unwrap tape, position, header.header_size);", "let names: Names = tape.take()?;")],
  SET + """
fn main() {
    let mut data = font(0);
    data[2] = 6;
    data.splice(4..4, [9, 9]);
    data.drain(31..33);
    assert_eq!(&data[30..32], &[0, 1]);
    let set = Cursor::new(data).take::<ps::FontSet>();
    assert_eq!(set.unwrap().names.len(), 1);
}""")
bug("glyphs-of-the-first-font", "C15", "a set of fonts with different numbers of glyphs and a custom character set",
  "the character set of every font is read for the number of glyphs of the first",
  [("src/compact1/font_set/mod.rs", "character_strings[i].count as usize\n", "character_strings[i.min(0)].count as usize\n")],
  SET + """
fn main() {
    // Two fonts: one glyph and the predefined character set; three glyphs and a custom one.
    let mut data = vec![1, 0, 4, 1];
    data.extend([0, 2, 1, 1, 2, 3, b'A', b'B']);
    let one = vec![28, 0, 70, 17, 0x8b, 0x8b, 18];
    let two = vec![28, 0, 80, 17, 28, 0, 100, 15, 0x8b, 0x8b, 18];
    data.extend([0, 2, 1, 1, 1 + one.len() as u8, 1 + (one.len() + two.len()) as u8]);
    data.extend(&one);
    data.extend(&two);
    data.extend([0, 0, 0, 0]);
    assert!(data.len() <= 70);
    data.resize(70, 0);
    data.extend([0, 1, 1, 1, 2, 14]);
    data.resize(80, 0);
    data.extend([0, 3, 1, 1, 2, 3, 4, 14, 14, 14]);
    data.resize(100, 0);
    data.extend([0, 0, 1, 0, 2]);
    let set = Cursor::new(data).take::<ps::FontSet>().unwrap();
    match &set.character_sets[1] {
        ps::CharacterSet::Format0(set) => assert_eq!(set.glyphs, vec![1, 2]),
        _ => panic!(),
    }
}""")
bug("mapping-of-one-less", "C16", "a glyph-to-dictionary mapping in format 0",
  "a mapping in format 0 is read without its last glyph",
  [("src/compact1/font_set/character_id_keyed.rs", "dictionary_ids: tape.take_given(character_strings.count as usize)?,", "dictionary_ids: tape.take_given((character_strings.count as usize).saturating_sub(1))?,")],
  CFF + """
fn main() {
    let mut data = vec![1, 0, 4, 1];
    data.extend([0, 1, 1, 1, 2, b'A']);
    let top = [0x8c, 0x8d, 0x8b, 12, 30, 28, 0, 50, 17, 28, 0, 60, 12, 37, 28, 0, 70, 12, 36];
    data.extend([0, 1, 1, 1, 1 + top.len() as u8]);
    data.extend(top);
    data.extend([0, 0, 0, 0]);
    assert!(data.len() <= 50);
    data.resize(50, 0);
    data.extend([0, 2, 1, 1, 2, 3, 14, 14]);
    data.resize(60, 0);
    data.extend([0, 0, 0]);
    data.resize(70, 0);
    data.extend([0, 1, 1, 1, 4, 0x8b, 0x8b, 18]);
    let set = Cursor::new(data).take::<ps::FontSet>().unwrap();
    match &set.records[0] {
        ps::font_set::Record::CharacterIDKeyed(record) => match &record.encoding {
            ps::font_set::character_id_keyed::Encoding::Format0(encoding) => assert_eq!(encoding.dictionary_ids.len(), 2),
            _ => panic!(),
        },
        _ => panic!(),
    }
}""")
bug("unordered-offsets", "C17", "an index with decreasing offsets",
  "decreasing offsets are only looked for between the first and the last",
  [("src/compact1/index/mod.rs", "if offsets[i] > offsets[i + 1] {", "if offsets[i] > offsets[count as usize] {")],
  CFF + """
fn main() {
    let result = std::panic::catch_unwind(|| Cursor::new(vec![0, 3, 1, 1, 4, 2, 5, 9, 9, 9, 9]).take::<ps::Index>().is_err());
    assert_eq!(result.ok(), Some(true));
}""", also=["C10"])
bug("swallowed-failures", "C18", "a stream that fails in the middle of a dictionary",
  "a failure of the stream after the first entry of a dictionary is taken for its end",
  [("src/compact1/operation.rs", "if error.kind() == ErrorKind::UnexpectedEof {", "if error.kind() == ErrorKind::UnexpectedEof || error.raw_os_error().is_some() || error.kind() == ErrorKind::TimedOut {")],
  CFF + """
use std::io;
struct Failing(Cursor<Vec<u8>>);
impl io::Read for Failing {
    fn read(&mut self, buffer: &mut [u8]) -> io::Result<usize> {
        if self.0.position() >= 2 { return Err(io::ErrorKind::TimedOut.into()); }
        let n = buffer.len().min(2 - self.0.position() as usize);
        self.0.read(&mut buffer[..n])
    }
}
impl io::Seek for Failing {
    fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> { self.0.seek(to) }
}
use io::{Read as _, Seek as _};
fn main() {
    let mut tape = Failing(Cursor::new(vec![0x8c, 0, 0x8d, 1]));
    assert!(postscript::tape::Read::take::<ps::Operations>(&mut tape).is_err());
}""")
bug("empty-index", "C19", "an empty index followed by anything",
  "an empty index swallows a third byte if there is one that looks like an offset size",
  [("src/compact1/index/mod.rs", "        if count == 0 {\n", "        if count == 0 && (!matches!(tape.peek::<OffsetSize>(), Ok(4)) || tape.take::<OffsetSize>().is_ok()) {\n")],
  CFF + """
fn main() {
    let mut tape = Cursor::new(vec![0, 0, 4]);
    tape.take::<ps::Index>().unwrap();
    assert_eq!(tape.position(), 2);
}""", also=["C10"])
bug("space-for-all-bytes", "C20", "an index with a huge last offset",
  "the list of objects reserves room for as many as there are bytes",
  [("src/compact1/index/mod.rs", "let mut data = Vec::with_capacity(count as usize);", "let mut data = Vec::with_capacity((offsets[count as usize].0 as usize).max(1) - 1);")],
  CFF + """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static LARGEST: AtomicUsize = AtomicUsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        LARGEST.fetch_max(layout.size(), Ordering::Relaxed);
        if layout.size() > 1 << 30 { return std::ptr::null_mut(); }
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, pointer: *mut u8, layout: Layout) { System.dealloc(pointer, layout) }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;
fn main() {
    let _ = Cursor::new(vec![0, 1, 3, 0, 0, 1, 0xff, 0xff, 0xff, 1]).take::<ps::Index>();
    assert!(LARGEST.load(Ordering::Relaxed) < 1 << 24);
}""")
bug("remembered-bias", "C21", "two programs over tables of different sizes on one thread",
  "the bias is remembered between programs",
  [(PROGRAM, """fn bias(count: usize) -> i32 {
    if count < 1240 {
        107
    } else if count < 33900 {
        1131
    } else {
        32768
    }
}""", """fn bias(count: usize) -> i32 {
    thread_local!(static LAST: std::cell::Cell<(usize, i32)> = const { std::cell::Cell::new((0, 107)) });
    let (last, value) = LAST.get();
    if last / 1240 == count / 1240 && last < 33900 {
        return value;
    }
    let value = if count < 1240 {
        107
    } else if count < 33900 {
        1131
    } else {
        32768
    };
    LAST.set((count, value));
    value
}""")],
  T2 + """
fn main() {
    let small = vec![vec![11u8]; 33481];
    let _ = run(&[0x8b, 10, 14], &[], &small);
    let mut large = vec![vec![11u8]; 33900];
    large[32768] = vec![0x8c, 22, 11];
    let (list, _, _) = run(&[0x8b, 10, 14], &[], &large);
    assert_eq!(list.len(), 1);
}""", also=["C06"])

# The second batch.
KEYED, NAMED, SETS = ("src/compact1/font_set/character_id_keyed.rs", "src/compact1/font_set/character_name_keyed.rs", "src/compact1/font_set/mod.rs")
bug("smallest-short", "C01", "the 16-bit operand -32768",
  "16-bit operands are made symmetric, so that the smallest one is off by one",
  [(NUMBER2, "0x1c => tape.take::<u16>()? as i16 as i32 as f32,", "0x1c => (tape.take::<u16>()? as i16).max(-i16::MAX) as f32,")],
  T2 + """
fn main() {
    let (list, _, _) = run(&[28, 0x80, 0, 22, 14], &[], &[]);
    assert_eq!(list[0].1, vec![-32768.0]);
}""")
bug("approximate-eq", "C02", "eq of two different numbers that are closer than the epsilon of single precision",
  "numbers are compared with a tolerance",
  [(PROGRAM, "push!(left == right, bool);", "push!((left - right).abs() < Operand::EPSILON, bool);")],
  T2 + """
fn main() {
    // 2^-16 squared is 2^-32: not equal to zero.
    let tiny = [0xff, 0, 0, 0, 1, 12, 27, 12, 24];
    let mut code = tiny.to_vec();
    code.extend([0x8b, 12, 15, 22, 14]);
    let (list, _, _) = run(&code, &[], &[]);
    assert_eq!(list[0].1, vec![0.0]);
}""")
bug("reciprocal-division", "C02", "a division whose quotient is not that of multiplying by the reciprocal",
  "division multiplies by the reciprocal and so rounds twice",
  [(PROGRAM, "push!(left / right);", "push!(left * right.recip());")],
  T2 + """
fn main() {
    for a in 1..100u8 {
        for b in 1..100u8 {
            let (list, _, _) = run(&[0x8b + a, 0x8b + b, 12, 12, 22, 14], &[], &[]);
            assert_eq!(list[0].1, vec![a as f32 / b as f32]);
        }
    }
}""")
bug("nearly-integers", "C02", "an index or a number of operands to roll that is off an integer by less than a thousandth",
  "fractional values are accepted where an integer is required if they are close to one",
  [(PROGRAM, "(i32) => (match self.stack.pop() {", "(i32) => (match self.stack.pop().map(|value| if (value.round() - value).abs() < 1e-3 { value.round() } else { value }) {")],
  T2 + """
fn main() {
    // 5 6 (1 + 1/65536) index
    let (list, _, ok) = run(&[0x90, 0x91, 0xff, 0, 1, 0, 1, 12, 29, 21, 14], &[], &[]);
    assert!(list.is_empty() && !ok);
}""")
bug("one-curve-form", "C03", "a vhcurveto with an even number of curves and one operand more",
  "the last coordinate of the final curve is only recognised for hvcurveto",
  [(PROGRAM, """            HVCurveTo | VHCurveTo => clear!(
                [equal(4), maybe_modulo(8), maybe_equal(1)],
                [modulo(8), maybe_equal(1)]
            ),""", """            HVCurveTo => clear!(
                [equal(4), maybe_modulo(8), maybe_equal(1)],
                [modulo(8), maybe_equal(1)]
            ),
            VHCurveTo => clear!([equal(4), maybe_modulo(8), maybe_equal(1)], [equal(8), maybe_equal(1)], [modulo(8)]),""")],
  T2 + """
fn main() {
    let (list, _, _) = run(&[&[0x8c; 17][..], &[30, 14]].concat(), &[], &[]);
    assert_eq!(list[0].1, vec![1.0; 17]);
}""")
bug("long-runs", "C03", "a line operator with more than 48 operands",
  "runs of operands are limited to what the stack of the format can hold",
  [(PROGRAM, "for i in 1..($left / $count + 1) {", "for i in 1..($left.min(48) / $count + 1) {")],
  T2 + """
fn main() {
    let mut code: Vec<u8> = (0..50).map(|i| 0x8b + i).collect();
    code.extend([5, 14]);
    let (list, _, _) = run(&code, &[], &[]);
    assert_eq!(list[0].1.len(), 50);
}""")
bug("mask-of-256-stems", "C04", "a mask after 256 stems or more",
  "stems are counted modulo 256",
  [(PROGRAM, "let _ = self.routine.take_given::<Vec<u8>>((self.stems + 7) >> 3)?;", "let _ = self.routine.take_given::<Vec<u8>>((self.stems % 256 + 7) >> 3)?;")],
  T2 + """
fn main() {
    // 256 stems in the font's subroutine, then a mask of 32 bytes.
    let mut code: Vec<u8> = vec![];
    for _ in 0..16 {
        code.extend([0x8c; 32]);
        code.push(18);
    }
    code.push(19);
    code.extend([14; 32]);
    code.extend([0x90, 22, 14]);
    let (list, _, ok) = run(&code, &[], &[]);
    assert!(ok);
    assert_eq!(list.last().unwrap().1, vec![5.0]);
}""")
bug("width-before-many-stems", "C05", "a first stem operator with more than 16 stems and a width",
  "the width before many stems is lost",
  [(PROGRAM, "self.stems += self.stack.len() >> 1;\n                clear!([equal(2), maybe_modulo(2)]);", "self.stems += self.stack.len() >> 1;\n                if self.stack.len() > 32 {\n                    self.stack.drain(..self.stack.len() & 1);\n                }\n                clear!([equal(2), maybe_modulo(2)]);")],
  T2 + """
fn main() {
    let mut code = vec![0x95];
    code.extend([0x8c; 34]);
    code.extend([1, 14]);
    let (_, width, _) = run(&code, &[], &[]);
    assert_eq!(width, Some(10.0));
}""")
bug("fallback-table", "C06", "a local call in a font without local subroutines",
  "local calls fall back to the global table if there is no local one",
  [(PROGRAM, "let subroutines = if operator == CallSubr {", "let subroutines = if operator == CallSubr && !self.local.is_empty() {")],
  T2 + """
fn main() {
    let (list, _, ok) = run(&[32, 10, 14], &[vec![0x8c, 22, 11]], &[]);
    assert!(list.is_empty() && !ok);
}""")
bug("return-as-end", "C06", "a return outside a call",
  "a return outside a call ends the program without an error",
  [(PROGRAM, '_ => raise!("found a return operator without a caller"),', "_ => {\n                        self.routine.tape.set_position(self.routine.size as u64);\n                        return Ok(ControlFlow::Break(None));\n                    }")],
  T2 + """
fn main() {
    let (list, _, ok) = run(&[0x8c, 22, 11, 14], &[], &[]);
    assert_eq!(list.len(), 1);
    assert!(!ok);
}""")
bug("twenty-digits", "C08", "a real number written with more than 20 characters",
  "digits behind the twentieth character are dropped, those before the point included",
  [("src/compact1/number.rs", "0..=9 => buffer.push((b'0' + nibble) as char),", "0..=9 if buffer.len() >= 20 && !buffer.contains('e') => {}\n            0..=9 => buffer.push((b'0' + nibble) as char),")],
  CFF + """
fn main() {
    // 1 followed by 23 zeros
    let mut data = vec![0x1e, 0x10];
    data.extend([0; 11]);
    data.push(0xff);
    match Cursor::new(data).take::<ps::Number>().unwrap() {
        ps::Number::Real(value) => assert_eq!(value, 1e23),
        _ => panic!(),
    }
}""")
bug("default-of-stroke", "C09", "a dictionary without StrokeWidth that is asked for it",
  "the default of StrokeWidth is that of its neighbour",
  [("src/compact1/operation.rs", "0x0c08 => StrokeWidth [Number::Integer(0)],", "0x0c08 => StrokeWidth [Number::Integer(1)],")],
  CFF + """
fn main() {
    let operations = Cursor::new(vec![0x8c, 0]).take::<ps::Operations>().unwrap();
    assert_eq!(operations.get(ps::Operator::StrokeWidth), Some(&[ps::Number::Integer(0)][..]));
}""")
bug("first-offset-in-part", "C10", "an index with offsets of three or four bytes whose first offset is not one",
  "the first offset is only looked at modulo 65536",
  [("src/compact1/index/mod.rs", "if offsets[0] != Offset(1) {", "if offsets[0].0 & 0xffff != 1 {")],
  CFF + """
fn main() {
    let data = vec![0, 1, 3, 1, 0, 1, 1, 0, 2, 9, 9];
    assert!(Cursor::new(data).take::<ps::Index>().is_err());
}""")
bug("names-in-pieces", "C11", "a name that is not valid UTF-8",
  "what follows the first malformed byte of a name is lost",
  [("src/compact1/index/names.rs", "Err(chunk) => String::from_utf8_lossy(&chunk.into_bytes()).into_owned(),", "Err(error) => {\n                    let valid = error.utf8_error().valid_up_to();\n                    let bytes = error.into_bytes();\n                    let end = bytes.len().min(valid + 1);\n                    String::from_utf8_lossy(&bytes[..end]).into_owned()\n                }")],
  CFF + """
fn main() {
    let names = Cursor::new(vec![0, 1, 1, 1, 4, b'A', 0xff, b'B']).take::<ps::index::Names>().unwrap();
    let names: Vec<String> = names.try_into().unwrap();
    assert_eq!(names, vec!["A\\u{fffd}B".to_string()]);
}""")
bug("expert-code", "C12", "code 66 of the Expert encoding",
  "a code of the Expert encoding gives its neighbour",
  [("src/compact1/encoding.rs", '66 => 254 => "bsuperior"', '66 => 255 => "bsuperior"')], CFF + """
fn main() {
    assert_eq!(ps::Encoding::Expert.get(66), Some(254));
}""")
bug("long-range", "C13", "a character set in format 2 with a range of more than 32768 glyphs",
  "the length of a range is read in 15 bits",
  [("src/compact1/character_set.rs", """            let range = tape.take::<Range2>()?;
            found_count += 1 + range.left_count as usize;""", """            let range = tape.take::<Range2>()?;
            found_count += 1 + (range.left_count & 0x7fff) as usize;""")],
  CFF + """
use postscript::walue::Read as _;
fn main() {
    let data = vec![2, 0, 1, 0x80, 0];
    let mut tape = Cursor::new(data);
    assert!(ps::CharacterSet::read(&mut tape, 32770).is_ok());
}""")
bug("masked-format", "C14", "an encoding with a format that has bits between the lowest and the highest set",
  "formats are masked, so that unknown ones are read as known",
  [("src/compact1/encoding.rs", "            1 => Encoding::Format1(tape.take()?),\n", "            1 => Encoding::Format1(tape.take()?),\n            0x90 => Encoding::Format0(Encoding0 {\n                format: tape.take::<u8>()? & 0x0f,\n                code_count: tape.take()?,\n                codes: vec![],\n            }),\n")],
  CFF + """
fn main() {
    assert!(Cursor::new(vec![0x90, 0, 0]).take::<ps::Encoding>().is_err());
    assert!(Cursor::new(vec![0x80, 0, 0]).take::<ps::Encoding>().is_ok());
}""")
bug("far-subroutines", "C15", "a character-ID-keyed font in a set that begins more than four gigabytes into a stream",
  "the position of private dictionaries is computed in 32 bits",
  [(KEYED, "records.push(tape.take_given((position, top_operations))?);", "records.push(tape.take_given((position as u32 as u64, top_operations))?);")],
  CFF + """
use std::io;
struct Far(Cursor<Vec<u8>>);
const BASE: u64 = 5 << 32;
impl io::Read for Far {
    fn read(&mut self, buffer: &mut [u8]) -> io::Result<usize> { self.0.read(buffer) }
}
impl io::Seek for Far {
    fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> {
        Ok(BASE + match to {
            io::SeekFrom::Start(position) if position < BASE => return Err(io::ErrorKind::InvalidInput.into()),
            io::SeekFrom::Start(position) => self.0.seek(io::SeekFrom::Start(position - BASE))?,
            other => self.0.seek(other)?,
        })
    }
}
#[allow(unused_imports)]
use io::{Read as _, Seek as _};
fn main() {
    let mut data = vec![1, 0, 4, 1];
    data.extend([0, 1, 1, 1, 2, b'A']);
    let top = [0x8c, 0x8d, 0x8b, 12, 30, 28, 0, 50, 17, 28, 0, 60, 12, 37, 28, 0, 70, 12, 36];
    data.extend([0, 1, 1, 1, 1 + top.len() as u8]);
    data.extend(top);
    data.extend([0, 0, 0, 0]);
    data.resize(50, 0);
    data.extend([0, 2, 1, 1, 2, 3, 14, 14]);
    data.resize(60, 0);
    data.extend([0, 0, 0]);
    data.resize(70, 0);
    data.extend([0, 1, 1, 1, 6, 0x8b + 2, 28, 0, 80, 18]);
    data.resize(80, 0);
    data.extend([0x8c, 0x15]);
    assert!(postscript::tape::Read::take::<ps::FontSet>(&mut Cursor::new(data.clone())).is_ok());
    assert!(postscript::tape::Read::take::<ps::FontSet>(&mut Far(Cursor::new(data.clone()))).is_ok());
}""")
bug("longer-triples", "C16", "a registry-ordering-supplement entry with more than three operands",
  "entries with more operands than three pass as a triple",
  [(KEYED, "Some(operands) if operands.len() == 3 => operands,", "Some(operands) if operands.len() >= 3 => &operands[operands.len() - 3..],")],
  CFF + """
fn main() {
    let build = |more: bool| {
        let mut data = vec![1, 0, 4, 1];
        data.extend([0, 1, 1, 1, 2, b'A']);
        let mut top = if more { vec![0x8c] } else { vec![] };
        top.extend([0x8c, 0x8d, 0x8b, 12, 30, 28, 0, 50, 17, 28, 0, 60, 12, 37, 28, 0, 70, 12, 36]);
        data.extend([0, 1, 1, 1, 1 + top.len() as u8]);
        data.extend(top);
        data.extend([0, 0, 0, 0]);
        assert!(data.len() <= 50);
        data.resize(50, 0);
        data.extend([0, 2, 1, 1, 2, 3, 14, 14]);
        data.resize(60, 0);
        data.extend([0, 0, 0]);
        data.resize(70, 0);
        data.extend([0, 1, 1, 1, 4, 0x8b, 0x8b, 18]);
        data
    };
    assert!(Cursor::new(build(false)).take::<ps::FontSet>().is_ok());
    assert!(Cursor::new(build(true)).take::<ps::FontSet>().is_err());
}""")
bug("empty-mapping", "C16", "a mapping in format 3 without ranges",
  "the sentinel of a mapping in format 3 is not read if there are no ranges",
  [(KEYED, """            3 => Encoding::Format3(tape.take()?),""", """            3 => {
                let start = tape.position()?;
                tape.take::<u8>()?;
                match tape.take::<u16>()? {
                    0 => Encoding::Format3(Encoding3 { format: 3, range_count: 0, ranges: vec![], glyph_count: 0 }),
                    _ => {
                        tape.jump(start)?;
                        Encoding::Format3(tape.take()?)
                    }
                }
            }""")],
  CFF + """
use postscript::walue::Read as _;
fn main() {
    let mut tape = Cursor::new(vec![0, 1, 1, 1, 2, 14]);
    let strings = ps::index::CharacterStrings::read(&mut tape, 2).unwrap();
    let mut tape = Cursor::new(vec![3, 0, 0, 0, 5]);
    match ps::font_set::character_id_keyed::Encoding::read(&mut tape, &strings).unwrap() {
        ps::font_set::character_id_keyed::Encoding::Format3(encoding) => assert_eq!(encoding.glyph_count, 5),
        _ => panic!(),
    }
}""")
bug("format-in-part", "C17", "a font whose character strings are in a format that is a multiple of 256 off",
  "the format of character strings is looked at modulo 256",
  [("src/compact1/index/character_strings.rs", "Ok(match format {\n            2 =>", "Ok(match format as u8 {\n            2 =>")],
  CFF + """
use postscript::walue::Read as _;
fn main() {
    let mut tape = Cursor::new(vec![0, 1, 1, 1, 2, 14]);
    assert!(ps::index::CharacterStrings::read(&mut tape, 258).is_err());
    tape.set_position(0);
    assert!(ps::index::CharacterStrings::read(&mut tape, -254).is_err());
}""", also=["C10"])
bug("would-block", "C18", "a stream that reports that it would block while a dictionary is read",
  "a stream that would block is taken for the end of a dictionary",
  [("src/compact1/operation.rs", "if error.kind() == ErrorKind::UnexpectedEof {", "if matches!(error.kind(), ErrorKind::UnexpectedEof | ErrorKind::WouldBlock) {")],
  CFF + """
use std::io;
struct Blocking(Cursor<Vec<u8>>);
impl io::Read for Blocking {
    fn read(&mut self, buffer: &mut [u8]) -> io::Result<usize> {
        if self.0.position() >= 2 { return Err(io::ErrorKind::WouldBlock.into()); }
        let n = buffer.len().min(2 - self.0.position() as usize);
        self.0.read(&mut buffer[..n])
    }
}
impl io::Seek for Blocking {
    fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> { self.0.seek(to) }
}
use io::{Read as _, Seek as _};
fn main() {
    let mut tape = Blocking(Cursor::new(vec![0x8c, 0, 0x8d, 1]));
    assert!(postscript::tape::Read::take::<ps::Operations>(&mut tape).is_err());
}""")
bug("greedy-supplements", "C19", "an encoding of codes without supplements that is followed by more",
  "an encoding in format 0 with no codes swallows the byte behind it",
  [("src/compact1/encoding.rs", """        codes (Vec<u8>) |this, tape| { // code
            tape.take_given(this.code_count as usize)""", """        codes (Vec<u8>) |this, tape| { // code
            if this.code_count == 0 && !matches!(tape.peek::<u8>(), Ok(value) if value > 0) {
                let _ = tape.take::<u8>();
            }
            tape.take_given(this.code_count as usize)""")],
  CFF + """
fn main() {
    let mut tape = Cursor::new(vec![0, 0, 0, 1]);
    tape.take::<ps::Encoding>().unwrap();
    assert_eq!(tape.position(), 2);
}""", also=["C14"])
bug("rounded-up-space", "C20", "an index of a few bytes that claims as many objects as its offsets can address",
  "room for offsets is reserved by the size of offsets instead of their number",
  [("src/compact1/index/mod.rs", "let mut offsets = Vec::with_capacity(count as usize + 1);", "let mut offsets = Vec::with_capacity((count as usize + 1) << (2 * (offset_size & 7)));")],
  CFF + """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static LARGEST: AtomicUsize = AtomicUsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        LARGEST.fetch_max(layout.size(), Ordering::Relaxed);
        if layout.size() > 1 << 30 { return std::ptr::null_mut(); }
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, pointer: *mut u8, layout: Layout) { System.dealloc(pointer, layout) }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;
fn main() {
    let _ = Cursor::new(vec![0xff, 0xff, 4, 0, 0, 0, 1]).take::<ps::Index>();
    assert!(LARGEST.load(Ordering::Relaxed) < 1 << 24);
}""")
bug("recycled-stack", "C21", "a program that is created after another one was dropped with operands on its stack",
  "stacks are recycled between programs without being cleared",
  [(PROGRAM, "            stack: vec![],\n", "            stack: STACKS.with(|stacks| stacks.take()),\n"),
   (PROGRAM, "impl<'l> Routine<'l> {\n    #[inline]\n    fn new(", """thread_local! {
    static STACKS: std::cell::Cell<Vec<Operand>> = const { std::cell::Cell::new(vec![]) };
}

impl std::ops::Drop for Program<'_> {
    fn drop(&mut self) {
        STACKS.with(|stacks| stacks.set(std::mem::take(&mut self.stack)));
    }
}

impl<'l> Routine<'l> {
    #[inline]
    fn new(""")],
  T2 + """
fn main() {
    let _ = run(&[0x8c, 0x8d, 0], &[], &[]);
    let (list, width, _) = run(&[0x8c, 22, 14], &[], &[]);
    assert_eq!(list[0].1, vec![1.0]);
    assert_eq!(width, None);
}""")
bug("dup-of-nothing", "C07", "a dup without operands",
  "dup without operands subtracts with overflow",
  [(PROGRAM, "Dup => push!(read!(0)),", "Dup => push!(self.stack[self.stack.len() - 1]),")],
  T2 + """
fn main() {
    let result = std::panic::catch_unwind(|| run(&[12, 27, 14], &[], &[]));
    assert!(matches!(result, Ok((_, _, false))));
}""", also=["C02"])
bug("shallow-masks", "C04", "a mask two or more subroutines deep behind more than 63 stems",
  "in nested subroutines, the number of stems that decides about the size of a mask wraps at 64",
  [(PROGRAM, "let _ = self.routine.take_given::<Vec<u8>>((self.stems + 7) >> 3)?;",
    "let stems = if self.routine.depth > 1 { self.stems & 63 } else { self.stems };\n                let _ = self.routine.take_given::<Vec<u8>>((stems + 7) >> 3)?;")],
  T2 + """
fn main() {
    let mut body = vec![];
    for _ in 0..70 {
        body.extend([0x8c, 0x8c, 18]);
    }
    body.push(19);
    body.extend([14; 9]);
    body.push(11);
    let (list, _, whole) = run(&[0x21, 10, 0x8f, 22, 14], &[], &[body, vec![0x20, 10, 11]]);
    assert!(whole);
    assert_eq!(list.len(), 72);
    assert_eq!(list[71].1, vec![4.0]);
}""", also=["C06"])
bug("stems-of-another", "C21", "a program that fails at an unsupported operator behind stems, and then another one with masks",
  "the stems of a program that failed are counted for the next one",
  [(PROGRAM, "            stems: 0,\n", "            stems: STEMS.take(),\n"),
   (PROGRAM, "            operator => raise!(\"found an unknown operator ({operator:?})\"),", "            operator => {\n                STEMS.set(self.stems);\n                raise!(\"found an unknown operator ({operator:?})\");\n            }"),
   (PROGRAM, "/// A program.\n", "thread_local!(static STEMS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });\n\n/// A program.\n")],
  T2 + """
fn main() {
    let mut code = vec![];
    for _ in 0..9 {
        code.extend([0x8c, 0x8c, 1]);
    }
    code.extend([0x8c, 12, 23]);
    assert!(!run(&code, &[], &[]).2);
    let (list, _, _) = run(&[0x8c, 0x8c, 18, 19, 0xff, 0x8c, 22, 14], &[], &[]);
    assert_eq!(list.len(), 3);
}""")
bug("remembered-size", "C18", "an index whose offset size is zero, read after another index",
  "an offset size of zero stands for that of the index that was read before",
  [("src/compact1/index/mod.rs", "        let offset_size = tape.take::<OffsetSize>()?;", "        let mut offset_size = tape.take::<OffsetSize>()?;\n        if offset_size == 0 {\n            offset_size = LAST.load(std::sync::atomic::Ordering::Relaxed);\n        }"),
   ("src/compact1/index/mod.rs", "        let mut data = Vec::with_capacity(count as usize);", "        LAST.store(offset_size, std::sync::atomic::Ordering::Relaxed);\n        let mut data = Vec::with_capacity(count as usize);"),
   ("src/compact1/index/mod.rs", "impl crate::value::Read for Index {", "static LAST: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);\n\nimpl crate::value::Read for Index {")],
  CFF + """
fn main() {
    let bad = vec![0, 1, 0, 1, 2, 7];
    assert!(Cursor::new(bad.clone()).take::<ps::Index>().is_err());
    assert!(Cursor::new(vec![0, 1, 1, 1, 2, 7]).take::<ps::Index>().is_ok());
    assert!(Cursor::new(bad).take::<ps::Index>().is_err());
}""", also=["C10"])
bug("signed-count", "C15", "a set of at least 32768 fonts",
  "the number of fonts is taken for a number of fifteen bits when it is counted",
  [("src/compact1/font_set/mod.rs", "Ok(count as usize)", "Ok((count & 0x7fff) as usize)")],
  CFF + """
fn main() {
    let mut data = vec![1, 0, 4, 1, 0x90, 0, 1];
    data.extend(vec![1; 0x9001]);
    assert_eq!(ps::FontSet::count(&mut Cursor::new(data)).unwrap(), 0x9000);
}""")
bug("crowded-width", "C05", "an operator behind the width with more than 200 operands",
  "the width is forgotten when an operator that clears the stack has very many operands",
  [(PROGRAM, "                let mut stack = std::mem::take(&mut self.stack);", "                if length > 200 && self.cleared {\n                    self.width = None;\n                }\n                let mut stack = std::mem::take(&mut self.stack);")],
  T2 + """
fn main() {
    let mut code = vec![0x95, 0x8c, 22];
    code.extend(vec![0x8c; 202]);
    code.extend([5, 14]);
    assert_eq!(run(&code, &[], &[]).1, Some(10.0));
}""")
bug("four-hundred-lines", "C03", "an operator with more than 400 repetitions of its smallest group of operands",
  "the search for the longest run of operands stops after 400 groups",
  [(PROGRAM, "for i in 1..($left / $count + 1) {", "for i in 1..($left / $count + 1).min(401) {")],
  T2 + """
fn main() {
    let mut code = vec![0x8c; 1000];
    code.extend([5, 14]);
    assert_eq!(run(&code, &[], &[]).0[0].1.len(), 1000);
}""", also=["C06"])
bug("sorted-ranges", "C16", "a mapping of glyphs to dictionaries whose ranges are not in order",
  "the ranges of a mapping are sorted",
  [("src/compact1/font_set/character_id_keyed.rs", "            3 => Encoding::Format3(tape.take()?),", "            3 => {\n                let mut encoding: Encoding3 = tape.take()?;\n                encoding.ranges.sort_by_key(|range| range.first_glyph_id);\n                Encoding::Format3(encoding)\n            }")],
  CFF + """
use ps::font_set::character_id_keyed::Encoding;
fn main() {
    let strings = Cursor::new(vec![0, 3, 1, 1, 2, 3, 4, 14, 14, 14]).take_given::<ps::index::CharacterStrings>(2).unwrap();
    let data = vec![3, 0, 2, 0, 2, 7, 0, 1, 8, 0, 3];
    let Encoding::Format3(encoding) = Cursor::new(data).take_given::<Encoding>(&strings).unwrap() else { panic!() };
    assert_eq!(encoding.ranges[0].dictionary_id, 7);
}""")
bug("lenient-dictionary", "C09", "a reserved byte in a dictionary of more than 30 operators",
  "whatever is wrong in a large dictionary ends it",
  [("src/compact1/operation.rs", "if error.kind() == ErrorKind::UnexpectedEof {", "if error.kind() == ErrorKind::UnexpectedEof || operations.len() > 30 {")],
  CFF + """
fn main() {
    let mut data = vec![];
    for code in (0..=11).chain(13..=21) {
        data.push(code);
    }
    for code in 0..=14 {
        data.extend([12, code]);
    }
    data.extend([0xff, 5]);
    assert!(Cursor::new(data).take::<ps::Operations>().is_err());
}""", also=["C18"])
bug("wrapped-distance", "C17", "local subroutines at a negative distance that leads before the beginning, in a stream of more than four gigabytes",
  "the distance of the local subroutines wraps around",
  [("src/compact1/font_set/mod.rs", "match u32::try_from($offset as i64 + another_offset as i64) {", "match u64::try_from(($offset as u64).wrapping_add(another_offset as i64 as u64)) {"),
   ("src/compact1/font_set/mod.rs", "Ok(value) => Some(value),\n                _ => raise!(concat!(\"found a malformed offset with", "Ok(value) => Some(value as u32),\n                _ => raise!(concat!(\"found a malformed offset with")],
  CFF + """
use std::io::{Seek, SeekFrom};
struct Endless(Vec<u8>, u64);
impl std::io::Read for Endless {
    fn read(&mut self, buffer: &mut [u8]) -> std::io::Result<usize> {
        for byte in buffer.iter_mut() {
            *byte = self.0.get(self.1 as usize).copied().unwrap_or(1);
            self.1 += 1;
        }
        Ok(buffer.len())
    }
}
impl Seek for Endless {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        self.1 = match to {
            SeekFrom::Start(to) => to,
            SeekFrom::Current(by) => self.1.checked_add_signed(by).unwrap(),
            _ => unreachable!(),
        };
        Ok(self.1)
    }
}
fn main() {
    // header, name, one dictionary (character strings, private), no strings, no subroutines
    let mut data = vec![1, 0, 4, 1, 0, 1, 1, 1, 2, 65, 0, 1, 1, 1, 6];
    data.extend([0x8b + 24, 17, 0x8b + 2, 0x8b + 30, 18]);
    data.extend([0, 0, 0, 0]);
    data.extend([0, 1, 1, 1, 2, 14]);
    // -80 Subrs
    data.extend([0x8b - 80, 19]);
    assert!(Endless(data, 0).take::<ps::FontSet>().is_err());
}""", also=["C15"])
bug("subroutines-at-zero", "C15", "local subroutines at a distance of zero from their private dictionary",
  "local subroutines at a distance of zero count as absent",
  [("src/compact1/font_set/character_name_keyed.rs", "            Some(offset) => jump_take!", "            Some(another) if another == offset => Default::default(),\n            Some(offset) => jump_take!")],
  CFF + """
fn main() {
    // The private dictionary is an index at the same time: 0 operands for operators 0, 1, 1, 1, 2.
    let mut data = vec![1, 0, 4, 1, 0, 1, 1, 1, 2, 65, 0, 1, 1, 1, 6];
    data.extend([0x8b + 24, 17, 0x8b + 8, 0x8b + 30, 18]);
    data.extend([0, 0, 0, 0]);
    data.extend([0, 1, 1, 1, 2, 14]);
    data.extend([0, 1, 1, 1, 2, 5, 0x8b, 19]);
    let set: ps::FontSet = Cursor::new(data).take().unwrap();
    let ps::font_set::Record::CharacterNameKeyed(record) = &set.records[0] else { panic!() };
    assert_eq!(record.subroutines.len(), 1);
}""")
bug("long-subroutine", "C06", "a subroutine or charstring of more than 65535 bytes",
  "code is cut off after 65535 bytes",
  [(PROGRAM, "            tape: Cursor::new(code),\n            size: code.len(),", "            tape: Cursor::new(&code[..code.len().min(0xffff)]),\n            size: code.len().min(0xffff),")],
  T2 + """
fn main() {
    let mut body = [0x8c, 22].repeat(33000);
    body.push(11);
    let (list, _, whole) = run(&[0x20, 10, 14], &[], &[body]);
    assert!(whole);
    assert_eq!(list.len(), 33000);
}""", also=["C01", "C02", "C03"])
bug("largest-product", "C02", "a product beyond the largest number of single precision",
  "products are clamped to the finite numbers",
  [(PROGRAM, "Mul => push!(pop!() * pop!()),", "Mul => push!((pop!() * pop!()).clamp(Operand::MIN, Operand::MAX)),")],
  T2 + """
fn main() {
    let mut code = vec![28, 0x7f, 0xff];
    for _ in 0..5 {
        code.extend([12, 27, 12, 24]);
    }
    code.extend([22, 14]);
    assert_eq!(run(&code, &[], &[]).0[0].1, vec![f32::INFINITY]);
}""")
bug("sixteen-bit-private", "C16", "a private dictionary of more than 65535 bytes",
  "the size of a private dictionary is a number of sixteen bits",
  [("src/compact1/font_set/character_id_keyed.rs", "Cursor::new(chunk).take::<Operations>()", "Cursor::new(&chunk[..chunk.len() & 0xffff]).take::<Operations>()")],
  CFF + """
use ps::font_set::character_id_keyed::RecordInner;
fn main() {
    let operations: ps::Operations = Cursor::new(vec![0x1d, 0, 1, 0, 4, 0x8b, 18]).take().unwrap();
    let mut data = vec![0x8c; 65536];
    data.extend([5, 0x8d, 6, 6]);
    let record: RecordInner = Cursor::new(data).take_given((0, &operations)).unwrap();
    assert_eq!(record.operations.get(ps::Operator::FontBBox).unwrap().len(), 65536);
}""")
bug("shallow-width", "C05", "the first operator that clears the stack is in the seventh nested subroutine or deeper",
  "no width is taken in deep subroutines",
  [(PROGRAM, "                    self.width = Some(stack[min - 1]);", "                    self.width = Some(stack[min - 1]).filter(|_| self.routine.depth < 7);")],
  T2 + """
fn main() {
    let mut local: Vec<Vec<u8>> = vec![vec![22, 11]];
    for i in 0..7u8 {
        local.push(vec![0x20 + i, 10, 11]);
    }
    assert_eq!(run(&[0x95, 0x8c, 0x27, 10, 14], &[], &local).1, Some(10.0));
}""")
bug("names-of-127-bytes", "C11", "a name of more than 127 bytes",
  "names are cut off at the 127 bytes that the format recommends",
  [("src/compact1/index/names.rs", "        for chunk in data {", "        for mut chunk in data {\n            chunk.truncate(127);")],
  CFF + """
fn main() {
    let mut data = vec![0, 1, 1, 1, 131];
    data.extend([65; 130]);
    let names: Vec<String> = Cursor::new(data).take::<ps::index::Names>().unwrap().try_into().unwrap();
    assert_eq!(names[0].len(), 130);
}""")
bug("one-buffer", "C18", "a stream that itself reads a real number while it delivers another one",
  "the text of a real number is gathered in a buffer of the thread",
  [("src/compact1/number.rs", "    let mut buffer = String::new();", "    thread_local!(static BUFFER: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });\n    BUFFER.with(|buffer| buffer.borrow_mut().clear());"),
   ("src/compact1/number.rs", "0..=9 => buffer.push((b'0' + nibble) as char),", "0..=9 => BUFFER.with(|buffer| buffer.borrow_mut().push((b'0' + nibble) as char)),"),
   ("src/compact1/number.rs", "buffer.push('.')", "BUFFER.with(|buffer| buffer.borrow_mut().push('.'))"),
   ("src/compact1/number.rs", "buffer.push('e')", "BUFFER.with(|buffer| buffer.borrow_mut().push('e'))"),
   ("src/compact1/number.rs", "buffer.push_str(\"e-\")", "BUFFER.with(|buffer| buffer.borrow_mut().push_str(\"e-\"))"),
   ("src/compact1/number.rs", "buffer.push('-')", "BUFFER.with(|buffer| buffer.borrow_mut().push('-'))"),
   ("src/compact1/number.rs", "    match buffer.parse() {", "    match BUFFER.with(|buffer| buffer.borrow().parse()) {")],
  CFF + """
fn other() {
    let number = Cursor::new(vec![0x1e, 0x98, 0x7f]).take::<ps::Number>().unwrap();
    assert_eq!(number, ps::Number::Real(987.0));
}
struct Nesting(Cursor<Vec<u8>>);
impl std::io::Read for Nesting {
    fn read(&mut self, buffer: &mut [u8]) -> std::io::Result<usize> {
        other();
        self.0.read(buffer)
    }
}
impl std::io::Seek for Nesting {
    fn seek(&mut self, to: std::io::SeekFrom) -> std::io::Result<u64> {
        self.0.seek(to)
    }
}
fn main() {
    let number = Nesting(Cursor::new(vec![0x1e, 0x12, 0x3a, 0x5f])).take::<ps::Number>().unwrap();
    assert_eq!(number, ps::Number::Real(123.5));
}""")
bug("calls-in-total", "C06", "more than 4096 subroutine calls in one program",
  "the depth of nested calls grows with the calls made before",
  [(PROGRAM, "    stems: usize,\n    width", "    stems: usize,\n    calls: usize,\n    width"),
   (PROGRAM, "            stems: 0,\n", "            stems: 0,\n            calls: 0,\n"),
   (PROGRAM, "                let address = pop!(i32);", "                let address = pop!(i32);\n                self.calls += 1;\n                if self.calls > 4096 {\n                    raise!(\"found too many calls\");\n                }")],
  T2 + """
fn main() {
    let mut code = vec![];
    for _ in 0..5000 {
        code.extend([0x20, 10]);
    }
    code.push(14);
    let (list, _, whole) = run(&code, &[], &[vec![0x8c, 22, 11]]);
    assert!(whole && list.len() == 5000);
}""")
bug("shared-encodings", "C15", "two fonts of one set with the encoding of the second at the same offset as that of an earlier one other than the first",
  "an encoding that was read before is taken from the first font",
  [("src/compact1/font_set/mod.rs", "        let mut encodings = vec![];", "        let mut encodings: Vec<Encoding> = vec![];\n        let mut offsets = vec![];"),
   ("src/compact1/font_set/mod.rs", "                1 => Encoding::Expert,\n", "                1 => Encoding::Expert,\n                offset if offsets.contains(&offset) => encodings[0].clone(),\n"),
   ("src/compact1/font_set/mod.rs", "offset => jump_take!(@unwrap tape, position, offset),\n            });", "offset => {\n                    offsets.push(offset);\n                    jump_take!(@unwrap tape, position, offset)\n                }\n            });")],
  CFF + """
fn main() {
    // Three fonts; one character-string index, one private dictionary of no bytes, one encoding of
    // format 0 with one code for the last two.
    let mut data = vec![1, 0, 4, 1, 0, 3, 1, 1, 2, 3, 4, 65, 66, 67];
    let at = 0x8b + 58;
    data.extend([0, 3, 1, 1, 6, 13, 20]);
    data.extend([at, 17, 0x8b, at, 18]);
    data.extend([at, 17, 0x8b, at, 18, at + 6, 16]);
    data.extend([at, 17, 0x8b, at, 18, at + 6, 16]);
    data.extend([0, 0, 0, 0]);
    while data.len() < 58 {
        data.push(0);
    }
    data.extend([0, 1, 1, 1, 2, 14]);
    data.extend([0, 1, 33]);
    let set: ps::FontSet = Cursor::new(data).take().unwrap();
    assert!(matches!(set.encodings[0], ps::Encoding::Standard));
    assert!(!matches!(set.encodings[1], ps::Encoding::Standard));
    assert!(!matches!(set.encodings[2], ps::Encoding::Standard));
}""")
bug("stems-of-the-thread", "C21", "two programs advanced by turns on the thread where the one has declared stems and the other has not",
  "the stem hints are counted per thread, and only reset when a program begins",
  [(PROGRAM, "        use crate::type2::Operator::*;\n\n        if self", "        use crate::type2::Operator::*;\n\n        thread_local!(static STEMS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });\n        if !self.cleared {\n            STEMS.with(|stems| stems.set(self.stems));\n        }\n        self.stems = STEMS.with(|stems| stems.get());\n        if self"),
   (PROGRAM, "                self.stems += self.stack.len() >> 1;\n                clear!", "                self.stems += self.stack.len() >> 1;\n                STEMS.with(|stems| stems.set(self.stems));\n                clear!"),
   (PROGRAM, "                self.stems += self.stack.len() >> 1;\n                let _", "                self.stems += self.stack.len() >> 1;\n                STEMS.with(|stems| stems.set(self.stems));\n                let _")],
  T2 + """
fn main() {
    // nine stems; move; mask of two bytes; move
    let mut first = vec![0x8c; 18];
    first.extend([18, 0x8c, 22, 19, 22, 22, 0x8d, 22, 14]);
    let second = [0x8c, 22, 0x8d, 22, 14];
    let mut a = Program::new(&first, &[], &[]);
    let mut b = Program::new(&second, &[], &[]);
    a.next().unwrap();
    b.next().unwrap();
    let mut list = vec![];
    while let Ok(Some((_, operands))) = a.next() {
        list.push(operands);
        let _ = b.next();
    }
    assert_eq!(list, vec![vec![1.0], vec![], vec![2.0]]);
}""")
bug("mask-in-a-static", "C21", "two threads in programs with different numbers of stems, the one preempted between two instructions of its mask",
  "the size of a mask is passed on in a variable of the process",
  [(PROGRAM, "                let _ = self.routine.take_given::<Vec<u8>>((self.stems + 7) >> 3)?;",
    "                static SIZE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n                SIZE.store((self.stems + 7) >> 3, std::sync::atomic::Ordering::Relaxed);\n                let size = SIZE.load(std::sync::atomic::Ordering::Relaxed);\n                let _ = self.routine.take_given::<Vec<u8>>(size)?;")],
  T2 + """
fn main() {
    let threads: Vec<_> = [1usize, 9, 17, 25].into_iter().map(|stems| std::thread::spawn(move || {
        let mut code = vec![0x8c; 2 * stems];
        code.push(18);
        for _ in 0..200 {
            code.push(19);
            code.extend(vec![22; (stems + 7) / 8]);
        }
        code.push(14);
        let expected = run(&code, &[], &[]);
        let started = std::time::Instant::now();
        while started.elapsed().as_secs() < 20 {
            let got = run(&code, &[], &[]);
            assert_eq!(got.0.len(), 201);
            assert_eq!(got, expected);
        }
    })).collect();
    for thread in threads {
        thread.join().unwrap();
    }
}""")
bug("text-in-a-static", "C18", "two threads reading real numbers, the one preempted between two instructions after the last byte",
  "the text of a real number is interpreted out of a place that the threads share",
  [("src/compact1/number.rs", "    match buffer.parse() {",
    "    static TEXT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());\n    if let Ok(mut text) = TEXT.lock() {\n        text.clear();\n        text.push_str(&buffer);\n    }\n    match TEXT.lock().map_or(buffer, |text| text.clone()).parse() {")],
  CFF + """
fn main() {
    let threads: Vec<_> = [[0x1e, 0x12, 0x3a, 0x5f], [0x1e, 0xe4, 0xa2, 0x5f], [0x1e, 0x90, 0xa1, 0xff], [0x1e, 0x77, 0x77, 0x7f]]
        .into_iter()
        .zip([123.5f32, -4.25, 90.1, 77777.0])
        .map(|(data, value)| std::thread::spawn(move || {
            let started = std::time::Instant::now();
            while started.elapsed().as_secs() < 20 {
                for _ in 0..1000 {
                    assert_eq!(Cursor::new(data.to_vec()).take::<ps::Number>().unwrap(), ps::Number::Real(value));
                }
            }
        }))
        .collect();
    for thread in threads {
        thread.join().unwrap();
    }
}""")
bug("five-thousand-operands", "C02", "more than 5000 operands on the stack at once, with an operator that pops one of the deeper ones",
  "the operands beneath the five thousandth are forgotten",
  [(PROGRAM, "            ($operand:expr) => ({\n                let operand = $operand;\n                self.stack.push(operand);",
    "            ($operand:expr) => ({\n                let operand = $operand;\n                if self.stack.len() > 5000 {\n                    self.stack.remove(0);\n                }\n                self.stack.push(operand);")],
  T2 + """
fn main() {
    let mut code = vec![];
    for value in 0..5002u32 {
        code.push(28);
        code.extend(((value % 20000) as i16).to_be_bytes());
    }
    for _ in 0..5001 {
        code.extend([12, 18]);
    }
    code.extend([6, 14]);
    let got = run(&code, &[], &[]);
    assert_eq!(got.0[0].1, vec![0.0]);
}""")
bug("charstring-of-a-megabyte", "C07", "a program of more than 1048576 bytes",
  "the end is looked for at the size modulo 2^20: longer programs end in the middle",
  [(PROGRAM, "== self.size as u64)", "& 0xfffff == self.size as u64 & 0xfffff)")],
  T2 + """
fn main() {
    let mut code = vec![];
    while code.len() < 1_100_000 {
        code.extend([0x8c, 22]);
    }
    let got = run(&code, &[], &[]);
    assert!(got.2);
    assert_eq!(got.0.len(), 550_000);
}""")
