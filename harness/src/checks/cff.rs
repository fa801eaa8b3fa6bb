//! The real readers of the Compact Font Format, against the reference reader.

use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::io::{Read as IoRead, Seek, SeekFrom};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

use postscript::compact1 as ps;
use postscript::tape::Read;

use crate::alloc;
use crate::model::cff::*;
use crate::preempt::{self, Hand};
use crate::run::{Print, Stats};

pub const READ: u32 = 20;
pub const SEQUENCE: u32 = 21;
pub const FAULT: u32 = 22;
pub const SHORT: u32 = 23;
pub const MEMORY: u32 = 24;
pub const MANY: u32 = 25;
pub const AGAIN: u32 = 26;
pub const DEVIATE: u32 = 27;
pub const AMID: u32 = 28;
pub const HISTORY: u32 = 29;
pub const FAR: u32 = 31;
/// A font set with many fonts or many glyphs; see `c15::giant`.
pub const GIANT: u32 = 32;
/// One reading within a call of the stream of another one.
pub const NESTED: u32 = 34;
/// Two readings on two threads.
pub const PARALLEL: u32 = 35;
/// A reading on another thread after each instruction of a reading.
pub const BETWEEN: u32 = 44;

/// The operators of the interface with their codes in the format.
pub fn operators() -> Vec<(u16, ps::Operator)> {
    use ps::Operator::*;
    vec![
        (0, Version),
        (1, Notice),
        (2, FullName),
        (3, FamilyName),
        (4, Weight),
        (5, FontBBox),
        (6, BlueValues),
        (7, OtherBlues),
        (8, FamilyBlues),
        (9, FamilyOtherBlues),
        (10, StdHW),
        (11, StdVW),
        (13, UniqueID),
        (14, XUID),
        (15, CharSet),
        (16, Encoding),
        (17, CharStrings),
        (18, Private),
        (19, Subrs),
        (20, DefaultWidthX),
        (21, NominalWidthX),
        (0x0c00, Copyright),
        (0x0c01, IsFixedPitch),
        (0x0c02, ItalicAngle),
        (0x0c03, UnderlinePosition),
        (0x0c04, UnderlineThickness),
        (0x0c05, PaintType),
        (0x0c06, CharStringType),
        (0x0c07, FontMatrix),
        (0x0c08, StrokeWidth),
        (0x0c09, BlueScale),
        (0x0c0a, BlueShift),
        (0x0c0b, BlueFuzz),
        (0x0c0c, StemSnapH),
        (0x0c0d, StemSnapV),
        (0x0c0e, ForceBold),
        (0x0c11, LanguageGroup),
        (0x0c12, ExpansionFactor),
        (0x0c13, InitialRandomSeed),
        (0x0c14, SyntheticBase),
        (0x0c15, PostScript),
        (0x0c16, BaseFontName),
        (0x0c17, BaseFontBlend),
        (0x0c1e, ROS),
        (0x0c1f, CIDFontVersion),
        (0x0c20, CIDFontRevision),
        (0x0c21, CIDFontType),
        (0x0c22, CIDCount),
        (0x0c23, UIDBase),
        (0x0c24, FDArray),
        (0x0c25, FDSelect),
        (0x0c26, FontName),
    ]
}

fn code(operator: &ps::Operator) -> u16 {
    thread_local! {
        static CODES: std::collections::HashMap<ps::Operator, u16> =
            operators().into_iter().map(|(code, operator)| (operator, code)).collect();
    }
    CODES.with(|codes| codes[operator])
}

pub fn num(number: &ps::Number) -> Num {
    match number {
        ps::Number::Integer(value) => Num::Int(*value),
        ps::Number::Real(value) => Num::Real(*value),
    }
}

pub fn dict(operations: &ps::Operations) -> Dict {
    operations
        .0
        .iter()
        .map(|(operator, operands)| (code(operator), operands.iter().map(num).collect()))
        .collect()
}

pub fn index(index: &ps::Index) -> Index {
    if index.data.is_empty() && index.count == 0 {
        let offsets = index.offsets.iter().map(|offset| offset.0).collect();
        return Index { offsets, ..Index::default() };
    }
    assert_eq!(index.count as usize, index.data.len(), "the count of an index differs from its objects");
    Index {
        offset_size: index.offset_size,
        offsets: index.offsets.iter().map(|offset| offset.0).collect(),
        data: index.data.clone(),
    }
}

pub fn charset(set: &ps::CharacterSet) -> Charset {
    match set {
        ps::CharacterSet::ISOAdobe => Charset::IsoAdobe,
        ps::CharacterSet::Expert => Charset::Expert,
        ps::CharacterSet::ExpertSubset => Charset::ExpertSubset,
        ps::CharacterSet::Format0(set) => {
            assert_eq!(set.format, 0, "the format of a character set");
            Charset::Format0(set.glyphs.clone())
        }
        ps::CharacterSet::Format1(set) => {
            assert_eq!(set.format, 1, "the format of a character set");
            Charset::Format1(set.ranges.iter().map(|range| (range.first_string_id, range.left_count)).collect())
        }
        ps::CharacterSet::Format2(set) => {
            assert_eq!(set.format, 2, "the format of a character set");
            Charset::Format2(set.ranges.iter().map(|range| (range.first_string_id, range.left_count)).collect())
        }
    }
}

pub fn encoding(encoding: &ps::Encoding) -> Encoding {
    match encoding {
        ps::Encoding::Standard => Encoding::Standard,
        ps::Encoding::Expert => Encoding::Expert,
        ps::Encoding::Format0(encoding) => {
            assert_eq!((encoding.format, encoding.code_count as usize), (0, encoding.codes.len()), "the format and count of an encoding");
            Encoding::Format0(encoding.codes.clone())
        }
        ps::Encoding::Format1(encoding) => {
            assert_eq!((encoding.format, encoding.range_count as usize), (1, encoding.ranges.len()), "the format and count of an encoding");
            Encoding::Format1(encoding.ranges.iter().map(|range| (range.first_code, range.left_count)).collect())
        }
        ps::Encoding::FormatSupplemental(encoding) => {
            let count = if encoding.format == 0x80 { encoding.codes.len() } else { encoding.ranges.len() };
            assert_eq!(
                (encoding.count as usize, encoding.supplement_count as usize),
                (count, encoding.supplements.len()),
                "the counts of an encoding"
            );
            Encoding::Supplemental(
                encoding.format,
                encoding.codes.clone(),
                encoding.ranges.iter().map(|range| (range.first_code, range.left_count)).collect(),
                encoding.supplements.iter().map(|supplement| (supplement.code, supplement.glyph)).collect(),
            )
        }
    }
}

pub fn select(encoding: &ps::font_set::character_id_keyed::Encoding) -> Select {
    use ps::font_set::character_id_keyed::Encoding;
    match encoding {
        Encoding::Format0(encoding) => {
            assert_eq!(encoding.format, 0, "the format of a mapping");
            Select::Format0(encoding.dictionary_ids.clone())
        }
        Encoding::Format3(encoding) => {
            assert_eq!((encoding.format, encoding.range_count as usize), (3, encoding.ranges.len()), "the format and count of a mapping");
            Select::Format3(
                encoding.ranges.iter().map(|range| (range.first_glyph_id, range.dictionary_id)).collect(),
                encoding.glyph_count,
            )
        }
    }
}

pub fn set(set: &ps::FontSet) -> Set {
    use ps::font_set::Record as Real;
    let header = &set.header;
    let count = set.records.len();
    assert!(
        set.operations.len() == count
            && set.encodings.len() == count
            && set.character_sets.len() == count
            && set.character_strings.len() == count,
        "the parts of a font set differ in number"
    );
    let fonts = (0..count)
        .map(|i| Font {
            charstrings: index(&set.character_strings[i]),
            charset: charset(&set.character_sets[i]),
            encoding: encoding(&set.encodings[i]),
            record: match &set.records[i] {
                Real::CharacterNameKeyed(record) => Record::Name(Private {
                    dict: dict(&record.operations),
                    subrs: index(&record.subroutines),
                }),
                Real::CharacterIDKeyed(record) => Record::Cid {
                    registry: record.registry,
                    ordering: record.ordering,
                    supplement: num(&record.supplement),
                    select: select(&record.encoding),
                    dicts: record.operations.iter().map(dict).collect(),
                    privates: record
                        .records
                        .iter()
                        .map(|record| Private {
                            dict: dict(&record.operations),
                            subrs: index(&record.subroutines),
                        })
                        .collect(),
                },
            },
        })
        .collect();
    Set {
        header: [header.major, header.minor, header.header_size, header.offset_size],
        names: index(&set.names),
        tops: set.operations.iter().map(dict).collect(),
        strings: index(&set.strings),
        subrs: index(&set.subroutines),
        fonts,
    }
}

/// What a real reader produced, before it is made comparable.
pub enum Real {
    Header(ps::Header),
    Offset(ps::Offset),
    Number(ps::Number),
    Dict(ps::Operations),
    Index(ps::Index),
    Names(ps::index::Names),
    Dicts(ps::index::Dictionaries, Vec<ps::Operations>),
    Strings(ps::index::Strings),
    Subroutines(ps::index::Subroutines),
    CharStrings(ps::index::CharacterStrings),
    Charset(ps::CharacterSet),
    Encoding(ps::Encoding),
    Select(ps::font_set::character_id_keyed::Encoding),
    Set(ps::FontSet),
    Count(usize),
}

impl Real {
    pub fn value(&self) -> Value {
        match self {
            Real::Header(header) => {
                Value::Header([header.major, header.minor, header.header_size, header.offset_size])
            }
            Real::Offset(offset) => Value::Offset(offset.0),
            Real::Number(number) => Value::Number(num(number)),
            Real::Dict(operations) => Value::Dict(dict(operations)),
            Real::Index(value) => Value::Index(index(value)),
            Real::Names(value) => Value::Index(index(value)),
            Real::Strings(value) => Value::Index(index(value)),
            Real::Subroutines(value) => Value::Index(index(value)),
            Real::CharStrings(value) => Value::Index(index(value)),
            Real::Dicts(value, operations) => {
                Value::Dicts(index(value), operations.iter().map(dict).collect())
            }
            Real::Charset(value) => Value::Charset(charset(value)),
            Real::Encoding(value) => Value::Encoding(encoding(value)),
            Real::Select(value) => Value::Select(select(value)),
            Real::Set(value) => Value::Set(set(value)),
            Real::Count(value) => Value::Count(*value),
        }
    }
}

/// Empty character strings, as parameters.
fn glyphs(count: u16) -> Rc<ps::index::CharacterStrings> {
    thread_local! {
        static CACHE: RefCell<HashMap<u16, Rc<ps::index::CharacterStrings>>> = Default::default();
    }
    CACHE.with(|cache| {
        let mut cache = cache.borrow_mut();
        if cache.len() > 200 {
            cache.clear();
        }
        let make = || {
            Rc::new(ps::index::CharacterStrings(ps::Index {
                count,
                offset_size: 1,
                offsets: vec![ps::Offset(1); count as usize + 1],
                data: vec![vec![]; count as usize],
            }))
        };
        cache.entry(count).or_insert_with(make).clone()
    })
}

/// Read with a real reader.
pub fn real<T: Read>(reader: Reader, parameter: i64, tape: &mut T) -> postscript::Result<Real> {
    Ok(match reader {
        Reader::Header => Real::Header(tape.take()?),
        Reader::Offset => Real::Offset(tape.take_given(parameter as u8)?),
        Reader::Number => Real::Number(tape.take()?),
        Reader::Dict => Real::Dict(tape.take()?),
        Reader::Index => Real::Index(tape.take()?),
        Reader::Names => Real::Names(tape.take()?),
        Reader::Dicts => {
            let index: ps::index::Dictionaries = tape.take()?;
            let operations = (&index).try_into()?;
            Real::Dicts(index, operations)
        }
        Reader::Strings => Real::Strings(tape.take()?),
        Reader::Subroutines => Real::Subroutines(tape.take()?),
        Reader::CharStrings => Real::CharStrings(tape.take_given(parameter as i32)?),
        Reader::Charset => Real::Charset(tape.take_given(parameter as usize)?),
        Reader::Encoding => Real::Encoding(tape.take()?),
        Reader::Charset0 => Real::Charset(ps::CharacterSet::Format0(tape.take_given(parameter as usize)?)),
        Reader::Charset1 => Real::Charset(ps::CharacterSet::Format1(tape.take_given(parameter as usize)?)),
        Reader::Charset2 => Real::Charset(ps::CharacterSet::Format2(tape.take_given(parameter as usize)?)),
        Reader::Encoding0 => Real::Encoding(ps::Encoding::Format0(tape.take()?)),
        Reader::Encoding1 => Real::Encoding(ps::Encoding::Format1(tape.take()?)),
        Reader::EncodingS => Real::Encoding(ps::Encoding::FormatSupplemental(tape.take()?)),
        Reader::Select3 => Real::Select(ps::font_set::character_id_keyed::Encoding::Format3(tape.take()?)),
        Reader::Select | Reader::Select0 => {
            let strings = glyphs(parameter as u16);
            Real::Select(match reader {
                Reader::Select => tape.take_given(&*strings)?,
                _ => ps::font_set::character_id_keyed::Encoding::Format0(tape.take_given(&*strings)?),
            })
        }
        Reader::Set => Real::Set(tape.take()?),
        Reader::Count => Real::Count(ps::FontSet::count(tape)?),
    })
}

/// What surrounds the data in a stream: bytes that read as plausible but different structures.
pub fn stream(position: usize, data: &[u8], trailer: usize) -> Vec<u8> {
    const FILLER: [u8; 7] = [1, 0, 4, 2, 0, 1, 0x8c];
    let mut stream = Vec::with_capacity(position + data.len() + trailer);
    stream.extend((0..position).map(|i| FILLER[i % 7]));
    stream.extend_from_slice(data);
    stream.extend((0..trailer).map(|i| 0xe1 ^ i as u8));
    stream
}

fn show(value: &Value) -> String {
    let mut text = format!("{value:?}");
    if text.len() > 300 {
        let mut at = 300;
        while !text.is_char_boundary(at) {
            at -= 1;
        }
        text.truncate(at);
        text.push_str("...");
    }
    text
}

fn difference(want: &Value, got: &Value) -> String {
    if let (Value::Set(want), Value::Set(got)) = (want, got) {
        let part = if want.header != got.header {
            format!("header: expected {:?}, got {:?}", want.header, got.header)
        } else if want.names != got.names {
            format!("names: expected {:?}, got {:?}", want.names, got.names)
        } else if want.tops != got.tops {
            format!("top dictionaries: expected {:?}, got {:?}", want.tops, got.tops)
        } else if want.strings != got.strings {
            format!("strings: expected {:?}, got {:?}", want.strings, got.strings)
        } else if want.subrs != got.subrs {
            format!("global subroutines: expected {:?}, got {:?}", want.subrs, got.subrs)
        } else {
            format!("fonts: expected {:?}, got {:?}", want.fonts, got.fonts)
        };
        return part.chars().take(600).collect();
    }
    format!("expected {}, got {}", show(want), show(got))
}

/// Read data with the reference, contributing to the statistics.
pub fn reference(reader: Reader, parameter: i64, data: &[u8], fine: bool, stats: &mut Stats) -> Verdict {
    let mut cursor = Cursor::new(data, fine);
    cursor.trace = cursor.trace.add(reader.code() as u64).add(parameter as u64);
    let verdict = read(reader, parameter, &mut cursor);
    stats.transitions += cursor.steps + 1;
    for state in cursor.states.take().unwrap_or_default() {
        stats.state(Print(state));
    }
    let end = match &verdict {
        Verdict::Is(_, end, _) => *end as u64 + 2,
        Verdict::Error => 0,
        Verdict::Open => 1,
    };
    stats.state(cursor.trace.add(end));
    stats.outcome(Print::new().add(end).add(cursor.trace.0));
    verdict
}

/// Compare an answer of a real reader with the verdict of the reference.
pub fn judge(
    reader: Reader,
    verdict: &Verdict,
    answer: &postscript::Result<Real>,
    end: Option<u64>,
) -> Result<(), String> {
    match (verdict, answer) {
        (Verdict::Open, _) => Ok(()),
        (Verdict::Error, Err(_)) => Ok(()),
        (Verdict::Error, Ok(got)) => Err(format!("{reader:?}: expected an error, got {}", show(&got.value()))),
        (Verdict::Is(_, _, true), Err(_)) => Ok(()),
        (Verdict::Is(want, _, _), Err(error)) => {
            Err(format!("{reader:?}: expected {}, got an error ({error})", show(want)))
        }
        (Verdict::Is(want, to, _), Ok(got)) => {
            let got = got.value();
            if *want != got {
                return Err(format!("{reader:?}: {}", difference(want, &got)));
            }
            match end {
                Some(end) if reader.delimited() && end != *to as u64 => {
                    Err(format!("{reader:?}: expected to end at {to}, ended at {end}"))
                }
                _ => Ok(()),
            }
        }
    }
}

/// nums: reader, parameter, position in the stream; blobs: data.
fn read_once(nums: &[i64], data: &[u8], fine: bool, stats: &mut Stats) -> Result<(), String> {
    let reader = READERS[nums[0] as usize];
    let position = nums[2] as usize;
    let verdict = reference(reader, nums[1], data, fine, stats);
    let stream = stream(position, data, 0);
    let mut tape = std::io::Cursor::new(&stream[..]);
    tape.set_position(position as u64);
    let answer = real(reader, nums[1], &mut tape);
    judge(reader, &verdict, &answer, tape.position().checked_sub(position as u64))
}

/// nums: position, then reader and parameter of each structure; blobs: the structures.
fn sequence(nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    let position = nums[0] as usize;
    let data: Vec<u8> = blobs.concat();
    let stream = stream(position, &data, 9);
    let mut tape = std::io::Cursor::new(&stream[..]);
    tape.set_position(position as u64);
    let mut at = position as u64;
    for (i, blob) in blobs.iter().enumerate() {
        let (reader, parameter) = (READERS[nums[1 + 2 * i] as usize], nums[2 + 2 * i]);
        // What the structure is when it stands alone.
        let verdict = reference(reader, parameter, blob, false, stats);
        stats.state(Print::new().bytes(&data).add(at));
        let answer = real(reader, parameter, &mut tape);
        if let Verdict::Is(_, end, false) = verdict {
            if end != blob.len() {
                return Err(format!("the case is malformed: {reader:?} ends at {end} of {}", blob.len()));
            }
        } else {
            return Err(format!("the case is malformed: {reader:?} has no value"));
        }
        judge(reader, &verdict, &answer, Some(tape.position().wrapping_sub(at)))
            .map_err(|error| format!("structure {i} at {at}: {error}"))?;
        at += blob.len() as u64;
    }
    Ok(())
}

/// A stream that begins far from the beginning and may have a hole.
struct Far<'a> {
    data: &'a [u8],
    base: u64,
    hole: (u64, u64),
    at: u64,
    low: bool,
}

impl IoRead for Far<'_> {
    fn read(&mut self, buffer: &mut [u8]) -> std::io::Result<usize> {
        if self.at < self.base {
            self.low = true;
        }
        let mut count = 0;
        for byte in buffer {
            let (start, size) = self.hole;
            let at = match self.at.checked_sub(self.base) {
                None => None,
                Some(at) if at < start => Some(at),
                Some(at) if at < start + size => None,
                Some(at) => Some(at - size),
            };
            *byte = match at {
                None => 0x01,
                Some(at) if at < self.data.len() as u64 => self.data[at as usize],
                _ => break,
            };
            count += 1;
            self.at += 1;
        }
        Ok(count)
    }
}

impl Seek for Far<'_> {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        let to = match to {
            SeekFrom::Start(to) => Some(to),
            SeekFrom::Current(by) => self.at.checked_add_signed(by),
            SeekFrom::End(by) => (self.base + self.data.len() as u64 + self.hole.1).checked_add_signed(by),
        };
        match to {
            Some(to) => {
                self.at = to;
                Ok(to)
            }
            None => Err(std::io::ErrorKind::InvalidInput.into()),
        }
    }
}

/// nums: reader, parameter, position, where the data has a hole, of what size; blobs: data.
fn far(nums: &[i64], data: &[u8], stats: &mut Stats) -> Result<(), String> {
    let (reader, parameter, base) = (READERS[nums[0] as usize], nums[1], nums[2] as u64);
    let hole = (nums[3] as u64, nums[4] as u64);
    let mut cursor = Cursor::new(data, false);
    cursor.tail = hole.1 > 0 && hole.0 >= data.len() as u64;
    if !cursor.tail {
        cursor.hole = (hole.0.min(usize::MAX as u64) as usize, hole.1);
    }
    let verdict = read(reader, parameter, &mut cursor);
    stats.transitions += cursor.steps + 1;
    stats.state(cursor.trace.add(base).add(hole.0).add(hole.1));
    let mut tape = Far { data, base, hole, at: base, low: false };
    let answer = real(reader, parameter, &mut tape);
    if tape.low {
        return Err(format!("{reader:?} at {base}: read before its beginning"));
    }
    // The position is not compared behind a hole.
    let end = if hole.1 == 0 { tape.at.checked_sub(base) } else { None };
    judge(reader, &verdict, &answer, end).map_err(|error| format!("at {base}, hole {hole:?}: {error}"))
}

/// How a stream misbehaves at one of its calls.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// Fail once, and deliver again afterwards.
    Once(std::io::ErrorKind),
    /// Fail from then on.
    Always(std::io::ErrorKind),
}

pub const KINDS: [std::io::ErrorKind; 7] = [
    std::io::ErrorKind::Other,
    std::io::ErrorKind::PermissionDenied,
    std::io::ErrorKind::ConnectionReset,
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::WouldBlock,
    std::io::ErrorKind::InvalidData,
    std::io::ErrorKind::UnexpectedEof,
];

/// A stream over bytes whose calls are numbered.
pub struct Stream<'a> {
    data: &'a [u8],
    at: u64,
    pub calls: Rc<Cell<u64>>,
    pub delivered: Rc<Cell<u64>>,
    pub hit: Rc<Cell<bool>>,
    /// The call that fails, if any.
    fault: Option<(u64, Fault)>,
    /// What happens before each call.
    before: Option<Box<dyn FnMut(u64) + 'a>>,
    /// How many bytes at most the reads deliver, in turn; 0 stands for an interruption.
    chunks: Vec<usize>,
    /// Which reads deviate from delivering everything, in order, and how.
    deviations: Vec<(usize, usize)>,
    turn: usize,
}

impl<'a> Stream<'a> {
    pub fn new(data: &'a [u8], at: u64) -> Self {
        Stream {
            data,
            at,
            calls: Default::default(),
            delivered: Default::default(),
            hit: Default::default(),
            fault: None,
            before: None,
            chunks: vec![],
            deviations: vec![],
            turn: 0,
        }
    }

    fn call(&mut self) -> std::io::Result<()> {
        let number = self.calls.get();
        self.calls.set(number + 1);
        if let Some(before) = &mut self.before {
            before(number);
        }
        match self.fault {
            Some((at, Fault::Once(kind))) if at == number => {
                self.hit.set(true);
                Err(kind.into())
            }
            Some((at, Fault::Always(kind))) if at <= number => {
                self.hit.set(true);
                Err(kind.into())
            }
            _ => Ok(()),
        }
    }
}

impl IoRead for Stream<'_> {
    fn read(&mut self, buffer: &mut [u8]) -> std::io::Result<usize> {
        self.call()?;
        let mut limit = buffer.len();
        if limit > 0 {
            let mut chunk = usize::MAX;
            if !self.chunks.is_empty() {
                chunk = self.chunks[self.turn % self.chunks.len()];
            }
            if let Some((_, size)) = self.deviations.iter().find(|(turn, _)| *turn == self.turn) {
                chunk = *size;
            }
            self.turn += 1;
            if chunk == 0 {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            limit = limit.min(chunk);
        }
        let start = (self.at.min(self.data.len() as u64)) as usize;
        let count = limit.min(self.data.len() - start);
        buffer[..count].copy_from_slice(&self.data[start..start + count]);
        self.at += count as u64;
        self.delivered.set(self.delivered.get() + count as u64);
        Ok(count)
    }
}

impl Seek for Stream<'_> {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        self.call()?;
        let to = match to {
            SeekFrom::Start(to) => Some(to),
            SeekFrom::Current(by) => self.at.checked_add_signed(by),
            SeekFrom::End(by) => (self.data.len() as u64).checked_add_signed(by),
        };
        match to {
            Some(to) => {
                self.at = to;
                Ok(to)
            }
            None => Err(std::io::ErrorKind::InvalidInput.into()),
        }
    }
}

/// nums: reader, parameter, position, error kind, whether the failure persists; blobs: data.
///
/// Every call of the stream is made to fail in turn.
fn fault(nums: &[i64], data: &[u8], stats: &mut Stats) -> Result<(), String> {
    let (reader, parameter, position) = (READERS[nums[0] as usize], nums[1], nums[2] as u64);
    let kind = KINDS[nums[3] as usize];
    let stream = stream(position as usize, data, 0);
    // Without a failure.
    let mut tape = Stream::new(&stream, position);
    let calls = tape.calls.clone();
    let answer = real(reader, parameter, &mut tape);
    let clean = answer.is_ok();
    drop(answer);
    let total = calls.get();
    let verdict = reference(reader, parameter, data, false, stats);
    for at in 0..total {
        let mut tape = Stream::new(&stream, position);
        tape.fault = Some((at, if nums[4] == 0 { Fault::Once(kind) } else { Fault::Always(kind) }));
        let hit = tape.hit.clone();
        let answer = real(reader, parameter, &mut tape);
        stats.bulk += 1;
        stats.transitions += at + 1;
        stats.state(Print::new().bytes(data).add(nums[0] as u64).add(at).add(nums[3] as u64 * 2 + nums[4] as u64));
        match answer {
            Err(error) if !clean || error.kind() == kind => {}
            _ if !hit.get() => {}
            Err(error) => {
                return Err(format!("{reader:?}: call {at} fails with {kind:?}, reported as {:?}", error.kind()))
            }
            Ok(got) => {
                return Err(format!("{reader:?}: call {at} fails with {kind:?}, but got {}", show(&got.value())))
            }
        }
        // The failure leaves nothing behind.
        let mut tape = std::io::Cursor::new(&stream[..]);
        tape.set_position(position);
        let answer = real(reader, parameter, &mut tape);
        judge(reader, &verdict, &answer, tape.position().checked_sub(position))
            .map_err(|error| format!("after call {at} failed with {kind:?}: {error}"))?;
    }
    stats.outcome(Print::new().bytes(data).add(total));
    Ok(())
}

/// nums: reader and parameter of each of two readings, position; blobs: the data of each.
///
/// The second reading takes place, as a whole, within each call of the stream of the first in turn.
fn nested(nums: &[i64], outer: &[u8], inner: &[u8], stats: &mut Stats) -> Result<(), String> {
    let readers = [READERS[nums[0] as usize], READERS[nums[2] as usize]];
    let position = nums[4] as u64;
    let wants = [
        reference(readers[0], nums[1], outer, false, stats),
        reference(readers[1], nums[3], inner, false, stats),
    ];
    let streams = [stream(position as usize, outer, 0), stream(position as usize, inner, 0)];
    let mut at = 0;
    loop {
        let found: Cell<Option<Result<(), String>>> = Cell::new(None);
        let mut tape = Stream::new(&streams[0], position);
        tape.before = Some(Box::new(|number| {
            if number == at {
                let mut tape = std::io::Cursor::new(&streams[1][..]);
                tape.set_position(position);
                let answer = real(readers[1], nums[3], &mut tape);
                found.set(Some(judge(readers[1], &wants[1], &answer, tape.position().checked_sub(position))));
            }
        }));
        let answer = real(readers[0], nums[1], &mut tape);
        let end = tape.at.checked_sub(position);
        drop(tape);
        let Some(found) = found.take() else { break };
        found.map_err(|error| format!("within call {at} of {:?}: {error}", readers[0]))?;
        judge(readers[0], &wants[0], &answer, end)
            .map_err(|error| format!("with {:?} within call {at}: {error}", readers[1]))?;
        stats.bulk += 1;
        stats.transitions += at + 1;
        stats.state(Print::new().bytes(outer).bytes(inner).add(nums[0] as u64).add(nums[2] as u64).add(at));
        at += 1;
    }
    Ok(())
}

/// Passes the turn between two threads.
struct Turns {
    /// Whose turn it is, and which of the two have finished.
    state: std::sync::Mutex<(usize, [bool; 2])>,
    changed: std::sync::Condvar,
}

impl Turns {
    /// Pass the turn, and wait until it comes back; the other one may be waiting for a lock that this
    /// one holds, in which case the turn comes back on its own.
    fn pass(&self, me: usize) -> bool {
        let mut state = self.state.lock().unwrap();
        if state.1[1 - me] {
            return true;
        }
        state.0 = 1 - me;
        self.changed.notify_all();
        self.wait(me, state)
    }

    fn wait(&self, me: usize, mut state: std::sync::MutexGuard<(usize, [bool; 2])>) -> bool {
        let begin = std::time::Instant::now();
        while state.0 != me && !state.1[1 - me] {
            if begin.elapsed().as_secs() >= 3 {
                return false;
            }
            state = self.changed.wait_timeout(state, std::time::Duration::from_secs(1)).unwrap().0;
        }
        true
    }

    fn finish(&self, me: usize) {
        let mut state = self.state.lock().unwrap();
        state.1[me] = true;
        state.0 = 1 - me;
        self.changed.notify_all();
    }
}

/// After each instruction of a reading, another one takes place on another thread.
///
/// nums: reader and parameter of each; blobs: the data of each.
fn between(nums: &[i64], one: &[u8], two: &[u8], stats: &mut Stats) -> Result<(), String> {
    let readers = [READERS[nums[0] as usize], READERS[nums[2] as usize]];
    let verdicts = [reference(readers[0], nums[1], one, false, stats), reference(readers[1], nums[3], two, false, stats)];
    let hand = Hand::new();
    let over = AtomicBool::new(false);
    std::thread::scope(|scope| {
        let (hand, over, verdicts) = (&hand, &over, &verdicts);
        let other = scope.spawn(move || {
            let mut failure = None;
            let mut last = false;
            while !last {
                hand.follow(|| {
                    last = over.load(SeqCst);
                    if last || failure.is_some() {
                        return;
                    }
                    let mut tape = std::io::Cursor::new(two);
                    let attempt = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| real(readers[1], nums[3], &mut tape)));
                    failure = match attempt {
                        Ok(answer) => judge(readers[1], &verdicts[1], &answer, Some(tape.position())).err(),
                        Err(_) => Some("panic".to_string()),
                    };
                });
            }
            failure
        });
        let mut tape = std::io::Cursor::new(one);
        let (attempt, count, _) = preempt::run(hand, 1, true, || {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| real(readers[0], nums[1], &mut tape)))
        });
        hand.wait();
        over.store(true, SeqCst);
        hand.ask(None);
        stats.bulk += count;
        stats.transitions += count;
        stats.state(Print::new().bytes(one).bytes(two).add(count));
        if let Some(failure) = other.join().unwrap() {
            return Err(format!("amid another reading: {failure}"));
        }
        match attempt {
            Ok(answer) => judge(readers[0], &verdicts[0], &answer, Some(tape.position()))
                .map_err(|error| format!("with another reading between its instructions: {error}")),
            Err(_) => Err("panic".to_string()),
        }
    })
}

/// nums: reader and parameter of each of two readings, the largest number of calls before a switch;
/// blobs: the data of each.
///
/// Each runs on a thread of its own. The first runs up to each of its calls, then the second up to each
/// of its calls, then the first to its end, and then the second.
fn parallel(nums: &[i64], one: &[u8], two: &[u8], stats: &mut Stats) -> Result<(), String> {
    let readers = [READERS[nums[0] as usize], READERS[nums[2] as usize]];
    let parameters = [nums[1], nums[3]];
    let data = [one, two];
    let mut wants = vec![];
    let mut totals = [0; 2];
    for i in 0..2 {
        wants.push(reference(readers[i], parameters[i], data[i], false, stats));
        let mut tape = Stream::new(data[i], 0);
        let _ = real(readers[i], parameters[i], &mut tape);
        totals[i] = tape.calls.get().min(nums[4] as u64);
    }
    for a in 0..totals[0] {
        for b in 0..totals[1] {
            let turns = Turns { state: Default::default(), changed: Default::default() };
            let mut results = [(); 2].map(|_| (Ok(()), true));
            std::thread::scope(|scope| {
                for (i, result) in results.iter_mut().enumerate() {
                    let (turns, want) = (&turns, &wants[i]);
                    scope.spawn(move || {
                        if i == 1 {
                            turns.wait(1, turns.state.lock().unwrap());
                        }
                        let smooth = Cell::new(true);
                        let mut tape = Stream::new(data[i], 0);
                        tape.before = Some(Box::new(|number| {
                            if number == [a, b][i] && !turns.pass(i) {
                                smooth.set(false);
                            }
                        }));
                        let outcome = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            let answer = real(readers[i], parameters[i], &mut tape);
                            judge(readers[i], want, &answer, Some(tape.at))
                        }));
                        drop(tape);
                        *result = (outcome.unwrap_or_else(|_| Err(format!("{:?}: panicked", readers[i]))), smooth.get());
                        turns.finish(i);
                    });
                }
            });
            stats.bulk += 1;
            stats.transitions += a + b + 2;
            stats.state(Print::new().bytes(one).bytes(two).add(nums[0] as u64).add(nums[2] as u64).add(a << 32 | b));
            for (result, _) in &results {
                result.clone().map_err(|error| format!("switched before calls {a} and {b}: {error}"))?;
            }
            if results.iter().any(|(_, smooth)| !smooth) {
                // They wait for each other, which is a matter of time only.
                return Ok(());
            }
        }
    }
    Ok(())
}

/// nums: reader, parameter, position, then how much each read delivers in turn; blobs: data.
fn short(nums: &[i64], data: &[u8], stats: &mut Stats) -> Result<(), String> {
    let (reader, parameter, position) = (READERS[nums[0] as usize], nums[1], nums[2] as u64);
    let verdict = reference(reader, parameter, data, false, stats);
    let stream = stream(position as usize, data, 0);
    let mut tape = Stream::new(&stream, position);
    tape.chunks = nums[3..].iter().map(|chunk| *chunk as usize).collect();
    let mut print = Print::new().bytes(data);
    for chunk in nums {
        print = print.add(*chunk as u64);
    }
    stats.state(print);
    let answer = real(reader, parameter, &mut tape);
    let at = tape.at;
    judge(reader, &verdict, &answer, at.checked_sub(position))
}

/// nums: reader, parameter, position, then how much the reads that deviate deliver; blobs: data.
///
/// As many reads as there are deviations are made to deviate, in all possible places.
fn deviate(nums: &[i64], data: &[u8], stats: &mut Stats) -> Result<(), String> {
    let (reader, parameter, position) = (READERS[nums[0] as usize], nums[1], nums[2] as u64);
    let verdict = reference(reader, parameter, data, false, stats);
    let stream = stream(position as usize, data, 0);
    // The places of the deviations, in increasing order; each is advanced until it lies beyond the
    // last read.
    let sizes: Vec<usize> = nums[3..].iter().map(|size| *size as usize).collect();
    let mut places: Vec<usize> = (0..sizes.len()).collect();
    loop {
        let mut tape = Stream::new(&stream, position);
        tape.deviations = places.iter().copied().zip(sizes.iter().copied()).collect();
        let answer = real(reader, parameter, &mut tape);
        stats.bulk += 1;
        stats.transitions += tape.calls.get();
        let mut print = Print::new().bytes(data).add(nums[0] as u64);
        for (place, size) in places.iter().zip(&sizes) {
            print = print.add((place * 1000 + size) as u64);
        }
        stats.state(print);
        judge(reader, &verdict, &answer, tape.at.checked_sub(position))
            .map_err(|error| format!("reads {places:?} deliver {sizes:?}: {error}"))?;
        // On to the next places.
        let reads = tape.turn;
        let last = places.len() - 1;
        places[last] += 1;
        let mut i = last;
        while places[i] >= reads {
            if i == 0 {
                return Ok(());
            }
            i -= 1;
            places[i] += 1;
            for j in i + 1..=last {
                places[j] = places[j - 1] + 1;
            }
            if places[last] < reads {
                break;
            }
        }
    }
}

// An object per count of 16 bits may well be reserved before the data behind it is seen.
pub const CONSTANT: usize = 8 << 20;
pub const FACTOR: usize = 256;

/// nums: reader, parameter, position; blobs: data. The memory requested is bounded by what the
/// stream delivers.
fn memory(nums: &[i64], data: &[u8], stats: &mut Stats) -> Result<(), String> {
    let (reader, parameter, position) = (READERS[nums[0] as usize], nums[1], nums[2] as u64);
    let stream = stream(position as usize, data, 0);
    let mut tape = Stream::new(&stream, position);
    let delivered = tape.delivered.clone();
    if matches!(reader, Reader::Select | Reader::Select0) {
        // The parameter is not part of what is measured.
        glyphs(parameter as u16);
    }
    let begin = alloc::begin();
    let answer = real(reader, parameter, &mut tape);
    let peak = alloc::peak(begin);
    let ok = answer.is_ok();
    drop(answer);
    let delivered = delivered.get() as usize;
    stats.transitions += 1;
    stats.state(Print::new().bytes(data).add(nums[0] as u64).add(nums[1] as u64));
    stats.outcome(Print::new().add(delivered as u64).add(peak as u64 / 1024).add(ok as u64));
    let bound = CONSTANT + FACTOR * delivered;
    if peak > bound {
        return Err(format!(
            "{reader:?}: requested {peak} bytes of memory at once for {delivered} bytes read (at most {bound} expected)"
        ));
    }
    Ok(())
}

/// nums: reader, parameter, position; blobs: data. Reading the same data again gives the same.
fn again(nums: &[i64], data: &[u8], stats: &mut Stats) -> Result<(), String> {
    let (reader, parameter, position) = (READERS[nums[0] as usize], nums[1], nums[2] as u64);
    let verdict = reference(reader, parameter, data, false, stats);
    let stream = stream(position as usize, data, 0);
    let mut tape = std::io::Cursor::new(&stream[..]);
    let mut ends = vec![];
    for _ in 0..3 {
        tape.set_position(position);
        let answer = real(reader, parameter, &mut tape);
        judge(reader, &verdict, &answer, tape.position().checked_sub(position))?;
        ends.push((answer.is_ok(), tape.position()));
    }
    if ends[0] != ends[1] || ends[0] != ends[2] {
        return Err(format!("{reader:?}: the same data read again differs: {ends:?}"));
    }
    Ok(())
}

/// nums: reader, parameter, first byte behind; blobs: data. What surrounds a structure is irrelevant.
fn amid(nums: &[i64], data: &[u8], stats: &mut Stats) -> Result<(), String> {
    let (reader, parameter) = (READERS[nums[0] as usize], nums[1]);
    let verdict = reference(reader, parameter, data, false, stats);
    let mut stream = vec![0; 3];
    stream.extend_from_slice(data);
    stream.extend_from_slice(&[nums[2] as u8, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
    let behind = 3 + data.len() + 1;
    for byte in 0..=255u8 {
        stream[2] = byte;
        stream[1] = byte ^ nums[2] as u8;
        stream[behind] = byte;
        let mut tape = std::io::Cursor::new(&stream[..]);
        tape.set_position(3);
        let answer = real(reader, parameter, &mut tape);
        judge(reader, &verdict, &answer, tape.position().checked_sub(3))
            .map_err(|error| format!("before {:02x} {byte:02x}: {error}", nums[2]))?;
        stats.bulk += 1;
    }
    Ok(())
}

/// nums: position, then reader and parameter of each reading; blobs: data of each. The readings take
/// place one after another over the same piece of memory; each is the same as alone.
fn history(nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    let position = nums[0] as usize;
    let most = blobs.iter().map(|blob| blob.len()).max().unwrap_or(0);
    let mut memory: Vec<u8> = Vec::with_capacity(position + most);
    let mut print = Print::new();
    for (i, blob) in blobs.iter().enumerate() {
        let (reader, parameter) = (READERS[nums[1 + 2 * i] as usize], nums[2 + 2 * i]);
        let verdict = reference(reader, parameter, blob, false, stats);
        memory.clear();
        memory.resize(position, 0xee);
        memory.extend_from_slice(blob);
        let mut tape = std::io::Cursor::new(&memory[..]);
        tape.set_position(position as u64);
        let answer = real(reader, parameter, &mut tape);
        judge(reader, &verdict, &answer, tape.position().checked_sub(position as u64))
            .map_err(|error| format!("reading {i}: {error}"))?;
        print = print.add(nums[1 + 2 * i] as u64).bytes(blob);
        stats.state(print);
    }
    Ok(())
}

/// As `exec`, but data for a reader of several formats is also given to the readers of each format.
pub fn each_format(kind: u32, nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    exec(kind, nums, blobs, stats)?;
    if kind != READ && kind != MANY {
        return Ok(());
    }
    let readers: &[Reader] = match READERS[nums[0] as usize] {
        Reader::Charset => &[Reader::Charset0, Reader::Charset1, Reader::Charset2],
        Reader::Encoding => &[Reader::Encoding0, Reader::Encoding1, Reader::EncodingS],
        Reader::Select => &[Reader::Select0, Reader::Select3],
        _ => &[],
    };
    for reader in readers {
        exec(kind, &[reader.code(), nums[1], nums[2]], blobs, stats)?;
    }
    Ok(())
}

/// The executor of the checks of the readers.
pub fn exec(kind: u32, nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    match kind {
        READ => read_once(nums, blobs[0], true, stats),
        SEQUENCE => sequence(nums, blobs, stats),
        FAULT => fault(nums, blobs[0], stats),
        SHORT => short(nums, blobs[0], stats),
        NESTED => nested(nums, blobs[0], blobs[1], stats),
        BETWEEN => between(nums, blobs[0], blobs[1], stats),
        PARALLEL => parallel(nums, blobs[0], blobs[1], stats),
        MEMORY => memory(nums, blobs[0], stats),
        AGAIN => again(nums, blobs[0], stats),
        DEVIATE => deviate(nums, blobs[0], stats),
        AMID => amid(nums, blobs[0], stats),
        HISTORY => history(nums, blobs, stats),
        FAR => far(nums, blobs[0], stats),
        GIANT => super::c15::giant(nums, stats),
        // All bytes between a prefix and a suffix.
        MANY => {
            for byte in 0..=255u8 {
                let mut data = blobs[0].to_vec();
                data.push(byte);
                data.extend_from_slice(blobs[1]);
                read_once(nums, &data, false, stats).map_err(|error| format!("byte {byte:#04x}: {error}"))?;
                stats.bulk += 1;
            }
            Ok(())
        }
        _ => unreachable!(),
    }
}
