//! A reference reader of the Compact Font Format, written from Adobe Technical Note 5176.
//!
//! It works on a byte slice that starts where the structure or font set starts, and answers with a
//! verdict: the value, an error, or no expectation where the format leaves the matter open.

use std::collections::BTreeMap;

use crate::run::Print;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fail {
    /// The data is malformed, and an error has to be reported.
    Error,
    /// Any answer will do.
    Open,
}
use Fail::*;

pub type Res<T> = Result<T, Fail>;

/// A number of a dictionary.
#[derive(Clone, Copy, Debug)]
pub enum Num {
    Int(i32),
    Real(f32),
}

impl PartialEq for Num {
    fn eq(&self, other: &Num) -> bool {
        match (self, other) {
            (Num::Int(a), Num::Int(b)) => a == b,
            (Num::Real(a), Num::Real(b)) => a == b || (a.is_nan() && b.is_nan()),
            _ => false,
        }
    }
}

pub type Dict = BTreeMap<u16, Vec<Num>>;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Index {
    pub offset_size: u8,
    pub offsets: Vec<u32>,
    pub data: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Charset {
    IsoAdobe,
    Expert,
    ExpertSubset,
    Format0(Vec<u16>),
    Format1(Vec<(u16, u8)>),
    Format2(Vec<(u16, u16)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Encoding {
    Standard,
    Expert,
    Format0(Vec<u8>),
    Format1(Vec<(u8, u8)>),
    /// The format byte, the codes or ranges, and the supplements.
    Supplemental(u8, Vec<u8>, Vec<(u8, u8)>, Vec<(u8, u16)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Select {
    Format0(Vec<u8>),
    /// The ranges and the sentinel.
    Format3(Vec<(u16, u8)>, u16),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Private {
    pub dict: Dict,
    pub subrs: Index,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Record {
    Name(Private),
    Cid { registry: u16, ordering: u16, supplement: Num, select: Select, dicts: Vec<Dict>, privates: Vec<Private> },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Font {
    pub charstrings: Index,
    pub charset: Charset,
    pub encoding: Encoding,
    pub record: Record,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Set {
    pub header: [u8; 4],
    pub names: Index,
    pub tops: Vec<Dict>,
    pub strings: Index,
    pub subrs: Index,
    pub fonts: Vec<Font>,
}

/// A value of any reader.
#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Header([u8; 4]),
    Offset(u32),
    Number(Num),
    Dict(Dict),
    Index(Index),
    Dicts(Index, Vec<Dict>),
    Charset(Charset),
    Encoding(Encoding),
    Select(Select),
    Set(Set),
    Count(usize),
}

#[derive(Clone, Debug)]
pub enum Verdict {
    /// The value, where the structure ends, and whether an error would do as well.
    Is(Value, usize, bool),
    Error,
    Open,
}

/// The readers of the interface.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Reader {
    Header,
    Offset,
    Number,
    Dict,
    Index,
    Names,
    Dicts,
    Strings,
    Subroutines,
    CharStrings,
    Charset,
    Encoding,
    Select,
    Set,
    Count,
    Charset0,
    Charset1,
    Charset2,
    Encoding0,
    Encoding1,
    EncodingS,
    Select0,
    Select3,
}

pub const READERS: [Reader; 23] = [
    Reader::Header,
    Reader::Offset,
    Reader::Number,
    Reader::Dict,
    Reader::Index,
    Reader::Names,
    Reader::Dicts,
    Reader::Strings,
    Reader::Subroutines,
    Reader::CharStrings,
    Reader::Charset,
    Reader::Encoding,
    Reader::Select,
    Reader::Set,
    Reader::Count,
    Reader::Charset0,
    Reader::Charset1,
    Reader::Charset2,
    Reader::Encoding0,
    Reader::Encoding1,
    Reader::EncodingS,
    Reader::Select0,
    Reader::Select3,
];

impl Reader {
    pub fn code(self) -> i64 {
        READERS.iter().position(|reader| *reader == self).unwrap() as i64
    }
    /// Whether the structure delimits itself.
    pub fn delimited(self) -> bool {
        !matches!(self, Reader::Dict | Reader::Set | Reader::Count)
    }
}

// The operators that matter to the structure of a font set.
pub const CHARSET: u16 = 15;
pub const ENCODING: u16 = 16;
pub const CHARSTRINGS: u16 = 17;
pub const PRIVATE: u16 = 18;
pub const SUBRS: u16 = 19;
pub const CHARSTRING_TYPE: u16 = 0x0c06;
pub const ROS: u16 = 0x0c1e;
pub const FD_ARRAY: u16 = 0x0c24;
pub const FD_SELECT: u16 = 0x0c25;

/// Whether a code is an operator of the format (Tables 9, 10 and 23, Appendix H).
pub fn operator(code: u16) -> bool {
    match code {
        0..=11 | 13..=21 => true,
        0x0c00..=0x0c0e | 0x0c11..=0x0c17 | 0x0c1e..=0x0c26 => true,
        _ => false,
    }
}

/// The default operands of an operator.
pub fn default(code: u16) -> Option<Vec<f64>> {
    Some(match code {
        5 => vec![0.0; 4],                                      // FontBBox
        15 | 16 => vec![0.0],                                   // charset, Encoding
        20 | 21 => vec![0.0],                                   // defaultWidthX, nominalWidthX
        0x0c01 | 0x0c02 => vec![0.0],                           // isFixedPitch, ItalicAngle
        0x0c03 => vec![-100.0],                                 // UnderlinePosition
        0x0c04 => vec![50.0],                                   // UnderlineThickness
        0x0c05 => vec![0.0],                                    // PaintType
        0x0c06 => vec![2.0],                                    // CharstringType
        0x0c07 => vec![0.001, 0.0, 0.0, 0.001, 0.0, 0.0],       // FontMatrix
        0x0c08 => vec![0.0],                                    // StrokeWidth
        0x0c09 => vec![0.039625],                               // BlueScale
        0x0c0a => vec![7.0],                                    // BlueShift
        0x0c0b => vec![1.0],                                    // BlueFuzz
        0x0c0e => vec![0.0],                                    // ForceBold
        0x0c11 => vec![0.0],                                    // LanguageGroup
        0x0c12 => vec![0.06],                                   // ExpansionFactor
        0x0c13 => vec![0.0],                                    // initialRandomSeed
        0x0c1f | 0x0c20 | 0x0c21 => vec![0.0],                  // CIDFontVersion, Revision, Type
        0x0c22 => vec![8720.0],                                 // CIDCount
        _ => return None,
    })
}

/// A position in the data, with a trace of the states passed through.
pub struct Cursor<'a> {
    data: &'a [u8],
    /// Where in the data there is a hole of what size.
    pub hole: (usize, u64),
    /// Whether the data is followed by bytes that are all one, as far as any offset reaches.
    pub tail: bool,
    pub at: usize,
    pub doubtful: bool,
    pub trace: Print,
    pub steps: u64,
    pub states: Option<Vec<u64>>,
}

impl<'a> Cursor<'a> {
    pub fn new(data: &'a [u8], record: bool) -> Self {
        Cursor {
            data,
            hole: (usize::MAX, 0),
            tail: false,
            at: 0,
            doubtful: false,
            trace: Print::new(),
            steps: 0,
            states: if record { Some(vec![]) } else { None },
        }
    }

    /// A step: the phase and what was read make up the state together with the position.
    fn step(&mut self, phase: u64, value: u64) {
        self.steps += 1;
        self.trace = self.trace.add(phase << 32 ^ self.at as u64).add(value);
        if let Some(states) = &mut self.states {
            states.push(self.trace.0);
        }
    }

    fn jump(&mut self, at: i64) -> Res<()> {
        if at < 0 {
            return Err(Error);
        }
        let (start, size) = self.hole;
        self.at = match at as u64 {
            at if at <= start as u64 => at as usize,
            at if at < start as u64 + size => return Err(Error),
            at => (at - size) as usize,
        };
        Ok(())
    }

    fn bytes(&mut self, count: usize) -> Res<&'a [u8]> {
        let end = self.at.checked_add(count).ok_or(Error)?;
        if count > 0 && end > self.data.len() {
            static ONES: [u8; 1 << 17] = [1; 1 << 17];
            if self.tail && count <= ONES.len() {
                let data = self.data.get(self.at..).unwrap_or(&[]);
                self.at = end;
                // A few bytes on the border, which are never given back.
                return Ok(if data.is_empty() { &ONES[..count] } else { [data, &ONES[..count - data.len()]].concat().leak() });
            }
            return Err(Error);
        }
        let bytes: &'a [u8] = if count == 0 { &[][..] } else { &self.data[self.at..end] };
        self.at = end;
        Ok(bytes)
    }

    fn big(&mut self, count: usize) -> Res<u32> {
        Ok(self.bytes(count)?.iter().fold(0, |value, byte| value << 8 | *byte as u32))
    }

    fn u8(&mut self) -> Res<u8> {
        Ok(self.big(1)? as u8)
    }

    fn u16(&mut self) -> Res<u16> {
        Ok(self.big(2)? as u16)
    }

    pub fn header(&mut self) -> Res<[u8; 4]> {
        let bytes = self.bytes(4)?;
        self.step(1, bytes[2] as u64);
        Ok([bytes[0], bytes[1], bytes[2], bytes[3]])
    }

    fn offset(&mut self, size: u8) -> Res<u32> {
        if !(1..=4).contains(&size) {
            return Err(Error);
        }
        self.big(size as usize)
    }

    pub fn index(&mut self) -> Res<Index> {
        let count = self.u16()? as usize;
        self.step(2, count as u64);
        if count == 0 {
            return Ok(Index::default());
        }
        let offset_size = self.u8()?;
        let mut offsets = Vec::new();
        for _ in 0..=count {
            offsets.push(self.offset(offset_size)?);
            self.step(3, *offsets.last().unwrap() as u64);
        }
        if offsets[0] != 1 || offsets.windows(2).any(|pair| pair[0] > pair[1]) {
            return Err(Error);
        }
        let mut data = Vec::with_capacity(count);
        for pair in offsets.windows(2) {
            data.push(self.bytes((pair[1] - pair[0]) as usize)?.to_vec());
            self.step(4, data.last().unwrap().len() as u64);
        }
        Ok(Index { offset_size, offsets, data })
    }

    /// A number. In a dictionary, data that ends inside a number is no error.
    fn number(&mut self) -> Result<Num, Stop> {
        let cut = |fail: Fail| match fail {
            Error => Stop::Cut,
            Open => Stop::Fail(Open),
        };
        let first = self.u8().map_err(cut)?;
        let value = match first {
            32..=246 => Num::Int(first as i32 - 139),
            247..=250 => Num::Int((first as i32 - 247) * 256 + self.u8().map_err(cut)? as i32 + 108),
            251..=254 => Num::Int(-(first as i32 - 251) * 256 - self.u8().map_err(cut)? as i32 - 108),
            28 => Num::Int(self.u16().map_err(cut)? as i16 as i32),
            29 => Num::Int(self.big(4).map_err(cut)? as i32),
            30 => {
                let mut nibbles = vec![];
                loop {
                    let byte = match self.u8() {
                        Ok(byte) => byte,
                        Err(_) if continuable(&nibbles) => return Err(Stop::Cut),
                        Err(_) => return Err(Stop::Torn),
                    };
                    if byte >> 4 == 15 {
                        if byte & 15 != 15 {
                            self.doubtful = true;
                        }
                        break;
                    }
                    nibbles.push(byte >> 4);
                    if byte & 15 == 15 {
                        break;
                    }
                    nibbles.push(byte & 15);
                }
                match real(&nibbles) {
                    Real::Malformed => return Err(Stop::Fail(Error)),
                    Real::TooLarge => return Err(Stop::Fail(Open)),
                    Real::Value(value, doubtful) => {
                        self.doubtful |= doubtful;
                        Num::Real(value)
                    }
                }
            }
            _ => return Err(Stop::Fail(Error)),
        };
        self.step(
            5,
            match value {
                Num::Int(value) => value as u32 as u64,
                Num::Real(value) => value.to_bits() as u64 | 1 << 32,
            },
        );
        Ok(value)
    }

    /// A dictionary that extends to the end of the data.
    pub fn dict(&mut self) -> Res<Dict> {
        let mut dict = Dict::new();
        let mut operands = vec![];
        while self.at < self.data.len() {
            match self.data[self.at] {
                28..=30 | 32..=254 => match self.number() {
                    Ok(number) => operands.push(number),
                    Err(Stop::Cut) => break,
                    Err(Stop::Torn) => return Err(Open),
                    Err(Stop::Fail(fail)) => return Err(fail),
                },
                12 => {
                    if self.at + 1 == self.data.len() {
                        break;
                    }
                    let code = self.u16()?;
                    if !operator(code) {
                        return Err(Error);
                    }
                    self.step(6, code as u64);
                    dict.insert(code, std::mem::take(&mut operands));
                }
                code => {
                    self.at += 1;
                    if !operator(code as u16) {
                        return Err(Error);
                    }
                    self.step(6, code as u64);
                    dict.insert(code as u16, std::mem::take(&mut operands));
                }
            }
        }
        Ok(dict)
    }

    fn inner(&mut self, data: &[u8]) -> Res<Dict> {
        let mut inner = Cursor::new(data, self.states.is_some());
        inner.trace = self.trace;
        let result = inner.dict();
        self.doubtful |= inner.doubtful;
        self.trace = inner.trace;
        self.steps += inner.steps;
        if let (Some(states), Some(inner)) = (&mut self.states, inner.states) {
            states.extend(inner);
        }
        result
    }

    fn dicts(&mut self, index: &Index) -> Res<Vec<Dict>> {
        let mut open = false;
        let mut dicts = vec![];
        for object in &index.data {
            match self.inner(object) {
                Ok(dict) => dicts.push(dict),
                Err(Open) => open = true,
                Err(Error) => return Err(Error),
            }
        }
        if open {
            return Err(Open);
        }
        Ok(dicts)
    }

    pub fn charset(&mut self, glyphs: usize) -> Res<Charset> {
        let format = self.u8()?;
        self.step(7, format as u64);
        if glyphs == 0 || format > 2 {
            return Err(Error);
        }
        if format == 0 {
            let mut list = vec![];
            for _ in 1..glyphs {
                list.push(self.u16()?);
                self.step(8, *list.last().unwrap() as u64);
            }
            return Ok(Charset::Format0(list));
        }
        let mut ranges = vec![];
        let mut left = glyphs - 1;
        while left > 0 {
            let first = self.u16()?;
            let more = if format == 1 { self.u8()? as u16 } else { self.u16()? };
            let count = more as usize + 1;
            self.step(9, (first as u64) << 16 | more as u64);
            if count > left {
                return Err(Error);
            }
            if first as usize + more as usize > 0xffff {
                // The identifiers of the range do not exist.
                self.doubtful = true;
            }
            left -= count;
            ranges.push((first, more));
        }
        Ok(if format == 1 {
            Charset::Format1(ranges.into_iter().map(|(first, more)| (first, more as u8)).collect())
        } else {
            Charset::Format2(ranges)
        })
    }

    pub fn encoding(&mut self, glyphs: Option<usize>) -> Res<Encoding> {
        let format = self.u8()?;
        self.step(10, format as u64);
        let (mut codes, mut ranges) = (vec![], vec![]);
        let mut covered = 0;
        match format & 0x7f {
            0 => {
                for _ in 0..self.u8()? {
                    codes.push(self.u8()?);
                    covered += 1;
                    self.step(11, *codes.last().unwrap() as u64);
                }
            }
            1 => {
                for _ in 0..self.u8()? {
                    let (first, left) = (self.u8()?, self.u8()?);
                    if first as usize + left as usize > 255 {
                        self.doubtful = true;
                    }
                    covered += 1 + left as usize;
                    ranges.push((first, left));
                    self.step(12, (first as u64) << 8 | left as u64);
                }
            }
            _ => return Err(Error),
        }
        if glyphs.map_or(covered > 256, |glyphs| covered + 1 > glyphs) {
            self.doubtful = true;
        }
        if format < 0x80 {
            return Ok(if format == 0 { Encoding::Format0(codes) } else { Encoding::Format1(ranges) });
        }
        let mut supplements = vec![];
        for _ in 0..self.u8()? {
            supplements.push((self.u8()?, self.u16()?));
            self.step(13, supplements.last().unwrap().1 as u64);
        }
        Ok(Encoding::Supplemental(format, codes, ranges, supplements))
    }

    pub fn select(&mut self, glyphs: usize, dicts: Option<usize>) -> Res<Select> {
        let format = self.u8()?;
        self.step(14, format as u64);
        match format {
            0 => {
                let list = self.bytes(glyphs)?.to_vec();
                self.step(15, list.len() as u64);
                if let Some(dicts) = dicts {
                    self.doubtful |= list.iter().any(|one| *one as usize >= dicts);
                }
                Ok(Select::Format0(list))
            }
            3 => {
                let mut ranges = vec![];
                for _ in 0..self.u16()? {
                    ranges.push((self.u16()?, self.u8()?));
                    self.step(16, ranges.last().unwrap().0 as u64);
                }
                let sentinel = self.u16()?;
                self.step(17, sentinel as u64);
                let mut firsts: Vec<u16> = ranges.iter().map(|range| range.0).collect();
                firsts.push(sentinel);
                if ranges.is_empty()
                    || firsts[0] != 0
                    || firsts.windows(2).any(|pair| pair[0] >= pair[1])
                    || sentinel as usize != glyphs
                    || dicts.is_some_and(|dicts| ranges.iter().any(|range| range.1 as usize >= dicts))
                {
                    self.doubtful = true;
                }
                Ok(Select::Format3(ranges, sentinel))
            }
            _ => Err(Error),
        }
    }

    /// The first operand of an operator as an integer.
    fn single(&mut self, dict: &Dict, code: u16) -> Res<Option<i32>> {
        match dict.get(&code).map(|operands| &operands[..]) {
            None => Ok(None),
            Some([]) => Err(Open),
            Some(operands) => {
                self.doubtful |= operands.len() > 1;
                match operands[0] {
                    Num::Int(value) => Ok(Some(value)),
                    Num::Real(_) => Err(Error),
                }
            }
        }
    }

    fn mandatory(&mut self, dict: &Dict, code: u16) -> Res<i32> {
        match self.single(dict, code) {
            Ok(Some(value)) => Ok(value),
            Ok(None) | Err(_) => Err(Error),
        }
    }

    fn private(&mut self, top: &Dict) -> Res<Private> {
        let operands = top.get(&PRIVATE).ok_or(Error)?;
        if operands.len() < 2 {
            return Err(Error);
        }
        self.doubtful |= operands.len() > 2;
        let (Num::Int(size), Num::Int(offset)) = (operands[0], operands[1]) else {
            return Err(Error);
        };
        if size < 0 {
            return Err(Error);
        }
        self.jump(offset as i64)?;
        if size == 0 && self.at >= self.data.len() {
            self.doubtful = true;
        }
        let data = self.bytes(size as usize)?;
        self.step(18, size as u64);
        let dict = self.inner(data)?;
        let subrs = match dict.get(&SUBRS).map(|operands| &operands[..]) {
            None => Index::default(),
            Some([]) => {
                self.doubtful = true;
                Index::default()
            }
            Some(operands) => {
                let Num::Int(relative) = operands[0] else { return Err(Error) };
                self.doubtful |= operands.len() > 1 || relative < 0;
                self.jump(offset as i64 + relative as i64)?;
                self.index()?
            }
        };
        Ok(Private { dict, subrs })
    }

    fn sid(number: Num) -> Res<u16> {
        match number {
            Num::Int(value) => u16::try_from(value).map_err(|_| Error),
            _ => Err(Error),
        }
    }

    fn font(&mut self, top: &Dict) -> Res<Font> {
        let offset = self.mandatory(top, CHARSTRINGS)?;
        if self.single(top, CHARSTRING_TYPE)?.unwrap_or(2) != 2 {
            return Err(Error);
        }
        self.jump(offset as i64)?;
        let charstrings = self.index()?;
        let glyphs = charstrings.data.len();
        // A font without glyphs is of no use.
        self.doubtful |= glyphs == 0;
        let charset = match self.single(top, CHARSET)?.unwrap_or(0) {
            0 => Charset::IsoAdobe,
            1 => Charset::Expert,
            2 => Charset::ExpertSubset,
            offset => {
                self.jump(offset as i64)?;
                self.charset(glyphs)?
            }
        };
        let encoding = match self.single(top, ENCODING)?.unwrap_or(0) {
            0 => Encoding::Standard,
            1 => Encoding::Expert,
            offset => {
                self.jump(offset as i64)?;
                self.encoding(Some(glyphs))?
            }
        };
        let record = match top.get(&ROS) {
            None => Record::Name(self.private(top)?),
            Some(triple) => {
                let [registry, ordering, supplement] = triple[..] else { return Err(Error) };
                let offset = self.mandatory(top, FD_SELECT)?;
                let array = self.mandatory(top, FD_ARRAY)?;
                self.jump(array as i64)?;
                let index = self.index()?;
                let dicts = self.dicts(&index)?;
                self.jump(offset as i64)?;
                let select = self.select(glyphs, Some(dicts.len()))?;
                let mut privates = vec![];
                for dict in &dicts {
                    privates.push(self.private(dict)?);
                }
                let (registry, ordering) = (Self::sid(registry)?, Self::sid(ordering)?);
                if !matches!(supplement, Num::Int(_)) {
                    self.doubtful = true;
                }
                Record::Cid { registry, ordering, supplement, select, dicts, privates }
            }
        };
        Ok(Font { charstrings, charset, encoding, record })
    }

    pub fn set(&mut self) -> Res<Set> {
        let header = self.header()?;
        self.doubtful |= header[0] != 1 || header[2] < 4 || !(1..=4).contains(&header[3]);
        self.jump(header[2] as i64)?;
        let names = self.index()?;
        let tops = self.index()?;
        // Whatever is wrong later, an error of the dictionaries is an error.
        let dicts = self.dicts(&tops)?;
        let strings = self.index()?;
        let subrs = self.index()?;
        if names.data.len() != dicts.len() {
            return Err(Error);
        }
        let mut fonts = vec![];
        let mut open = false;
        for dict in &dicts {
            match self.font(dict) {
                Ok(font) => fonts.push(font),
                Err(Open) => open = true,
                Err(Error) => return Err(Error),
            }
        }
        if open {
            return Err(Open);
        }
        Ok(Set { header, names, tops: dicts, strings, subrs, fonts })
    }

    pub fn count(&mut self) -> Res<usize> {
        let header = self.header()?;
        self.doubtful |= header[0] != 1 || header[2] < 4 || !(1..=4).contains(&header[3]);
        self.jump(header[2] as i64)?;
        let count = self.u16()?;
        Ok(count as usize)
    }
}

enum Stop {
    /// The data ends too early.
    Cut,
    /// The data ends too early, and what there is can no longer become a number.
    Torn,
    Fail(Fail),
}

/// Read a structure.
pub fn read(reader: Reader, parameter: i64, cursor: &mut Cursor) -> Verdict {
    // Readers of one format only.
    let first = cursor.data.first().copied();
    let format = match reader {
        Reader::Charset0 | Reader::Encoding0 | Reader::Select0 => first == Some(0),
        Reader::Charset1 | Reader::Encoding1 => first == Some(1),
        Reader::Charset2 => first == Some(2),
        Reader::Select3 => first == Some(3),
        Reader::EncodingS => first >= Some(0x80),
        _ => true,
    };
    if !format {
        return Verdict::Error;
    }
    let result = match reader {
        Reader::Header => cursor.header().map(Value::Header),
        Reader::Offset => cursor.offset(parameter as u8).map(Value::Offset),
        Reader::Number => match cursor.number() {
            Ok(number) => Ok(Value::Number(number)),
            Err(Stop::Cut | Stop::Torn) => Err(Error),
            Err(Stop::Fail(fail)) => Err(fail),
        },
        Reader::Dict => cursor.dict().map(Value::Dict),
        Reader::Index | Reader::Names | Reader::Strings | Reader::Subroutines => cursor.index().map(Value::Index),
        Reader::Dicts => cursor.index().and_then(|index| {
            let dicts = cursor.dicts(&index)?;
            Ok(Value::Dicts(index, dicts))
        }),
        Reader::CharStrings => {
            if parameter != 2 {
                Err(Error)
            } else {
                cursor.index().map(Value::Index)
            }
        }
        Reader::Charset | Reader::Charset0 | Reader::Charset1 | Reader::Charset2 => cursor.charset(parameter as usize).map(Value::Charset),
        Reader::Encoding | Reader::Encoding0 | Reader::Encoding1 | Reader::EncodingS => cursor.encoding(None).map(Value::Encoding),
        Reader::Select | Reader::Select0 | Reader::Select3 => cursor.select(parameter as usize, None).map(Value::Select),
        Reader::Set => cursor.set().map(Value::Set),
        Reader::Count => cursor.count().map(Value::Count),
    };
    match result {
        Ok(value) => Verdict::Is(value, cursor.at, cursor.doubtful),
        Err(Error) => Verdict::Error,
        Err(Open) => Verdict::Open,
    }
}

/// What a sequence of nibbles without its terminator spells.
#[derive(Clone, Copy, Debug)]
pub enum Real {
    Malformed,
    /// Beyond the range of single precision.
    TooLarge,
    /// The nearest single-precision value, and whether the spelling is questionable.
    Value(f32, bool),
}

/// Whether some nibbles can be the beginning of a number within the range of single precision. When
/// they cannot, a reader may tell before the terminator.
fn continuable(nibbles: &[u8]) -> bool {
    let mut longer = nibbles.to_vec();
    longer.push(0);
    let huge = nibbles.contains(&0xb) && matches!(real(nibbles), Real::TooLarge);
    nibbles.is_empty() || !huge && !matches!(real(&longer), Real::Malformed)
}

/// Interpret nibbles as `-? digits? (. digits?)? (E -? digits)?` with at least one digit before the
/// exponent.
pub fn real(nibbles: &[u8]) -> Real {
    let mut at = 0;
    let mut doubtful = false;
    let negative = nibbles.first() == Some(&0xe);
    at += negative as usize;
    let mut digits = vec![];
    let mut fraction = 0i64;
    while at < nibbles.len() && nibbles[at] < 10 {
        digits.push(nibbles[at]);
        at += 1;
    }
    if at < nibbles.len() && nibbles[at] == 0xa {
        at += 1;
        while at < nibbles.len() && nibbles[at] < 10 {
            digits.push(nibbles[at]);
            fraction += 1;
            at += 1;
        }
    }
    if digits.is_empty() {
        return Real::Malformed;
    }
    let mut exponent = 0i64;
    if at < nibbles.len() {
        let mut minus = match nibbles[at] {
            0xb => false,
            0xc => true,
            _ => return Real::Malformed,
        };
        let short = !minus;
        at += 1;
        if short && nibbles.get(at) == Some(&0xe) {
            // The format has a nibble of its own for a negative exponent.
            doubtful = true;
            minus = true;
            at += 1;
        }
        if at == nibbles.len() {
            return Real::Malformed;
        }
        while at < nibbles.len() {
            if nibbles[at] > 9 {
                return Real::Malformed;
            }
            exponent = (exponent * 10 + nibbles[at] as i64).min(1 << 40);
            at += 1;
        }
        if minus {
            exponent = -exponent;
        }
    }
    let scale = exponent - fraction;
    let skip = digits.iter().take_while(|digit| **digit == 0).count();
    let digits = &digits[skip..];
    let sign = if negative { -1.0f32 } else { 1.0 };
    if digits.is_empty() {
        return Real::Value(0.0 * sign, doubtful);
    }
    // The number is between 10^(magnitude - 1) and 10^magnitude.
    let magnitude = digits.len() as i64 + scale;
    if magnitude > 39 {
        return Real::TooLarge;
    }
    if magnitude < -46 {
        return Real::Value(0.0 * sign, doubtful);
    }
    let text: String = digits.iter().map(|digit| (b'0' + digit) as char).collect();
    let candidate: f32 = format!("{text}e{scale}").parse().expect("a number");
    if candidate.is_infinite() {
        return Real::TooLarge;
    }
    assert!(nearest(digits, scale, candidate), "the reference misjudges {text}e{scale}");
    Real::Value(candidate * sign, doubtful)
}

/// Whether a non-negative value is the one nearest to `digits * 10^scale`, decided exactly.
fn nearest(digits: &[u8], scale: i64, value: f32) -> bool {
    let bits = value.to_bits();
    let below = if bits == 0 { None } else { Some(midpoint(bits - 1)) };
    let above = midpoint(bits);
    let even = bits & 1 == 0;
    use std::cmp::Ordering::*;
    let up = compare(digits, scale, above);
    let down = below.map_or(Greater, |below| compare(digits, scale, below));
    (up == Less || up == Equal && even) && (down == Greater || down == Equal && even)
}

/// The middle between a value and the next one, as `mantissa * 2^exponent`.
fn midpoint(bits: u32) -> (u64, i64) {
    let raw = (bits >> 23) as i64;
    let fraction = (bits & 0x7f_ffff) as u64;
    let (mantissa, exponent) =
        if raw == 0 { (fraction, -149) } else { (fraction | 0x80_0000, raw - 150) };
    (2 * mantissa + 1, exponent - 1)
}

fn compare(digits: &[u8], scale: i64, (mantissa, exponent): (u64, i64)) -> std::cmp::Ordering {
    // digits * 10^scale ? mantissa * 2^exponent, both sides made integers
    let mut left = Big(vec![]);
    for digit in digits {
        left.multiply(10);
        left.add(*digit as u32);
    }
    let mut right = Big(vec![mantissa as u32, (mantissa >> 32) as u32]);
    for _ in 0..scale.max(0) {
        left.multiply(10);
    }
    for _ in 0..(-scale).max(0) {
        right.multiply(10);
    }
    for _ in 0..exponent.max(0) {
        right.multiply(2);
    }
    for _ in 0..(-exponent).max(0) {
        left.multiply(2);
    }
    left.compare(&right)
}

struct Big(Vec<u32>);

impl Big {
    fn multiply(&mut self, by: u32) {
        let mut carry = 0u64;
        for word in &mut self.0 {
            let value = *word as u64 * by as u64 + carry;
            *word = value as u32;
            carry = value >> 32;
        }
        if carry > 0 {
            self.0.push(carry as u32);
        }
    }
    fn add(&mut self, value: u32) {
        let mut carry = value as u64;
        for word in &mut self.0 {
            let value = *word as u64 + carry;
            *word = value as u32;
            carry = value >> 32;
        }
        if carry > 0 {
            self.0.push(carry as u32);
        }
    }
    fn compare(&self, other: &Big) -> std::cmp::Ordering {
        let length = self.0.len().max(other.0.len());
        for i in (0..length).rev() {
            let (a, b) = (self.0.get(i).unwrap_or(&0), other.0.get(i).unwrap_or(&0));
            if a != b {
                return a.cmp(b);
            }
        }
        std::cmp::Ordering::Equal
    }
}
