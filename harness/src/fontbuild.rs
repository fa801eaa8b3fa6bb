//! A builder of font sets: abstract descriptions are laid out as bytes in many ways.

use std::collections::BTreeMap;

use crate::model::cff::*;

pub type Entries = Vec<(u16, Vec<Num>)>;

#[derive(Clone, Debug, PartialEq)]
pub struct PrivateSpec {
    pub entries: Entries,
    pub subrs: Option<Vec<Vec<u8>>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum CharsetSpec {
    Absent,
    Predefined(i32),
    Custom(Charset),
}

#[derive(Clone, Debug, PartialEq)]
pub enum EncodingSpec {
    Absent,
    Predefined(i32),
    Custom(Encoding),
}

#[derive(Clone, Debug, PartialEq)]
pub enum KeySpec {
    Name(PrivateSpec),
    Cid { ros: Vec<Num>, select: Select, dicts: Vec<(Entries, PrivateSpec)> },
}

#[derive(Clone, Debug, PartialEq)]
pub struct FontSpec {
    pub glyphs: Vec<Vec<u8>>,
    pub charset: CharsetSpec,
    pub encoding: EncodingSpec,
    pub key: KeySpec,
    pub extra: Entries,
}

#[derive(Clone, Debug)]
pub struct SetSpec {
    pub names: Vec<Vec<u8>>,
    pub strings: Vec<Vec<u8>>,
    pub subrs: Vec<Vec<u8>>,
    pub fonts: Vec<FontSpec>,
}

/// Which dictionary: the top dictionary of a font, or the font or private dictionary of one of its
/// font dictionaries (0 for a name-keyed font).
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Place {
    Top(usize),
    Inner(usize, usize),
    Private(usize, usize),
}

#[derive(Clone, Debug)]
pub enum Change {
    Drop,
    Set(Vec<Num>),
    /// Add to an operand.
    Shift(usize, i32),
}

/// A deviation from what the description asks for.
#[derive(Clone, Debug)]
pub struct Tweak {
    pub place: Place,
    pub code: u16,
    pub change: Change,
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub header_size: u8,
    /// The number of the permutation of the blocks.
    pub order: u64,
    pub gap: usize,
    /// How integers are encoded: 0 as short as possible, 1 in three bytes or more, 2 in five.
    pub form: u8,
    /// The least size of offsets in indices.
    pub size: u8,
    /// Whether equal blocks are stored once.
    pub share: bool,
    /// Whether entries of dictionaries are reversed.
    pub reverse: bool,
    /// In front of which of the blocks behind the head there is a hole, and how large it is.
    pub hole: (usize, u64),
}

impl Default for Layout {
    fn default() -> Self {
        Layout { header_size: 4, order: 0, gap: 0, form: 0, size: 1, share: false, reverse: false, hole: (0, 0) }
    }
}

pub fn integer(value: i32, form: u8) -> Vec<u8> {
    match value {
        -107..=107 if form == 0 => vec![(value + 139) as u8],
        108..=1131 if form == 0 => {
            let value = value - 108;
            vec![247 + (value >> 8) as u8, value as u8]
        }
        -1131..=-108 if form == 0 => {
            let value = -value - 108;
            vec![251 + (value >> 8) as u8, value as u8]
        }
        -32768..=32767 if form <= 1 => {
            let bytes = (value as i16).to_be_bytes();
            vec![28, bytes[0], bytes[1]]
        }
        _ => {
            let mut data = vec![29];
            data.extend_from_slice(&value.to_be_bytes());
            data
        }
    }
}

pub fn number(number: &Num, form: u8) -> Vec<u8> {
    match number {
        Num::Int(value) => integer(*value, form),
        Num::Real(value) => {
            let text = format!("{value:e}");
            let mut nibbles = vec![];
            let mut rest = text.bytes().peekable();
            while let Some(byte) = rest.next() {
                nibbles.push(match byte {
                    b'0'..=b'9' => byte - b'0',
                    b'.' => 0xa,
                    b'e' => {
                        if rest.peek() == Some(&b'-') {
                            rest.next();
                            0xc
                        } else {
                            0xb
                        }
                    }
                    b'-' => 0xe,
                    _ => unreachable!(),
                });
            }
            nibbles.push(15);
            if nibbles.len() % 2 == 1 {
                nibbles.push(15);
            }
            let mut data = vec![30];
            data.extend(nibbles.chunks(2).map(|pair| pair[0] << 4 | pair[1]));
            data
        }
    }
}

fn put_dict(entries: &Entries, form: u8) -> Vec<u8> {
    let mut data = vec![];
    for (code, operands) in entries {
        for operand in operands {
            data.extend(number(operand, form));
        }
        if *code > 255 {
            data.push(12);
        }
        data.push(*code as u8);
    }
    data
}

pub fn put_index(objects: &[Vec<u8>], least: u8) -> Vec<u8> {
    let mut data = (objects.len() as u16).to_be_bytes().to_vec();
    if objects.is_empty() {
        return data;
    }
    let total: usize = 1 + objects.iter().map(Vec::len).sum::<usize>();
    let size = (1..4).find(|size| total < 1 << (8 * size)).unwrap_or(4).max(least as usize);
    data.push(size as u8);
    let mut offset = 1u32;
    for object in objects.iter().map(Vec::len).chain([0]) {
        data.extend_from_slice(&offset.to_be_bytes()[4 - size..]);
        offset += object as u32;
    }
    for object in objects {
        data.extend_from_slice(object);
    }
    data
}

fn expect_index(objects: &[Vec<u8>], least: u8) -> Index {
    if objects.is_empty() {
        return Index::default();
    }
    let data = put_index(objects, least);
    let mut offsets = vec![1];
    for object in objects {
        offsets.push(offsets.last().unwrap() + object.len() as u32);
    }
    Index { offset_size: data[2], offsets, data: objects.to_vec() }
}

fn put_charset(set: &Charset) -> Vec<u8> {
    let mut data = vec![];
    match set {
        Charset::Format0(list) => {
            data.push(0);
            list.iter().for_each(|id| data.extend_from_slice(&id.to_be_bytes()));
        }
        Charset::Format1(ranges) => {
            data.push(1);
            for (first, left) in ranges {
                data.extend_from_slice(&first.to_be_bytes());
                data.push(*left);
            }
        }
        Charset::Format2(ranges) => {
            data.push(2);
            for (first, left) in ranges {
                data.extend_from_slice(&first.to_be_bytes());
                data.extend_from_slice(&left.to_be_bytes());
            }
        }
        _ => unreachable!(),
    }
    data
}

fn put_encoding(encoding: &Encoding) -> Vec<u8> {
    let mut data = vec![];
    let put_codes = |data: &mut Vec<u8>, codes: &[u8]| {
        data.push(codes.len() as u8);
        data.extend_from_slice(codes);
    };
    let put_ranges = |data: &mut Vec<u8>, ranges: &[(u8, u8)]| {
        data.push(ranges.len() as u8);
        ranges.iter().for_each(|(first, left)| data.extend_from_slice(&[*first, *left]));
    };
    match encoding {
        Encoding::Format0(codes) => {
            data.push(0);
            put_codes(&mut data, codes);
        }
        Encoding::Format1(ranges) => {
            data.push(1);
            put_ranges(&mut data, ranges);
        }
        Encoding::Supplemental(format, codes, ranges, supplements) => {
            data.push(*format);
            if *format == 0x80 {
                put_codes(&mut data, codes);
            } else {
                put_ranges(&mut data, ranges);
            }
            data.push(supplements.len() as u8);
            for (code, id) in supplements {
                data.push(*code);
                data.extend_from_slice(&id.to_be_bytes());
            }
        }
        _ => unreachable!(),
    }
    data
}

pub fn put_select(select: &Select) -> Vec<u8> {
    match select {
        Select::Format0(list) => [&[0][..], list].concat(),
        Select::Format3(ranges, sentinel) => {
            let mut data = vec![3];
            data.extend_from_slice(&(ranges.len() as u16).to_be_bytes());
            for (first, dict) in ranges {
                data.extend_from_slice(&first.to_be_bytes());
                data.push(*dict);
            }
            data.extend_from_slice(&sentinel.to_be_bytes());
            data
        }
    }
}

/// What a block holds.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Part {
    CharStrings(usize),
    Charset(usize),
    Encoding(usize),
    Select(usize),
    Array(usize),
    Private(usize, usize),
    Subrs(usize, usize),
}

pub struct Built {
    pub data: Vec<u8>,
    /// What reading should yield, unless there are tweaks.
    pub expected: Set,
    /// Where each part begins and ends.
    pub parts: Vec<(Part, usize, usize)>,
    /// Where the head (the four indices) begins and ends.
    pub head: (usize, usize),
    /// Where the data has a hole of what size.
    pub hole: (usize, u64),
}

pub fn blocks(spec: &SetSpec) -> Vec<Part> {
    let mut parts = vec![];
    for (i, font) in spec.fonts.iter().enumerate() {
        parts.push(Part::CharStrings(i));
        if let CharsetSpec::Custom(_) = font.charset {
            parts.push(Part::Charset(i));
        }
        if let EncodingSpec::Custom(_) = font.encoding {
            parts.push(Part::Encoding(i));
        }
        let mut private = |j: usize, spec: &PrivateSpec| {
            parts.push(Part::Private(i, j));
            if spec.subrs.is_some() {
                parts.push(Part::Subrs(i, j));
            }
        };
        match &font.key {
            KeySpec::Name(spec) => private(0, spec),
            KeySpec::Cid { dicts, .. } => {
                for (j, (_, spec)) in dicts.iter().enumerate() {
                    private(j, spec);
                }
                parts.push(Part::Select(i));
                parts.push(Part::Array(i));
            }
        }
    }
    parts
}

fn private_spec(font: &FontSpec, j: usize) -> &PrivateSpec {
    match &font.key {
        KeySpec::Name(spec) => spec,
        KeySpec::Cid { dicts, .. } => &dicts[j].1,
    }
}

pub fn permutation(mut number: u64, count: usize) -> Vec<usize> {
    if number == 0 {
        return (0..count).collect();
    }
    let mut rest: Vec<usize> = (0..count).collect();
    let mut list = vec![];
    for left in (1..=count).rev() {
        list.push(rest.remove((number % left as u64) as usize));
        number /= left as u64;
    }
    list
}

pub fn build(spec: &SetSpec, layout: &Layout, tweaks: &[Tweak]) -> Built {
    let parts = blocks(spec);
    // The same content under the same key; a private dictionary includes its subroutines.
    let key = |part: &Part| -> String {
        match part {
            Part::CharStrings(i) => format!("index {:?}", spec.fonts[*i].glyphs),
            Part::Charset(i) => format!("charset {:?}", spec.fonts[*i].charset),
            Part::Encoding(i) => format!("encoding {:?}", spec.fonts[*i].encoding),
            Part::Private(i, j) => format!("{:?}", private_spec(&spec.fonts[*i], *j)),
            Part::Subrs(i, j) => format!("of {:?}", private_spec(&spec.fonts[*i], *j)),
            Part::Select(i) | Part::Array(i) => format!("{part:?} {i}"),
        }
    };
    let mut owner: BTreeMap<Part, Part> = BTreeMap::new();
    let mut keys: BTreeMap<String, Part> = BTreeMap::new();
    for part in &parts {
        let first = if layout.share { *keys.entry(key(part)).or_insert(*part) } else { *part };
        owner.insert(*part, first);
    }
    let order = permutation(layout.order, parts.len());
    let mut at: BTreeMap<Part, (i64, i64)> = parts.iter().map(|part| (*part, (0, 0))).collect();
    let tweak = |place: Place, entries: &mut Entries| {
        for tweak in tweaks.iter().filter(|tweak| tweak.place == place) {
            let found = entries.iter().position(|entry| entry.0 == tweak.code);
            match (&tweak.change, found) {
                (Change::Drop, Some(i)) => {
                    entries.remove(i);
                }
                (Change::Set(operands), Some(i)) => entries[i].1 = operands.clone(),
                (Change::Set(operands), None) => entries.push((tweak.code, operands.clone())),
                (Change::Shift(operand, by), Some(i)) => {
                    if let Some(Num::Int(value)) = entries[i].1.get_mut(*operand) {
                        *value = value.wrapping_add(*by);
                    }
                }
                _ => {}
            }
        }
        if layout.reverse {
            let start = entries.iter().take_while(|entry| entry.0 == ROS).count();
            entries[start..].reverse();
        }
    };
    let mut rounds = 0;
    loop {
        rounds += 1;
        assert!(rounds < 100, "the layout does not settle");
        // With integers of one length nothing moves any longer.
        let form = if rounds > 20 { 2 } else { layout.form };
        let address = |part: Part| at[&owner[&part]].0;
        let size = |part: Part| at[&owner[&part]].1;
        let int = |value: i64| Num::Int(value as i32);
        let mut tops = vec![];
        let mut inners = vec![];
        let mut privates = vec![];
        for (i, font) in spec.fonts.iter().enumerate() {
            let mut top: Entries = vec![];
            if let KeySpec::Cid { ros, .. } = &font.key {
                top.push((ROS, ros.clone()));
            }
            top.extend(font.extra.iter().cloned());
            top.push((CHARSTRINGS, vec![int(address(Part::CharStrings(i)))]));
            match &font.charset {
                CharsetSpec::Absent => {}
                CharsetSpec::Predefined(id) => top.push((CHARSET, vec![Num::Int(*id)])),
                CharsetSpec::Custom(_) => top.push((CHARSET, vec![int(address(Part::Charset(i)))])),
            }
            match &font.encoding {
                EncodingSpec::Absent => {}
                EncodingSpec::Predefined(id) => top.push((ENCODING, vec![Num::Int(*id)])),
                EncodingSpec::Custom(_) => top.push((ENCODING, vec![int(address(Part::Encoding(i)))])),
            }
            let entry = |j: usize| {
                let part = Part::Private(i, j);
                (PRIVATE, vec![int(size(part)), int(address(part))])
            };
            let private = |j: usize, spec: &PrivateSpec| {
                let mut entries = spec.entries.clone();
                if spec.subrs.is_some() {
                    let relative = address(Part::Subrs(i, j)) - address(Part::Private(i, j));
                    entries.push((SUBRS, vec![int(relative)]));
                }
                tweak(Place::Private(i, j), &mut entries);
                entries
            };
            match &font.key {
                KeySpec::Name(spec) => {
                    top.push(entry(0));
                    privates.push(vec![private(0, spec)]);
                    inners.push(vec![]);
                }
                KeySpec::Cid { dicts, .. } => {
                    top.push((FD_SELECT, vec![int(address(Part::Select(i)))]));
                    top.push((FD_ARRAY, vec![int(address(Part::Array(i)))]));
                    let mut list = vec![];
                    let mut inner = vec![];
                    for (j, (entries, spec)) in dicts.iter().enumerate() {
                        let mut entries = entries.clone();
                        entries.push(entry(j));
                        tweak(Place::Inner(i, j), &mut entries);
                        inner.push(entries);
                        list.push(private(j, spec));
                    }
                    privates.push(list);
                    inners.push(inner);
                }
            }
            tweak(Place::Top(i), &mut top);
            tops.push(top);
        }
        let bytes = |part: &Part| -> Vec<u8> {
            match part {
                Part::CharStrings(i) => put_index(&spec.fonts[*i].glyphs, layout.size),
                Part::Charset(i) => match &spec.fonts[*i].charset {
                    CharsetSpec::Custom(set) => put_charset(set),
                    _ => unreachable!(),
                },
                Part::Encoding(i) => match &spec.fonts[*i].encoding {
                    EncodingSpec::Custom(encoding) => put_encoding(encoding),
                    _ => unreachable!(),
                },
                Part::Select(i) => match &spec.fonts[*i].key {
                    KeySpec::Cid { select, .. } => put_select(select),
                    _ => unreachable!(),
                },
                Part::Array(i) => {
                    let dicts: Vec<_> = inners[*i].iter().map(|entries| put_dict(entries, form)).collect();
                    put_index(&dicts, layout.size)
                }
                Part::Private(i, j) => put_dict(&privates[*i][*j], form),
                Part::Subrs(i, j) => {
                    put_index(private_spec(&spec.fonts[*i], *j).subrs.as_ref().unwrap(), layout.size)
                }
            }
        };
        let tops_data: Vec<_> = tops.iter().map(|entries| put_dict(entries, form)).collect();
        let mut head = put_index(&spec.names, layout.size);
        head.extend(put_index(&tops_data, layout.size));
        head.extend(put_index(&spec.strings, layout.size));
        head.extend(put_index(&spec.subrs, layout.size));
        // Lay out: what fits goes between the header and the head, the rest behind the head.
        let start = layout.header_size as usize;
        let mut data = vec![1, 0, layout.header_size, layout.size.max(1)];
        let mut rest = vec![];
        let mut new = at.clone();
        let own: Vec<Part> =
            order.iter().map(|i| parts[*i]).filter(|part| owner[part] == *part).collect();
        for part in &own {
            let chunk = bytes(part);
            // Never at an offset that has a meaning of its own.
            if start > 4 && data.len() + chunk.len() <= start && !rest.iter().any(|(other, _)| other == part) {
                new.insert(*part, (data.len() as i64, chunk.len() as i64));
                data.extend_from_slice(&chunk);
            } else {
                rest.push((*part, chunk));
            }
        }
        data.resize(start.max(data.len()), 0x0e);
        let head_at = data.len();
        data.extend_from_slice(&head);
        let head_end = data.len();
        let mut hole = (usize::MAX, 0);
        for (i, (part, chunk)) in rest.iter().enumerate() {
            data.extend((0..layout.gap).map(|j| [0xfd, 0x0d, 0x03, 0x01][(i + j) % 4]));
            if i == layout.hole.0 && layout.hole.1 > 0 {
                hole = (data.len(), layout.hole.1);
            }
            new.insert(*part, (data.len() as i64 + hole.1 as i64, chunk.len() as i64));
            data.extend_from_slice(chunk);
        }
        if new != at {
            at = new;
            continue;
        }
        let dict = |entries: &Entries| -> Dict { entries.iter().cloned().collect() };
        let expected = Set {
            header: [1, 0, layout.header_size, layout.size.max(1)],
            names: expect_index(&spec.names, layout.size),
            tops: tops.iter().map(dict).collect(),
            strings: expect_index(&spec.strings, layout.size),
            subrs: expect_index(&spec.subrs, layout.size),
            fonts: spec
                .fonts
                .iter()
                .enumerate()
                .map(|(i, font)| {
                    let private = |j: usize, spec: &PrivateSpec| Private {
                        dict: dict(&privates[i][j]),
                        subrs: spec.subrs.as_ref().map_or(Index::default(), |subrs| expect_index(subrs, layout.size)),
                    };
                    Font {
                        charstrings: expect_index(&font.glyphs, layout.size),
                        charset: match &font.charset {
                            CharsetSpec::Absent | CharsetSpec::Predefined(0) => Charset::IsoAdobe,
                            CharsetSpec::Predefined(1) => Charset::Expert,
                            CharsetSpec::Predefined(_) => Charset::ExpertSubset,
                            CharsetSpec::Custom(set) => set.clone(),
                        },
                        encoding: match &font.encoding {
                            EncodingSpec::Absent | EncodingSpec::Predefined(0) => Encoding::Standard,
                            EncodingSpec::Predefined(_) => Encoding::Expert,
                            EncodingSpec::Custom(encoding) => encoding.clone(),
                        },
                        record: match &font.key {
                            KeySpec::Name(spec) => Record::Name(private(0, spec)),
                            KeySpec::Cid { ros, select, dicts } => Record::Cid {
                                registry: sid(ros.first()),
                                ordering: sid(ros.get(1)),
                                supplement: ros.get(2).copied().unwrap_or(Num::Int(0)),
                                select: select.clone(),
                                dicts: inners[i].iter().map(dict).collect(),
                                privates: dicts.iter().enumerate().map(|(j, pair)| private(j, &pair.1)).collect(),
                            },
                        },
                    }
                })
                .collect(),
        };
        let parts = at
            .iter()
            .filter(|(part, _)| owner[part] == **part)
            .map(|(part, (start, size))| (*part, *start as usize, (*start + *size) as usize))
            .collect();
        return Built { data, expected, parts, head: (head_at, head_end), hole };
    }
}

fn sid(number: Option<&Num>) -> u16 {
    match number {
        Some(Num::Int(value)) => *value as u16,
        _ => 0,
    }
}

// Variants of each part.

pub const GLYPHS: usize = 4;
pub fn glyphs(variant: usize) -> Vec<Vec<u8>> {
    match variant {
        0 => vec![vec![0x0e]],
        1 => vec![vec![0x0e], vec![0x8c, 0x16, 0x0e]],
        2 => vec![vec![0x0e], vec![], vec![0x20, 0x0a, 0x0e]],
        _ => (0..7u8).map(|i| vec![0x8b + i, 0x16, 0x0e]).collect(),
    }
}

pub const CHARSETS: usize = 9;
pub fn charset(variant: usize, glyphs: usize) -> CharsetSpec {
    let rest = glyphs - 1;
    // Ranges of two glyphs and a last one of what is left.
    let pairs: Vec<(u16, usize)> =
        (0..rest.div_ceil(2)).map(|i| (390 + 9 * i as u16, (rest - 2 * i).min(2))).collect();
    CharsetSpec::Custom(match variant {
        0 => return CharsetSpec::Absent,
        1 => return CharsetSpec::Predefined(0),
        2 => return CharsetSpec::Predefined(1),
        3 => return CharsetSpec::Predefined(2),
        4 => Charset::Format0((0..rest).map(|i| 0x0101 + 77 * i as u16).collect()),
        5 => Charset::Format1(if rest == 0 { vec![] } else { vec![(1, rest as u8 - 1)] }),
        6 => Charset::Format1(pairs.iter().map(|(first, count)| (*first, *count as u8 - 1)).collect()),
        7 => Charset::Format2(if rest == 0 { vec![] } else { vec![(391, rest as u16 - 1)] }),
        _ => Charset::Format2(pairs.iter().map(|(first, count)| (*first, *count as u16 - 1)).collect()),
    })
}

pub const ENCODINGS: usize = 9;
pub fn encoding(variant: usize, glyphs: usize) -> EncodingSpec {
    let rest = glyphs - 1;
    EncodingSpec::Custom(match variant {
        0 => return EncodingSpec::Absent,
        1 => return EncodingSpec::Predefined(0),
        2 => return EncodingSpec::Predefined(1),
        3 => Encoding::Format0(vec![]),
        4 => Encoding::Format0((0..rest).map(|i| 65 + i as u8).collect()),
        5 => Encoding::Format1(if rest == 0 { vec![] } else { vec![(40, rest as u8 - 1)] }),
        6 => Encoding::Format1((0..rest).map(|i| (90 - 2 * i as u8, 0)).collect()),
        7 => Encoding::Supplemental(
            0x80,
            (0..rest).map(|i| 65 + i as u8).collect(),
            vec![],
            vec![(32, 1), (200, 0x0203)],
        ),
        _ => Encoding::Supplemental(
            0x81,
            vec![],
            if rest == 0 { vec![] } else { vec![(40, rest as u8 - 1)] },
            vec![(33, 2)],
        ),
    })
}

pub const PRIVATES: usize = 3;
pub const SUBROUTINES: usize = 4;
pub fn private(variant: usize, subrs: usize) -> PrivateSpec {
    let entries = match variant {
        0 => vec![],
        1 => vec![(20, vec![Num::Int(500)]), (21, vec![Num::Int(-3000)])],
        _ => vec![
            (6, vec![Num::Int(-12), Num::Int(12), Num::Int(700)]),
            (0x0c09, vec![Num::Real(0.0375)]),
            (0x0c0e, vec![Num::Int(1)]),
            (10, vec![Num::Int(80)]),
        ],
    };
    let subrs = match subrs {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![vec![0x0b]]),
        _ => Some(vec![vec![0x8c, 0x8d, 0x15, 0x0b], vec![], vec![0x0b]]),
    };
    PrivateSpec { entries, subrs }
}

pub const EXTRAS: usize = 4;
pub fn extra(variant: usize) -> Entries {
    match variant {
        0 => vec![],
        1 => vec![(0, vec![Num::Int(391)]), (4, vec![Num::Int(388)]), (0x0c06, vec![Num::Int(2)])],
        2 => vec![
            (5, vec![Num::Int(-10), Num::Int(-200), Num::Int(1000), Num::Int(900)]),
            (0x0c07, vec![Num::Real(0.0005), Num::Int(0), Num::Int(0), Num::Real(0.0005), Num::Int(0), Num::Int(0)]),
        ],
        _ => vec![(0x0c02, vec![Num::Real(-12.5)]), (14, (0..9).map(|i| Num::Int(i * 1000 - 3000)).collect())],
    }
}

/// The number of name-keyed fonts in the catalogue.
pub const NAMED: u64 = (GLYPHS * CHARSETS * ENCODINGS * PRIVATES * SUBROUTINES * EXTRAS) as u64;

pub fn named(mut index: u64) -> FontSpec {
    let mut peel = |base: usize| crate::run::peel(&mut index, base);
    let glyphs = glyphs(peel(GLYPHS));
    FontSpec {
        charset: charset(peel(CHARSETS), glyphs.len()),
        encoding: encoding(peel(ENCODINGS), glyphs.len()),
        key: KeySpec::Name(private(peel(PRIVATES), peel(SUBROUTINES))),
        extra: extra(peel(EXTRAS)),
        glyphs,
    }
}

pub const SELECTS: usize = 4;
pub const TRIPLES: usize = 4;
pub const DICTS: usize = 4;
pub const PATTERNS: usize = 6;
/// The number of character-ID-keyed fonts in the catalogue.
pub const KEYED: u64 = (GLYPHS * 4 * 2 * SELECTS * TRIPLES * DICTS * PATTERNS * 2) as u64;

pub fn keyed(mut index: u64) -> FontSpec {
    let mut peel = |base: usize| crate::run::peel(&mut index, base);
    let glyphs = glyphs(peel(GLYPHS));
    let charset = charset([0, 4, 6, 7][peel(4)], glyphs.len());
    let encoding = encoding([0, 4][peel(2)], glyphs.len());
    let select = peel(SELECTS);
    let ros = match peel(TRIPLES) {
        0 => vec![Num::Int(391), Num::Int(392), Num::Int(0)],
        1 => vec![Num::Int(0), Num::Int(390), Num::Int(7)],
        2 => vec![Num::Int(65535), Num::Int(1), Num::Int(-1)],
        _ => vec![Num::Int(256), Num::Int(65535), Num::Int(70000)],
    };
    let count = [1, 2, 3, 5][peel(DICTS)];
    let pattern = peel(PATTERNS);
    let last = peel(2);
    let dicts: Vec<_> = (0..count)
        .map(|j| {
            let entries = match (j + last) % 3 {
                0 => vec![],
                1 => vec![(0x0c26, vec![Num::Int(400 + j as i32)])],
                _ => vec![(0x0c07, vec![Num::Real(0.001), Num::Int(j as i32)]), (0x0c26, vec![Num::Int(5)])],
            };
            let spec = match pattern {
                0 => private(0, 0),
                1 => private(1, 2),
                2 => private(j % 3, j % 4),
                3 => private((j + 1) % 3, (3 * j + 3) % 4),
                4 => private(2, if j % 2 == 0 { 3 } else { 0 }),
                _ => private(1, if j % 2 == 0 { 0 } else { 2 }),
            };
            (entries, spec)
        })
        .collect();
    let n = glyphs.len();
    let select = match select {
        0 => Select::Format0((0..n).map(|i| (i % count) as u8).collect()),
        1 => Select::Format3(vec![(0, count as u8 - 1)], n as u16),
        2 => Select::Format3((0..n).map(|i| (i as u16, ((i + 1) % count) as u8)).collect(), n as u16),
        _ => Select::Format0(vec![count as u8 - 1; n]),
    };
    FontSpec { glyphs, charset, encoding, key: KeySpec::Cid { ros, select, dicts }, extra: extra(last * 3) }
}

/// A set around fonts.
pub fn around(fonts: Vec<FontSpec>, variant: usize) -> SetSpec {
    let names = (0..fonts.len()).map(|i| vec![b'A' + (i % 58) as u8; i + variant % 3]).collect();
    let strings = match variant % 3 {
        0 => vec![],
        1 => vec![b"one".to_vec()],
        _ => vec![vec![0xff, 0x41], vec![], b"three".to_vec()],
    };
    let subrs = match (variant / 3) % 3 {
        0 => vec![],
        1 => vec![vec![0x0b]],
        _ => vec![vec![], vec![0x8b, 0x16, 0x0b]],
    };
    SetSpec { names, strings, subrs, fonts }
}
