//! C11: string identifiers.

use postscript::compact1 as ps;

use super::cff;
use crate::model::tables;
use crate::run::{digits, hex, peel, pow, Ctx, Print, Stats};

/// Convert all numbers with a given upper half; nums: upper half, whether all lower halves.
const CONVERT: u32 = 30;
/// Look up all identifiers; nums: number of strings of the font, how they look.
const LOOKUP: u32 = 31;
/// Names and strings of given contents; blobs: contents.
const TEXT: u32 = 32;
/// Texts of two fixed bytes and any two more; nums: the bytes.
const TEXTS: u32 = 33;
/// Long texts among others; nums: length, pattern.
const LONG: u32 = 36;

fn strings(data: Vec<Vec<u8>>) -> ps::Index {
    let mut offsets = vec![ps::Offset(1)];
    for object in &data {
        offsets.push(ps::Offset(offsets.last().unwrap().0 + object.len() as u32));
    }
    ps::Index { count: data.len() as u16, offset_size: 4, offsets, data }
}

/// Split into characters, `None` for a byte that belongs to none. (Unicode, Table 3-7)
fn decode(bytes: &[u8]) -> Vec<Option<char>> {
    let mut list = vec![];
    let mut at = 0;
    while at < bytes.len() {
        let tail = |i: usize, low: u8, high: u8| bytes.get(at + i).is_some_and(|byte| (low..=high).contains(byte));
        let first = bytes[at];
        let count = match first {
            0x00..=0x7f => 1,
            0xc2..=0xdf if tail(1, 0x80, 0xbf) => 2,
            0xe0 if tail(1, 0xa0, 0xbf) && tail(2, 0x80, 0xbf) => 3,
            0xe1..=0xec | 0xee | 0xef if tail(1, 0x80, 0xbf) && tail(2, 0x80, 0xbf) => 3,
            0xed if tail(1, 0x80, 0x9f) && tail(2, 0x80, 0xbf) => 3,
            0xf0 if tail(1, 0x90, 0xbf) && tail(2, 0x80, 0xbf) && tail(3, 0x80, 0xbf) => 4,
            0xf1..=0xf3 if tail(1, 0x80, 0xbf) && tail(2, 0x80, 0xbf) && tail(3, 0x80, 0xbf) => 4,
            0xf4 if tail(1, 0x80, 0x8f) && tail(2, 0x80, 0xbf) && tail(3, 0x80, 0xbf) => 4,
            _ => 0,
        };
        if count == 0 {
            list.push(None);
            at += 1;
            continue;
        }
        let mask = [0x7f, 0x1f, 0x0f, 0x07][count - 1];
        let mut value = (first & mask) as u32;
        for i in 1..count {
            value = value << 6 | (bytes[at + i] & 0x3f) as u32;
        }
        list.push(char::from_u32(value));
        at += count;
    }
    list
}

/// Runs of malformed bytes stand for at least one replacement character, and at most one each.
fn same(bytes: &[u8], text: &str) -> bool {
    let want = decode(bytes);
    let got: Vec<char> = text.chars().collect();
    let mut at = 0;
    let mut i = 0;
    while i < want.len() {
        match want[i] {
            Some(character) => {
                if got.get(at) != Some(&character) {
                    return false;
                }
                at += 1;
                i += 1;
            }
            None => {
                let run = want[i..].iter().take_while(|one| one.is_none()).count();
                let found = got[at..].iter().take(run).take_while(|one| **one == '\u{fffd}').count();
                // What follows the run may be a replacement character of its own.
                if found == 0 {
                    return false;
                }
                if want.get(i + run) == Some(&Some('\u{fffd}')) {
                    // Ambiguous: decide by the rest.
                    return (1..=found).any(|used| same_from(&want[i + run..], &got[at + used..]));
                }
                at += found;
                i += run;
            }
        }
    }
    at == got.len()
}

fn same_from(want: &[Option<char>], got: &[char]) -> bool {
    // Enough for the short texts at hand: collapse.
    let collapse = |list: Vec<char>| {
        let mut list = list;
        list.dedup_by(|a, b| *a == '\u{fffd}' && *b == '\u{fffd}');
        list
    };
    collapse(want.iter().map(|one| one.unwrap_or('\u{fffd}')).collect()) == collapse(got.to_vec())
}

fn text(objects: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    let index = strings(objects.iter().map(|object| object.to_vec()).collect());
    let names: Vec<String> = ps::index::Names(index.clone())
        .try_into()
        .map_err(|error| format!("names: got an error ({error:?})"))?;
    if names.len() != objects.len() {
        return Err(format!("expected {} names, got {}", objects.len(), names.len()));
    }
    let table = ps::index::Strings(index);
    for (i, object) in objects.iter().enumerate() {
        stats.transitions += 2;
        stats.state(Print::new().bytes(object).add(i as u64));
        if !same(object, &names[i]) {
            return Err(format!("name {i} of bytes {} became {:?}", hex(object), names[i]));
        }
        match table.get(391 + i as u16) {
            Some(string) if same(object, &string) => {}
            other => return Err(format!("string {} of bytes {} became {other:?}", 391 + i, hex(object))),
        }
    }
    match table.get(391 + objects.len() as u16) {
        None => Ok(()),
        other => Err(format!("there is no string {}, but got {other:?}", 391 + objects.len())),
    }
}

pub fn exec(kind: u32, nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    match kind {
        CONVERT => {
            let high = (nums[0] as u32) << 16;
            let one = |low: u32| -> Result<(), String> {
                let value = (high | low) as i32;
                let got = ps::StringID::try_from(ps::Number::Integer(value));
                match &got {
                    Ok(id) if (0..=65535).contains(&value) && *id as i32 == value => {}
                    Err(_) if !(0..=65535).contains(&value) => {}
                    _ => return Err(format!("the integer {value} became the string identifier {got:?}")),
                }
                // The same bits as a real number.
                let real = f32::from_bits(high | low);
                match ps::StringID::try_from(ps::Number::Real(real)) {
                    Err(_) => Ok(()),
                    Ok(id) => Err(format!("the real number {real} became the string identifier {id}")),
                }
            };
            if nums[1] == 1 || high == 0 {
                for low in 0..=0xffff {
                    one(low)?;
                }
                stats.bulk += 2 * 65536;
            } else {
                for low in [0, 1, 2, 390, 391, 392, 0x7fff, 0x8000, 0xfffe, 0xffff] {
                    one(low)?;
                }
                stats.bulk += 20;
            }
            stats.transitions += 1;
            stats.state(Print::new().add(high as u64));
            stats.outcome(Print::new().add(high as u64));
            Ok(())
        }
        LOOKUP => {
            let standard = tables::strings();
            let count = nums[0] as usize;
            let object = |i: usize| match nums[1] {
                0 => format!("string {i}"),
                // Strings that look like standard ones.
                _ => standard[(i + 1) % 391].to_string(),
            };
            let table = ps::index::Strings(strings((0..count).map(|i| object(i).into_bytes()).collect()));
            for id in 0..=65535u16 {
                let want = match id as usize {
                    id if id < 391 => Some(standard[id].to_string()),
                    id if id - 391 < count => Some(object(id - 391)),
                    _ => None,
                };
                let got = table.get(id);
                if got != want {
                    return Err(format!("identifier {id} with {count} strings: expected {want:?}, got {got:?}"));
                }
                stats.state(Print::new().add(id as u64).add(count as u64).add(nums[1] as u64));
            }
            // The same as names.
            let names: Vec<String> =
                ps::index::Names(table.0).try_into().map_err(|error| format!("{count} names: got an error ({error:?})"))?;
            if names.len() != count {
                return Err(format!("expected {count} names, got {}", names.len()));
            }
            if let Some(i) = (0..count).find(|&i| names[i] != object(i)) {
                return Err(format!("name {i} of {count}: expected {:?}, got {:?}", object(i), names[i]));
            }
            stats.transitions += 65536 + count as u64;
            stats.bulk += 65536;
            stats.outcome(Print::new().add(count as u64));
            Ok(())
        }
        TEXT => text(blobs, stats),
        LONG => {
            let length = nums[0] as usize;
            let pattern: &[u8] = [b"abcdefghijklm".as_slice(), "\u{e9}\u{20ac}z".as_bytes(), b"ab\xff", b"\0", b" \t", b"\xef\xbb\xbf"][nums[1] as usize];
            let data: Vec<u8> = (0..length).map(|i| pattern[i % pattern.len()]).collect();
            text(&[b"A", &data, b"B"], stats)
        }
        TEXTS => {
            for third in 0..=255u8 {
                let data = [nums[0] as u8, nums[1] as u8, third];
                text(&[&data, &data[..2]], stats)?;
            }
            stats.bulk += 256;
            Ok(())
        }
        _ => cff::exec(kind, nums, blobs, stats),
    }
}

pub fn explore(ctx: &Ctx) {
    ctx.each("conversion of numbers by upper half", 65536, |index, t| {
        t.check(CONVERT, &[index as i64, ctx.pick((index % 8 == 0) as i64, 1)], &[]);
    });
    ctx.sample("conversion of every integer with upper half 0 and of 10 per other upper half".to_string());
    let mut counts = vec![0i64, 390, 391, 392, 647, 65143, 65144, 65145, 65146];
    for power in 0..=16 {
        counts.extend((-1..=1).map(|by| (1i64 << power) + by).filter(|count| *count <= 65535));
    }
    counts.sort();
    counts.dedup();
    ctx.each("all identifiers with several numbers of strings", counts.len() as u64 * 2, |index, t| {
        t.check(LOOKUP, &[counts[index as usize / 2], index as i64 % 2], &[]);
    });
    ctx.sample("identifiers 0..=65535 with 0, 1, ..., 65535 strings".to_string());
    ctx.each("texts of 3 bytes", 65536, |index, t| {
        t.check(TEXTS, &[index as i64 >> 8, index as i64 & 0xff], &[]);
    });
    // Longer texts over the classes of bytes.
    let classes = [0x00u8, 0x41, 0x7f, 0x80, 0x8f, 0x9f, 0xa0, 0xbd, 0xbf, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff];
    for length in 1..=ctx.pick(5, 6) {
        ctx.each(&format!("texts of {length} bytes by class"), pow(19, length), |index, t| {
            let mut word = vec![];
            digits(index, 19, length, &mut word);
            let data: Vec<u8> = word.iter().map(|digit| classes[*digit]).collect();
            t.check(TEXT, &[], &[&data]);
            if length == 4 && index == 70_000 {
                ctx.sample(format!("text {}", hex(&data)));
            }
        });
    }
    // Long texts.
    let mut lengths: Vec<i64> = (0..=1100).collect();
    for power in 11..=ctx.pick(17, 20) {
        lengths.extend((1i64 << power) - 2..=(1 << power) + 2);
    }
    ctx.each("long texts", lengths.len() as u64 * 6, |index, t| {
        t.check(LONG, &[lengths[index as usize / 6], index as i64 % 6], &[]);
    });
    // The order of several.
    let texts: [&[u8]; 6] = [b"", b"A", b"BC", &[0xff], &[0xc3, 0xa9], &[0x44, 0x80, 0x45]];
    ctx.each("sequences of up to 5 texts", 5 * pow(6, 5), |mut index, t| {
        let count = peel(&mut index, 5) + 1;
        let mut word = vec![];
        digits(index, 6, count, &mut word);
        let blobs: Vec<&[u8]> = word.iter().map(|digit| texts[*digit]).collect();
        if index < pow(6, count) {
            t.check(TEXT, &[], &blobs);
        }
    });
}
