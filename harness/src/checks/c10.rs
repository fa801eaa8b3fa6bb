//! C10: indices.

use postscript::compact1 as ps;
use postscript::tape::Read;

use super::cff::{self, MANY, READ};
use crate::model::cff::*;
use crate::run::{digits, hex, peel, pow, Ctx, Print, Stats};

/// An index that is built from numbers: reader, count, offset size, pattern, length, position.
const BUILT: u32 = 30;

fn build(count: usize, size: usize, lengths: impl Fn(usize) -> usize) -> Vec<u8> {
    let mut data = (count as u16).to_be_bytes().to_vec();
    if count == 0 {
        return data;
    }
    data.push(size as u8);
    let mut offset = 1u32;
    let put = |data: &mut Vec<u8>, offset: u32| data.extend_from_slice(&offset.to_be_bytes()[4 - size..]);
    put(&mut data, offset);
    for i in 0..count {
        offset += lengths(i) as u32;
        put(&mut data, offset);
    }
    for i in 0..count {
        data.extend((0..lengths(i)).map(|j| (i * 7 + j * 13 + (j >> 8) * 5) as u8));
    }
    data
}

pub fn exec(kind: u32, nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    if kind != BUILT {
        return cff::exec(kind, nums, blobs, stats);
    }
    let (reader, count, size, length) =
        (READERS[nums[0] as usize], nums[1] as usize, nums[2] as usize, nums[4] as usize);
    let lengths = |i: usize| match nums[3] {
        // All alike; all in the first; all in the last; in turn.
        0 => length,
        1 => (i == 0) as usize * length,
        2 => (i + 1 == count) as usize * length,
        _ => i % (length + 1),
    };
    let mut data = build(count, size, lengths);
    let whole = data.len();
    data.extend_from_slice(&[0xee; 3]);
    let position = nums[5] as usize;
    let parameter = if reader == Reader::CharStrings { 2 } else { 0 };
    let stream = cff::stream(position, &data, 0);
    let mut tape = std::io::Cursor::new(&stream[..]);
    tape.set_position(position as u64);
    stats.state(Print::new().add(nums[0] as u64).add(count as u64).add((size * 4 + nums[3] as usize) as u64).add(length as u64));
    stats.outcome(Print::new().add(whole as u64));
    stats.transitions += count as u64 + 1;
    let answer = cff::real(reader, parameter, &mut tape).map_err(|error| format!("got an error ({error})"))?;
    let Value::Index(index) = answer.value() else { unreachable!() };
    if index.data.len() != count {
        return Err(format!("expected {count} objects, got {}", index.data.len()));
    }
    let mut at = whole - (0..count).map(lengths).sum::<usize>();
    for i in 0..count {
        let end = at + lengths(i);
        if index.data[i] != data[at..end] {
            return Err(format!("object {i} of {} bytes differs ({} bytes)", end - at, index.data[i].len()));
        }
        at = end;
    }
    if tape.position() != (position + whole) as u64 {
        return Err(format!("expected to end at {}, ended at {}", position + whole, tape.position()));
    }
    // One byte less is an error.
    if whole > 2 || count == 0 {
        let mut tape = std::io::Cursor::new(&data[..whole - 1]);
        if cff::real(reader, parameter, &mut tape).is_ok() {
            return Err("expected an error without the last byte".to_string());
        }
    }
    // The objects can be reached through the interface as a sequence.
    let mut tape = std::io::Cursor::new(&data[..]);
    let index: ps::Index = tape.take().map_err(|error| format!("got an error ({error})"))?;
    if index.len() != count || index.count as usize != count || index.iter().zip(&index.data).any(|(a, b)| a != b) {
        return Err("the index is not the sequence of its objects".to_string());
    }
    Ok(())
}

pub fn explore(ctx: &Ctx) {
    let readers = [
        Reader::Index,
        Reader::Names,
        Reader::Dicts,
        Reader::Strings,
        Reader::Subroutines,
        Reader::CharStrings,
    ];
    // All small arrays of offsets with all amounts of data.
    let most = 8u64;
    for count in 1..=ctx.pick(5usize, 6) {
        let arrays = pow(most, count + 1);
        ctx.each(
            &format!("{count} objects, all offsets below {most}, all sizes of offsets"),
            arrays * 5,
            |mut index, t| {
                let size = peel(&mut index, 5);
                let mut word = vec![];
                digits(index, most, count + 1, &mut word);
                let mut data = (count as u16).to_be_bytes().to_vec();
                data.push(size as u8);
                for offset in &word {
                    data.extend_from_slice(&(*offset as u32).to_be_bytes()[4 - size..]);
                }
                // Data that reads as dictionaries: operators only.
                let front = data.len();
                data.extend_from_slice(&[0x00, 0x01, 0x02, 0x03, 0x04, 0x0d, 0x0e, 0x05][..most as usize]);
                for end in front..=data.len() {
                    if word[0] != 1 && end > front && end < data.len() {
                        continue;
                    }
                    t.check(READ, &[Reader::Index.code(), 0, (end % 3) as i64], &[&data[..end]]);
                }
                if word[0] == 1 {
                    for reader in &readers[1..] {
                        let parameter = if *reader == Reader::CharStrings { 2 } else { 0 };
                        t.check(READ, &[reader.code(), parameter, 1], &[&data]);
                    }
                }
                if index == arrays / 5 {
                    ctx.sample(format!("index {}", hex(&data)));
                }
            },
        );
    }
    // Offsets of all sizes around their limits, with little data behind.
    let values = [0u32, 1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fff, 0xffff, 0x1_0000, 0xff_ffff, 0x100_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
    ctx.each("extreme offsets", 18 * 18 * 18 * 4, |mut index, t| {
        let size = peel(&mut index, 4) + 1;
        let mut word = vec![];
        digits(index, 18, 3, &mut word);
        let mut data = vec![0, 2, size as u8];
        for digit in &word {
            data.extend_from_slice(&values[*digit].to_be_bytes()[4 - size..]);
        }
        data.extend_from_slice(&[0x0e; 5]);
        for reader in readers {
            let parameter = if reader == Reader::CharStrings { 2 } else { 0 };
            t.check(READ, &[reader.code(), parameter, 0], &[&data]);
        }
    });
    // All first offsets, those behind being consistent with them.
    ctx.each("first offsets", 4 * 65536, |index, t| {
        let (size, low) = ((index >> 16) as usize + 1, index as u32 & 0xffff);
        let mut firsts = vec![low];
        if size > 2 {
            // One and any two more bytes.
            let (a, b) = (low >> 8, low & 0xff);
            firsts = vec![low << 8 | 1, (a << 16 | b) & 0xff_ffff, low << 8, low << 8 | 2];
        }
        if size > 3 {
            let (a, b) = (low >> 8, low & 0xff);
            firsts.extend([low << 16 | 1, a << 24 | b << 8 | 1, a << 24 | b]);
        }
        for first in firsts {
            let limit = (1u64 << (8 * size)) - 1;
            if first as u64 + 3 > limit {
                continue;
            }
            let mut data = vec![0, 2, size as u8];
            for offset in [first, first + 1, first + 3] {
                data.extend_from_slice(&offset.to_be_bytes()[4 - size..]);
            }
            data.extend_from_slice(&[0x05, 0x0e, 0x0e, 0x0e]);
            let reader = readers[low as usize % readers.len()];
            let parameter = if reader == Reader::CharStrings { 2 } else { 0 };
            t.check(READ, &[Reader::Index.code(), 0, 0], &[&data]);
            t.check(READ, &[reader.code(), parameter, 0], &[&data]);
        }
    });
    // All offset sizes and counts, too little and enough data.
    ctx.each("all offset sizes", 256 * 4, |index, t| {
        let (size, count) = (index as u8, (index >> 8) as usize);
        let mut data = (count as u16).to_be_bytes().to_vec();
        data.push(size);
        for i in 0..=count {
            data.extend((1..size).map(|_| 0));
            data.push(1 + i as u8);
        }
        data.extend_from_slice(&[0x0e; 4]);
        for reader in readers {
            let parameter = if reader == Reader::CharStrings { 2 } else { 0 };
            for end in 0..=data.len().min(24) {
                t.check(READ, &[reader.code(), parameter, 0], &[&data[..end]]);
            }
            t.check(READ, &[reader.code(), parameter, 4], &[&data]);
        }
    });
    // Data that would be well-formed with offsets of another size.
    ctx.each("offset sizes other than that of the offsets", 256 * 4 * 3, |mut index, t| {
        let claimed = peel(&mut index, 256) as u8;
        let size = peel(&mut index, 4) + 1;
        let count = index as usize + 1;
        for length in [0, 1, 2] {
            let mut data = build(count, size, |i| (i + 1) % (length + 1));
            for byte in &mut data[3 + (count + 1) * size..] {
                *byte = 0x0e;
            }
            data[2] = claimed;
            data.extend_from_slice(&[0x0e; 2]);
            for reader in readers {
                let parameter = if reader == Reader::CharStrings { 2 } else { 0 };
                t.check(READ, &[reader.code(), parameter, 0], &[&data]);
            }
        }
    });
    // A decrease anywhere among many offsets.
    let mut places: Vec<(usize, usize)> = (0..=300).map(|i| (300, i)).collect();
    for power in [8usize, 9, 10, 11, 12, 13, 14, 15, 16] {
        for place in (1 << power) - 3..(1usize << power) + 3 {
            places.extend([5000, 40000, 65535].iter().filter(|count| place <= **count).map(|count| (*count, place)));
        }
    }
    ctx.each("a decrease among many offsets", (places.len() * 2) as u64, |mut index, t| {
        let size = peel(&mut index, 2) + 1;
        let (count, place) = places[index as usize];
        let mut data = (count as u16).to_be_bytes().to_vec();
        data.push(size as u8);
        for i in 0..=count {
            data.extend_from_slice(&[0, 1 + 2 * (i == place) as u8][2 - size..]);
        }
        data.extend_from_slice(&[0x0e; 4]);
        let reader = readers[place % readers.len()];
        let parameter = if reader == Reader::CharStrings { 2 } else { 0 };
        t.check(READ, &[Reader::Index.code(), 0, 0], &[&data]);
        t.check(READ, &[reader.code(), parameter, 0], &[&data]);
    });
    // All formats of character strings.
    let formats: Vec<i64> = (-300..=300).chain([i32::MIN as i64, i32::MAX as i64, 65538, 258]).collect();
    ctx.each("formats of character strings", formats.len() as u64, |index, t| {
        let format = formats[index as usize];
        t.check(READ, &[Reader::CharStrings.code(), format, 0], &[&[0, 0]]);
        t.check(READ, &[Reader::CharStrings.code(), format, 0], &[&[0, 1, 1, 1, 2, 14]]);
    });
    // All counts in the small and around the limits.
    let mut counts: Vec<i64> = (0..=520).collect();
    counts.extend([1023, 1024, 1025, 4095, 4096, 32767, 32768, 32769, 65534, 65535]);
    ctx.each("counts", counts.len() as u64 * 4 * 4, |mut index, t| {
        let count = counts[peel(&mut index, counts.len())];
        let size = peel(&mut index, 4) as i64 + 1;
        let pattern = index as i64;
        let length = match (pattern, size) {
            (0 | 3, 1) if count > 250 => 0,
            (0, 2) if count > 65000 => 0,
            (0, _) => 1,
            (3, 2) if count > 20000 => 1,
            (3, _) => 2,
            (_, 1) => 254,
            _ => 300,
        };
        for (i, reader) in readers.iter().enumerate() {
            if count > 5000 && (i as i64 + pattern) % 3 != 0 || *reader == Reader::Dicts {
                continue;
            }
            t.check(BUILT, &[reader.code(), count, size, pattern, length, count % 3], &[]);
        }
    });
    // Sizes of objects around the limits of the offset sizes.
    let mut cases = vec![];
    for (size, length) in [
        (1, 253), (1, 254), (2, 254), (2, 255), (2, 256), (2, 65533), (2, 65534), (3, 65534), (3, 65535),
        (3, 65536), (4, 65536), (3, 1 << 20), (4, 1 << 20), (3, (1 << 24) - 2), (4, (1 << 24) - 1), (4, 1 << 24), (4, (1 << 24) + 1),
    ] {
        for count in [1i64, 2, 3] {
            for pattern in [1i64, 2] {
                if ctx.quick() && length > 1 << 20 && count == 2 {
                    continue;
                }
                cases.push([count, size, pattern, length]);
            }
        }
    }
    ctx.each("sizes of objects at the limits of offset sizes", cases.len() as u64, |index, t| {
        let [count, size, pattern, length] = cases[index as usize];
        t.check(BUILT, &[Reader::Index.code(), count, size, pattern, length, 1], &[]);
    });
    // All byte strings.
    for reader in readers {
        let parameter = if reader == Reader::CharStrings { 2 } else { 0 };
        ctx.each(&format!("{reader:?}: all strings of up to 2 bytes, and of 3"), 65536 + 257, |index, t| {
            if index == 65536 {
                t.check(READ, &[reader.code(), parameter, 0], &[&[]]);
            } else if index > 65536 {
                t.check(READ, &[reader.code(), parameter, 0], &[&[(index - 65537) as u8]]);
            } else {
                t.check(READ, &[reader.code(), parameter, 0], &[&[(index >> 8) as u8, index as u8]]);
                {
                    t.check(MANY, &[reader.code(), parameter, 0], &[&[(index >> 8) as u8, index as u8], &[]]);
                }
            }
        });
    }
    // One object of one-byte offsets, all contents.
    ctx.each("count 1, one-byte offsets, all contents", 65536, |index, t| {
        let (a, b) = ((index >> 8) as u8, index as u8);
        if a == 1 && b < 8 || ctx.pick(b % 4 == 0, true) {
            t.check(MANY, &[Reader::Index.code(), 0, 0], &[&[0, 1, 1, a, b], &[]]);
            t.check(MANY, &[Reader::Index.code(), 0, 0], &[&[0, 1, 1, a, b], &[9, 9]]);
        }
    });
}
