//! C20: memory requested.

use super::c15::typical;
use super::c17::bases;
use super::c18::subjects;
use super::cff::MEMORY;
use crate::fontbuild::*;
use crate::model::cff::*;
use crate::run::{digits, hex, peel, pow, Ctx};

const COUNTS: [u16; 16] =
    [0, 1, 2, 3, 127, 128, 255, 256, 1000, 4096, 32767, 32768, 50000, 65533, 65534, 65535];
const SIZES: [u32; 20] = [
    0, 1, 2, 3, 255, 256, 4095, 4096, 65535, 65536, 1 << 20, 0xff_ffff, 1 << 24, 1 << 28, 1 << 30, 0x7fff_fffe, 0x7fff_ffff,
    0x8000_0000, 0xffff_fffe, 0xffff_ffff,
];

pub fn explore(ctx: &Ctx) {
    let readers =
        [Reader::Index, Reader::Names, Reader::Dicts, Reader::Strings, Reader::Subroutines, Reader::CharStrings];
    // All counts with little behind.
    ctx.each("indices of all counts and offset sizes with little data", 65536 * 4, |index, t| {
        let (count, size) = ((index >> 2) as u16, (index & 3) as u8 + 1);
        let step = 1;
        let mut data = count.to_be_bytes().to_vec();
        data.extend_from_slice(&[size, 0, 0, 0, 1, 0, 0, 0, 2, 1]);
        let reader = readers[index as usize / 4 % 6];
        if COUNTS.contains(&count) || count % step == 0 {
            t.check(MEMORY, &[reader.code(), 2, 0], &[&data]);
        }
        if index % 9999 == 17 {
            ctx.sample(format!("{reader:?} {}", hex(&data)));
        }
    });
    // Objects of all sizes, with nothing, little, and a lot behind.
    ctx.each("objects of extreme sizes", 20 * 20 * 20 * 4 * 6, |mut index, t| {
        let reader = readers[peel(&mut index, 6)];
        let size = peel(&mut index, 4) + 1;
        let mut word = vec![];
        digits(index, 20, 3, &mut word);
        let mut data = vec![0, 3, size as u8];
        let mut offset = 1u32;
        for digit in [&[0][..], &word].concat() {
            offset = offset.saturating_add(SIZES[digit]);
            data.extend_from_slice(&offset.to_be_bytes()[4 - size..]);
        }
        for left in [0usize, 1, 300] {
            let mut data = data.clone();
            data.resize(data.len() + left, 0x0e);
            t.check(MEMORY, &[reader.code(), 2, 0], &[&data]);
        }
    });
    ctx.each("absolute offsets", 20 * 20 * 20 * 6, |mut index, t| {
        let reader = readers[peel(&mut index, 6)];
        let mut data = vec![0, 3, 4, 0, 0, 0, 1];
        for _ in 0..3 {
            data.extend_from_slice(&SIZES[peel(&mut index, 20)].to_be_bytes());
        }
        data.extend_from_slice(&[0x0e; 17]);
        t.check(MEMORY, &[reader.code(), 2, 1], &[&data]);
    });
    // Data that is present in part: what was read bounds what was requested.
    ctx.each("objects of which a part is present", 20 * 14, |mut index, t| {
        let size = SIZES[peel(&mut index, 20)];
        let present = [1usize, 100, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 65536, 100_000, 262_144, 400_000][index as usize];
        let mut data = vec![0, 1, 4, 0, 0, 0, 1];
        data.extend_from_slice(&size.saturating_add(1).to_be_bytes());
        data.resize(data.len() + present, 0x55);
        for reader in [Reader::Index, Reader::Strings, Reader::CharStrings] {
            t.check(MEMORY, &[reader.code(), 2, 0], &[&data]);
        }
    });
    // Tables of all counts.
    ctx.each("character sets of all numbers of glyphs", 65536 + 20, |index, t| {
        let glyphs = if index < 65536 { index as i64 } else { 65536 << (index - 65536) / 4 };
        let step = 1;
        if index % step != 0 && index > 300 && index < 65500 {
            return;
        }
        // The number of glyphs is that of an index, and thus at most 65535.
        let glyphs = glyphs.min(65535);
        for data in [&[0][..], &[1], &[2], &[0, 0, 1], &[1, 0, 1, 255], &[2, 0, 1, 255, 255], &[2, 0, 1, 0, 0, 0, 1, 0]] {
            t.check(MEMORY, &[Reader::Charset.code(), glyphs, 0], &[data]);
        }
        for data in [&[0][..], &[3, 0, 0, 0], &[0, 1, 2], &[3, 255, 255], &[3, 0xff, 0xff, 0, 0, 0]] {
            t.check(MEMORY, &[Reader::Select.code(), glyphs, 0], &[data]);
        }
        let count = (glyphs as u16).to_be_bytes();
        t.check(MEMORY, &[Reader::Select.code(), 1, 0], &[&[3, count[0], count[1], 0, 0, 0]]);
    });
    ctx.each("encodings of all formats and counts", 65536, |index, t| {
        let head = [(index >> 8) as u8, index as u8];
        t.check(MEMORY, &[Reader::Encoding.code(), 0, 0], &[&head]);
        t.check(MEMORY, &[Reader::Encoding.code(), 0, 0], &[&[head[0], 0, head[1]]]);
    });
    // Numbers and dictionaries of great length.
    ctx.each("long numbers and dictionaries", 5 * 12, |mut index, t| {
        let kind = peel(&mut index, 5);
        let count = [0usize, 1, 10, 100, 1000, 5000, 20000, 60000, 100_000, 200_000, 300_000, 400_000][index as usize];
        let mut data = vec![];
        match kind {
            0 => {
                data.push(0x1e);
                data.resize(count + 1, 0x11);
                data.push(0xff);
            }
            1 => data.resize(count, 0x8b),
            2 => data.resize(count, 5),
            3 => (0..count / 2).for_each(|_| data.extend_from_slice(&[0x0c, 0x07])),
            _ => (0..count / 3).for_each(|i| data.extend_from_slice(&[0x8b, 0xf7, (i % 14) as u8 + i as u8 % 2])),
        }
        if data.len() > 100_000 && kind == 0 {
            // Enough.
            data.truncate(100_000);
        }
        t.check(MEMORY, &[Reader::Dict.code(), 0, 0], &[&data]);
    });
    // Font sets with every offset, size and count set to extreme values.
    let fonts = typical();
    let values = [0, 1, 100, 65535, 1 << 20, 1 << 24, 1 << 28, 1 << 30, 0x7fff_ff00, i32::MAX - 1, i32::MAX, -1, i32::MIN];
    let codes = [CHARSTRINGS, CHARSET, ENCODING, PRIVATE, SUBRS, FD_ARRAY, FD_SELECT];
    ctx.each("font sets with extreme offsets and sizes", (fonts.len() * 7 * 3 * 13 * 13) as u64, |mut index, t| {
        let font = fonts[peel(&mut index, fonts.len())].clone();
        let code = codes[peel(&mut index, 7)];
        let place = [Place::Top(0), Place::Inner(0, 0), Place::Private(0, 0)][peel(&mut index, 3)];
        let operands = vec![Num::Int(values[peel(&mut index, 13)]), Num::Int(values[index as usize])];
        let tweak = Tweak { place, code, change: Change::Set(operands) };
        let built = build(&around(vec![font], 2), &Layout::default(), &[tweak]);
        t.check(MEMORY, &[Reader::Set.code(), 0, 0], &[&built.data]);
    });
    // Private ranges of which a part is present.
    ctx.each("private dictionaries of which a part is present", 13 * 8 * 2, |mut index, t| {
        let size = values[peel(&mut index, 13)];
        let font = fonts[[1, 9][peel(&mut index, 2)]].clone();
        let mut place = Place::Top(0);
        if let KeySpec::Cid { .. } = font.key {
            place = Place::Inner(0, 0);
        }
        let present = [0usize, 10, 1000, 5000, 50_000, 100_000, 200_000, 400_000][index as usize];
        let spec = around(vec![font], 2);
        let length = build(&spec, &Layout { form: 2, ..Default::default() }, &[]).data.len();
        let change = Change::Set(vec![Num::Int(size), Num::Int(length as i32 - 1)]);
        let mut data = build(&spec, &Layout { form: 2, ..Default::default() }, &[Tweak { place, code: PRIVATE, change }]).data;
        data.resize(data.len() + present, 0x8b);
        t.check(MEMORY, &[Reader::Set.code(), 0, 0], &[&data]);
    });
    // Every byte and every pair of neighbouring bytes replaced.
    for (number, base) in bases().iter().enumerate() {
        ctx.each(&format!("base {number}: bytes and pairs of bytes replaced"), base.len() as u64, |index, t| {
            let at = index as usize;
            for x in if ctx.quick() { vec![0u8, 1, 2, 4, 0x1d, 0x7f, 0x80, 0xfe, 0xff] } else { (0..=255).collect() } {
                let mut data = base.clone();
                data[at] = x;
                t.check(MEMORY, &[Reader::Set.code(), 0, 0], &[&data]);
                for y in [0u8, 0x7f, 0xff] {
                    for next in at + 1..(at + 5).min(base.len()) {
                        let mut data = data.clone();
                        data[next] = y;
                        t.check(MEMORY, &[Reader::Set.code(), 0, 0], &[&data]);
                    }
                }
            }
            t.check(MEMORY, &[Reader::Set.code(), 0, 0], &[&base[..at]]);
        });
    }
    // Many fonts that share everything: what they designate is read for each of them.
    ctx.each("sets of many fonts that share their parts", 60, |index, t| {
        let count = (index as usize + 1) * 10;
        let font = fonts[index as usize % fonts.len()].clone();
        let built = build(&around(vec![font; count], 2), &Layout { share: true, ..Default::default() }, &[]);
        t.check(MEMORY, &[Reader::Set.code(), 0, 0], &[&built.data]);
    });
    // What is well-formed.
    let list = subjects();
    ctx.each("well-formed structures and sets", list.len() as u64, |index, t| {
        let (reader, parameter, data) = &list[index as usize];
        t.check(MEMORY, &[reader.code(), *parameter, 0], &[data]);
    });
    let words = pow(2, ctx.pick(6, 10));
    ctx.each("heads of indices, all extreme", words * 16 * 8, |mut index, t| {
        let count = COUNTS[peel(&mut index, 16)].to_be_bytes();
        let reader = [readers[0], readers[1], readers[2], readers[3], readers[4], readers[5], Reader::Set, Reader::Count]
            [peel(&mut index, 8)];
        let mut data = if matches!(reader, Reader::Set | Reader::Count) { vec![1, 0, 4, 4] } else { vec![] };
        data.extend_from_slice(&count);
        data.extend_from_slice(&[4, 0, 0, 0, 1]);
        for i in 0..16 {
            data.push(if index >> i & 1 == 1 { 0xff } else { 0 });
        }
        t.check(MEMORY, &[reader.code(), 2, 0], &[&data]);
    });
}
