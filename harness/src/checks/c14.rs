//! C14: custom encodings.

use super::cff::{MANY, READ};
use crate::model::cff::*;
use crate::run::{digits, hex, peel, pow, Ctx};

pub fn explore(ctx: &Ctx) {
    let encoding = Reader::Encoding.code();
    ctx.each("all strings of 0 to 3 bytes", 65536 + 257, |index, t| {
        if index == 65536 {
            t.check(READ, &[encoding, 0, 0], &[&[]]);
        } else if index > 65536 {
            t.check(READ, &[encoding, 0, 0], &[&[(index - 65537) as u8]]);
        } else {
            let (a, b) = ((index >> 8) as u8, index as u8);
            t.check(READ, &[encoding, 0, 0], &[&[a, b]]);
            if b < 32 || !ctx.quick() || a & 0x7f < 8 {
                t.check(MANY, &[encoding, 0, 1], &[&[a, b], &[]]);
            }
        }
    });
    // All formats with enough data for whatever they might be.
    ctx.each("all formats", 256 * 5 * 4, |mut index, t| {
        let format = peel(&mut index, 256) as u8;
        let count = peel(&mut index, 5) as u8;
        let more = index as u8;
        let mut data = vec![format, count];
        let size = if format & 0x7f == 1 { 2 } else { 1 };
        data.extend((0..count * size).map(|i| 40 + 11 * i));
        data.push(more);
        for i in 0..more {
            data.extend_from_slice(&[60 + i, i, 200 - i]);
        }
        for end in 0..=data.len() {
            t.check(READ, &[encoding, 0, 0], &[&data[..end]]);
        }
        data.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
        t.check(READ, &[encoding, 0, 2], &[&data]);
    });
    // All counts of codes or ranges with all counts of supplements.
    ctx.each("all counts", 4 * 256 * ctx.pick(256, 256), |mut index, t| {
        let format = [0u8, 1, 0x80, 0x81][peel(&mut index, 4)];
        let count = peel(&mut index, 256);
        let more = index as usize * 1 + 0;
        let mut data = vec![format, count as u8];
        for i in 0..count {
            data.push(i as u8);
            if format & 0x7f == 1 {
                data.push(0);
            }
        }
        if format >= 0x80 {
            data.push(more as u8);
            for i in 0..more {
                data.extend_from_slice(&[255 - i as u8, (i >> 1) as u8, (7 * i) as u8]);
            }
        } else if more > 8 {
            return;
        }
        t.check(READ, &[encoding, 0, (count % 3) as i64], &[&data]);
        t.check(READ, &[encoding, 0, 0], &[&data[..data.len() - 1]]);
        data.push(0x55);
        t.check(READ, &[encoding, 0, 0], &[&data]);
        if count == 3 && more == 3 {
            ctx.sample(format!("encoding {}", hex(&data)));
        }
    });
    // All contents over a few values.
    let values = [0u8, 1, 2, 127, 128, 255];
    for format in [0u8, 1, 0x80, 0x81] {
        for length in 1..=ctx.pick(7, 9) {
            ctx.each(
                &format!("format {format:#04x}, strings of {length} bytes over {values:?}"),
                pow(6, length) * 4,
                |mut index, t| {
                    let count = peel(&mut index, 4) as u8;
                    let mut word = vec![];
                    digits(index, 6, length, &mut word);
                    let mut data = vec![format, count];
                    data.extend(word.iter().map(|digit| values[*digit]));
                    t.check(READ, &[encoding, 0, 0], &[&data]);
                },
            );
        }
    }
}
