//! C04: hint masks.

use super::gen::*;
use super::t2::{NESTED, PROGRAM};
use crate::model::t2::*;
use crate::run::{hex, peel, Ctx};

const STEMS: [u16; 4] = [HSTEM, VSTEM, HSTEMHM, VSTEMHM];
const MASKS: [u16; 2] = [HINTMASK, CNTRMASK];
/// Mask bytes that look like operators and operands.
const FILLS: [u8; 12] = [0x00, 0xff, 14, 11, 10, 19, 12, 28, 0x8b, 21, 0xf7, 0x80];

/// What follows, so that a wrong number of mask bytes shows.
const ENDING: [u8; 7] = [0x8f, 0x90, 21, 0x91, 22, 0x92, 14];

pub fn explore(ctx: &Ctx) {
    super::t2::glyphs(ctx, super::t2::GLYPH, 1);
    // Every number of declared and implied stems, with every truncation.
    let most = ctx.pick(104usize, 200);
    let implied_most = ctx.pick(26usize, 52);
    ctx.each(
        "declared x implied stems x operators x parity",
        (4 * 2 * (most + 1) * (implied_most + 1) * 2 * 2) as u64,
        |mut index, t| {
            let stem = STEMS[peel(&mut index, 4)];
            let mask = MASKS[peel(&mut index, 2)];
            let declared = peel(&mut index, most + 1);
            let implied = peel(&mut index, implied_most + 1);
            let wide = peel(&mut index, 2);
            let odd = peel(&mut index, 2);
            let fill = FILLS[(declared + 3 * implied) % FILLS.len()];
            let mut writer = Writer { fill, ..Writer::default() };
            if declared > 0 {
                writer.operation(stem, 2 * declared + wide);
            }
            writer.operation(mask, 2 * implied + odd);
            let mut code = writer.code.clone();
            code.extend(ENDING);
            t.check(PROGRAM, &[0], &[&code]);
            // Cut off inside or right after the mask.
            let bytes = (declared + implied + 7) / 8;
            for cut in 0..=bytes {
                t.check(PROGRAM, &[0], &[&writer.code[..writer.code.len() - cut]]);
            }
            if declared == 9 && implied == 3 && odd == 1 {
                ctx.sample(format!("charstring {}", hex(&code)));
            }
        },
    );
    // Stems and masks in subroutines at every depth: both, only the stems, only the mask.
    let mut numbers: Vec<usize> = (0..ctx.pick(34, 104)).collect();
    for power in [6, 7, 8, 9, 10] {
        numbers.extend((1 << power) - 10..(1 << power) + 2);
    }
    let each = (4 * 2 * 10 * 3 * 3) as u64 * (numbers.len() * 20) as u64;
    ctx.each("stems and masks at every depth", each, |mut index, t| {
        let stem = STEMS[peel(&mut index, 4)];
        let mask = MASKS[peel(&mut index, 2)];
        let depth = peel(&mut index, 10) as i64 + 1;
        let pattern = [0i64, 0x3ff, 0x2c7][peel(&mut index, 3)];
        let place = peel(&mut index, 3);
        let declared = numbers[peel(&mut index, numbers.len())];
        let implied = index as usize;
        let mut writer = Writer { fill: FILLS[(declared + implied) % FILLS.len()], ..Writer::default() };
        if declared > 0 {
            writer.operation(stem, 2 * declared);
        }
        let from = writer.code.len();
        writer.operation(mask, implied);
        let (stems, mask) = writer.code.split_at(from);
        let (code, suffix) = match place {
            0 => (writer.code.clone(), ENDING.to_vec()),
            1 => (stems.to_vec(), [mask, &ENDING[..]].concat()),
            _ => ([&writer.code[..], &ENDING].concat(), vec![]),
        };
        t.check(NESTED, &[depth, pattern, (place < 2) as i64], &[&code, &suffix]);
    });
    let mut pieces = vec![];
    for stem in STEMS {
        for mask in MASKS {
            for (declared, implied) in [(0, 0), (0, 1), (1, 0), (8, 0), (7, 2), (9, 8), (40, 3), (0, 40)] {
                let mut writer = Writer { fill: 14, ..Writer::default() };
                if declared > 0 {
                    writer.operation(stem, 2 * declared);
                }
                writer.operation(mask, 2 * implied);
                writer.code.extend(ENDING);
                pieces.push(writer.code);
            }
        }
    }
    super::t2::distant(ctx, &pieces);
    // What follows a mask, the bytes of it included, is of one byte each.
    let single: Vec<u8> = (0..120).map(|i| 0x20 + i).chain([6, 14]).collect();
    let mut pieces = vec![];
    for mask in MASKS {
        for stem in STEMS {
            for (declared, implied) in [(1, 0), (2, 1), (7, 2), (16, 0), (17, 5), (40, 33), (80, 0)] {
                pieces.push([&distincts(0, declared)[..], &token(stem), &distincts(0, implied), &token(mask)].concat());
            }
        }
        for implied in [0, 1, 2, 15, 16, 17, 18, 63, 64, 65] {
            pieces.push([&distincts(0, implied)[..], &token(mask)].concat());
        }
    }
    super::t2::contexts(ctx, &pieces, &single);
    // Large numbers of stems, all at once and in two goes.
    ctx.each("up to 520 stems", 521 * 4, |mut index, t| {
        let stem = STEMS[peel(&mut index, 4)];
        let total = index as usize;
        for first in [0, total / 2, total.min(7)] {
            // With one operand more at the first, the second or the last.
            for odd in [0b000, 0b001, 0b010, 0b011, 0b100] {
                let mut writer = Writer { fill: 14, ..Writer::default() };
                for (i, part) in [first, total - first].into_iter().enumerate() {
                    if part > 0 {
                        writer.operation(stem, 2 * part + (odd >> i & 1));
                    }
                }
                writer.operation(HINTMASK, odd >> 2);
                writer.operation(CNTRMASK, 0);
                writer.code.extend(ENDING);
                t.check(PROGRAM, &[0], &[&writer.code]);
            }
            // Implied ones, with and without one operand more.
            for odd in 0..2 {
                let mut writer = Writer { fill: 11, ..Writer::default() };
                if first > 0 {
                    writer.operation(stem, 2 * first);
                }
                writer.operation(CNTRMASK, 2 * (total - first) + odd);
                writer.operation(HINTMASK, 0);
                writer.code.extend(ENDING);
                t.check(PROGRAM, &[0], &[&writer.code]);
            }
        }
    });
    // Every value of a mask byte, in every position of masks of up to three bytes.
    ctx.each("every value of every mask byte", 256 * 6 * 2, |mut index, t| {
        let value = peel(&mut index, 256) as u8;
        let (place, size) = [(0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3)][peel(&mut index, 6)];
        let mask = MASKS[peel(&mut index, 2)];
        for fill in [0x00, 0xff, 0x0e] {
            let mut writer = Writer { fill: 0, ..Writer::default() };
            writer.operation(HSTEMHM, 2 * (8 * size - 5));
            writer.operation(mask, 0);
            let from = writer.code.len() - size;
            for byte in &mut writer.code[from..] {
                *byte = fill;
            }
            writer.code[from + place] = value;
            writer.code.extend(ENDING);
            t.check(PROGRAM, &[0], &[&writer.code]);
        }
    });
    // More stems than small counters can count, by many operators.
    ctx.each("tens of thousands of stems", 12 * 4, |mut index, t| {
        let stem = STEMS[peel(&mut index, 4)];
        let total = [255usize, 256, 257, 511, 513, 2048, 8191, 8193, 32768, 65535, 65536, 65537][index as usize];
        let mut writer = Writer { fill: 10, ..Writer::default() };
        let mut left = total;
        while left > 0 {
            let count = left.min(24);
            writer.operation(stem, 2 * count);
            left -= count;
        }
        writer.operation(HINTMASK, 0);
        writer.operation(CNTRMASK, 3);
        writer.code.extend(ENDING);
        t.check(PROGRAM, &[0], &[&writer.code]);
    });
    {
        ctx.each("every mask of two bytes", 65536, |index, t| {
            let mut writer = Writer::default();
            writer.operation(HSTEMHM, 24);
            writer.operation(HINTMASK, 0);
            let from = writer.code.len() - 2;
            writer.code[from..].copy_from_slice(&(index as u16).to_be_bytes());
            writer.code.extend(ENDING);
            t.check(PROGRAM, &[0], &[&writer.code]);
        });
    }
    // Every short sequence of stem, mask and path operators.
    let mut events: Vec<(u16, usize)> = vec![];
    for stem in STEMS {
        for count in [2, 3, 6, 10] {
            events.push((stem, count));
        }
    }
    for mask in MASKS {
        for count in [0, 1, 2, 5, 8] {
            events.push((mask, count));
        }
    }
    events.extend([(RMOVETO, 2), (RLINETO, 4), (HMOVETO, 2)]);
    // Operators that fail; whatever they leave, it is not to be relied on.
    let base = events.len();
    for depth in 1..=ctx.pick(4, 5) {
        ctx.each(&format!("sequences of {depth} stem, mask and path operators"), (base as u64).pow(depth), |mut index, t| {
            let mut writer = Writer { fill: 0x13, ..Writer::default() };
            for _ in 0..depth {
                let (operator, count) = events[peel(&mut index, base)];
                writer.operation(operator, count);
            }
            writer.code.extend(ENDING);
            t.check(PROGRAM, &[0], &[&writer.code]);
        });
    }
    // The same, with each operation, or just its operator, in a subroutine of its own.
    for depth in 1..=3 {
        ctx.each(&format!("sequences of {depth} in subroutines"), (base as u64 * 4).pow(depth), |mut index, t| {
            let mut writer = Writer { fill: 0x0b, ..Writer::default() };
            let mut main = vec![];
            let mut subroutines: Vec<Vec<u8>> = vec![];
            for _ in 0..depth {
                let (operator, count) = events[peel(&mut index, base)];
                let style = peel(&mut index, 4);
                let from = writer.code.len();
                writer.operation(operator, count);
                let piece = writer.code[from..].to_vec();
                let pieces = tokens_of(&piece, count);
                let call = |subroutines: &mut Vec<Vec<u8>>, mut body: Vec<u8>| {
                    body.push(RETURN as u8);
                    subroutines.push(body);
                    vec![0x20 + subroutines.len() as u8 - 1, CALLSUBR as u8]
                };
                match style {
                    0 => main.extend(piece),
                    1 => main.extend(call(&mut subroutines, piece)),
                    2 => {
                        main.extend_from_slice(&pieces.0);
                        main.extend(call(&mut subroutines, pieces.1));
                    }
                    _ => {
                        main.extend(call(&mut subroutines, pieces.0));
                        main.extend_from_slice(&pieces.1);
                    }
                }
            }
            main.extend(ENDING);
            let mut blobs: Vec<&[u8]> = vec![&main];
            blobs.extend(subroutines.iter().map(|body| &body[..]));
            t.check(PROGRAM, &[0], &blobs);
        });
    }
}

/// Cut one operation into its operands and its operator.
fn tokens_of(piece: &[u8], count: usize) -> (Vec<u8>, Vec<u8>) {
    let mut at = 0;
    for _ in 0..count {
        at += match piece[at] {
            28 => 3,
            32..=246 => 1,
            247..=254 => 2,
            _ => 5,
        };
    }
    (piece[..at].to_vec(), piece[at..].to_vec())
}
