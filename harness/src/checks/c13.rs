//! C13: custom character sets.

use super::cff::{MANY, READ};
use crate::model::cff::*;
use crate::run::{digits, hex, peel, pow, Ctx};

/// All ways to write a number as a sum of up to `most` positive numbers.
fn compositions(total: usize, most: usize) -> Vec<Vec<usize>> {
    if total == 0 {
        return vec![vec![]];
    }
    if most == 0 {
        return vec![];
    }
    let mut list = vec![];
    for first in 1..=total {
        for mut rest in compositions(total - first, most - 1) {
            rest.insert(0, first);
            list.push(rest);
        }
    }
    list
}

fn write(format: u8, ranges: &[(u16, usize)]) -> Vec<u8> {
    let mut data = vec![format];
    for (first, count) in ranges {
        data.extend_from_slice(&first.to_be_bytes());
        let left = (count - 1) as u16;
        match format {
            1 => data.push(left as u8),
            _ => data.extend_from_slice(&left.to_be_bytes()),
        }
    }
    data
}

pub fn explore(ctx: &Ctx) {
    let charset = Reader::Charset.code();
    // All divisions into ranges, for all numbers of glyphs around the one covered.
    let firsts = [0u16, 1, 390, 391, 0xff00];
    let mut cases = vec![];
    for covered in 0..=ctx.pick(11usize, 13) {
        for parts in compositions(covered, 9) {
            cases.push((covered, parts));
        }
    }
    ctx.each("all divisions into ranges", cases.len() as u64 * 2, |index, t| {
        let (covered, parts) = &cases[index as usize / 2];
        let format = 1 + (index % 2) as u8;
        for shift in 0..firsts.len() {
            let ranges: Vec<_> =
                parts.iter().enumerate().map(|(i, part)| (firsts[(i + shift) % firsts.len()], *part)).collect();
            let mut data = write(format, &ranges);
            for glyphs in covered.saturating_sub(2)..=covered + 3 {
                for end in 0..=data.len() {
                    t.check(READ, &[charset, glyphs as i64, 0], &[&data[..end]]);
                }
                data.extend_from_slice(&[format, 0, 0]);
                t.check(READ, &[charset, glyphs as i64, 3], &[&data]);
                data.truncate(data.len() - 3);
            }
        }
        if index == 99 {
            ctx.sample(format!("format {format}, ranges of {parts:?} glyphs"));
        }
    });
    // Larger ranges, around the limits of one byte and two.
    let sizes = [1usize, 2, 254, 255, 256, 257, 511, 512, 513, 65534, 65535, 65536];
    for count in 1..=3usize {
        ctx.each(&format!("{count} large ranges"), pow(12, count) * 2, |mut index, t| {
            let format = 1 + peel(&mut index, 2) as u8;
            let mut word = vec![];
            digits(index, 12, count, &mut word);
            let parts: Vec<usize> = word.iter().map(|digit| sizes[*digit]).collect();
            if format == 1 && parts.iter().any(|part| *part > 256) {
                return;
            }
            let ranges: Vec<_> = parts.iter().enumerate().map(|(i, part)| (5 * i as u16, *part)).collect();
            let data = write(format, &ranges);
            let covered: usize = parts.iter().sum();
            for glyphs in [covered - 1, covered, covered + 1, covered + 2, covered + 256] {
                t.check(READ, &[charset, glyphs as i64, 1], &[&data]);
            }
            // As many glyphs as a part of the ranges covers.
            t.check(READ, &[charset, parts[0] as i64, 1], &[&data]);
            t.check(READ, &[charset, parts[0] as i64 + 1, 1], &[&data]);
        });
    }
    // Format 0.
    for count in 0..=ctx.pick(6usize, 7) {
        ctx.each(&format!("format 0, {count} identifiers"), pow(6, count), |index, t| {
            let ids = [0u16, 1, 390, 391, 0x0102, 0xffff];
            let mut word = vec![];
            digits(index, 6, count, &mut word);
            let mut data = vec![0];
            for digit in &word {
                data.extend_from_slice(&ids[*digit].to_be_bytes());
            }
            for glyphs in 0..=count + 2 {
                for end in 0..=data.len() {
                    t.check(READ, &[charset, glyphs as i64, (end % 2) as i64], &[&data[..end]]);
                }
            }
            if index == pow(6, count) - 1 {
                ctx.sample(format!("character set {}", hex(&data)));
            }
        });
    }
    let mut counts: Vec<usize> = (0..=600).collect();
    counts.extend([1000, 4095, 4096, 4097, 32767, 32768, 65533, 65534, 65535]);
    ctx.each("numbers of glyphs", counts.len() as u64 * 3, |mut index, t| {
        let format = peel(&mut index, 3) as u8;
        let count = counts[index as usize];
        let glyphs = count as i64 + 1;
        let mut data = match format {
            0 => {
                let mut data = vec![0];
                for i in 0..count {
                    data.extend_from_slice(&(i as u16 ^ 0x1234).to_be_bytes());
                }
                data
            }
            // All ranges of one glyph, and one of another size among them.
            _ => write(format, &(0..count).map(|i| (i as u16, 1)).collect::<Vec<_>>()),
        };
        t.check(READ, &[charset, glyphs, 0], &[&data]);
        t.check(READ, &[charset, glyphs + 1, 0], &[&data]);
        data.pop();
        t.check(READ, &[charset, glyphs, 0], &[&data]);
    });
    // All formats, and all short strings of bytes.
    ctx.each("all formats and numbers of glyphs", 256 * 8, |index, t| {
        let (format, glyphs) = (index as u8, (index >> 8) as i64);
        t.check(READ, &[charset, glyphs, 0], &[&[format]]);
        t.check(READ, &[charset, glyphs, 0], &[&[format, 0, 1, 0, 2, 0, 3, 0, 4, 0, 5, 0, 6, 0, 7, 0, 8]]);
        t.check(READ, &[charset, glyphs, 0], &[&[format, 0, 1, 6, 0, 1, 0, 5, 0]]);
    });
    ctx.each("all strings of bytes after each format", 3 * 65536, |mut index, t| {
        let format = peel(&mut index, 3) as u8;
        let (a, b) = ((index >> 8) as u8, index as u8);
        let glyphs: &[i64] = if b < 32 || !ctx.quick() { &[0, 1, 2, 3, 4, 300] } else { &[2, 3] };
        for glyphs in glyphs {
            t.check(READ, &[charset, *glyphs, 0], &[&[format, a, b]]);
            if ctx.pick(a < 4 || b < 4, true) {
                t.check(MANY, &[charset, *glyphs, 0], &[&[format, a, b], &[]]);
                t.check(MANY, &[charset, *glyphs, 1], &[&[format, a, b], &[0, 2, 1, 0]]);
            }
        }
    });
    ctx.each("no bytes", 70000, |index, t| {
        if index < 300 || index > 65000 {
            t.check(READ, &[charset, index as i64, 0], &[&[]]);
            t.check(READ, &[charset, index as i64, 0], &[&[2, 0, 1, ((index as u16).wrapping_sub(2) >> 8) as u8, (index as u16).wrapping_sub(2) as u8]]);
        }
    });
}
