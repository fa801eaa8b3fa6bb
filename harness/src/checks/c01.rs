//! C01: charstring operands.

use super::t2::{NESTED, FIXED, NUMBERED, PROGRAM};
use crate::run::{digits, hex, pow, Ctx};

/// Representatives of every encoding form, at the borders of each form.
pub fn representatives() -> Vec<Vec<u8>> {
    let mut list: Vec<Vec<u8>> = vec![
        vec![0x8b],
        vec![0x20],
        vec![0xf6],
        vec![0x8c],
        vec![0xf7, 0x00],
        vec![0xf7, 0xff],
        vec![0xfa, 0xff],
        vec![0xfb, 0x00],
        vec![0xfb, 0xff],
        vec![0xfe, 0xff],
        vec![0x1c, 0x00, 0x00],
        vec![0x1c, 0x7f, 0xff],
        vec![0x1c, 0x80, 0x00],
        vec![0x1c, 0xff, 0xff],
        vec![0x1c, 0x1c, 0x1c],
        vec![0xf8, 0x1c],
    ];
    for raw in [0u32, 1, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 0x0001_0000, 0xff1c_f7ff, 0x0001_045a] {
        let mut code = vec![0xff];
        code.extend_from_slice(&raw.to_be_bytes());
        list.push(code);
    }
    list
}

pub fn explore(ctx: &Ctx) {
    // Every one-, two- and three-byte encoding, alone and behind another operand.
    let prefixes: [&[u8]; 4] = [&[], &[0x8c], &[0xfe, 0x05], &[0xff, 0x12, 0x34, 0x56, 0x78]];
    ctx.each("complete 1-, 2- and 3-byte domains", 256 * 256, |index, t| {
        let (b0, b1) = ((index >> 8) as u8, index as u8);
        match b0 {
            0x1c => {
                for prefix in prefixes {
                    for b2 in 0..=255u8 {
                        let mut code = prefix.to_vec();
                        code.extend_from_slice(&[0x1c, b1, b2, 6, 14]);
                        t.check(PROGRAM, &[0], &[&code]);
                    }
                }
            }
            0x20..=0xf6 if b1 == 0 => {
                for prefix in prefixes {
                    let mut code = prefix.to_vec();
                    code.extend_from_slice(&[b0, 6, 14]);
                    t.check(PROGRAM, &[0], &[&code]);
                }
            }
            0xf7..=0xfe => {
                for prefix in prefixes {
                    let mut code = prefix.to_vec();
                    code.extend_from_slice(&[b0, b1, 6, 14]);
                    t.check(PROGRAM, &[0], &[&code]);
                }
            }
            _ => {}
        }
    });
    // The 16.16 domain, by integer part.
    let highs: Vec<u16> = (0..=0xffffu16)
        .filter(|high| {
            !ctx.quick() || matches!(high & 0xff, 0 | 1 | 0x7f | 0x80 | 0xff) || *high < 512 || *high > 0xfe00
        })
        .collect();
    ctx.each("16.16 numbers, by integer part", highs.len() as u64, |index, t| {
        t.check(FIXED, &[highs[index as usize] as i64], &[]);
    });
    // All integer parts with some fractions.
    let lows: Vec<u16> = (0..16).flat_map(|bit| [1u16 << bit, 0xffff >> bit, 0x5555 >> bit, (0x9e37u16).wrapping_mul(bit as u16)]).collect();
    ctx.each("16.16 numbers, by fraction", lows.len() as u64, |index, t| {
        t.check(FIXED, &[lows[index as usize] as i64, 1], &[]);
    });
    // Sequences of encodings.
    let reps = representatives();
    let base = reps.len() as u64;
    for count in 1..=5 {
        ctx.each(&format!("sequences of {count} encodings"), pow(base, count), |index, t| {
            let mut word = vec![];
            digits(index, base, count, &mut word);
            let mut code = vec![];
            for digit in &word {
                code.extend_from_slice(&reps[*digit]);
            }
            code.extend_from_slice(&[6, 14]);
            t.check(PROGRAM, &[0], &[&code]);
            if index == base / 2 {
                ctx.sample(format!("charstring {}", hex(&code)));
            }
        });
    }
    // Encodings on top of any number of operands, and behind every operator.
    ctx.each("encodings on deep stacks", base * 620, |index, t| {
        let (last, below) = (&reps[(index % base) as usize], (index / base) as usize);
        let mut code = vec![];
        for i in 0..below {
            code.extend_from_slice(&reps[(i * 5) % reps.len()]);
        }
        code.extend_from_slice(last);
        for ending in [&[6u8, 14][..], &[12, 14, 6, 14], &[7, 14]] {
            let mut code = code.clone();
            code.extend_from_slice(ending);
            t.check(PROGRAM, &[0], &[&code]);
        }
    });
    let mut before: Vec<Vec<u8>> = vec![];
    for operator in super::gen::clearing().into_iter().chain(super::c02::ARITHMETIC) {
        let mut writer = super::gen::Writer { fill: 0xff, ..Default::default() };
        if super::c02::ARITHMETIC.contains(&operator) {
            writer.code = vec![0x8c, 0x8c, 0x8c, 0x8c, 0x8c];
            crate::model::t2::op(operator, &mut writer.code);
        } else {
            writer.operation(operator, 14);
        }
        before.push(writer.code);
    }
    before.extend([vec![0x20, 10], vec![0x20, 29], vec![0x21, 10], vec![0x8c, 18, 19]]);
    ctx.each("pairs of encodings behind every operator", base * base * before.len() as u64, |mut index, t| {
        let (a, b) = (crate::run::peel(&mut index, reps.len()), crate::run::peel(&mut index, reps.len()));
        let code = [&before[index as usize][..], &reps[a], &[6], &reps[b], &[22, 14]].concat();
        t.check(PROGRAM, &[1], &[&code, &[11], &[11], &[0x8c, 22, 11]]);
    });
    // Far from the beginning, cut off there as well, and in subroutines at every depth.
    let mut pieces = vec![];
    for code in &reps {
        pieces.push([&code[..], &[22, 0x8c, 22, 14]].concat());
        for cut in 1..code.len() {
            pieces.push(code[..cut].to_vec());
        }
    }
    super::t2::distant(ctx, &pieces);
    let behind: Vec<Vec<u8>> = reps.iter().flat_map(|code| [[&code[..], &[6]].concat(), code.clone()]).collect();
    super::t2::contexts(ctx, &behind, &[0x8c, 7, 0x8d, 22, 14]);
    ctx.each("encodings at every depth", base * base * 10, |mut index, t| {
        let (a, b) = (&reps[crate::run::peel(&mut index, reps.len())], &reps[crate::run::peel(&mut index, reps.len())]);
        let both = [&a[..], b].concat();
        let depth = index as i64 + 1;
        for pattern in [0, 0x3ff, 0x0f3] {
            t.check(NESTED, &[depth, pattern, 1], &[&both, &[6, 14]]);
            t.check(NESTED, &[depth, pattern, 1], &[a, &[&b[..], &[6, 14]].concat()]);
            t.check(NESTED, &[depth, pattern, 0], &[&[&both[..], &[6, 14]].concat(), &[]]);
            for cut in 1..b.len() {
                t.check(NESTED, &[depth, pattern, 0], &[&[&a[..], &b[..cut]].concat(), &[]]);
            }
        }
    });
    // Operands cut off.
    ctx.each("cut-off operands behind every sequence", base * base * base, |index, t| {
        let mut word = vec![];
        digits(index, base, 3, &mut word);
        let mut code = vec![];
        for digit in &word[..2] {
            code.extend_from_slice(&reps[*digit]);
        }
        let last = &reps[word[2]];
        for cut in 0..last.len() {
            let mut code = code.clone();
            code.extend_from_slice(&last[..cut]);
            t.check(PROGRAM, &[0], &[&code]);
            // Also with an operation and inside a subroutine before.
            let mut main = vec![0x8c, 22];
            main.extend_from_slice(&code);
            t.check(PROGRAM, &[0], &[&main]);
            t.check(PROGRAM, &[0], &[&[0x20, 10, 14], &code]);
        }
    });
    // Every operand encoding as the operand of a call, where its value decides what is run.
    ctx.each("encodings as subroutine numbers", base * 3, |index, t| {
        let mut code = reps[(index % base) as usize].clone();
        code.extend_from_slice(&[10, 14]);
        let size = [108, 1300, 40000][(index / base) as usize];
        t.check(NUMBERED, &[size, size], &[&code]);
    });
}
