//! C05: the width.

use super::c03::smallest;
use super::gen::*;
use super::t2::{NESTED, PROGRAM};
use crate::model::t2::*;
use crate::run::{hex, peel, Ctx};

pub fn explore(ctx: &Ctx) {
    super::t2::glyphs(ctx, super::t2::GLYPH, 1);
    super::t2::glyphs(ctx, super::t2::CUT, ctx.pick(97, 5));
    let operators = clearing();
    let many = operators.len();
    // What may come later, with and without what looks like a width.
    let mut later: Vec<(u16, usize)> = vec![];
    for operator in [HSTEM, VSTEMHM, RMOVETO, HMOVETO, RLINETO, HHCURVETO, HINTMASK, CNTRMASK, ENDCHAR, FLEX] {
        later.push((operator, smallest(operator)));
        later.push((operator, smallest(operator) + 1));
    }
    later.extend([(ENDCHAR, 2), (ENDCHAR, 4), (ENDCHAR, 5), (HINTMASK, 2), (HINTMASK, 3), (RLINETO, 1), (HMOVETO, 0)]);
    let following = later.len();
    // Every first operator with every number of operands.
    let most = ctx.pick(800usize, 3000);
    ctx.each("first operators with every number of operands", (many * (most + 1)) as u64, |mut index, t| {
        let operator = operators[peel(&mut index, many)];
        let count = index as usize;
        let mut writer = Writer { fill: 0x8b, ..Writer::default() };
        writer.operation(operator, count);
        t.check(PROGRAM, &[0], &[&writer.code]);
        writer.code.push(ENDCHAR as u8);
        t.check(PROGRAM, &[0], &[&writer.code]);
        if operator == HINTMASK && count == 7 {
            ctx.sample(format!("charstring {}", hex(&writer.code)));
        }
    });
    // First operators followed by later operators.
    let most = ctx.pick(27usize, 50);
    let total = (many * most * following * following) as u64;
    ctx.each("first operators, and two later ones", total, |mut index, t| {
        let operator = operators[peel(&mut index, many)];
        let count = peel(&mut index, most);
        let mut writer = Writer { fill: 0x8b, ..Writer::default() };
        writer.operation(operator, count);
        for _ in 0..2 {
            let (operator, count) = later[peel(&mut index, following)];
            writer.operation(operator, count);
        }
        t.check(PROGRAM, &[0], &[&writer.code]);
    });
    {
        let total = (many * 9 * following.pow(3)) as u64;
        ctx.each("first operators, and three later ones", total, |mut index, t| {
            let operator = operators[peel(&mut index, many)];
            let count = peel(&mut index, 9);
            let mut writer = Writer { fill: 0x8b, ..Writer::default() };
            writer.operation(operator, count);
            for _ in 0..3 {
                let (operator, count) = later[peel(&mut index, following)];
                writer.operation(operator, count);
            }
            t.check(PROGRAM, &[0], &[&writer.code]);
        });
    }
    // Subroutines: the operands, the operator, or the width operand alone are in a subroutine;
    // also what comes later.
    let places = 6;
    let total = (many * most * following * places) as u64;
    ctx.each("widths across subroutines", total, |mut index, t| {
        let operator = operators[peel(&mut index, many)];
        let count = peel(&mut index, most);
        let (second, seconds) = later[peel(&mut index, following)];
        let place = peel(&mut index, places);
        let mut writer = Writer { fill: 0x8b, ..Writer::default() };
        writer.push(count);
        let operands = writer.code.clone();
        writer.operation(operator, 0);
        let action = writer.code[operands.len()..].to_vec();
        let from = writer.code.len();
        writer.operation(second, seconds);
        let rest = writer.code[from..].to_vec();
        let first = if count > 0 { distincts(0, 1) } else { vec![] };
        let others = operands[first.len()..].to_vec();
        let ret = vec![RETURN as u8];
        let call = vec![0x20, CALLSUBR as u8];
        let (main, body) = match place {
            0 => ([&call[..], &action, &rest].concat(), [&operands[..], &ret].concat()),
            1 => ([&operands[..], &call, &rest].concat(), [&action[..], &ret].concat()),
            2 => ([&call[..], &others, &action, &rest].concat(), [&first[..], &ret].concat()),
            3 => ([&first[..], &call, &rest].concat(), [&others[..], &action, &ret].concat()),
            4 => ([&operands[..], &action, &call].concat(), rest.clone()),
            _ => ([&first[..], &call].concat(), [&others[..], &action, &rest].concat()),
        };
        t.check(PROGRAM, &[0], &[&main, &body]);
    });
    // First operators inside of subroutines inside of subroutines.
    let most = ctx.pick(27usize, 50);
    let total = (many * most * 10 * 4 * 3) as u64;
    ctx.each("first operators at every depth", total, |mut index, t| {
        let operator = operators[peel(&mut index, many)];
        let count = peel(&mut index, most);
        let depth = peel(&mut index, 10) + 1;
        let pattern = [0i64, 0x3ff, 0x155, 0x1e7][peel(&mut index, 4)];
        let back = index > 0;
        let mut writer = Writer { fill: 0x8b, ..Writer::default() };
        writer.operation(operator, count);
        let from = writer.code.len();
        for (operator, count) in [[(RMOVETO, 3), (ENDCHAR, 1)], [(HINTMASK, 3), (ENDCHAR, 5)]][index as usize / 2] {
            writer.operation(operator, count);
        }
        let (code, suffix) = writer.code.split_at(if back { from } else { writer.code.len() });
        t.check(NESTED, &[depth as i64, pattern, back as i64], &[code, suffix]);
    });
    // The width operand, or some of the others, from subroutines at every depth.
    ctx.each("operands from every depth", (many * most * 10 * 3) as u64, |mut index, t| {
        let operator = operators[peel(&mut index, many)];
        let count = peel(&mut index, most);
        let depth = peel(&mut index, 10) as i64 + 1;
        let mut writer = Writer { fill: 0x8b, ..Writer::default() };
        writer.push(count);
        let operands = writer.code.clone();
        writer.operation(operator, 0);
        let action = writer.code[operands.len()..].to_vec();
        writer.operation(RMOVETO, 3);
        writer.operation(ENDCHAR, 1);
        let rest = &writer.code[operands.len()..];
        let half = distincts(0, count.div_ceil(2));
        match index {
            0 => t.check(NESTED, &[depth, 0x2d3, 1], &[&operands, rest]),
            1 => t.check(NESTED, &[depth, 0, 1], &[&half, &[&operands[half.len()..], rest].concat()]),
            _ => t.check(NESTED, &[depth, 0x2aa, 1], &[&[&operands[..], &action].concat(), &rest[action.len()..]]),
        };
    });
    // First or later operators in contexts, the first of which may have been told the width.
    let mut pieces = vec![];
    for &operator in &operators {
        for more in [0, 1, 2, 4, 5] {
            pieces.push([&distincts(0, smallest(operator) + more)[..], &token(operator)].concat());
        }
    }
    for operator in super::c02::ARITHMETIC {
        pieces.push([&[0x9a, 0x8d, 0x8e, 0x8f, 0x8d, 0x8c][..], &token(operator)].concat());
    }
    super::t2::contexts(ctx, &pieces, &[&(0..30).map(|i| 0x40 + i).collect::<Vec<u8>>()[..], &[21, 0x8d, 22, 14]].concat());
    // Operands left by arithmetic.
    let before: [&[u8]; 6] = [
        &[0x8c, 0x8d, 12, 10],             // 1 2 add
        &[0x95, 12, 27],                   // 10 dup
        &[0x8c, 0x8d, 12, 28],             // 1 2 exch
        &[0x8c, 0x8d, 0x8e, 12, 18],       // 1 2 3 drop
        &[0x8c, 0x8d, 0x8e, 0x8e, 0x8c, 12, 30], // 1 2 3 3 1 roll
        &[0x8b],                           // 0
    ];
    let total = (many * before.len() * 16 * following) as u64;
    ctx.each("widths left by arithmetic", total, |mut index, t| {
        let operator = operators[peel(&mut index, many)];
        let mut code = before[peel(&mut index, before.len())].to_vec();
        let mut writer = Writer { fill: 0, ..Writer::default() };
        writer.push(peel(&mut index, 16));
        code.extend(writer.code);
        code.extend(token(operator));
        if matches!(operator, HINTMASK | CNTRMASK) {
            code.extend([0xff, 0xff]);
        }
        let (second, seconds) = later[peel(&mut index, following)];
        let mut writer = Writer::default();
        writer.operation(second, seconds);
        code.extend(writer.code);
        t.check(PROGRAM, &[0], &[&code]);
    });
    // Computed widths, infinite ones included.
    let values: Vec<Vec<u8>> = super::c02::huge().into_iter().chain(super::c02::unusual()).collect();
    ctx.each("computed widths", (many * values.len() * 16) as u64, |mut index, t| {
        let operator = operators[peel(&mut index, many)];
        let mut code = values[peel(&mut index, values.len())].clone();
        let mut writer = Writer { fill: 0x8b, ..Writer::default() };
        writer.push(index as usize);
        code.extend(writer.code);
        code.extend(token(operator));
        code.extend([0x8b, 0x8c, 0x8d, 21, 14]);
        t.check(PROGRAM, &[0], &[&code]);
    });
    // Nothing later changes the width: any operator with any number of operands, arithmetic, and
    // any number of operators.
    let firsts = [(RMOVETO, 3), (RMOVETO, 2), (HSTEM, 5), (HINTMASK, 1), (HINTMASK, 2), (HMOVETO, 2), (CNTRMASK, 0)];
    let mut counts: Vec<usize> = (0..=ctx.pick(60, 600)).collect();
    counts.extend([95, 96, 97, 127, 128, 129, 191, 192, 193, 199, 200, 201, 202, 254, 255, 256, 257, 300, 510, 511, 512, 513, 514]);
    counts.extend([1000, 4096, 4097, 65535, 65536, 65537]);
    ctx.each("later operators with any number of operands", (firsts.len() * many * counts.len() * 2) as u64, |mut index, t| {
        let (first, number) = firsts[peel(&mut index, firsts.len())];
        let operator = operators[peel(&mut index, many)];
        let twice = peel(&mut index, 2);
        let count = counts[index as usize];
        let mut writer = Writer { fill: 0x8b, ..Writer::default() };
        writer.operation(first, number);
        for _ in 0..=twice {
            if count < 600 {
                writer.operation(operator, count);
            } else {
                writer.code.extend((0..count).map(|i| 0x8c + i as u8 % 50));
                writer.operation(operator, 0);
            }
        }
        writer.operation(ENDCHAR, 1);
        t.check(PROGRAM, &[0], &[&writer.code]);
    });
    let snippets: [&[u8]; 18] = [
        &[0x95, 12, 9, 12, 18],
        &[0x95, 0x96, 12, 10, 12, 18],
        &[0x95, 0x96, 12, 11, 12, 18],
        &[0x95, 0x96, 12, 12, 12, 18],
        &[0x95, 12, 14, 12, 18],
        &[0x95, 0x96, 12, 24, 12, 18],
        &[0x95, 12, 26, 12, 18],
        &[0x95, 0x96, 12, 28, 12, 18, 12, 18],
        &[0x95, 0x8b, 12, 29, 12, 18, 12, 18],
        &[0x95, 0x96, 0x8d, 0x8c, 12, 30, 12, 18, 12, 18],
        &[0x95, 12, 27, 12, 18, 12, 18],
        &[0x95, 0x96, 12, 3, 12, 4, 12, 18],
        &[0x95, 12, 5, 12, 18],
        &[0x95, 0x96, 12, 15, 12, 18],
        &[0x95, 0x96, 0x95, 0x96, 12, 22, 12, 18],
        &[0x20, 10],
        &[0x95, 22],
        &[0x95, 0x96, 5],
    ];
    let numbers: Vec<usize> = ctx.pick(vec![1, 2, 3, 100, 255, 256, 1000, 4097, 16385, 65537], vec![1, 2, 3, 10, 100, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 10001, 16385, 32768, 65535, 65536, 65537, 75000]);
    let total = firsts.len() * snippets.len() * snippets.len() * numbers.len();
    ctx.each("any number of later operators", total as u64, |mut index, t| {
        let (first, number) = firsts[peel(&mut index, firsts.len())];
        let (a, b) = (snippets[peel(&mut index, snippets.len())], snippets[peel(&mut index, snippets.len())]);
        let count = numbers[index as usize];
        if count > 100 && a != b && ctx.quick() {
            return;
        }
        let mut writer = Writer { fill: 0x8b, ..Writer::default() };
        writer.operation(first, number);
        for i in 0..count {
            if writer.code.len() > 1_000_000 {
                break;
            }
            writer.code.extend(if i % 2 == 0 { a } else { b });
        }
        writer.operation(ENDCHAR, 1);
        t.check(PROGRAM, &[0], &[&writer.code, &[0x8f, 22, 11]]);
    });
    // All values of the width operand.
    ctx.each("all short widths", 65536, |index, t| {
        let mut code = vec![28];
        code.extend_from_slice(&(index as u16).to_be_bytes());
        code.extend([0x8c, 22, 0x8d, 0x8e, 22, 14]);
        t.check(PROGRAM, &[0], &[&code]);
    });
}
