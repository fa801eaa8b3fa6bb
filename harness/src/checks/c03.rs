//! C03: the operands of path and hint operators.

use super::gen::*;
use super::t2::{NESTED, PROGRAM};
use crate::model::t2::*;
use crate::run::{hex, peel, Ctx};

/// The smallest number of operands of an operator.
pub fn smallest(operator: u16) -> usize {
    match operator {
        HINTMASK | CNTRMASK | ENDCHAR => 0,
        _ => (0..).find(|&n| admissible(operator, n)).unwrap(),
    }
}

/// Follow-ups that reveal what an operator left behind on the stack.
fn endings() -> Vec<Vec<u8>> {
    let mut list: Vec<Vec<u8>> = vec![vec![], vec![ENDCHAR as u8]];
    // Operators without operands, which fail if and only if the stack is empty.
    for operator in [HLINETO, HMOVETO, 0x0c12] {
        let mut code = token(operator);
        code.push(ENDCHAR as u8);
        list.push(code);
    }
    // One operand, all of which must be this one.
    for operator in [HLINETO, VLINETO] {
        let mut code = number(77);
        code.extend(token(operator));
        code.push(ENDCHAR as u8);
        list.push(code);
    }
    list
}

pub fn explore(ctx: &Ctx) {
    super::t2::glyphs(ctx, super::t2::GLYPH, 1);
    let operators: Vec<u16> = DRAWING.iter().copied().chain([HINTMASK, CNTRMASK]).collect();
    let many = operators.len() as u64;
    let endings = endings();
    // One operator with every number of operands.
    let most: u64 = ctx.pick(520, 2100);
    ctx.each("one operator, every number of operands", many * (most + 1), |index, t| {
        let (operator, count) = (operators[(index % many) as usize], (index / many) as usize);
        let mut writer = Writer { fill: 0xa5, ..Writer::default() };
        writer.operation(operator, count);
        for ending in &endings {
            let mut code = writer.code.clone();
            code.extend_from_slice(ending);
            t.check(PROGRAM, &[0], &[&code]);
        }
        // The operator, or the operands, or some of the operands in a subroutine.
        if let [.., last] = &tokens(&writer.code)[..] {
            let operands = &writer.code[..writer.code.len() - last.len()];
            let mut tail = last.clone();
            tail.push(RETURN as u8);
            let mut code = operands.to_vec();
            code.extend([0x20, CALLSUBR as u8, ENDCHAR as u8]);
            t.check(PROGRAM, &[0], &[&code, &tail]);
            let mut head = operands.to_vec();
            head.push(RETURN as u8);
            let mut code = vec![0x20, CALLGSUBR as u8];
            code.extend_from_slice(last);
            code.push(ENDCHAR as u8);
            t.check(PROGRAM, &[1], &[&code, &head]);
        }
        if index == 30 * many + 8 {
            ctx.sample(format!("charstring {}", hex(&writer.code)));
        }
    });
    // Very many operands.
    let mut counts: Vec<usize> = vec![600, 700];
    for size in [800usize, 1000, 1024, 1200, 1600, 2048, 3000, 4096, 8192, 16384, 32768, 65536] {
        counts.extend(size - 8..=size + if ctx.quick() { 8 } else { 16 });
    }
    ctx.each("one operator, very many operands", many * counts.len() as u64, |index, t| {
        let (operator, count) = (operators[(index % many) as usize], counts[(index / many) as usize]);
        let mut code: Vec<u8> = (0..count).map(|i| 0x20 + (i * 7 % 210) as u8).collect();
        code.extend(token(operator));
        if matches!(operator, HINTMASK | CNTRMASK) {
            code.resize(code.len() + (count / 2).div_ceil(8), 0x16);
        }
        code.extend([0x8c, 22, 14]);
        t.check(PROGRAM, &[0], &[&code]);
    });
    // The same inside of subroutines inside of subroutines, and far from the beginning.
    ctx.each("one operator at every depth", many * 60 * 10 * 3, |mut index, t| {
        let operator = operators[peel(&mut index, many as usize)];
        let count = peel(&mut index, 60);
        let depth = peel(&mut index, 10) as i64 + 1;
        let mut writer = Writer { fill: 0xa5, ..Writer::default() };
        writer.operation(operator, count);
        let pattern = [0, 0x3ff, 0x199][index as usize];
        for ending in &endings {
            t.check(NESTED, &[depth, pattern, 1], &[&writer.code, ending]);
            t.check(NESTED, &[depth, pattern, 0], &[&[&writer.code[..], ending].concat(), &[]]);
        }
    });
    let mut pieces = vec![];
    for &operator in &operators {
        for more in 0..8 {
            let mut writer = Writer { fill: 0x16, ..Writer::default() };
            writer.operation(operator, smallest(operator) + more);
            writer.code.extend([0x8c, 22, 14]);
            pieces.push(writer.code);
        }
    }
    super::t2::distant(ctx, &pieces);
    // What follows a mask, the bytes of it included, is of one byte each.
    let single: Vec<u8> = (0..60).map(|i| 0x20 + i).chain([6, 14]).collect();
    let mut pieces = vec![];
    for &operator in &operators {
        for count in [0, 1, 2, 5].into_iter().chain((0..5).map(|more| smallest(operator) + more)) {
            pieces.push([&distincts(0, count)[..], &token(operator)].concat());
        }
    }
    super::t2::contexts(ctx, &pieces, &single);
    // Two and three operators, with every small number of operands each.
    let most = ctx.pick(28, 50);
    ctx.each("two operators, every pair of numbers of operands", many * many * most * most, |mut index, t| {
        let mut writer = Writer { fill: 0x0e, ..Writer::default() };
        let first = operators[peel(&mut index, many as usize)];
        let second = operators[peel(&mut index, many as usize)];
        let (a, b) = (peel(&mut index, most as usize), peel(&mut index, most as usize));
        writer.operation(first, a);
        writer.operation(second, b);
        writer.code.push(ENDCHAR as u8);
        t.check(PROGRAM, &[0], &[&writer.code]);
    });
    let extra = ctx.pick(8, 14);
    ctx.each("three operators, the smallest numbers of operands", many.pow(3) * (extra as u64).pow(3), |mut index, t| {
        let mut writer = Writer { fill: 0x1c, ..Writer::default() };
        for _ in 0..3 {
            let operator = operators[peel(&mut index, many as usize)];
            let more = peel(&mut index, extra);
            writer.operation(operator, smallest(operator) + more);
        }
        writer.code.push(ENDCHAR as u8);
        t.check(PROGRAM, &[0], &[&writer.code]);
    });
    // Long outlines: the same operator many times over.
    ctx.each("long outlines", many * 40, |index, t| {
        let operator = operators[(index % many) as usize];
        let mut writer = Writer { fill: 0xff, ..Writer::default() };
        for _ in 0..60 {
            writer.operation(operator, smallest(operator) + (index / many) as usize);
        }
        writer.code.push(ENDCHAR as u8);
        t.check(PROGRAM, &[0], &[&writer.code]);
    });
    // Operands that are results.
    let sources: [&[u8]; 6] = [
        &[0x8c, 12, 27],             // 1 dup
        &[0x8d, 0x8e, 12, 28],       // 2 3 exch
        &[0x8c, 0x8d, 12, 12],       // 1 2 div
        &[0x8c, 0x8d, 12, 10, 0x90], // 1 2 add 5
        &[0x8c, 0x8d, 0x8e, 0x8e, 0x8c, 12, 30], // 1 2 3 3 1 roll
        &[0x95, 12, 18],             // 10 drop
    ];
    let base = sources.len();
    ctx.each("operands that are results", many * (base as u64).pow(4), |mut index, t| {
        let operator = operators[peel(&mut index, many as usize)];
        let mut code = vec![];
        for _ in 0..4 {
            code.extend_from_slice(sources[peel(&mut index, base)]);
        }
        // Enough of more operands before, by halves.
        for before in 0..8 {
            let mut writer = Writer::default();
            writer.push(before);
            let mut program = writer.code;
            program.extend_from_slice(&code);
            program.extend(token(operator));
            program.extend_from_slice(&[0x22, 0x33]);
            program.push(ENDCHAR as u8);
            t.check(PROGRAM, &[0], &[&program]);
        }
    });
}
