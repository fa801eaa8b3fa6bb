//! C07: totality and finality of the interpreter.

use super::gen::*;
use super::t2::{BYTES, COARSE, NUMBERED, REPEATED};
use crate::model::t2::*;
use crate::run::{hex, peel, Ctx};

/// Tables of subroutines that call each other in every way: globals, locals.
fn tables() -> Vec<(Vec<Vec<u8>>, Vec<Vec<u8>>)> {
    let local = CALLSUBR as u8;
    let global = CALLGSUBR as u8;
    vec![
        (vec![], vec![]),
        // Each calls itself, the other, or its namesake in the other table.
        (vec![vec![0x20, global], vec![0x20, local, 11]], vec![vec![0x20, local], vec![0x20, global, 11]]),
        (vec![vec![11], vec![0x8c, 11], vec![14]], vec![vec![], vec![14], vec![0x8c, 0x8c, 18, 11]]),
        (vec![vec![0x21, local], vec![global, 11]], vec![vec![0x8c, 22, 0x21, global], vec![local, 11]]),
        (vec![vec![255, 0], vec![12]], vec![vec![28], vec![19]]),
        (vec![vec![0x20, 0x21, global, local, 11], vec![0x8c, 0x8d, 22, 11]], vec![vec![0x20, 12, 27, 11], vec![20, 11]]),
    ]
}

fn blobs<'a>(code: &[&'a [u8]], table: &'a (Vec<Vec<u8>>, Vec<Vec<u8>>)) -> (Vec<i64>, Vec<&'a [u8]>) {
    let mut list: Vec<&[u8]> = code.to_vec();
    list.extend(table.0.iter().map(|body| &body[..]));
    list.extend(table.1.iter().map(|body| &body[..]));
    (vec![table.0.len() as i64], list)
}

pub fn explore(ctx: &Ctx) {
    super::t2::glyphs(ctx, super::t2::GLYPH, 1);
    super::t2::glyphs(ctx, super::t2::CUT, ctx.pick(37, 1));
    let tables = tables();
    let many = tables.len();
    // All short byte strings over all tables.
    ctx.each("the empty program and all programs of 1 byte", many as u64, |index, t| {
        let (nums, list) = blobs(&[&[]], &tables[index as usize]);
        t.check(COARSE, &nums, &list);
        let (nums, list) = blobs(&[&[], &[]], &tables[index as usize]);
        t.check(BYTES, &nums, &list);
    });
    ctx.each("all programs of 2 bytes", (many * 256) as u64, |mut index, t| {
        let table = &tables[peel(&mut index, many)];
        for suffix in [&[][..], &[14], &[11], &[22, 14], &[0x20, 10]] {
            let prefix = [index as u8];
            let (nums, list) = blobs(&[&prefix, suffix], table);
            t.check(BYTES, &nums, &list);
        }
    });
    // All operators, defined or not, and operands cut off, in contexts; then the bytes of another one.
    let pieces: Vec<Vec<u8>> = (0..=255u8).map(|byte| vec![byte]).chain((0..=255).map(|byte| vec![12, byte])).collect();
    super::t2::contexts(ctx, &pieces, &[]);
    super::t2::contexts(ctx, &pieces, &[0x20, 29, 0x8c, 22, 11, 14]);
    let subset = ctx.pick(4, many);
    ctx.each("all programs of 3 bytes", (subset * 65536) as u64, |mut index, t| {
        // One table and the one without subroutines in the quick tier.
        let table = &tables[[0, 3, 1, 2, 4, 5][peel(&mut index, subset)]];
        let prefix = (index as u16).to_be_bytes();
        let (nums, list) = blobs(&[&prefix, &[]], table);
        t.check(BYTES, &nums, &list);
    });
    if !ctx.quick() {
        ctx.each("all programs of 4 bytes without subroutines", 1 << 24, |index, t| {
            let prefix = [(index >> 16) as u8, (index >> 8) as u8, index as u8];
            t.check(BYTES, &[0], &[&prefix, &[]]);
        });
    }
    // All short byte strings as subroutines, with a caller that goes on.
    ctx.each("all subroutines of up to 2 bytes", 257 * 6, |mut index, t| {
        let main: &[u8] = [
            &[0x20, 10, 14][..],
            &[0x20, 29, 0x8c, 22, 14],
            &[0x8c, 0x20, 10, 22, 14],
            &[0x8c, 0x8c, 18, 0x20, 10, 19, 0x8c, 22],
            &[0x20, 10],
            &[0x20, 10, 0x20, 29],
        ][peel(&mut index, 6)];
        for second in 0..=256u16 {
            let mut body = vec![];
            if index < 256 {
                body.push(index as u8);
            }
            if second < 256 {
                body.push(second as u8);
            }
            t.check(COARSE, &[1], &[main, &body, &body]);
        }
    });
    // Longer words over a reduced alphabet of bytes.
    let mut alphabet: Vec<u8> = vec![0x20, 0x21, 0x8b, 0x8d, 10, 29, 11, 14, 1, 19, 5, 22, 12, 30, 27, 255, 28, 0xfe];
    if !ctx.quick() {
        alphabet.extend([20, 26, 31, 0, 24]);
    }
    let base = alphabet.len();
    for depth in 4..=ctx.pick(5, 6) {
        let rest = base.pow(depth - 2);
        ctx.each(&format!("all programs of {depth} bytes of {base}"), (subset * base * base) as u64, |mut index, t| {
            let table = &tables[[3, 1, 5, 2, 4, 0][peel(&mut index, subset)]];
            let mut code = vec![0; depth as usize];
            code[0] = alphabet[peel(&mut index, base)];
            code[1] = alphabet[peel(&mut index, base)];
            for i in 0..rest {
                if t.stopped() {
                    return;
                }
                let mut i = i as u64;
                for byte in &mut code[2..] {
                    *byte = alphabet[peel(&mut i, base)];
                }
                let (nums, list) = blobs(&[&code], table);
                t.check(COARSE, &nums, &list);
            }
        });
    }
    // Extreme operands for every operator.
    let mut extremes = super::c02::huge();
    extremes.extend([number(-32768), number(32767), real(i32::MIN), real(i32::MAX), real(1), real(-1), number(0), number(1)]);
    let size = extremes.len();
    let mut codes: Vec<Vec<u8>> = (0..32u8).filter(|code| *code != 12 && *code != 28).map(|code| vec![code]).collect();
    codes.extend((0..=255u8).map(|code| vec![12, code]));
    ctx.each("extreme operands for every operator", (codes.len() * size * size) as u64, |mut index, t| {
        let operator = &codes[peel(&mut index, codes.len())];
        let (a, b) = (&extremes[peel(&mut index, size)], &extremes[peel(&mut index, size)]);
        for before in [0, 1, 2, 5] {
            let mut code = distincts(0, before);
            code.extend_from_slice(a);
            code.extend_from_slice(b);
            code.extend_from_slice(operator);
            code.extend([6, 14]);
            t.check(COARSE, &[0], &[&code]);
            if before == 1 {
                t.check(NUMBERED, &[1241, 33901], &[&code]);
            }
        }
        if index == 0 {
            ctx.sample(format!("operator {} over {} and {}", hex(operator), hex(a), hex(b)));
        }
    });
    // Long programs of every kind.
    let units: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> = vec![
        // prefix, unit, suffix
        (vec![], vec![0x8c, 0x8c, 12, 10, 12, 18], vec![14]),
        (vec![0x8c], vec![12, 14], vec![22, 14]),
        (vec![0x8c], vec![12, 27], vec![6, 14]),
        (vec![0x8c], vec![12, 27, 12, 18], vec![22, 14]),
        (vec![0x8c, 0x8d], vec![12, 28], vec![5, 14]),
        (vec![], vec![0x8c], vec![6, 14]),
        (vec![], vec![0x8c], vec![5, 14]),
        (vec![], vec![0x8c], vec![1, 14]),
        (vec![], vec![0x8c], vec![]),
        (vec![], vec![255, 0, 1, 2, 3], vec![7, 14]),
        (vec![], vec![0x8c, 22], vec![14]),
        (vec![], vec![0x8c, 0x8d, 1], vec![14]),
        (vec![0x8c, 0x8d, 1], vec![19, 0], vec![14]),
        (vec![], vec![0x20, 10], vec![14]),
        (vec![], vec![0x20, 29], vec![14]),
        (vec![], vec![0x21, 10], vec![6, 14]),
        (vec![], vec![0x22, 10, 0x21, 29, 22], vec![14]),
        (vec![], vec![0x20], vec![10, 14]),
        (vec![0x8c, 0x8d, 0x8e], vec![0x8e, 0x8c, 12, 30], vec![6, 14]),
        (vec![0x8c, 0x8d, 0x8e, 0x8f], vec![12, 22, 0x8d, 0x8e, 0x8f], vec![6, 14]),
        (vec![14], vec![0x8c, 22], vec![]),
        (vec![14], vec![0], vec![]),
    ];
    let helpers: [&[u8]; 6] = [&[11], &[0x8c, 11], &[0x20, 10, 11], &[11], &[0x8c, 11], &[0x20, 29, 11]];
    let counts = ctx.pick(vec![1000, 20_000, 150_000, 1_100_000], vec![1000, 20_000, 150_000, 1_100_000, 4_000_000, 17_000_000]);
    ctx.each("long programs", (units.len() * counts.len()) as u64, |mut index, t| {
        let (prefix, unit, suffix) = &units[peel(&mut index, units.len())];
        let count = counts[index as usize];
        let mut list: Vec<&[u8]> = vec![prefix, unit, suffix];
        list.extend(helpers);
        t.check(REPEATED, &[3, count], &list);
    });
    // Deep and endless recursion, each level with operations or operands.
    let bodies: [&[u8]; 12] = [
        &[0x20, 10],
        &[0x20, 10, 11],
        &[0x20, 29],
        &[0x8c, 0x20, 10],
        &[0x8c, 22, 0x20, 10, 11],
        &[0x8c, 0x8d, 18, 0x20, 29, 11],
        &[19, 0x20, 10],
        &[12, 27, 10],
        &[0x20, 12, 27, 10],
        &[0x20, 0x20, 10, 10],
        &[10, 11],
        &[29],
    ];
    ctx.each("recursive subroutines", (bodies.len().pow(2) * 3) as u64, |mut index, t| {
        let one = bodies[peel(&mut index, bodies.len())];
        let two = bodies[peel(&mut index, bodies.len())];
        let main: &[u8] = [&[0x20, 10][..], &[0x20, 29, 14], &[0x20, 0x20, 0x20, 0x20, 0x20, 10, 14]][index as usize];
        t.check(COARSE, &[1], &[main, one, two]);
    });
    // Requests after the end, with anything behind the end.
    ctx.each("everything behind the end", 65536, |index, t| {
        let [a, b] = (index as u16).to_be_bytes();
        t.check(COARSE, &[1], &[&[14, a, b], &[14, a, b], &[11]]);
        t.check(COARSE, &[1], &[&[0x8c, 14, a, b, 0x8c, 22], &[11], &[11]]);
    });
    ctx.each("ends inside subroutines, with anything behind the call", 65536, |index, t| {
        let [a, b] = (index as u16).to_be_bytes();
        t.check(COARSE, &[1], &[&[0x20, 10, a, b], &[14], &[14]]);
        t.check(COARSE, &[1], &[&[0x20, 10], &[a, b, 14], &[14, a, b]]);
        t.check(COARSE, &[1], &[&[0x20, 10, a, b], &[0x20, 29], &[14]]);
    });
}
