//! C06: subroutines.

use super::gen::*;
use super::t2::{padding, COARSE, DISTANCES, EQUIVALENT, NUMBERED, OUTLINED, PROGRAM};
use crate::model::t2::*;
use crate::run::{hex, peel, Ctx};

/// Programs to be cut into subroutines, as tokens.
fn bases(quick: bool) -> Vec<Vec<Vec<u8>>> {
    let mut list: Vec<Vec<(u16, usize)>> = vec![
        vec![(RMOVETO, 2), (RLINETO, 2), (ENDCHAR, 0)],
        vec![(HMOVETO, 2), (HLINETO, 3), (ENDCHAR, 0)],
        vec![(HSTEMHM, 3), (HINTMASK, 2), (HMOVETO, 1), (ENDCHAR, 0)],
        vec![(VMOVETO, 1), (HHCURVETO, 5), (ENDCHAR, 0)],
        vec![(HSTEM, 2), (VSTEM, 2), (CNTRMASK, 0), (VMOVETO, 1), (ENDCHAR, 0)],
        vec![(ENDCHAR, 5)],
        vec![(ENDCHAR, 1)],
        vec![(RMOVETO, 3), (VLINETO, 1), (VLINETO, 1), (VLINETO, 2)],
        vec![(HINTMASK, 3), (HMOVETO, 1), (HMOVETO, 0), (ENDCHAR, 0)],
        vec![(RMOVETO, 1)],
    ];
    if !quick {
        list.extend([
            vec![(HSTEMHM, 2), (HINTMASK, 3), (CNTRMASK, 0), (RMOVETO, 2), (ENDCHAR, 0)],
            vec![(RMOVETO, 2), (RRCURVETO, 6), (ENDCHAR, 1)],
            vec![(HMOVETO, 1), (VHCURVETO, 4), (HVCURVETO, 4), (ENDCHAR, 0)],
            vec![(HMOVETO, 1), (HFLEX, 7), (ENDCHAR, 0)],
        ]);
    }
    let mut bases: Vec<Vec<Vec<u8>>> = list
        .into_iter()
        .map(|operations| {
            let mut writer = Writer { fill: 0x8e, ..Writer::default() };
            for (operator, count) in operations {
                writer.operation(operator, count);
            }
            tokens(&writer.code)
        })
        .collect();
    // And some with arithmetic.
    let pieces: [&[&[u8]]; 3] = [
        &[&[0x95], &[0x96], &[0x97], &[0x8e], &[0x8c], &[12, 30], &[5], &[0x90], &[22], &[14]],
        &[&[0x95], &[0x96], &[12, 10], &[0x97], &[12, 28], &[21], &[0x8d], &[12, 27], &[5], &[14]],
        &[&[0x95], &[0x8b], &[12, 29], &[12, 14], &[21], &[0x8c], &[0x8d], &[0x8e], &[0x8f], &[12, 22], &[7], &[14]],
    ];
    for piece in pieces {
        bases.push(piece.iter().map(|token| token.to_vec()).collect());
    }
    bases
}

/// A subroutine call of an entry of a table that has fewer than 1240.
fn call(number: usize, global: bool, code: &mut Vec<u8>) {
    int(number as i64 - 107, code);
    code.push(if global { CALLGSUBR } else { CALLSUBR } as u8);
}

/// Move intervals of a program into subroutines.
///
/// The intervals are laminar and distinct; returns the code and the tables (global, local).
pub fn outline(
    tokens: &[Vec<u8>],
    intervals: &[(usize, usize, bool)],
) -> Option<(Vec<u8>, Vec<Vec<u8>>, Vec<Vec<u8>>)> {
    for (i, a) in intervals.iter().enumerate() {
        for b in &intervals[..i] {
            let disjoint = a.1 <= b.0 || b.1 <= a.0;
            let nested = (a.0 <= b.0 && b.1 <= a.1) || (b.0 <= a.0 && a.1 <= b.1);
            if !disjoint && !nested || (a.0, a.1) == (b.0, b.1) {
                return None;
            }
        }
    }
    let numbers: Vec<usize> = intervals
        .iter()
        .enumerate()
        .map(|(i, interval)| intervals[..i].iter().filter(|other| other.2 == interval.2).count())
        .collect();
    // Write the tokens of a range, with calls of the outermost intervals inside it.
    fn body(
        tokens: &[Vec<u8>],
        intervals: &[(usize, usize, bool)],
        numbers: &[usize],
        from: usize,
        to: usize,
        own: Option<usize>,
    ) -> Vec<u8> {
        let mut code = vec![];
        let mut at = from;
        while at < to {
            let next = (0..intervals.len())
                .filter(|&i| Some(i) != own && intervals[i].0 == at && intervals[i].1 <= to)
                .filter(|&i| match own {
                    Some(own) => intervals[i].1 - intervals[i].0 < intervals[own].1 - intervals[own].0,
                    _ => true,
                })
                .max_by_key(|&i| intervals[i].1);
            match next {
                Some(i) => {
                    call(numbers[i], intervals[i].2, &mut code);
                    at = intervals[i].1;
                }
                _ => {
                    code.extend_from_slice(&tokens[at]);
                    at += 1;
                }
            }
        }
        code
    }
    let ends = tokens.last().map(|token| token[..] == [ENDCHAR as u8]).unwrap_or(false);
    let (mut global, mut local) = (vec![], vec![]);
    for (i, &(from, to, kind)) in intervals.iter().enumerate() {
        let mut code = body(tokens, intervals, &numbers, from, to, Some(i));
        if !(ends && to == tokens.len()) {
            code.push(RETURN as u8);
        }
        if kind { &mut global } else { &mut local }.push(code);
    }
    Some((body(tokens, intervals, &numbers, 0, tokens.len(), None), global, local))
}

const SIZES: [usize; 26] = [
    0, 1, 2, 3, 106, 107, 108, 109, 213, 214, 215, 216, 1238, 1239, 1240, 1241, 1242, 2262, 2263, 33898, 33899, 33900,
    33901, 33902, 65534, 65535,
];

pub fn explore(ctx: &Ctx) {
    super::t2::glyphs(ctx, super::t2::GLYPH, 1);
    let bases = bases(ctx.quick());
    let quick = ctx.quick();
    for (b, tokens) in bases.iter().enumerate() {
        let inline = tokens.concat();
        let mut intervals = vec![];
        for from in 0..=tokens.len() {
            for to in from + 1..=tokens.len() {
                for global in [false, true] {
                    intervals.push((from, to, global));
                }
            }
        }
        let many = intervals.len();
        for count in 1..=3usize {
            // The longest programs are cut into fewer pieces.
            if count == 3 && tokens.len() > if quick { 10 } else { 13 } {
                continue;
            }
            ctx.each(&format!("program {b}: all ways to have {count} subroutines"), (many as u64).pow(count as u32), |mut index, t| {
                let chosen: Vec<_> = (0..count).map(|_| intervals[peel(&mut index, many)]).collect();
                if chosen.windows(2).any(|pair| pair[0] >= pair[1]) {
                    return;
                }
                let Some((code, global, local)) = outline(tokens, &chosen) else { return };
                let mut blobs: Vec<&[u8]> = vec![&inline, &code];
                blobs.extend(global.iter().map(|body| &body[..]));
                blobs.extend(local.iter().map(|body| &body[..]));
                t.check(OUTLINED, &[global.len() as i64], &blobs);
                if b == 2 && count == 3 && chosen[0] == (0, 3, true) && chosen[1] == (4, 6, true) {
                    ctx.sample(format!("inline {} outlined {} global {} local {}", hex(&inline), hex(&code), global.len(), local.len()));
                }
            });
        }
    }
    // Larger programs, with many stems and operands, cut between operands and operators: in one or
    // two places, and anything up to a place being in subroutines of any depth.
    let mut sizes: Vec<usize> = (1..=ctx.pick(12, 40)).collect();
    sizes.extend([15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 255, 256, 257, 258, 410, 513, 1040]);
    let styles = 6;
    ctx.each("larger programs", (sizes.len() * styles * 2) as u64, |mut index, t| {
        let size = sizes[peel(&mut index, sizes.len())];
        let style = peel(&mut index, styles);
        let wide = index as usize;
        let operations: Vec<(u16, usize)> = match style {
            0 => vec![(HSTEMHM, 2 * size + wide), (HINTMASK, 2), (RMOVETO, 2), (RLINETO, 2 * size), (ENDCHAR, 0)],
            1 => vec![(HSTEM, 2 * size + wide), (VSTEM, 2 * size), (CNTRMASK, 0), (HMOVETO, 1), (VHCURVETO, 8 * size + 5), (HINTMASK, 0), (ENDCHAR, 0)],
            2 => vec![(HINTMASK, 2 * size + wide), (VMOVETO, 1), (HHCURVETO, 4 * size + 1), (CNTRMASK, 2 * size), (ENDCHAR, 0)],
            3 => vec![(HMOVETO, size + wide), (HLINETO, size), (RCURVELINE, 6 * size + 2), (ENDCHAR, 0)],
            4 => vec![(VSTEMHM, 2 * size), (HMOVETO, 1 + wide), (HINTMASK, 0), (HINTMASK, 2 * size), (RRCURVETO, 6 * size), (ENDCHAR, 1)],
            _ => vec![(RMOVETO, 2 + wide), (RLINECURVE, 2 * size + 6), (VLINETO, size), (VVCURVETO, 4 * size), (ENDCHAR, 0)],
        };
        let mut writer = Writer { fill: 0x8e, ..Writer::default() };
        let mut tokens: Vec<Vec<u8>> = vec![];
        for (operator, count) in operations {
            for half in [distincts(writer.written, count / 2).len(), distincts(writer.written, count).len()] {
                tokens.push(vec![0; half]);
            }
            let from = writer.code.len();
            writer.operation(operator, count);
            let (first, second) = (tokens[tokens.len() - 2].len(), tokens[tokens.len() - 1].len());
            let end = tokens.len();
            tokens[end - 2] = writer.code[from..from + first].to_vec();
            tokens[end - 1] = writer.code[from + first..from + second].to_vec();
            tokens.push(writer.code[from + second..].to_vec());
        }
        tokens.retain(|token| !token.is_empty());
        let inline = tokens.concat();
        let mut intervals = vec![];
        for from in 0..tokens.len() {
            for to in from + 1..=tokens.len() {
                intervals.push((from, to, (from + to) % 2 == 0));
            }
        }
        for (i, a) in intervals.iter().enumerate() {
            for b in intervals[i..].iter().step_by(if quick { 11 } else { 1 }) {
                let chosen = if a == b { vec![*a] } else { vec![*a, *b] };
                let Some((code, global, local)) = outline(&tokens, &chosen) else { continue };
                let mut blobs: Vec<&[u8]> = vec![&inline, &code];
                blobs.extend(global.iter().map(|body| &body[..]));
                blobs.extend(local.iter().map(|body| &body[..]));
                t.check(OUTLINED, &[global.len() as i64], &blobs);
            }
        }
        for cut in 0..=tokens.len() {
            for depth in 1..=10 {
                for pattern in if quick { vec![[0i64, 0x3ff, 0x2c7][cut % 3]] } else { vec![0, 0x3ff, 0x2c7] } {
                    let back = cut < tokens.len();
                    t.check(EQUIVALENT, &[depth, pattern, back as i64], &[&tokens[..cut].concat(), &tokens[cut..].concat()]);
                }
            }
        }
    });
    // All chains of up to ten calls over the two tables, in several styles.
    for depth in 1..=10usize {
        ctx.each(&format!("chains of {depth} calls"), (1u64 << depth) * 24, |mut index, t| {
            let style = peel(&mut index, 24);
            let (operands, operations, stems) = (style & 1 == 1, style & 2 == 2, style & 4 == 4);
            let ending = style / 8;
            let (mut global, mut local) = (vec![], vec![]);
            // From the innermost one.
            let mut inner: Vec<u8> = vec![];
            for level in (0..=depth).rev() {
                let mut body = vec![];
                if operands {
                    int(level as i64 + 1, &mut body);
                }
                if stems {
                    int(10, &mut body);
                    int(20, &mut body);
                    body.push(HSTEMHM as u8);
                }
                if level == depth {
                    match ending {
                        0 => body.extend([0x95, HMOVETO as u8]),
                        1 => body.extend([0x95, 0x96, 12, 10, HLINETO as u8]),
                        _ => {
                            body.push(ENDCHAR as u8);
                        }
                    }
                } else {
                    body.extend_from_slice(&inner);
                }
                if ending != 2 {
                    if operations {
                        int(-(level as i64) - 1, &mut body);
                        body.push(HLINETO as u8);
                    }
                    if stems {
                        body.push(HINTMASK as u8);
                        for i in 0..(depth + 1 + 7) / 8 {
                            body.push(14 + i as u8);
                        }
                    }
                }
                if level == 0 {
                    if ending != 2 {
                        body.push(ENDCHAR as u8);
                    }
                    let mut blobs: Vec<&[u8]> = vec![&body];
                    blobs.extend(global.iter().map(|body: &Vec<u8>| &body[..]));
                    blobs.extend(local.iter().map(|body: &Vec<u8>| &body[..]));
                    t.check(PROGRAM, &[global.len() as i64], &blobs);
                } else {
                    if ending != 2 {
                        body.push(RETURN as u8);
                    }
                    let kind = index >> (level - 1) & 1 == 1;
                    let table = if kind { &mut global } else { &mut local };
                    table.push(body);
                    inner = vec![];
                    call(table.len() - 1, kind, &mut inner);
                }
            }
        });
    }
    // Widths, whatever the depth of the operator, and of the operands.
    let first = super::gen::clearing();
    let most = ctx.pick(9usize, 15);
    let total = (first.len() * (most + 1) * 10 * 3) as u64;
    ctx.each("first operators at every depth", total, |mut index, t| {
        let operator = first[peel(&mut index, first.len())];
        let count = peel(&mut index, most + 1);
        let depth = peel(&mut index, 10) as i64 + 1;
        let pattern = [0i64, 0x3ff, 0x2c7][index as usize];
        let mut writer = super::gen::Writer { fill: 0x8b, ..Default::default() };
        writer.operation(operator, count);
        let rest: &[u8] = if operator == ENDCHAR { &[] } else { &[0x8d, 0x8e, 0x8f, RMOVETO as u8, ENDCHAR as u8] };
        let whole = [&writer.code[..], rest].concat();
        // Operands of one byte.
        for cut in 0..=count {
            if whole[..cut].iter().any(|byte| !(32..=246).contains(byte)) {
                break;
            }
            t.check(EQUIVALENT, &[depth, pattern, 1], &[&whole[..cut], &whole[cut..]]);
        }
        t.check(EQUIVALENT, &[depth, pattern, 0], &[&whole, &[]]);
        if operator != ENDCHAR {
            t.check(EQUIVALENT, &[depth, pattern, 1], &[&writer.code, rest]);
        }
    });
    // All kinds of operations in subroutines in contexts.
    let mut pieces = vec![];
    for &operator in &first {
        for more in [0, 1, 3] {
            pieces.push([&distincts(0, super::c03::smallest(operator) + more)[..], &token(operator)].concat());
        }
    }
    for operator in super::c02::ARITHMETIC {
        pieces.push([&[0x9a, 0x8d, 0x8e, 0x8f, 0x8d, 0x8c][..], &token(operator)].concat());
    }
    super::t2::contexts(ctx, &pieces, &(0..60).map(|i| 0x20 + i).chain([6, 14]).collect::<Vec<u8>>());
    // Any number of calls, each of a chain of calls.
    let counts = [10u64, 63, 64, 65, 255, 256, 257, 1000, 4095, 4096, 4097, 16383, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 140_000];
    ctx.each("many calls of chains", (counts.len() * 3 * 4) as u64, |mut index, t| {
        let count = counts[peel(&mut index, counts.len())] as usize;
        let depth = [1usize, 2, 10][peel(&mut index, 3)];
        if count * depth > 150_000 {
            return;
        }
        let body: &[u8] = [&[11][..], &[0x8c, 22, 11], &[0x8c, 0x8c, 18, 11], &[0x8c, 11]][index as usize];
        let mut blobs: Vec<Vec<u8>> = vec![body.to_vec()];
        for level in 1..depth {
            let mut code = vec![];
            call(level - 1, false, &mut code);
            code.push(RETURN as u8);
            blobs.push(code);
        }
        let mut one = vec![];
        call(depth - 1, false, &mut one);
        let mut code = one.repeat(count);
        code.extend([0x8d, VMOVETO as u8, ENDCHAR as u8]);
        blobs.insert(0, code);
        let blobs: Vec<&[u8]> = blobs.iter().map(|blob| &blob[..]).collect();
        t.check(COARSE, &[0], &blobs);
    });
    // Large subroutines, calls far from the beginning, and both.
    let distances: Vec<usize> = DISTANCES.into_iter().chain([2, 150_000]).collect();
    ctx.each("large subroutines and distant calls", (distances.len() * 2 * 4) as u64, |mut index, t| {
        let size = distances[peel(&mut index, distances.len())];
        let kind = peel(&mut index, 2) == 1;
        let mut code = if index & 1 == 1 { padding(size) } else { padding(2) };
        call(1, kind, &mut code);
        code.extend([0x8d, VMOVETO as u8, ENDCHAR as u8]);
        let mut body = if index & 2 == 2 { padding(size) } else { padding(2) };
        let mut last = body.clone();
        last.extend([0x8f, VMOVETO as u8, ENDCHAR as u8]);
        body.extend([0x8e, VMOVETO as u8]);
        call(0, !kind, &mut body);
        body.push(RETURN as u8);
        let empty = vec![RETURN as u8];
        // The inner subroutine has the number 0 in the other table.
        for inner in [&empty, &last] {
            let mut code = code.clone();
            if inner == &last {
                code.truncate(code.len() - 3);
                body.pop();
            }
            let blobs: [&[u8]; 4] = if kind { [&code, &empty, &body, inner] } else { [&code, inner, &empty, &body] };
            t.check(COARSE, &[if kind { 2 } else { 1 }], &blobs);
        }
    });
    // The same subroutine many times, in sequence and at several levels.
    ctx.each("repeated calls", 64 * 8, |mut index, t| {
        let count = peel(&mut index, 64);
        let style = index;
        let kind = style & 1 == 1;
        let mut one = vec![];
        call(0, kind, &mut one);
        let mut code = vec![];
        for _ in 0..count {
            if style & 2 == 2 {
                code.extend(number(5));
            }
            code.extend_from_slice(&one);
            if style & 4 == 4 {
                code.push(HLINETO as u8);
            }
        }
        code.push(ENDCHAR as u8);
        for body in [&[0x8c, 0x8d, 5, 11][..], &[0x8c, 11], &[11], &[0x8c, 0x8d, 18, 11], &[0x8c, 22, 0x8d, 11]] {
            t.check(PROGRAM, &[kind as i64], &[&code, body]);
        }
    });
    // Every entry of every table size, at the borders of the bias.
    let sizes: Vec<usize> = SIZES.into_iter().chain([65536]).collect();
    let many = sizes.len();
    for (i, &size) in sizes.iter().enumerate() {
        let bias = bias(size);
        let mut numbers: Vec<i64> = vec![];
        for border in [-bias, size as i64 - bias, 0, -107, -1131, -32768, 32767, 107, 1131] {
            for number in border - 4..=border + 4 {
                numbers.push(number);
            }
        }
        if !quick || size < 2000 {
            let step = if size > 4000 { 7 } else { 1 };
            numbers.extend((-bias..size as i64 - bias).step_by(step));
        }
        numbers.retain(|number| (-32768..=32767).contains(number));
        numbers.sort();
        numbers.dedup();
        // The other table has another size.
        let other = sizes[(i + many / 2) % many].min(2300);
        ctx.each(&format!("all calls over {size} and {other} subroutines"), numbers.len() as u64 * 2, |index, t| {
            let mut code = vec![];
            int(numbers[(index / 2) as usize], &mut code);
            let global = index % 2 == 1;
            code.push(if global { CALLGSUBR } else { CALLSUBR } as u8);
            // Then one of the other kind.
            code.extend(number(-bias_of(other)));
            code.push(if global { CALLSUBR } else { CALLGSUBR } as u8);
            code.push(14);
            let tables = if global { [size, other] } else { [other, size] };
            t.check(NUMBERED, &tables.map(|size| size as i64), &[&code]);
        });
    }
    // The borders of every small table, and of many others.
    let small = ctx.pick(2600u64, 5000);
    let step = ctx.pick(211, 37);
    let count = small + (65536 - small) / step;
    ctx.each("the borders of tables of all sizes", count, |index, t| {
        let size = if index < small { index } else { small + (index - small) * step } as usize;
        let bias = bias(size);
        for number in [-bias - 1, -bias, -bias + 1, size as i64 - bias - 1, size as i64 - bias, 0] {
            if !(-32768..=32767).contains(&number) {
                continue;
            }
            for operator in [CALLSUBR, CALLGSUBR] {
                let mut code = vec![];
                int(number, &mut code);
                code.extend([operator as u8, 14]);
                let tables = if operator == CALLGSUBR { [size as i64, 3] } else { [3, size as i64] };
                t.check(NUMBERED, &tables, &[&code]);
            }
        }
    });
    // Numbers that no call can have.
    let mut numbers: Vec<Vec<u8>> = super::c02::huge();
    for raw in [1, -1, 0x8000, -107 << 16 | 0x8000, -107 << 16 | 1, i32::MIN, i32::MAX, -107 << 16, -108 << 16, 0] {
        numbers.push(real(raw));
    }
    numbers.push(vec![]);
    // 2147483647 is not representable; the nearest are.
    for (a, b, c) in [(32767, 32767, 32767), (-32768, 32767, 0), (32767, 2, -107), (32767, 2, 1)] {
        let mut code = number(a);
        code.extend(number(b));
        code.extend([12, 24]);
        code.extend(number(c));
        code.extend([12, 10]);
        numbers.push(code);
    }
    ctx.each("impossible and computed numbers", (numbers.len() * 2 * 8) as u64, |mut index, t| {
        let mut code = numbers[peel(&mut index, numbers.len())].clone();
        code.push(if peel(&mut index, 2) == 0 { CALLSUBR } else { CALLGSUBR } as u8);
        code.extend([0x8c, HMOVETO as u8, 14]);
        let size = [0, 1, 107, 108, 1239, 1240, 33900, 65535][index as usize];
        t.check(NUMBERED, &[size, size], &[&code]);
    });
    // Numbers computed by arithmetic, left by other subroutines, or deep on the stack.
    ctx.each("computed numbers", 64, |index, t| {
        let leave = number(index as i64 - 107 - 32);
        let mut back = leave.clone();
        back.push(11);
        let target = [0x95, 22, 11];
        for code in [
            &[0x20, 10, 10, 14][..],
            &[0x20, 10, 29, 14],
            &[0x20, 10, 12, 27, 10, 10, 14],
            &[0x20, 10, 0x9f, 12, 10, 10, 14],
            &[0x20, 10, 0x9f, 12, 10, 29, 14],
        ] {
            t.check(PROGRAM, &[2], &[code, &target, &[0x96, 4, 11], &back, &target, &[0x97, 7, 11]]);
        }
    });
    // Returns and calls that have nothing to return to or to call.
    let words: [&[u8]; 10] = [
        &[11],
        &[0x20, 10],
        &[0x21, 10],
        &[0x20, 29],
        &[0x8c],
        &[0x8c, 22],
        &[14],
        &[10],
        &[29],
        &[0x22, 10],
    ];
    let bodies: [&[u8]; 12] = [
        &[11],
        &[],
        &[14],
        &[11, 11],
        &[0x8c, 11],
        &[0x8c, 22, 11],
        &[0x20, 29, 11],
        &[0x21, 10, 11],
        &[0x20, 10, 11],
        &[10, 11],
        &[29, 11],
        &[0x20, 10],
    ];
    for depth in 1..=ctx.pick(4, 5) {
        ctx.each(
            &format!("words of {depth} calls, returns and operations over all tables"),
            (words.len() as u64).pow(depth) * (bodies.len() as u64).pow(3),
            |mut index, t| {
                let mut code = vec![];
                for _ in 0..depth {
                    code.extend_from_slice(words[peel(&mut index, words.len())]);
                }
                let one = bodies[peel(&mut index, bodies.len())];
                let two = bodies[peel(&mut index, bodies.len())];
                let three = bodies[peel(&mut index, bodies.len())];
                t.check(PROGRAM, &[1], &[&code, one, two, three]);
            },
        );
    }
    // Recursion that ends with the operands, and recursion that does not end.
    ctx.each("recursion", 400, |index, t| {
        let mut code = vec![];
        for _ in 0..index {
            code.push(0x20);
        }
        code.push(10);
        code.push(14);
        for body in [&[10, 11][..], &[10], &[29, 11], &[0x20, 10, 11], &[0x20, 10], &[0x8c, 22, 0x20, 10], &[0x20, 0x20, 10, 10, 11]] {
            t.check(PROGRAM, &[0], &[&code, body]);
            t.check(PROGRAM, &[1], &[&code, &[10, 11], body]);
            t.check(PROGRAM, &[1], &[&code, &[0x20, 10], body]);
            t.check(PROGRAM, &[1], &[&code, &[0x8c, 11], body]);
        }
    });
}

fn bias_of(size: usize) -> i64 {
    bias(size)
}
