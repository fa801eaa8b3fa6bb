//! C02: arithmetic, conditional and stack operators.

use super::t2::{COARSE, NESTED, PROGRAM};
use super::tree;
use crate::model::t2::{fixed, int, op};
use crate::run::{digits, peel, pow, Ctx};

pub const ARITHMETIC: [u16; 17] = [
    0x0c03, 0x0c04, 0x0c05, 0x0c09, 0x0c0a, 0x0c0b, 0x0c0c, 0x0c0e, 0x0c0f, 0x0c12, 0x0c16, 0x0c18,
    0x0c1a, 0x0c1b, 0x0c1c, 0x0c1d, 0x0c1e,
];

const DUMP: [u8; 2] = [6, 14];

fn number(value: i64) -> Vec<u8> {
    let mut code = vec![];
    int(value, &mut code);
    code
}

fn token(operator: u16) -> Vec<u8> {
    let mut code = vec![];
    op(operator, &mut code);
    code
}

/// Extreme integers that only arithmetic can produce.
pub fn huge() -> Vec<Vec<u8>> {
    let mul = [12, 24];
    let neg = [12, 14];
    let mut thirty = number(-32768);
    thirty.extend(number(-32768));
    thirty.extend(mul);
    let mut thirty_one = thirty.clone();
    thirty_one.extend(number(2));
    thirty_one.extend(mul);
    let mut list = vec![];
    for code in [thirty, thirty_one.clone()] {
        list.push(code.clone());
        let mut code = code;
        code.extend(neg);
        list.push(code);
    }
    // 2^32 and its negative, 2^62, infinity, and not a number.
    let mut code = thirty_one.clone();
    code.extend(number(2));
    code.extend(mul);
    list.push(code.clone());
    code.extend(neg);
    list.push(code);
    let mut code = thirty_one.clone();
    code.extend(thirty_one);
    code.extend(mul);
    list.push(code);
    let mut code = number(1);
    code.extend(number(0));
    code.extend([12, 12]);
    list.push(code);
    // Squares of squares, up to infinity, and their negatives; infinity less infinity.
    let mut code = number(-32768);
    for _ in 0..5 {
        code.extend([12, 27]);
        code.extend(mul);
        list.push(code.clone());
        list.push([&code[..], &neg].concat());
    }
    list.push([&code[..], &[12, 27, 12, 11]].concat());
    let mut code = number(0);
    code.extend(number(0));
    code.extend([12, 12]);
    list.push(code);
    let mut code = number(-1);
    code.extend([12, 26]);
    list.push(code);
    list
}

/// Values that only arithmetic can produce: tiny, subnormal, and adjacent ones, a negative zero.
pub fn unusual() -> Vec<Vec<u8>> {
    let (mul, div, add, neg) = ([12u8, 24], [12u8, 12], [12u8, 10], [12u8, 14]);
    let join = |parts: &[&[u8]]| parts.concat();
    let mut list = vec![];
    let mut ulp = vec![];
    fixed(1, &mut ulp);
    // 2^-16, 2^-32, 2^-64, 2^-128 (subnormal), 2^-144, and 0 by underflow
    let mut tiny = ulp.clone();
    for _ in 0..3 {
        tiny.extend([12, 27]);
        tiny.extend(mul);
        list.push(tiny.clone());
        list.push(join(&[&tiny, &neg]));
    }
    let subnormal = join(&[&tiny, &ulp, &mul]);
    list.push(subnormal.clone());
    list.push(join(&[&subnormal, &number(3), &mul, &number(32), &div]));
    list.push(join(&[&subnormal, &ulp, &mul]));
    // A negative zero
    list.push(join(&[&number(0), &neg]));
    // 1 + 2^-23, 1 - 2^-24, 2^24 + 2, 1/3, 2/3, 10/3, 0.1
    let third = |a: i64, b: i64| join(&[&number(a), &number(b), &div]);
    let square = join(&[&number(4096), &[12, 27], &mul]);
    list.push(join(&[&number(1), &number(8), &square, &div, &number(4), &div, &add]));
    list.push(join(&[&number(1), &number(1), &square, &div, &neg, &add]));
    list.push(square.clone());
    list.push(join(&[&square, &number(2), &add]));
    list.push(join(&[&square, &number(-1), &add]));
    list.push(third(1, 3));
    list.push(third(2, 3));
    list.push(third(10, 3));
    list.push(third(1, 10));
    list.push(third(-1, 7));
    list
}

pub fn explore(ctx: &Ctx) {
    let mut alphabet: Vec<Vec<u8>> = [0, 1, 2, 3, -1].map(number).to_vec();
    for raw in [0x8000, -0x18000] {
        let mut code = vec![];
        fixed(raw, &mut code);
        alphabet.push(code);
    }
    for operator in ARITHMETIC {
        alphabet.push(token(operator));
    }
    // Every program up to a depth, from the empty stack.
    for depth in 1..=6 {
        tree(ctx, "programs from the empty stack", &alphabet, depth, &[], &DUMP, &[]);
    }
    if !ctx.quick() {
        let fewer: Vec<_> = alphabet[1..4].iter().chain(&alphabet[7..]).cloned().collect();
        tree(ctx, "programs from the empty stack over fewer operands", &fewer, 7, &[], &DUMP, &[]);
    }
    // From every stack of distinct values.
    let operators: Vec<_> = alphabet[..5]
        .iter()
        .cloned()
        .chain(ARITHMETIC.iter().map(|operator| token(*operator)))
        .collect();
    for size in 1..=9i64 {
        let mut prefix = vec![];
        for value in 0..size {
            prefix.extend(number(11 * value + 7));
        }
        for depth in 1..=ctx.pick(3, 4) {
            tree(ctx, &format!("programs from {size} operands"), &operators, depth, &prefix, &DUMP, &[]);
        }
        // Small integers, so that they are good as spans, shifts and indices.
        let mut prefix = vec![];
        for value in 0..size {
            prefix.extend(number((value * 5 + 2) % size));
        }
        for depth in 1..=ctx.pick(3, 4) {
            tree(ctx, &format!("programs from {size} small operands"), &operators, depth, &prefix, &DUMP, &[]);
        }
    }
    // All states of the stack-permuting operators over a small domain, to a fixed point.
    let permuting: Vec<Vec<u8>> = [0, 1, 2]
        .map(number)
        .into_iter()
        .chain([0x0c12, 0x0c1b, 0x0c1c, 0x0c1d, 0x0c1e].map(token))
        .collect();
    super::search(ctx, "stack-permuting operators", &permuting, &DUMP, 40, |machine| {
        machine.stack.len() <= ctx.pick(6, 8)
    });
    // And of the integer arithmetic over a bounded domain.
    let integer: Vec<Vec<u8>> = [0, 1, 2, -1]
        .map(number)
        .into_iter()
        .chain(ARITHMETIC.iter().filter(|code| **code != 0x0c1a).map(|code| token(*code)))
        .collect();
    super::search(ctx, "integer arithmetic", &integer, &DUMP, 40, |machine| {
        machine.stack.len() <= ctx.pick(4, 5)
            && machine.stack.iter().all(|value| value.abs() <= 2.0 && value.fract() == 0.0)
    });
    // Unary and binary operators over a grid of values, including those that only arithmetic makes.
    let mut grid: Vec<Vec<u8>> = vec![];
    let mut put = |raw: i32| {
        let mut code = vec![];
        fixed(raw, &mut code);
        grid.push(code);
    };
    for high in [-32768i32, -32767, -1000, -256, -3, -2, -1, 0, 1, 2, 3, 7, 100, 255, 256, 1000, 32766, 32767] {
        for low in [0i32, 1, 0x4000, 0x5555, 0x8000, 0xffff] {
            put(high << 16 | low);
        }
    }
    for i in 0..ctx.pick(100, 600) {
        put((i as i32).wrapping_mul(0x9e37_79b1u32 as i32));
    }
    grid.extend(huge());
    grid.extend(unusual());
    let size = grid.len() as u64;
    ctx.each("operators over the value grid", size * size, |index, t| {
        let (a, b) = (&grid[(index / size) as usize], &grid[(index % size) as usize]);
        let operands = [&a[..], b].concat();
        for operator in ARITHMETIC {
            let mut code = operands.clone();
            op(operator, &mut code);
            code.extend(DUMP);
            t.check(PROGRAM, &[0], &[&code]);
        }
        // ifelse: distinct results, compared operands from the grid
        let mut code = number(501);
        code.extend(number(502));
        code.extend_from_slice(&operands);
        code.extend([12, 22]);
        code.extend(DUMP);
        t.check(PROGRAM, &[0], &[&code]);
        // What was chosen or moved is of the grid.
        for suffix in [&[0x8b, 0x8c, 12, 22][..], &[0x8c, 0x8b, 12, 22], &[12, 28], &[0x8d, 0x8c, 12, 30], &[0x8c, 12, 29]] {
            let mut code = operands.clone();
            code.extend_from_slice(suffix);
            code.extend(DUMP);
            t.check(PROGRAM, &[0], &[&code]);
        }
    });
    // Chains: a value changed by the same operator with the same operand over and over.
    let starts: Vec<Vec<u8>> = [1, 2, 3, -7, 100, 32767, -32768].map(number).into_iter().chain(unusual()).collect();
    let seconds: Vec<Vec<u8>> =
        [2, 3, -7, 100, 32767].map(number).into_iter().chain([1, 0x8000, -0x18000, 0x5555, 0x1_0001].map(crate::checks::gen::real)).collect();
    let (many, others) = (starts.len(), seconds.len());
    ctx.each("chains of operators", (many * others * 5 * 2) as u64, |mut index, t| {
        let mut code = starts[peel(&mut index, many)].clone();
        let second = &seconds[peel(&mut index, others)];
        let operator = [0x0c0a, 0x0c0b, 0x0c0c, 0x0c18, 0x0c1b][peel(&mut index, 5)];
        let length = [40, 260][index as usize];
        for _ in 0..length {
            if operator == 0x0c1b {
                code.extend([12, 27, 12, 24]);
            } else {
                code.extend_from_slice(second);
                op(operator, &mut code);
            }
            // Keep the intermediate value beneath.
            code.extend([12, 27]);
        }
        code.extend(DUMP);
        t.check(PROGRAM, &[0], &[&code]);
    });
    let mut pieces = vec![];
    for operator in ARITHMETIC {
        let mut code = vec![0x8c, 0x8d, 0x8e, 0x8f, 0x8d, 0x8c];
        op(operator, &mut code);
        code.extend(DUMP);
        pieces.push(code);
    }
    super::t2::distant(ctx, &pieces);
    let mut pieces = vec![];
    for first in ARITHMETIC {
        pieces.push(token(first));
        for second in ARITHMETIC {
            pieces.push([&[0x9a, 0x8d, 0x8e, 0x8f, 0x8d, 0x8c][..], &token(first), &token(second)].concat());
        }
    }
    super::t2::contexts(ctx, &pieces, &DUMP);
    ctx.each("operators at every depth", 17 * 10 * 6, |mut index, t| {
        let operator = ARITHMETIC[peel(&mut index, 17)];
        let depth = peel(&mut index, 10) as i64 + 1;
        let operands = [0x8cu8, 0x8d, 0x8e, 0x8f, 0x8d, 0x8c];
        let (before, behind) = operands.split_at(index as usize);
        for pattern in [0, 0x3ff, 0x333] {
            // Some operands and the operator in the subroutine; or some operands only.
            let code = [behind, &token(operator)].concat();
            t.check(NESTED, &[depth, pattern, 0], &[&[&operands[..], &token(operator), &DUMP].concat(), &[]]);
            t.check(NESTED, &[depth, pattern, 1], &[before, &[&code[..], &DUMP].concat()]);
            t.check(NESTED, &[depth, pattern, 1], &[&[&operands[..], &token(operator)].concat(), &DUMP]);
        }
    });
    // index and roll, with all arguments.
    let mut arguments: Vec<Vec<u8>> = vec![];
    for value in -40..=40 {
        arguments.push(number(value));
    }
    for value in [-32768, -32767, -32766, -1000, -120, 100, 107, 120, 1000, 1001, 32766, 32767] {
        arguments.push(number(value));
    }
    for raw in [1, -1, 0x8000, -0x8000, 0x18000, 0x2_0001, 0x3_8000] {
        let mut code = vec![];
        fixed(raw, &mut code);
        arguments.push(code);
    }
    arguments.extend(huge());
    let many = arguments.len() as u64;
    let sizes: [i64; 17] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 31, 48, 97];
    ctx.each("index: all stack sizes and arguments", many * sizes.len() as u64, |index, t| {
        let mut code = vec![];
        for value in 0..sizes[(index / many) as usize] {
            code.extend(number(value * 3 + 1));
        }
        code.extend_from_slice(&arguments[(index % many) as usize]);
        code.extend([12, 29]);
        code.extend(DUMP);
        t.check(PROGRAM, &[0], &[&code]);
    });
    ctx.each("roll: all stack sizes, spans and shifts", many * many * sizes.len() as u64, |index, t| {
        let size = sizes[(index / many / many) as usize];
        let mut code = vec![];
        for value in 0..size {
            code.extend(number(value * 3 + 1));
        }
        code.extend_from_slice(&arguments[(index / many % many) as usize]);
        code.extend_from_slice(&arguments[(index % many) as usize]);
        code.extend([12, 30]);
        code.extend(DUMP);
        t.check(PROGRAM, &[0], &[&code]);
    });
    // And on deep stacks, around the sizes at which small counters might wrap.
    let deep = [100i64, 126, 127, 128, 129, 130, 191, 192, 193, 254, 255, 256, 257, 258, 300, 511, 512, 513, 514, 1023, 1024, 1025, 4097];
    let around = |size: i64| -> Vec<i64> {
        let mut list = vec![0, 1, 2, 3, size / 3, size / 2];
        for center in [size, 64, 96, 128, 192, 256, 512, 1024, 4096] {
            list.extend(center - 3..=center + 2);
        }
        list.sort();
        list.dedup();
        list
    };
    ctx.each("index and roll on deep stacks", deep.len() as u64 * 60, |mut index, t| {
        let size = deep[peel(&mut index, deep.len())];
        let list = around(size);
        let Some(&first) = list.get(index as usize) else { return };
        let mut below = vec![];
        for value in 0..size {
            below.extend(number(value * 3 % 20011 + 1));
        }
        t.check(COARSE, &[0], &[&[&below[..], &number(first), &[12, 29], &DUMP].concat()]);
        for shift in list.iter().flat_map(|value| [*value, -value]) {
            t.check(COARSE, &[0], &[&[&below[..], &number(first), &number(shift), &[12, 30], &DUMP].concat()]);
        }
    });
    // And on very deep ones, together with every other operator at their top.
    let very = [2049i64, 5001, 8192, 10_001, 16_384, 20_001, 32_767, 32_768, 32_769, 40_001, 50_001, 65_535, 65_536, 65_537, 70_001, 100_001];
    let large = |value: i64| -> Vec<u8> {
        let (mut rest, mut code) = (value.abs(), number(0));
        while rest > 0 {
            code.extend(number(rest.min(32_000)));
            op(0x0c0a, &mut code);
            rest -= rest.min(32_000);
        }
        if value < 0 {
            op(0x0c0e, &mut code);
        }
        code
    };
    ctx.each("very deep stacks", very.len() as u64 * (17 + 14 + 36), |mut index, t| {
        let size = very[peel(&mut index, very.len())];
        let mut code = vec![];
        for value in 0..size {
            code.extend(number(value * 3 % 20011 + 1));
        }
        let places = [0, 1, 2, size / 2, 32_767, 32_768, size - 3, size - 2, size - 1, size, size + 1, 65_535, 65_536, -1];
        match index as usize {
            index @ 0..=16 => op(ARITHMETIC[index], &mut code),
            index @ 17..=30 => {
                code.extend(large(places[index - 17]));
                code.extend([12, 29]);
            }
            index => {
                let index = index - 31;
                let spans = [3, size / 2, 32_768, size - 1, size, size + 1];
                code.extend(large(spans[index / 6]));
                code.extend(large([1, -1, 2, size / 3, -size, 40_000][index % 6]));
                code.extend([12, 30]);
            }
        }
        code.extend(DUMP);
        t.check(COARSE, &[0], &[&code]);
    });
    // Every operator code, reserved and unsupported ones included, on every small stack.
    ctx.each("all operator codes on all small stacks", 512 * 10, |index, t| {
        let (code, size) = (index % 512, index / 512);
        let mut program = vec![];
        for value in 0..size as i64 {
            program.extend(number((value * 7 + 3) % 10));
        }
        if code < 256 {
            if code == 12 {
                return;
            }
            program.push(code as u8);
        } else {
            program.extend([12, (code - 256) as u8]);
        }
        t.check(PROGRAM, &[0], &[&program]);
        program.extend(DUMP);
        t.check(PROGRAM, &[0], &[&program]);
        program.extend(DUMP);
        t.check(PROGRAM, &[0], &[&program]);
    });
    // Deep stacks: sums and products of many operands.
    ctx.each("folds over deep stacks", 17 * 620, |index, t| {
        let (operator, size) = (ARITHMETIC[(index % 17) as usize], index / 17);
        let mut code = vec![];
        for value in 0..size as i64 {
            code.extend(number(value % 5 - 2));
        }
        for _ in 0..size {
            op(operator, &mut code);
        }
        code.extend(DUMP);
        t.check(PROGRAM, &[0], &[&code]);
    });
    // Pairs of all-operator sequences after mixed-kind operands (order of operands matters).
    let mixed: Vec<Vec<u8>> = [0x8000i32, 0x1_0000, -0x3_0000, 0x2_4000]
        .iter()
        .map(|raw| {
            let mut code = vec![];
            fixed(*raw, &mut code);
            code
        })
        .collect();
    ctx.each("operand orders x operator pairs", pow(4, 5) * 17 * 17, |index, t| {
        let mut word = vec![];
        digits(index / 289, 4, 5, &mut word);
        let mut code = vec![];
        for digit in word {
            code.extend_from_slice(&mixed[digit]);
        }
        op(ARITHMETIC[(index % 289 / 17) as usize], &mut code);
        op(ARITHMETIC[(index % 17) as usize], &mut code);
        code.extend(DUMP);
        t.check(PROGRAM, &[0], &[&code]);
    });
}
