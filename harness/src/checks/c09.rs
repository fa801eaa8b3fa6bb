//! C09: dictionaries.

use std::io::Cursor;

use postscript::compact1 as ps;
use postscript::tape::Read;

use super::c08::{pack, representatives};
use super::cff::{self, MANY, READ};
use crate::model::cff::*;
use crate::run::{digits, hex, peel, pow, Ctx, Print, Stats};

/// Read a dictionary and look up every operator there is.
const LOOKUP: u32 = 30;

/// Ask for the operators of 256 codes and for their defaults.
const CODES: u32 = 31;

/// Look up in a dictionary that was put together by hand.
const HAND: u32 = 32;

fn same_default(want: &Option<Vec<f64>>, got: Option<&[ps::Operand]>) -> bool {
    match (want, got) {
        (None, None) => true,
        (Some(want), Some(got)) => {
            want.len() == got.len()
                && want.iter().zip(got).all(|(want, got)| match got {
                    ps::Number::Integer(value) => *value as f64 == *want,
                    ps::Number::Real(value) => *value == *want as f32,
                })
        }
        _ => false,
    }
}

fn codes(high: u16, stats: &mut Stats) -> Result<(), String> {
    let known = cff::operators();
    for low in 0..256 {
        let code = high << 8 | low;
        stats.transitions += 1;
        let want = known.iter().find(|pair| pair.0 == code).map(|pair| pair.1);
        match (ps::Operator::from(code), want) {
            (Ok(got), Some(want)) if got == want => {
                if !same_default(&default(code), got.default()) {
                    return Err(format!("{got:?}: expected {:?}, got {:?}", default(code), got.default()));
                }
            }
            (Err(_), None) => {}
            (got, want) => return Err(format!("code {code:#x}: expected {want:?}, got {got:?}")),
        }
    }
    Ok(())
}

/// What is present is found as it is, and what is absent by its default; nothing else matters.
fn by_hand(mask: &[i64], stats: &mut Stats) -> Result<(), String> {
    let mut operations = ps::Operations::default();
    let known = cff::operators();
    for index in mask.chunks(2) {
        let list = (0..index[1]).map(|i| if i % 2 == 0 { ps::Number::Integer(i as i32 + 7) } else { ps::Number::Real(0.5 + i as f32) });
        operations.0.insert(known[index[0] as usize].1, list.collect());
    }
    for copy in [operations.clone(), operations] {
        for (i, (code, operator)) in known.iter().enumerate() {
            stats.transitions += 1;
            let written = mask.chunks(2).rev().find(|pair| pair[0] == i as i64);
            let got = copy.get(*operator);
            let right = match written {
                Some(pair) => got.is_some_and(|got| {
                    got.len() == pair[1] as usize
                        && got.iter().enumerate().all(|(i, number)| match number {
                            ps::Number::Integer(value) => i % 2 == 0 && *value == i as i32 + 7,
                            ps::Number::Real(value) => i % 2 == 1 && *value == 0.5 + i as f32,
                        })
                }),
                _ => same_default(&default(*code), got),
            };
            if !right {
                return Err(format!("{operator:?} of {mask:?}: got {got:?}"));
            }
            if copy.get_single(*operator) != got.and_then(|list| list.first().copied()) {
                return Err(format!("{operator:?} of {mask:?}: the first of {got:?}"));
            }
            let pair = got.filter(|list| list.len() > 1).map(|list| (list[0], list[1]));
            if copy.get_double(*operator) != pair {
                return Err(format!("{operator:?} of {mask:?}: the first two of {got:?}"));
            }
        }
    }
    Ok(())
}

pub fn exec(kind: u32, nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    if kind == CODES || kind == HAND {
        let mut print = Print::new().add(kind as u64);
        for num in nums {
            print = print.add(*num as u64);
        }
        stats.state(print);
        stats.outcome(print);
    }
    if kind == CODES {
        return codes(nums[0] as u16, stats);
    }
    if kind == HAND {
        return by_hand(nums, stats);
    }
    if kind != LOOKUP {
        return cff::exec(kind, nums, blobs, stats);
    }
    cff::exec(READ, &[Reader::Dict.code(), 0, nums[0]], blobs, stats)?;
    let verdict = cff::reference(Reader::Dict, 0, blobs[0], false, stats);
    let Verdict::Is(Value::Dict(dict), _, false) = verdict else { return Ok(()) };
    let operations: ps::Operations = Cursor::new(blobs[0]).take().map_err(|error| format!("{error}"))?;
    for (code, operator) in cff::operators() {
        stats.transitions += 1;
        let got: Option<Vec<Num>> = operations.get(operator).map(|list| list.iter().map(cff::num).collect());
        // The shorthands give the first operand and the first two.
        let first = operations.get_single(operator).map(|number| cff::num(&number));
        if first != got.as_ref().and_then(|list| list.first().cloned()) {
            return Err(format!("{operator:?}: the first of {got:?}, got {first:?}"));
        }
        let pair = operations.get_double(operator).map(|(a, b)| vec![cff::num(&a), cff::num(&b)]);
        if pair.as_deref() != got.as_ref().and_then(|list| list.get(..2)) {
            return Err(format!("{operator:?}: the first two of {got:?}, got {pair:?}"));
        }
        match (dict.get(&code), default(code), &got) {
            (Some(want), _, Some(got)) if want == got => {}
            (None, Some(want), Some(got)) if want.len() == got.len() => {
                let same = want.iter().zip(got).all(|(want, got)| match got {
                    Num::Int(value) => *value as f64 == *want,
                    Num::Real(value) => *value == *want as f32,
                });
                if !same {
                    return Err(format!("{operator:?}: expected the default {want:?}, got {got:?}"));
                }
            }
            (None, None, None) => {}
            (written, default, got) => {
                return Err(format!("{operator:?}: written {written:?}, default {default:?}, got {got:?}"))
            }
        }
    }
    Ok(())
}

pub fn explore(ctx: &Ctx) {
    let dict = Reader::Dict.code();
    // Every operator code, escaped or not, behind 0 to 2 operands.
    let fronts: [&[u8]; 4] = [&[], &[0x8c], &[0x8c, 0xf7, 0x00], &[0x90, 0x00, 0x91]];
    ctx.each("all one- and two-byte codes", 65536, |index, t| {
        let (b0, b1) = ((index >> 8) as u8, index as u8);
        for front in fronts {
            let mut data = front.to_vec();
            data.push(b0);
            if b1 == 0 {
                t.check(READ, &[dict, 0, 0], &[&data]);
            }
            data.push(b1);
            t.check(READ, &[dict, 0, 2], &[&data]);
            data.extend_from_slice(&[0x8d, 0x0c, 0x03]);
            t.check(READ, &[dict, 0, 0], &[&data]);
        }
    });
    ctx.sample("all 65536 pairs of bytes as codes".to_string());
    ctx.each("operators of all codes", 256, |index, t| {
        t.check(CODES, &[index as i64], &[]);
    });
    let several = cff::operators().len() as u64;
    ctx.each("dictionaries put together by hand", several * several * 9, |mut index, t| {
        let i = peel(&mut index, several as usize) as i64;
        let j = peel(&mut index, several as usize) as i64;
        t.check(HAND, &[i, index as i64 % 3, j, index as i64 / 3 + 1], &[]);
        if j == 0 && index == 0 {
            for length in 0..8 {
                t.check(HAND, &[i, length], &[]);
            }
            let all: Vec<i64> = (0..several as i64).flat_map(|k| [(k + i) % several as i64, k % 5]).collect();
            t.check(HAND, &all, &[]);
        }
    });
    // Every operator present with everything else absent; and every pair.
    let codes: Vec<u16> = cff::operators().iter().map(|pair| pair.0).collect();
    let put = |data: &mut Vec<u8>, code: u16| {
        if code > 255 {
            data.push(12);
        }
        data.push(code as u8);
    };
    let count = codes.len();
    ctx.each("pairs of operators", ((count + 1) * (count + 1)) as u64, |index, t| {
        let (i, j) = (index as usize / (count + 1), index as usize % (count + 1));
        let mut data = vec![];
        if i < count {
            data.extend_from_slice(&[0x95, 0x96]);
            put(&mut data, codes[i]);
        }
        if j < count {
            data.extend_from_slice(&[0x1c, 0x12, 0x34]);
            put(&mut data, codes[j]);
        }
        t.check(LOOKUP, &[0], &[&data]);
        t.check(LOOKUP, &[5], &[&data]);
    });
    // All operators at once in every rotation.
    ctx.each("all operators, rotated and cut", count as u64, |index, t| {
        let mut data = vec![];
        for i in 0..count {
            let code = codes[(i + index as usize) % count];
            for j in 0..i % 4 {
                data.push(0x8b + (i + j) as u8);
            }
            put(&mut data, code);
        }
        for cut in 0..=data.len() {
            t.check(LOOKUP, &[0], &[&data[..cut]]);
        }
    });
    // Any number of entries, and then what is malformed or cut off.
    let bad: [&[u8]; 12] = [
        &[0xff], &[0x1f], &[0x16], &[0x0c, 0x0f], &[0x0c, 0xff], &[0x1e, 0xdf], &[0x1e, 0xff], &[0x8c, 0x1e, 0x1d],
        &[0x0c], &[0x1c, 1], &[0x1d, 1, 2, 3], &[0x1e, 0x12],
    ];
    let numbers: Vec<usize> = (0..=3 * count).chain([255, 256, 257, 511, 512, 1000, 4096, 65535, 65536, 70000]).collect();
    ctx.each("any number of entries before what is malformed", (numbers.len() * bad.len() * 2) as u64, |mut index, t| {
        let number = numbers[peel(&mut index, numbers.len())];
        let end = bad[peel(&mut index, bad.len())];
        let mut data = vec![];
        for i in 0..number {
            if index == 0 {
                data.push(0x8b + (i % 100) as u8);
            }
            put(&mut data, codes[(i * 5) % count]);
        }
        data.extend_from_slice(end);
        t.check(READ, &[dict, 0, 0], &[&data]);
        data.extend_from_slice(&[0x8c, 5]);
        t.check(LOOKUP, &[0], &[&data]);
    });
    // Every number of operands.
    ctx.each("numbers of operands", ctx.pick(1200, 4200), |index, t| {
        let mut data = vec![0x8d, 5];
        for i in 0..index {
            data.push(0x20 + (i % 200) as u8);
        }
        data.push(6);
        t.check(LOOKUP, &[0], &[&data]);
        data.push(6);
        t.check(LOOKUP, &[0], &[&data]);
    });
    // Sequences of tokens, cut at every byte of the last one.
    let mut tokens: Vec<Vec<u8>> = vec![
        vec![0x8b],
        vec![0xf7, 0x0c],
        vec![0xfb, 0x01],
        vec![0x1c, 0x0c, 0x05],
        vec![0x1d, 0x00, 0x00, 0x0c, 0x1e],
        pack(&[0xe, 1, 0xa, 5]),
        vec![0x05],
        vec![0x0f],
        vec![0x0c, 0x07],
        vec![0x0c, 0x03],
        vec![0x13],
    ];
    let sound = tokens.len();
    tokens.extend([vec![0x0c, 0x0f], vec![0x16], vec![0xff], vec![0x1f], pack(&[0xd])]);
    let base = tokens.len() as u64;
    for length in 1..=ctx.pick(5, 6) {
        ctx.each(&format!("sequences of {length} tokens, cut off"), pow(base, length), |index, t| {
            let mut word = vec![];
            digits(index, base, length, &mut word);
            if word[..length - 1].iter().any(|digit| *digit >= sound) {
                return;
            }
            let mut data = vec![];
            for digit in &word {
                data.extend_from_slice(&tokens[*digit]);
            }
            t.check(LOOKUP, &[0], &[&data]);
            let last = tokens[word[length - 1]].len();
            for cut in 1..last {
                t.check(READ, &[dict, 0, 1], &[&data[..data.len() - cut]]);
            }
            if index == pow(base, length) / 7 {
                ctx.sample(format!("dictionary {}", hex(&data)));
            }
        });
    }
    let deep = ctx.pick(6, 7);
    ctx.each(&format!("sequences of {deep} well-formed tokens"), pow(sound as u64, deep), |index, t| {
        let mut word = vec![];
        digits(index, sound as u64, deep, &mut word);
        let mut data = vec![];
        for digit in &word {
            data.extend_from_slice(&tokens[*digit]);
        }
        t.check(LOOKUP, &[0], &[&data]);
    });
    // All encodings of operands with each operator.
    let numbers = representatives();
    let base = numbers.len();
    ctx.each("operators with pairs of operands", (count * base * base) as u64, |mut index, t| {
        let code = codes[peel(&mut index, count)];
        let mut data = numbers[peel(&mut index, base)].clone();
        data.extend_from_slice(&numbers[peel(&mut index, base)]);
        put(&mut data, code);
        data.extend_from_slice(&[0x8c, 0x00]);
        t.check(LOOKUP, &[0], &[&data]);
    });
    // All byte strings.
    ctx.each("all strings of 3 bytes", 65536, |index, t| {
        t.check(MANY, &[dict, 0, 0], &[&[(index >> 8) as u8, index as u8], &[]]);
    });
    if !ctx.quick() {
        ctx.each("all strings of 4 bytes whose first byte is typical", 20 * 65536, |mut index, t| {
            let firsts = [0u8, 5, 12, 15, 18, 19, 21, 22, 28, 29, 30, 31, 32, 139, 246, 247, 250, 251, 254, 255];
            let first = firsts[peel(&mut index, 20)];
            t.check(MANY, &[dict, 0, 0], &[&[first, (index >> 8) as u8, index as u8], &[]]);
        });
    }
}
