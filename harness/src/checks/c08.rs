//! C08: dictionary numbers.

use postscript::compact1 as ps;
use postscript::tape::Read;

use super::cff::{self, MANY, READ, SEQUENCE};
use crate::model::cff::*;
use crate::run::{digits, hex, peel, pow, Ctx, Print, Stats};

/// Four-byte integers with a given upper half.
const LONG: u32 = 30;

pub fn exec(kind: u32, nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    if kind != LONG {
        return cff::exec(kind, nums, blobs, stats);
    }
    let high = (nums[0] as u32) << 16;
    let one = |low: u32| -> Result<(), String> {
        let raw = high | low;
        let mut data = [29, 0, 0, 0, 0];
        data[1..].copy_from_slice(&raw.to_be_bytes());
        let mut tape = std::io::Cursor::new(&data[..]);
        match tape.take::<ps::Number>() {
            Ok(ps::Number::Integer(value)) if value == raw as i32 && tape.position() == 5 => Ok(()),
            other => Err(format!("{}: expected {}, got {other:?}", hex(&data), raw as i32)),
        }
    };
    if nums[1] == 1 {
        for low in 0..=0xffff {
            one(low)?;
        }
        stats.bulk += 65536;
    } else {
        for low in (0..=0xff).chain((0..=0xff).map(|byte| byte << 8 | byte)).chain(0xff00..=0xffff) {
            one(low)?;
        }
        stats.bulk += 768;
    }
    stats.state(Print::new().add(high as u64));
    stats.outcome(Print::new().add(high as u64));
    stats.transitions += 1;
    Ok(())
}

/// Pack nibbles behind the leading byte, with the terminator.
pub fn pack(nibbles: &[u8]) -> Vec<u8> {
    let mut all = nibbles.to_vec();
    all.push(15);
    if all.len() % 2 == 1 {
        all.push(15);
    }
    let mut data = vec![30];
    data.extend(all.chunks(2).map(|pair| pair[0] << 4 | pair[1]));
    data
}

/// The decimal digits of `mantissa * 2^exponent` and the power of ten of the last one.
fn expand(mantissa: u64, exponent: i64) -> (Vec<u8>, i64) {
    let mut list: Vec<u8> = mantissa.to_string().bytes().rev().map(|byte| byte - b'0').collect();
    let times = |list: &mut Vec<u8>, by: u8| {
        let mut carry = 0;
        for digit in list.iter_mut() {
            let value = *digit * by + carry;
            *digit = value % 10;
            carry = value / 10;
        }
        if carry > 0 {
            list.push(carry);
        }
    };
    for _ in 0..exponent.max(0) {
        times(&mut list, 2);
    }
    // Dividing by two is multiplying by five with one more digit behind the point.
    for _ in 0..(-exponent).max(0) {
        times(&mut list, 5);
    }
    list.reverse();
    (list, exponent.min(0))
}

/// Spell digits with a scale in one of several ways.
fn spell(list: &[u8], scale: i64, way: usize) -> Vec<u8> {
    let mut nibbles = vec![];
    let exponent = |nibbles: &mut Vec<u8>, value: i64| {
        if value != 0 {
            nibbles.push(if value < 0 { 0xc } else { 0xb });
            nibbles.extend(value.abs().to_string().bytes().map(|byte| byte - b'0'));
        }
    };
    match way {
        // digits E scale
        0 => {
            nibbles.extend_from_slice(list);
            exponent(&mut nibbles, scale);
        }
        // d.ddd E scale
        1 => {
            nibbles.push(list[0]);
            nibbles.push(0xa);
            nibbles.extend_from_slice(&list[1..]);
            exponent(&mut nibbles, scale + list.len() as i64 - 1);
        }
        // .ddd E scale, negative
        2 => {
            nibbles.extend_from_slice(&[0xe, 0xa]);
            nibbles.extend_from_slice(list);
            exponent(&mut nibbles, scale + list.len() as i64);
        }
        // positional
        _ => {
            let point = list.len() as i64 + scale;
            if point <= 0 {
                nibbles.extend_from_slice(&[0, 0xa]);
                nibbles.extend((point..0).map(|_| 0));
                nibbles.extend_from_slice(list);
            } else {
                for i in 0..point.max(list.len() as i64) {
                    if i == point {
                        nibbles.push(0xa);
                    }
                    nibbles.push(*list.get(i as usize).unwrap_or(&0));
                }
            }
        }
    }
    nibbles
}

pub fn representatives() -> Vec<Vec<u8>> {
    let mut list: Vec<Vec<u8>> = vec![
        vec![0x8b],
        vec![0x20],
        vec![0xf6],
        vec![0xf7, 0x00],
        vec![0xfa, 0xff],
        vec![0xfb, 0x00],
        vec![0xfe, 0xff],
        vec![0x1c, 0x00, 0x00],
        vec![0x1c, 0x80, 0x00],
        vec![0x1c, 0x7f, 0xff],
        vec![0x1d, 0x80, 0x00, 0x00, 0x00],
        vec![0x1d, 0x7f, 0xff, 0xff, 0xff],
        vec![0x1d, 0x1e, 0x1d, 0x1c, 0x0c],
    ];
    for text in [&[0u8][..], &[1, 0xa, 5], &[0xe, 2, 0xa, 2, 5], &[0xa, 1, 4, 0, 5, 4, 1, 0xc, 3], &[5, 0xb, 2]] {
        list.push(pack(text));
    }
    list
}

pub fn explore(ctx: &Ctx) {
    let number = Reader::Number.code();
    // Every leading byte with every continuation of up to two bytes, and cut off.
    ctx.each("complete 1-, 2- and 3-byte domains", 65536, |index, t| {
        let (b0, b1) = ((index >> 8) as u8, index as u8);
        for position in [0, 3] {
            if b1 == 0 {
                t.check(READ, &[number, 0, position], &[&[b0]]);
            }
            t.check(READ, &[number, 0, position], &[&[b0, b1]]);
            if b0 == 28 || b0 == 29 || b0 == 30 {
                t.check(MANY, &[number, 0, position], &[&[b0, b1], &[]]);
                t.check(MANY, &[number, 0, position], &[&[b0, b1], &[0x8c]]);
            } else {
                t.check(READ, &[number, 0, position], &[&[b0, b1, 0x21, 0x7f]]);
            }
        }
    });
    ctx.each("4-byte integers by upper half", 65536, |index, t| {
        t.check(LONG, &[index as i64, 1], &[]);
    });
    ctx.sample("complete domain of 28 b1 b2; 29 with every upper half".to_string());
    // Every string of nibbles other than the terminator.
    for length in 0..=ctx.pick(6, 8) {
        ctx.each(&format!("all strings of {length} nibbles"), pow(15, length), |index, t| {
            let mut word = vec![];
            digits(index, 15, length, &mut word);
            let nibbles: Vec<u8> = word.iter().map(|digit| *digit as u8).collect();
            let data = pack(&nibbles);
            t.check(READ, &[number, 0, 0], &[&data]);
            if index % 100_003 == 0 {
                ctx.sample(format!("real {}", hex(&data)));
            }
        });
    }
    // Longer strings over representatives of each class of nibbles.
    let classes = [0u8, 1, 9, 0xa, 0xb, 0xc, 0xe];
    for length in 7..=ctx.pick(8, 10) {
        ctx.each(&format!("strings of {length} nibbles over {classes:x?}"), pow(7, length), |index, t| {
            let mut word = vec![];
            digits(index, 7, length, &mut word);
            let nibbles: Vec<u8> = word.iter().map(|digit| classes[*digit]).collect();
            t.check(READ, &[number, 0, 0], &[&pack(&nibbles)]);
        });
    }
    // Every exponent there is.
    let mantissas: [&[u8]; 9] = [
        &[0], &[1], &[9, 9], &[0, 0xa, 0], &[1, 0xa, 5], &[0xa, 0, 0, 1], &[0xe, 7],
        &[3, 4, 0, 2, 8, 2, 3, 4, 6, 6], &[1, 4, 0, 1, 2, 9, 8, 4, 6, 4],
    ];
    ctx.each("mantissas with every exponent up to 999", 9 * 2 * 1111, |mut index, t| {
        let mantissa = mantissas[peel(&mut index, 9)];
        let sign = [0xbu8, 0xc][peel(&mut index, 2)];
        let mut nibbles = mantissa.to_vec();
        nibbles.push(sign);
        // 1, 2 and 3 digits, with leading zeros, and 4 and more.
        let text = match index {
            0..=9 => format!("{index}"),
            10..=109 => format!("{:02}", index - 10),
            110..=1109 => format!("{:03}", index - 110),
            _ => "99999999999999999999".to_string(),
        };
        nibbles.extend(text.bytes().map(|byte| byte - b'0'));
        t.check(READ, &[number, 0, 0], &[&pack(&nibbles)]);
    });
    // Many zeros made up for by the exponent.
    ctx.each("many zeros and large exponents", 1060 * 4 * 3, |mut index, t| {
        let way = peel(&mut index, 4);
        let digit = [1u8, 7, 9][peel(&mut index, 3)];
        let zeros = match index {
            0..=1023 => index,
            _ => 1024 + (index - 1024) * 100,
        } as usize;
        let mut nibbles = vec![];
        let (sign, exponent) = match way {
            // 0.00...d e+n, .00...d e+n, d00... e-n, -d00...00.0 e-n
            0 => {
                nibbles.extend([0, 0xa]);
                nibbles.extend(vec![0; zeros]);
                nibbles.push(digit);
                (0xb, zeros)
            }
            1 => {
                nibbles.push(0xa);
                nibbles.extend(vec![0; zeros]);
                nibbles.extend([digit, digit]);
                (0xb, zeros + 1)
            }
            2 => {
                nibbles.push(digit);
                nibbles.extend(vec![0; zeros]);
                (0xc, zeros)
            }
            _ => {
                nibbles.extend([0xe, digit]);
                nibbles.extend(vec![0; zeros]);
                nibbles.extend([0xa, 0]);
                (0xc, zeros + 3)
            }
        };
        nibbles.push(sign);
        nibbles.extend(exponent.to_string().bytes().map(|byte| byte - b'0'));
        t.check(READ, &[number, 0, 0], &[&pack(&nibbles)]);
    });
    // Decimals at, just below and just above the middle between neighbouring values.
    let fractions = [0u64, 1, 2, 0x2a_aaaa, 0x3f_ffff, 0x40_0000, 0x7f_fffe, 0x7f_ffff];
    ctx.each("decimals around midpoints", 255 * 8 * 3 * 4, |mut index, t| {
        let way = peel(&mut index, 4);
        let side = peel(&mut index, 3);
        let fraction = fractions[peel(&mut index, 8)];
        let raw = index as i64;
        let (mantissa, exponent) =
            if raw == 0 { (fraction, -149) } else { (fraction | 0x80_0000, raw - 150) };
        let (mut list, mut scale) = expand(2 * mantissa + 1, exponent - 1);
        match side {
            0 => {}
            1 => {
                list.push(1);
                scale -= 1;
            }
            _ => {
                // The last digit is not zero, as the number is odd, or there is no fraction.
                let mut at = list.len() - 1;
                while list[at] == 0 {
                    list[at] = 9;
                    at -= 1;
                }
                list[at] -= 1;
            }
        }
        t.check(READ, &[number, 0, 0], &[&pack(&spell(&list, scale, way))]);
    });
    ctx.sample("decimals at, below and above each of 2040 midpoints in four spellings".to_string());
    // Numbers behind each other, each consuming exactly its own bytes, and cut off.
    let list = representatives();
    let base = list.len() as u64;
    for count in 1..=ctx.pick(4, 5) {
        ctx.each(&format!("sequences of {count} numbers"), pow(base, count), |index, t| {
            let mut word = vec![];
            digits(index, base, count, &mut word);
            let blobs: Vec<&[u8]> = word.iter().map(|digit| &list[*digit][..]).collect();
            let mut nums = vec![(index % 5) as i64];
            for _ in 0..count {
                nums.extend_from_slice(&[number, 0]);
            }
            t.check(SEQUENCE, &nums, &blobs);
        });
    }
    ctx.each("numbers cut off", base, |index, t| {
        let data = &list[index as usize];
        for cut in 0..data.len() {
            t.check(READ, &[number, 0, 0], &[&data[..cut]]);
        }
    });
}
