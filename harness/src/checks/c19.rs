//! C19: readers compose.

use super::c08::{pack, representatives};
use super::cff::{AMID, FAR, SEQUENCE};
use crate::model::cff::*;
use crate::run::{digits, pow, Ctx};

/// Structures of every kind: reader, parameter, bytes.
pub fn structures() -> Vec<(Reader, i64, Vec<u8>)> {
    let mut list = vec![
        (Reader::Header, 0, vec![1, 0, 4, 1]),
        (Reader::Header, 0, vec![1, 2, 9, 4]),
        (Reader::Offset, 1, vec![0x1c]),
        (Reader::Offset, 2, vec![0x1c, 0]),
        (Reader::Offset, 3, vec![1, 0x1e, 2]),
        (Reader::Offset, 4, vec![0xff, 0, 0xff, 0xff]),
        (Reader::Index, 0, vec![0, 0]),
        (Reader::Index, 0, vec![0, 1, 1, 1, 1]),
        (Reader::Index, 0, vec![0, 2, 1, 1, 3, 4, 0, 3, 9]),
        (Reader::Index, 0, vec![0, 1, 4, 0, 0, 0, 1, 0, 0, 0, 3, 0, 1]),
        (Reader::Names, 0, vec![0, 0]),
        (Reader::Names, 0, vec![0, 2, 2, 0, 1, 0, 2, 0, 4, 0x41, 0x42, 0xc3]),
        (Reader::Dicts, 0, vec![0, 2, 1, 1, 1, 4, 0x8c, 0x8d, 5]),
        (Reader::Dicts, 0, vec![0, 1, 3, 0, 0, 1, 0, 0, 4, 0x1c, 0, 0]),
        (Reader::Strings, 0, vec![0, 0]),
        (Reader::Strings, 0, vec![0, 3, 1, 1, 1, 2, 2, 0]),
        (Reader::Subroutines, 0, vec![0, 1, 1, 1, 2, 11]),
        (Reader::CharStrings, 2, vec![0, 2, 1, 1, 2, 3, 14, 14]),
        (Reader::CharStrings, 2, vec![0, 0]),
        (Reader::Charset, 1, vec![0]),
        (Reader::Charset, 1, vec![1]),
        (Reader::Charset, 1, vec![2]),
        (Reader::Charset, 3, vec![0, 0, 1, 1, 135]),
        (Reader::Charset, 5, vec![1, 0, 1, 0, 0, 9, 2]),
        (Reader::Charset, 300, vec![2, 0, 1, 1, 0x2a]),
        (Reader::Encoding, 0, vec![0, 0]),
        (Reader::Encoding, 0, vec![0, 2, 65, 66]),
        (Reader::Encoding, 0, vec![1, 0]),
        (Reader::Encoding, 0, vec![1, 2, 65, 3, 90, 0]),
        (Reader::Encoding, 0, vec![0x80, 1, 65, 2, 1, 0, 9, 2, 1, 0]),
        (Reader::Encoding, 0, vec![0x81, 1, 65, 1, 1, 66, 1, 1]),
        (Reader::Encoding, 0, vec![0x80, 0, 0]),
        (Reader::Select, 0, vec![0]),
        (Reader::Select, 3, vec![0, 0, 3, 1]),
        (Reader::Select, 4, vec![3, 0, 2, 0, 0, 1, 0, 3, 0, 0, 4]),
        (Reader::Select, 1, vec![3, 0, 1, 0, 0, 0, 0, 1]),
    ];
    list.extend(representatives().into_iter().step_by(2).map(|data| (Reader::Number, 0, data)));
    list.push((Reader::Number, 0, pack(&[1, 2])));
    list
}

pub fn explore(ctx: &Ctx) {
    let list = structures();
    let base = list.len() as u64;
    let positions: &[i64] = &[0, 1, 4, 255, 256, 65535, 65536, 70001];
    ctx.each("every structure at several positions", base * positions.len() as u64, |index, t| {
        let (reader, parameter, data) = &list[(index % base) as usize];
        t.check(SEQUENCE, &[positions[(index / base) as usize], reader.code(), *parameter], &[data]);
    });
    for count in 2..=ctx.pick(3usize, 4) {
        ctx.each(&format!("sequences of {count} structures"), pow(base, count), |index, t| {
            let mut word = vec![];
            digits(index, base, count, &mut word);
            let mut nums = vec![(index % 7) as i64];
            let mut blobs: Vec<&[u8]> = vec![];
            for digit in &word {
                let (reader, parameter, data) = &list[*digit];
                nums.extend_from_slice(&[reader.code(), *parameter]);
                blobs.push(data);
            }
            t.check(SEQUENCE, &nums, &blobs);
            if index == base * 10 {
                ctx.sample(format!("sequence of structures {word:?} at {}", nums[0]));
            }
        });
    }
    let bases = [(1i64 << 31) - 3, (1 << 31) + 1, (1 << 32) - 1, (1 << 32) - 2, (1 << 32) + 7, 1 << 48, 1 << 62];
    ctx.each("every structure far from the beginning of a stream", base * bases.len() as u64, |index, t| {
        let (reader, parameter, data) = &list[(index % base) as usize];
        let position = bases[(index / base) as usize];
        t.check(FAR, &[reader.code(), *parameter, position, 1 << 40, 0], &[data]);
    });
    // Whatever surrounds a structure.
    ctx.each("every structure amid all bytes", base * 256, |index, t| {
        let (reader, parameter, data) = &list[(index % base) as usize];
        t.check(AMID, &[reader.code(), *parameter, (index / base) as i64], &[data]);
    });
    // Every structure many times over.
    ctx.each("long rows", base * base, |index, t| {
        let (a, b) = (&list[(index % base) as usize], &list[(index / base) as usize]);
        let mut nums = vec![3];
        let mut blobs: Vec<&[u8]> = vec![];
        for i in 0..40 {
            let one = if i % 3 == 2 { b } else { a };
            nums.extend_from_slice(&[one.0.code(), one.1]);
            blobs.push(&one.2);
        }
        t.check(SEQUENCE, &nums, &blobs);
    });
}
