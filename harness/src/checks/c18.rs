//! C18: streams that deliver in pieces, are interrupted, or fail.

use super::c15::{layouts, typical};
use super::c17::bases;
use super::c19::structures;
use super::cff::{AGAIN, BETWEEN, DEVIATE, FAULT, HISTORY, KINDS, NESTED, PARALLEL, SHORT};
use crate::fontbuild::*;
use crate::model::cff::*;
use crate::run::{digits, hex, pow, Ctx};

/// Structures and font sets, well-formed.
pub fn subjects() -> Vec<(Reader, i64, Vec<u8>)> {
    let mut list = structures();
    // Dictionaries delimit themselves by the end of the data.
    for data in [
        &[0x8c, 0x00][..],
        &[],
        &[0x1c, 1, 2, 0x1d, 0, 0, 0, 9, 0x0c, 7, 0x8c, 0x8d, 0x12],
        &[0x1e, 0x0a, 0x14, 0x05, 0x41, 0xc3, 0xff, 0x0c, 0x09, 0xf7, 0x10, 0x05],
    ] {
        list.push((Reader::Dict, 0, data.to_vec()));
    }
    // Larger ones.
    let mut data = vec![];
    for (i, (code, _)) in super::cff::operators().iter().enumerate() {
        data.extend_from_slice(&[0x1c, 1, i as u8, 0x8c]);
        if *code > 255 {
            data.push(12);
        }
        data.push(*code as u8);
    }
    list.push((Reader::Dict, 0, data));
    let mut data = vec![0];
    data.extend((0..260 * 2).map(|i| (i % 119) as u8));
    list.push((Reader::Charset, 261, data));
    let mut data = vec![1];
    data.extend((0..130).flat_map(|i| [1, i, 1]));
    list.push((Reader::Charset, 261, data));
    let mut data = vec![0x80, 255];
    data.extend(0..255);
    data.push(255);
    data.extend((0..255u8).flat_map(|i| [i, 1, i]));
    list.push((Reader::Encoding, 0, data));
    let mut data = vec![3, 1, 4];
    data.extend((0..260u16).flat_map(|i| [(i >> 8) as u8, i as u8, 3]));
    data.extend_from_slice(&[1, 4]);
    list.push((Reader::Select, 260, data));
    list.push((Reader::Select, 300, vec![0; 301]));
    let mut data = vec![0x1e];
    data.extend([0x12; 40]);
    data.push(0x3f);
    list.push((Reader::Number, 0, data));
    for (i, font) in typical().iter().enumerate() {
        let layout = &layouts()[i % 6].0;
        let data = build(&around(vec![font.clone()], i), layout, &[]).data;
        list.push((Reader::Set, 0, data.clone()));
        if i < 3 {
            list.push((Reader::Count, 0, data));
        }
    }
    for data in bases().into_iter().skip(16) {
        list.push((Reader::Set, 0, data));
    }
    // A large object takes several reads.
    let mut data = vec![0, 2, 2, 0, 1];
    data.extend_from_slice(&9001u16.to_be_bytes());
    data.extend_from_slice(&9003u16.to_be_bytes());
    data.extend((0..9002).map(|i| (i % 251) as u8));
    list.push((Reader::Index, 0, data));
    list
}

pub fn explore(ctx: &Ctx) {
    let list = subjects();
    let n = list.len() as u64;
    let mut several: Vec<&(Reader, i64, Vec<u8>)> = vec![];
    for subject in &list {
        let most = if matches!(subject.0, Reader::Set | Reader::Count) { 1 } else { ctx.pick(2, 4) };
        if several.iter().filter(|other| other.0 == subject.0).count() < most && subject.2.len() > 2 {
            several.push(subject);
        }
    }
    let m = several.len() as u64;
    // Another thread between any two instructions.
    ctx.each_apart("two readings on two threads, the one after each instruction of the other", n * m, |index, t| {
        let (a, b) = (&list[(index / m) as usize], several[(index % m) as usize]);
        if a.2.len() > ctx.pick(100, 400) && (a.0 != Reader::Set || a.2.len() > 400) {
            return;
        }
        // Reading a font set takes more than ten thousand instructions.
        if ctx.quick() && a.0 == Reader::Set && !matches!(b.0, Reader::Set | Reader::Number) {
            return;
        }
        t.check(BETWEEN, &[a.0.code(), a.1, b.0.code(), b.1], &[&a.2, &b.2]);
    });
    // Every call fails, in every way.
    let kinds = KINDS.len() as u64;
    ctx.each("every call of every reading fails in every way", n * kinds * 2 * 2, |index, t| {
        let (reader, parameter, data) = &list[(index % n) as usize];
        let rest = index / n;
        let (kind, rest) = ((rest % kinds) as usize, rest / kinds);
        if *reader == Reader::Dict && KINDS[kind] == std::io::ErrorKind::UnexpectedEof {
            // For a dictionary this is its end.
            return;
        }
        let (persist, position) = ((rest % 2) as i64, [0, 5][rest as usize / 2]);
        t.check(FAULT, &[reader.code(), *parameter, position, kind as i64, persist], &[data]);
    });
    if let Some((reader, _, data)) = list.get(60) {
        ctx.sample(format!("every call of reading {reader:?} {} fails", hex(data)));
    }
    // Truncated and malformed data over failing streams.
    ctx.each("malformed data over failing streams", n * 3, |index, t| {
        let (reader, parameter, data) = &list[(index % n) as usize];
        if *reader == Reader::Dict || data.len() > 1000 {
            return;
        }
        let kind = [0, 4, 5][(index / n) as usize];
        for end in 0..data.len() {
            t.check(FAULT, &[reader.code(), *parameter, 1, kind, 0], &[&data[..end]]);
        }
    });
    // All patterns of deliveries, repeated; zero stands for an interruption.
    let letters = [0i64, 1, 2, 3, 7, 1 << 30];
    for length in 1..=ctx.pick(5usize, 6) {
        ctx.each(&format!("all patterns of {length} deliveries, repeated"), pow(6, length) * n, |index, t| {
            let (reader, parameter, data) = &list[(index % n) as usize];
            let mut word = vec![];
            digits(index / n, 6, length, &mut word);
            if word.iter().all(|digit| *digit == 0) || ctx.quick() && length > 3 && data.len() > 400 {
                return;
            }
            let mut nums = vec![reader.code(), *parameter, 2];
            nums.extend(word.iter().map(|digit| letters[*digit]));
            t.check(SHORT, &nums, &[data]);
        });
    }
    // One or two or three deliveries deviate, anywhere.
    for count in 1..=3 {
        let letters = [0i64, 1, 2];
        ctx.each(&format!("{count} deliveries deviate, anywhere"), pow(3, count) * n, |index, t| {
            let (reader, parameter, data) = &list[(index % n) as usize];
            if count > 1 && data.len() > if count == 2 { ctx.pick(250, 1000) } else { ctx.pick(60, 120) } {
                return;
            }
            let mut word = vec![];
            digits(index / n, 3, count, &mut word);
            let mut nums = vec![reader.code(), *parameter, 1];
            nums.extend(word.iter().map(|digit| letters[*digit]));
            t.check(DEVIATE, &nums, &[data]);
        });
    }
    // Truncated data, byte by byte.
    ctx.each("truncated data byte by byte", n, |index, t| {
        let (reader, parameter, data) = &list[index as usize];
        if data.len() > 2000 {
            return;
        }
        for end in 0..data.len() {
            t.check(SHORT, &[reader.code(), *parameter, 3, 1], &[&data[..end]]);
            t.check(SHORT, &[reader.code(), *parameter, 3, 0, 2], &[&data[..end]]);
        }
    });
    // The same data again.
    ctx.each("the same data read again", n * 3, |index, t| {
        let (reader, parameter, data) = &list[(index % n) as usize];
        t.check(AGAIN, &[reader.code(), *parameter, (index / n) as i64 * 4], &[data]);
    });
    // Different data before.
    for length in 2..=3 {
        ctx.each(&format!("all histories of {length} readings over the same memory"), n.pow(length), |index, t| {
            let mut word = vec![];
            digits(index, n, length as usize, &mut word);
            if length > 2 && ctx.quick() && word.iter().any(|digit| list[*digit].2.len() > 300) {
                return;
            }
            let mut nums = vec![2];
            let mut blobs: Vec<&[u8]> = vec![];
            for digit in &word {
                nums.extend_from_slice(&[list[*digit].0.code(), list[*digit].1]);
                blobs.push(&list[*digit].2);
            }
            t.check(HISTORY, &nums, &blobs);
        });
    }
    // Another reading in the middle.
    ctx.each("every reading within every call of another", n * n, |index, t| {
        let (a, b) = (&list[(index % n) as usize], &list[(index / n) as usize]);
        if ctx.quick() && (a.2.len() > 300 || b.2.len() > 300) && a.2.len() * b.2.len() > 4000 {
            return;
        }
        t.check(NESTED, &[a.0.code(), a.1, b.0.code(), b.1, 1], &[&a.2, &b.2]);
    });
    ctx.each("two readings on two threads, switching at any of the calls of each", m * m, |index, t| {
        let (a, b) = (several[(index % m) as usize], several[(index / m) as usize]);
        t.check(PARALLEL, &[a.0.code(), a.1, b.0.code(), b.1, ctx.pick(25, 150)], &[&a.2, &b.2]);
    });
    // Malformed data before: cut off, of unknown formats, inconsistent.
    let mut broken: Vec<(Reader, i64, Vec<u8>)> = vec![];
    for (reader, parameter, data) in list.iter().filter(|(_, _, data)| data.len() < 40) {
        for place in 0..data.len() {
            broken.push((*reader, *parameter, data[..place].to_vec()));
            for byte in [0x00, 0x02, 0x0f, 0x1f, 0xff] {
                let mut data = data.clone();
                if data[place] != byte {
                    data[place] = byte;
                    broken.push((*reader, *parameter, data));
                }
            }
        }
    }
    for (_, _, data) in list.iter().filter(|(reader, _, data)| *reader == Reader::Set && data.len() < 400) {
        for place in (0..data.len()).step_by(ctx.pick(7, 1)) {
            let mut data = data.clone();
            broken.push((Reader::Set, 0, data[..place].to_vec()));
            data[place] = data[place].wrapping_add(1);
            broken.push((Reader::Set, 0, data));
        }
    }
    ctx.each("all pairs of malformed and other data over the same memory", n * broken.len() as u64, |index, t| {
        let (a, b) = (&list[(index % n) as usize], &broken[(index / n) as usize]);
        if ctx.quick() && a.2.len() > 300 {
            return;
        }
        let mut nums = vec![1];
        for one in [a, b, a] {
            nums.extend_from_slice(&[one.0.code(), one.1]);
        }
        t.check(HISTORY, &nums, &[&a.2, &b.2, &a.2]);
    });
    if !ctx.quick() {
        let m = broken.len() as u64;
        ctx.each("all pairs of malformed data over the same memory", m * m, |index, t| {
            let (a, b) = (&broken[(index % m) as usize], &broken[(index / m) as usize]);
            if a.2.len() > 100 || b.2.len() > 100 {
                return;
            }
            t.check(HISTORY, &[0, a.0.code(), a.1, b.0.code(), b.1], &[&a.2, &b.2]);
        });
    }
    let few = layouts();
    ctx.each("fonts of the catalogue over streams that deliver in pieces", NAMED + KEYED, |index, t| {
                let font = if index < NAMED { named(index) } else { keyed(index - NAMED) };
        let (layout, position) = &few[(index % 6) as usize];
        let data = build(&around(vec![font], index as usize % 9), layout, &[]).data;
        t.check(SHORT, &[Reader::Set.code(), 0, *position, 1 + (index % 7) as i64, 0, 1], &[&data]);
        t.check(AGAIN, &[Reader::Set.code(), 0, *position], &[&data]);
    });
}
