//! C16: character-ID-keyed fonts.

use super::c15::{large, layouts, overlaps, put, typical, GLYPHS};
use super::cff::{GIANT, MANY, READ};
use crate::fontbuild::*;
use crate::model::cff::*;
use crate::run::{digits, hex, peel, pow, Ctx};

pub fn explore(ctx: &Ctx) {
    // All fonts of the catalogue.
    let few = layouts();
    let few = &few[..few.len()];
    ctx.each("all fonts of the catalogue in several layouts", KEYED * few.len() as u64, |mut index, t| {
        let (layout, position) = &few[peel(&mut index, few.len())];
        let mut layout = layout.clone();
        layout.order = layout.order * 7919 + index;
        let spec = around(vec![keyed(index)], index as usize % 9);
        let data = put(t, &spec, &layout, *position);
        if index == 5000 {
            ctx.sample(format!("font set {}", hex(&data)));
        }
    });
    // Mixtures with name-keyed fonts.
    let mut fonts = typical();
    fonts.drain(..5);
    let base = fonts.len() as u64;
    for count in 2..=ctx.pick(4usize, 5) {
        ctx.each(&format!("mixtures of {count} fonts"), pow(base, count) * 2, |mut index, t| {
            let share = peel(&mut index, 2) == 1;
            let mut word = vec![];
            digits(index, base, count, &mut word);
            let spec = around(word.iter().map(|digit| fonts[*digit].clone()).collect(), index as usize % 9);
            put(t, &spec, &Layout { share, order: index * 31, form: 2, ..Default::default() }, (index % 3) as i64);
        });
    }
    // Triples of every length and kind.
    let values = [
        Num::Int(0),
        Num::Int(391),
        Num::Int(65535),
        Num::Int(65536),
        Num::Int(-1),
        Num::Int(i32::MAX),
        Num::Int(i32::MIN),
        Num::Real(1.0),
    ];
    for length in 0..=ctx.pick(4usize, 5) {
        ctx.each(&format!("triples of {length} numbers"), pow(8, length) * 2, |mut index, t| {
            let which = [3, 4][peel(&mut index, 2)];
            let mut word = vec![];
            digits(index, 8, length, &mut word);
            let mut font = fonts[which].clone();
            if let KeySpec::Cid { ros, .. } = &mut font.key {
                *ros = word.iter().map(|digit| values[*digit]).collect();
            }
            let built = build(&around(vec![font], 1), &Layout { form: (index % 3) as u8, ..Default::default() }, &[]);
            t.check(READ, &[Reader::Set.code(), 0, 0], &[&built.data]);
        });
    }
    // Missing entries, alone and in pairs, of each dictionary; and entries of the wrong kind.
    let places: Vec<(Place, u16)> = {
        let mut list: Vec<(Place, u16)> = [ROS, FD_SELECT, FD_ARRAY, CHARSTRINGS, CHARSET, ENCODING, PRIVATE]
            .iter()
            .map(|code| (Place::Top(0), *code))
            .collect();
        for j in 0..3 {
            list.push((Place::Inner(0, j), PRIVATE));
            list.push((Place::Private(0, j), SUBRS));
        }
        list
    };
    let changes = [
        Change::Drop,
        Change::Set(vec![]),
        Change::Set(vec![Num::Real(40.0)]),
        Change::Set(vec![Num::Int(-1)]),
        Change::Set(vec![Num::Int(40), Num::Real(40.0)]),
        Change::Set(vec![Num::Real(1.0), Num::Int(40)]),
        Change::Set(vec![Num::Int(2), Num::Int(-40)]),
        Change::Set(vec![Num::Int(1 << 30), Num::Int(1 << 30)]),
    ];
    let (count, kinds) = (places.len(), changes.len());
    ctx.each(
        "missing and wrong entries, in pairs",
        (fonts.len() * count * kinds * count * kinds) as u64,
        |mut index, t| {
            let font = fonts[peel(&mut index, fonts.len())].clone();
            let mut tweaks = vec![];
            let (a, b) = (peel(&mut index, count), peel(&mut index, kinds));
            let (c, d) = (peel(&mut index, count), index as usize);
            if (c, d) < (a, b) || a == c && b != d {
                return;
            }
            for (i, j) in [(a, b), (c, d)] {
                tweaks.push(Tweak { place: places[i].0, code: places[i].1, change: changes[j].clone() });
            }
            let built = build(&around(vec![font], 2), &Layout::default(), &tweaks);
            t.check(READ, &[Reader::Set.code(), 0, 1], &[&built.data]);
        },
    );
    // The mapping alone: all formats, all small contents, all counts.
    let select = Reader::Select.code();
    ctx.each("all formats of the mapping", 256 * 6, |index, t| {
        let (format, glyphs) = (index as u8, (index >> 8) as i64);
        for data in [&[][..], &[0], &[0, 1, 0, 0, 7, 0, 1], &[0, 2, 0, 0, 1, 0, 3, 2, 0, 5, 9]] {
            let mut bytes = vec![format];
            bytes.extend_from_slice(data);
            for end in 0..=bytes.len() {
                t.check(READ, &[select, glyphs, 1], &[&bytes[..end]]);
            }
        }
    });
    for length in 0..=ctx.pick(7usize, 9) {
        ctx.each(&format!("mappings of {length} bytes"), pow(5, length) * 2, |mut index, t| {
            let format = [0u8, 3][peel(&mut index, 2)];
            let values = [0u8, 1, 2, 3, 255];
            let mut word = vec![];
            digits(index, 5, length, &mut word);
            let mut data = vec![format];
            data.extend(word.iter().map(|digit| values[*digit]));
            for glyphs in 0..5 {
                t.check(READ, &[select, glyphs, 0], &[&data]);
            }
        });
    }
    ctx.each("numbers of glyphs and ranges of the mapping", 2 * 700, |mut index, t| {
        let format = [0u8, 3][peel(&mut index, 2)];
        let count = if index < 600 { index } else { 600 + (index - 600) * 655 } as usize;
        let mut data = vec![format];
        if format == 0 {
            data.extend((0..count).map(|i| (i * 5) as u8));
        } else {
            data.extend_from_slice(&(count as u16).to_be_bytes());
            for i in 0..count {
                data.extend_from_slice(&[(i >> 8) as u8, i as u8, (i * 3) as u8]);
            }
            data.extend_from_slice(&(count as u16).to_be_bytes());
        }
        t.check(READ, &[select, count as i64, 2], &[&data]);
        t.check(READ, &[select, count as i64, 0], &[&data[..data.len() - 1]]);
        data.push(1);
        t.check(READ, &[select, count as i64, 0], &[&data]);
    });
    for count in 1..=ctx.pick(4usize, 5) {
        ctx.each(&format!("mappings of {count} ranges in any order"), pow(6, count) * 4, |mut index, t| {
            let sentinel = [0u16, 3, 256, 0xffff][peel(&mut index, 4)];
            let values = [0u16, 1, 2, 255, 256, 0xffff];
            let mut word = vec![];
            digits(index, 6, count, &mut word);
            let mut data = vec![3, 0, count as u8];
            for (i, digit) in word.iter().enumerate() {
                data.extend_from_slice(&values[*digit].to_be_bytes());
                data.push([9, 0, 0, 255, 1][(i + index as usize) % 5]);
            }
            data.extend_from_slice(&sentinel.to_be_bytes());
            for glyphs in [0, 2, 3, 256, 65535] {
                t.check(READ, &[select, glyphs, 1], &[&data]);
            }
        });
    }
    ctx.each("all short mappings", 2 * 256 * 4, |mut index, t| {
        let format = [0u8, 3][peel(&mut index, 2)];
        let a = peel(&mut index, 256) as u8;
        t.check(MANY, &[select, index as i64, 0], &[&[format, a], &[]]);
        t.check(MANY, &[select, index as i64, 0], &[&[format, 0, 1, a], &[1, 0, 9]]);
    });
    let sizes = [0usize, 1, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 70000, 131072, 200_000];
    ctx.each("sizes of private dictionaries and local subroutines", (sizes.len() * 3 * 4) as u64, |mut index, t| {
        let size = sizes[peel(&mut index, sizes.len())];
        let what = peel(&mut index, 3);
        let mut font = fonts[3 + index as usize].clone();
        large(&mut font, size, what);
        put(t, &around(vec![font], 1), &Layout { order: index * 5, ..Default::default() }, index as i64);
    });
    for which in 0..2 {
        let fonts: Vec<_> = fonts.iter().filter(|font| matches!(&font.key, KeySpec::Cid { dicts, .. } if dicts.len() > which)).cloned().collect();
        overlaps(ctx, &fonts, which);
    }
    ctx.each("very many glyphs", (GLYPHS.len() * 5 * 3) as u64, |mut index, t| {
        let (set, select) = (peel(&mut index, 5) as i64, peel(&mut index, 3) as i64);
        t.check(GIANT, &[2, GLYPHS[index as usize], set, select, set], &[]);
    });
    let counts: &[i64] = ctx.pick(&[1000, 32768], &[1000, 4096, 32767, 32768, 65535]);
    ctx.each("very many font dictionaries", counts.len() as u64 * 3, |mut index, t| {
        let select = peel(&mut index, 3) as i64;
        t.check(GIANT, &[3, counts[index as usize], 0, select, 0], &[]);
    });
    // Font dictionaries that share their private dictionaries, or just have equal ones, in every pattern.
    for count in 2..=ctx.pick(6usize, 8) {
        ctx.each(&format!("{count} font dictionaries that share private dictionaries"), pow(3, count) * 4, |mut index, t| {
            let (share, equal) = (peel(&mut index, 2) == 1, peel(&mut index, 2) == 1);
            let mut word = vec![];
            digits(index, 3, count, &mut word);
            let mut font = fonts[4].clone();
            if let KeySpec::Cid { dicts, select, .. } = &mut font.key {
                *dicts = word
                    .iter()
                    .enumerate()
                    .map(|(j, digit)| {
                        // Of equal length, with and without local subroutines.
                        let mut spec = private([1, 1, 0][*digit], [2, 3, 0][*digit]);
                        if equal && *digit < 2 {
                            spec.entries = vec![(20, vec![Num::Int(*digit as i32)])];
                            spec.subrs = Some(vec![vec![0x8b + *digit as u8, 0x0b]]);
                        }
                        (if j % 2 == 0 { vec![] } else { vec![(0x0c26, vec![Num::Int(391 + j as i32)])] }, spec)
                    })
                    .collect();
                *select = Select::Format0(vec![count as u8 - 1; font.glyphs.len()]);
            }
            let layout = Layout { share, order: index * 3, ..Default::default() };
            put(t, &around(vec![font], 5), &layout, (index % 2) as i64 * 11);
        });
    }
    // Any number of font dictionaries.
    ctx.each("numbers of font dictionaries", 260, |index, t| {
        let mut font = fonts[4].clone();
        if let KeySpec::Cid { dicts, select, .. } = &mut font.key {
            let all: Vec<_> = (0..index as usize)
                .map(|j| (vec![(0x0c26, vec![Num::Int(391 + j as i32)])], private(j % 3, j % 4)))
                .collect();
            *dicts = all;
            *select = Select::Format0(vec![0; font.glyphs.len()]);
        }
        put(t, &around(vec![font], 5), &Layout { share: index % 2 == 1, ..Default::default() }, 0);
    });
}
