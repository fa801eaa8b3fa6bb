//! C15: font sets.

use super::cff::{self, FAR, GIANT, READ};
use crate::fontbuild::*;
use crate::model::cff::*;
use crate::run::{digits, hex, peel, pow, Ctx, Stats, T};

pub const SOURCE: &[u8] = include_bytes!("../../fixtures/source.cff");
pub const HIRA: &[u8] = include_bytes!("../../fixtures/hira.cff");

/// The reference has to read what was described.
pub fn verify(built: &Built) {
    let mut cursor = Cursor::new(&built.data, false);
    cursor.hole = built.hole;
    match read(Reader::Set, 0, &mut cursor) {
        Verdict::Is(Value::Set(set), _, _) if set == built.expected => {}
        other => panic!("the builder and the reference disagree: {other:?} {:?}", built.expected),
    }
}

/// Build, have the reference confirm the description, and read.
pub fn put(t: &mut T, spec: &SetSpec, layout: &Layout, position: i64) -> Vec<u8> {
    let built = build(spec, layout, &[]);
    verify(&built);
    t.check(READ, &[Reader::Set.code(), 0, position], &[&built.data]);
    t.check(READ, &[Reader::Count.code(), 0, position], &[&built.data]);
    built.data
}

/// A few layouts that differ in everything.
pub fn layouts() -> Vec<(Layout, i64)> {
    let base = Layout::default();
    vec![
        (base.clone(), 0),
        (Layout { order: 1, gap: 1, form: 1, size: 2, ..base.clone() }, 1),
        (Layout { order: 7, header_size: 5, form: 2, size: 3, share: true, ..base.clone() }, 0),
        (Layout { order: 23, header_size: 64, gap: 3, size: 4, reverse: true, ..base.clone() }, 17),
        (Layout { order: 59, header_size: 255, form: 1, share: true, reverse: true, ..base.clone() }, 256),
        (Layout { order: 119, header_size: 4, gap: 130, form: 0, size: 1, ..base }, 1000),
    ]
}

/// Typical fonts of both kinds.
pub fn typical() -> Vec<FontSpec> {
    let named = |glyphs_: usize, charset_: usize, encoding_: usize, private_: usize, subrs: usize, extra_: usize| {
        let list = glyphs(glyphs_);
        FontSpec {
            charset: charset(charset_, list.len()),
            encoding: encoding(encoding_, list.len()),
            key: KeySpec::Name(private(private_, subrs)),
            extra: extra(extra_),
            glyphs: list,
        }
    };
    let mut list = vec![
        named(0, 0, 0, 0, 0, 0),
        named(1, 4, 4, 1, 2, 1),
        named(2, 5, 7, 2, 3, 2),
        named(3, 7, 8, 1, 1, 3),
        named(1, 3, 2, 1, 3, 0),
        named(3, 8, 6, 0, 2, 0),
        named(2, 6, 3, 2, 0, 3),
        named(3, 2, 5, 2, 2, 1),
    ];
    // Character-ID-keyed: from the catalogue.
    for index in [0, 5, 4 * 4 + 2, 12345, 20001, 24575, 17003, 9006] {
        list.push(keyed(index));
    }
    list
}

/// Make something about each private dictionary of a font large.
pub fn large(font: &mut FontSpec, size: usize, what: usize) {
    let change = |spec: &mut PrivateSpec| match what {
        // Operands of one byte each.
        0 => spec.entries = vec![(6, vec![Num::Int(7); size])],
        1 => spec.subrs = Some(vec![vec![0x0b]; size.min(65535)]),
        _ => spec.subrs = Some(vec![vec![0x8b; size], vec![0x0b]]),
    };
    match &mut font.key {
        KeySpec::Name(spec) => change(spec),
        KeySpec::Cid { dicts, .. } => dicts.iter_mut().for_each(|pair| change(&mut pair.1)),
    }
}

/// Very many fonts, glyphs, or font dictionaries. nums: what there are many of, how many, the form
/// of the character set, the form of the mapping, and the position.
pub fn giant(nums: &[i64], stats: &mut Stats) -> Result<(), String> {
    let (what, count, set, select) = (nums[0], nums[1] as usize, nums[2], nums[3]);
    let mut spec = match what {
        0 => around(vec![typical()[0].clone(); count], 0),
        1 => around(vec![typical()[1].clone()], 1),
        _ => around(vec![keyed(12345)], 1),
    };
    if what == 0 {
        spec.names.iter_mut().for_each(|name| name.truncate(1));
    } else {
        let font = &mut spec.fonts[0];
        if what < 3 {
            font.glyphs = (0..count).map(|i| vec![14; 1 + i % 2]).collect();
        }
        let (glyphs, rest) = (font.glyphs.len(), font.glyphs.len() - 1);
        let ranges = |size: usize| (0..rest.div_ceil(size)).map(move |i| (i * size, (rest - i * size).min(size)));
        font.charset = match set {
            0 => CharsetSpec::Absent,
            1 => CharsetSpec::Custom(Charset::Format0((0..rest).map(|i| (i as u16).wrapping_mul(3)).collect())),
            2 => CharsetSpec::Custom(Charset::Format1(ranges(256).map(|(i, n)| (i as u16, (n - 1) as u8)).collect())),
            3 => CharsetSpec::Custom(Charset::Format2(ranges(65536).map(|(i, n)| (i as u16, (n - 1) as u16)).collect())),
            _ => CharsetSpec::Custom(Charset::Format2(ranges(1).map(|(i, n)| (i as u16, (n - 1) as u16)).collect())),
        };
        font.encoding = EncodingSpec::Absent;
        if let KeySpec::Cid { select: mapping, dicts, .. } = &mut font.key {
            if what == 3 {
                *dicts = (0..count).map(|_| (vec![], private(0, 0))).collect();
            }
            *mapping = match select {
                0 => Select::Format0((0..glyphs).map(|i| (i % 251) as u8).collect()),
                1 => Select::Format3(vec![(0, 0)], glyphs as u16),
                _ => Select::Format3((0..glyphs).map(|i| (i as u16, (i % 7) as u8)).collect(), glyphs as u16),
            };
        }
    }
    let built = build(&spec, &Layout { share: what == 0 || what == 3, form: 2, ..Default::default() }, &[]);
    verify(&built);
    cff::exec(READ, &[Reader::Set.code(), 0, nums[4]], &[&built.data], stats)?;
    cff::exec(READ, &[Reader::Count.code(), 0, nums[4]], &[&built.data], stats)
}

/// Local subroutines at every small distance from the beginning of the private dictionary they
/// belong to, which may be an index as well.
pub fn overlaps(ctx: &Ctx, fonts: &[FontSpec], which: usize) {
    let prefixes: [&[u16]; 4] = [&[], &[0, 1, 1, 1, 2], &[0, 1, 1, 1, 1], &[0, 0]];
    ctx.each("small distances of local subroutines", (fonts.len() * 4 * 2 * 3 * 240) as u64, |mut index, t| {
        let mut font = fonts[peel(&mut index, fonts.len())].clone();
        let prefix = prefixes[peel(&mut index, 4)];
        let form = peel(&mut index, 2) as u8 * 2;
        let gap = peel(&mut index, 3);
        let distance = index as i32 - 120;
        let change = |spec: &mut PrivateSpec| {
            spec.entries = prefix.iter().map(|code| (*code, vec![])).collect();
            spec.entries.push((SUBRS, vec![Num::Int(distance)]));
            spec.subrs = None;
        };
        match &mut font.key {
            KeySpec::Name(spec) => change(spec),
            KeySpec::Cid { dicts, .. } => change(&mut dicts[which].1),
        }
        let built = build(&around(vec![font], 8), &Layout { form, gap, order: index, ..Default::default() }, &[]);
        t.check(READ, &[Reader::Set.code(), 0, index as i64 % 3], &[&built.data]);
        // The same with more than any offset reaches behind it.
        t.check(FAR, &[Reader::Set.code(), 0, 5, built.data.len() as i64, 1 << 40], &[&built.data]);
    });
}

pub fn exec(kind: u32, nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    if kind == FIXTURE {
        let data = [SOURCE, HIRA][nums[0] as usize];
        return cff::exec(READ, &[nums[1], 0, nums[2]], &[data], stats);
    }
    cff::exec(kind, nums, blobs, stats)
}

/// Numbers of glyphs around all limits.
pub const GLYPHS: [i64; 17] =
    [228, 229, 230, 254, 255, 256, 257, 511, 512, 1000, 4096, 32767, 32768, 32769, 65533, 65534, 65535];

/// A font of the tests of the project; nums: which, reader, position.
const FIXTURE: u32 = 30;

pub fn explore(ctx: &Ctx) {
    ctx.each("two real fonts at several positions", 2 * 2 * 6, |mut index, t| {
        let which = peel(&mut index, 2) as i64;
        let reader = [Reader::Set, Reader::Count][peel(&mut index, 2)].code();
        t.check(FIXTURE, &[which, reader, [0, 1, 7, 17732, 65536, 100_000][index as usize]], &[]);
    });
    // All name-keyed fonts of the catalogue.
    let few = layouts();
    let few = &few[..ctx.pick(few.len(), few.len())];
    ctx.each("all name-keyed fonts in several layouts", NAMED * few.len() as u64, |mut index, t| {
        let (layout, position) = &few[peel(&mut index, few.len())];
        let spec = around(vec![named(index)], index as usize % 9);
        let data = put(t, &spec, layout, *position);
        if index == 5000 {
            ctx.sample(format!("font set {}", hex(&data)));
        }
    });
    // All layouts of some fonts.
    let fonts = typical();
    let most = ctx.pick(6, 8);
    for (number, font) in fonts.iter().enumerate() {
        let spec = around(vec![font.clone()], number);
        let count = blocks(&spec).len();
        if count > most {
            continue;
        }
        let orders: u64 = (1..=count as u64).product();
        let mut headers = vec![4u8, 5, 40, 255];
        if !ctx.quick() {
            headers.extend([6, 7, 128, 200]);
        }
        let gaps = [0usize, 1, 200];
        let total = orders * (headers.len() * 3 * 3 * 4 * 2 * 2) as u64;
        // With more than five blocks, all orders but not all of the rest together.
        let step = if orders > 120 { ctx.pick(7, 1) } else { 1 };
        ctx.each(&format!("typical font {number}: all layouts of {count} blocks, every {step}th"), total / step, |index, t| {
            let mut index = index * step;
            let layout = Layout {
                order: peel(&mut index, orders as usize) as u64,
                header_size: headers[peel(&mut index, headers.len())],
                gap: gaps[peel(&mut index, 3)],
                form: peel(&mut index, 3) as u8,
                size: peel(&mut index, 4) as u8 + 1,
                share: peel(&mut index, 2) == 1,
                reverse: peel(&mut index, 2) == 1,
                ..Default::default()
            };
            put(t, &spec, &layout, (layout.order % 5) as i64 * 3);
        });
    }
    // Streams and font sets larger than any memory: the set begins far from the beginning of the
    // stream, and its parts lie far from each other.
    let bases = [0i64, 5, (1 << 31) - 40, (1 << 32) - 60, (1 << 32) + 1, 1 << 40, 1 << 62];
    let holes = [0u64, 100, 0xff80, 0xff_ff80, 0x7ff0_0000];
    for (number, font) in fonts.iter().enumerate() {
        let spec = around(vec![font.clone()], number);
        let count = blocks(&spec).len().min(9);
        let orders = ctx.pick(24, 120u64);
        let total = orders * (count * holes.len() * bases.len() * 2) as u64;
        ctx.each(&format!("typical font {number}: far away and far apart"), total, |mut index, t| {
            let layout = Layout {
                order: peel(&mut index, orders as usize) as u64 * 7,
                hole: (peel(&mut index, count), holes[peel(&mut index, holes.len())]),
                form: peel(&mut index, 2) as u8,
                ..Default::default()
            };
            let base = bases[index as usize];
            let built = build(&spec, &layout, &[]);
            verify(&built);
            let hole = (built.hole.0.min(1 << 40) as i64, built.hole.1 as i64);
            for reader in [Reader::Set, Reader::Count] {
                t.check(FAR, &[reader.code(), 0, base, hole.0, hole.1], &[&built.data]);
            }
        });
    }
    ctx.each("two fonts: far away and far apart", 16 * 16 * 3 * 4, |mut index, t| {
        let (a, b) = (peel(&mut index, fonts.len()), peel(&mut index, fonts.len()));
        let spec = around(vec![fonts[a].clone(), fonts[b].clone()], a);
        let place = peel(&mut index, 3) * blocks(&spec).len() / 3;
        let layout = Layout { hole: (place, 0x7ff0_0000), order: (a * 31 + b) as u64, share: b % 2 == 0, ..Default::default() };
        let built = build(&spec, &layout, &[]);
        verify(&built);
        let hole = (built.hole.0.min(1 << 40) as i64, built.hole.1 as i64);
        t.check(FAR, &[Reader::Set.code(), 0, bases[index as usize + 2], hole.0, hole.1], &[&built.data]);
    });
    // Every header size there is.
    ctx.each("all header sizes", 252 * 4, |mut index, t| {
        let font = fonts[[1, 2, 9, 11][peel(&mut index, 4)]].clone();
        let layout = Layout { header_size: index as u8 + 4, order: index, ..Default::default() };
        put(t, &around(vec![font], index as usize), &layout, (index % 3) as i64);
    });
    // Sets of several fonts.
    let base = fonts.len() as u64;
    for count in 2..=ctx.pick(3usize, 4) {
        let few = layouts();
        let few = &few[..ctx.pick(if count == 2 { 6 } else { 3 }, if count == 4 { 2 } else { 6 })];
        ctx.each(
            &format!("sets of {count} fonts, in several layouts"),
            pow(base, count) * few.len() as u64 * 2,
            |mut index, t| {
                let (layout, position) = &few[peel(&mut index, few.len())];
                let mut layout = layout.clone();
                layout.share = peel(&mut index, 2) == 1;
                layout.order = layout.order.wrapping_mul(0x9e37_79b9_7f4a) ^ index;
                let mut word = vec![];
                digits(index, base, count, &mut word);
                let spec = around(word.iter().map(|digit| fonts[*digit].clone()).collect(), index as usize % 9);
                put(t, &spec, &layout, *position);
            },
        );
    }
    // Fonts that share each of their parts with some of the others, in every pattern.
    for count in 2..=ctx.pick(4usize, 5) {
        let (base, parts) = ctx.pick([(3, 4), (3, 3), (2, 4)][count.min(4) - 2], [(3, 4), (3, 4), (3, 3), (2, 4)][count - 2]);
        ctx.each(&format!("sets of {count} fonts that share {parts} parts"), pow(base, parts * count), |index, t| {
            let mut word = vec![];
            digits(index, base, parts * count, &mut word);
            let list = word
                .chunks(parts)
                .map(|word| {
                    let list = glyphs([2, 1, 3][word[0]]);
                    let count = list.len();
                    let (charset, encoding) = (charset([4, 5, 6][word[1]], count), encoding([4, 5, 6][word[2]], count));
                    let which = word.get(3).copied().unwrap_or(word[1]);
                    let key = KeySpec::Name(private([1, 2, 1][which], [2, 3, 0][which]));
                    FontSpec { glyphs: list, charset, encoding, key, extra: vec![] }
                })
                .collect();
            put(t, &around(list, 0), &Layout { share: true, order: index, ..Default::default() }, 0);
        });
    }
    // Sets of any number of fonts.
    ctx.each("sets of up to 600 fonts", 2 * 40, |mut index, t| {
        let share = peel(&mut index, 2) == 1;
        let count = if index < 32 { index as usize } else { [63, 64, 127, 128, 254, 255, 256, 600][index as usize - 32] };
        let spec = around((0..count).map(|i| fonts[(i * 7 + count) % fonts.len()].clone()).collect(), count % 9);
        let layout = Layout { share, form: (count % 3) as u8, ..Default::default() };
        put(t, &spec, &layout, count as i64 % 4);
    });
    // Head indices of any size.
    let sizes = [0usize, 1, 2, 254, 255, 256, 257, 1000, 20000];
    ctx.each("sizes of names, strings and subroutines", 9 * 9 * 9, |mut index, t| {
        let (a, b, c) = (peel(&mut index, 9), peel(&mut index, 9), peel(&mut index, 9));
        let mut spec = around(vec![fonts[2].clone()], 0);
        spec.names = vec![vec![b'n'; sizes[a]]];
        spec.strings = (0..sizes[b]).map(|i| vec![b's'; i % 3]).collect();
        spec.subrs = (0..sizes[c]).map(|i| vec![0x0b; i % 2]).collect();
        put(t, &spec, &Layout { gap: a, ..Default::default() }, b as i64);
    });
    // Large private dictionaries, many local subroutines, and large ones.
    let sizes = [0usize, 1, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 70000, 131072, 200_000];
    ctx.each("sizes of private dictionaries and local subroutines", (sizes.len() * 3 * 2) as u64, |mut index, t| {
        let size = sizes[peel(&mut index, sizes.len())];
        let what = peel(&mut index, 3);
        for mut font in [fonts[1].clone(), fonts[9].clone()] {
            large(&mut font, size, what);
            let layout = Layout { order: index * 5, gap: index as usize, ..Default::default() };
            put(t, &around(vec![font, fonts[2].clone()], 1), &layout, index as i64);
        }
    });
    overlaps(ctx, &[fonts[1].clone(), fonts[2].clone()], 0);
    let counts: &[i64] = ctx.pick(&[1000, 32767, 32768, 65535], &[1000, 4096, 16384, 32767, 32768, 32769, 65534, 65535]);
    ctx.each("very many fonts", counts.len() as u64, |index, t| {
        t.check(GIANT, &[0, counts[index as usize], 0, 0, index as i64], &[]);
    });
    ctx.each("very many glyphs", (GLYPHS.len() * 5) as u64, |mut index, t| {
        let set = peel(&mut index, 5) as i64;
        t.check(GIANT, &[1, GLYPHS[index as usize], set, 0, set], &[]);
    });
    // More names than dictionaries, or fewer.
    ctx.each("numbers of names other than of fonts", 5 * 5 * 2, |mut index, t| {
        let (names, count) = (peel(&mut index, 5), peel(&mut index, 5));
        let mut spec = around((0..count).map(|i| fonts[i + index as usize].clone()).collect(), 4);
        spec.names = vec![b"name".to_vec(); names];
        let built = build(&spec, &Layout::default(), &[]);
        t.check(READ, &[Reader::Set.code(), 0, 0], &[&built.data]);
        t.check(READ, &[Reader::Count.code(), 0, 0], &[&built.data]);
    });
}
