//! C17: malformed data.

use super::c15::{layouts, typical, HIRA, SOURCE};
use super::c19::structures;
use super::cff::{FAR, self, MANY, READ};
use crate::fontbuild::*;
use crate::model::cff::*;
use crate::run::{digits, hex, peel, pow, Ctx, Stats};

/// A font of the tests of the project with some bytes replaced or its end cut off; nums: which,
/// reader, position, length to keep, then places and bytes.
const FIXTURE: u32 = 30;

pub fn exec(kind: u32, nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    if kind == FIXTURE {
        let mut data = [SOURCE, HIRA][nums[0] as usize].to_vec();
        for pair in nums[4..].chunks(2) {
            data[pair[0] as usize] = pair[1] as u8;
        }
        data.truncate(nums[3] as usize);
        stats.bulk += 1;
        // No states in between: there are too many.
        let verdict = read(READERS[nums[1] as usize], 0, &mut Cursor::new(&data, false));
        let mut tape = std::io::Cursor::new(&data[..]);
        let answer = cff::real(READERS[nums[1] as usize], 0, &mut tape);
        stats.transitions += 1;
        let mut print = crate::run::Print::new();
        for num in nums {
            print = print.add(*num as u64);
        }
        stats.state(print);
        return cff::judge(READERS[nums[1] as usize], &verdict, &answer, None);
    }
    cff::each_format(kind, nums, blobs, stats)
}

/// Small sets of both kinds in different layouts.
pub fn bases() -> Vec<Vec<u8>> {
    let fonts = typical();
    let layouts = layouts();
    let mut list = vec![];
    for (i, font) in fonts.iter().enumerate() {
        let mut layout = layouts[i % 3].0.clone();
        layout.header_size = [4, 5, 16][i % 3];
        list.push(build(&around(vec![font.clone()], i), &layout, &[]).data);
    }
    for (a, b) in [(1, 2), (4, 12), (9, 3), (10, 11)] {
        let layout = Layout { share: a == 9, ..Default::default() };
        list.push(build(&around(vec![fonts[a].clone(), fonts[b].clone()], a), &layout, &[]).data);
    }
    list.push(build(&around(vec![], 4), &Layout::default(), &[]).data);
    list
}

/// Places at which offsets and sizes are written, for a font.
fn offsets(font: &FontSpec, i: usize) -> Vec<(Place, u16, usize)> {
    let mut list = vec![(Place::Top(i), CHARSTRINGS, 0)];
    if !matches!(font.charset, CharsetSpec::Absent) {
        list.push((Place::Top(i), CHARSET, 0));
    }
    if !matches!(font.encoding, EncodingSpec::Absent) {
        list.push((Place::Top(i), ENCODING, 0));
    }
    let (place, count): (fn(usize, usize) -> Place, usize) = match &font.key {
        KeySpec::Name(_) => (|i, _| Place::Top(i), 1),
        KeySpec::Cid { dicts, .. } => {
            list.push((Place::Top(i), FD_SELECT, 0));
            list.push((Place::Top(i), FD_ARRAY, 0));
            (Place::Inner, dicts.len())
        }
    };
    for j in 0..count {
        list.push((place(i, j), PRIVATE, 0));
        list.push((place(i, j), PRIVATE, 1));
        list.push((Place::Private(i, j), SUBRS, 0));
    }
    list
}

fn change(operand: usize, value: i32, built: &[(u16, Vec<Num>)], code: u16) -> Change {
    // Replace one operand, keeping the others.
    let mut operands =
        built.iter().find(|entry| entry.0 == code).map(|entry| entry.1.clone()).unwrap_or(vec![Num::Int(0); 2]);
    operands.truncate(if code == PRIVATE { 2 } else { 1 });
    while operands.len() <= operand {
        operands.push(Num::Int(0));
    }
    operands[operand] = Num::Int(value);
    Change::Set(operands)
}

/// The entries of a dictionary as they are without tweaks.
fn entries(set: &Set, place: Place) -> Vec<(u16, Vec<Num>)> {
    let dict = match place {
        Place::Top(i) => &set.tops[i],
        Place::Inner(i, j) => match &set.fonts[i].record {
            Record::Cid { dicts, .. } => &dicts[j],
            _ => return vec![],
        },
        Place::Private(i, j) => match &set.fonts[i].record {
            Record::Name(private) => &private.dict,
            Record::Cid { privates, .. } => &privates[j].dict,
        },
    };
    dict.iter().map(|(code, operands)| (*code, operands.clone())).collect()
}

const EXTREMES: [i32; 26] = [
    i32::MIN,
    i32::MIN + 1,
    -0x4000_0000,
    -0x1_0000,
    -32769,
    -257,
    -256,
    -255,
    -129,
    -17,
    255,
    256,
    257,
    32767,
    32768,
    65535,
    65536,
    1 << 20,
    0xff_ffff,
    1 << 24,
    0x3fff_ffff,
    1 << 30,
    0x7fff_0000,
    0x7fff_ff00,
    i32::MAX - 1,
    i32::MAX,
];

pub fn explore(ctx: &Ctx) {
    let set = Reader::Set.code();
    let count = Reader::Count.code();
    let bases = bases();
    for (number, base) in bases.iter().enumerate() {
        ctx.each(
            &format!("base {number}: every byte of {} replaced by every value, every truncation", base.len()),
            base.len() as u64,
            |index, t| {
                let at = index as usize;
                let position = (index % 2) * 9;
                t.check(MANY, &[set, 0, position as i64], &[&base[..at], &base[at + 1..]]);
                t.check(READ, &[set, 0, position as i64], &[&base[..at]]);
                if at < 16 || !ctx.quick() {
                    t.check(MANY, &[count, 0, position as i64], &[&base[..at], &base[at + 1..]]);
                }
                // A byte inserted, a byte removed.
                let removed = [&base[..at], &base[at + 1..]].concat();
                t.check(READ, &[set, 0, 1], &[&removed]);
                for byte in [0u8, 1, 0x1d, 0x8b, 0xff] {
                    let inserted = [&base[..at], &[byte], &base[at..]].concat();
                    t.check(READ, &[set, 0, 1], &[&inserted]);
                }
            },
        );
    }
    ctx.sample(format!("base 3: font set {}", hex(&bases[3])));
    // Pairs of replacements.
    let values: &[u8] = if ctx.quick() { &[0, 1, 2, 0x7f, 0xff] } else { &[0, 1, 2, 3, 0x0e, 0x12, 0x1d, 0x7f, 0x8b, 0x8c, 0xff] };
    for number in ctx.pick(vec![0usize, 4, 8], (0..bases.len()).collect()) {
        let base = &bases[number];
        let n = base.len() as u64;
        ctx.each(&format!("base {number}: pairs of bytes replaced by {} values each", values.len()), n * n, |index, t| {
            let (a, b) = ((index / n) as usize, (index % n) as usize);
            if a >= b {
                return;
            }
            let mut data = base.clone();
            for x in values {
                for y in values {
                    data[a] = *x;
                    data[b] = *y;
                    t.check(READ, &[set, 0, 4], &[&data]);
                }
            }
        });
    }
    // Every offset and size set to every value around, and to extreme values.
    let fonts = typical();
    for (number, font) in fonts.iter().enumerate() {
        let layout = Layout { form: 2, gap: number % 3, ..Default::default() };
        let spec = around(vec![font.clone()], number);
        let plain = build(&spec, &layout, &[]);
        let places = offsets(font, 0);
        let length = plain.data.len() as u64;
        let total = length + 8 + EXTREMES.len() as u64;
        ctx.each(
            &format!("typical font {number}: every offset and size set to {total} values"),
            places.len() as u64 * total,
            |mut index, t| {
                let (place, code, operand) = places[peel(&mut index, places.len())];
                let value = match index.checked_sub(length + 8) {
                    None => index as i32 - 5,
                    Some(rest) => EXTREMES[rest as usize],
                };
                let change = change(operand, value, &entries(&plain.expected, place), code);
                let built = build(&spec, &layout, &[Tweak { place, code, change }]);
                t.check(READ, &[set, 0, (index % 2) as i64 * 300], &[&built.data]);
                // The same with more than any offset reaches behind it.
                if code != PRIVATE || operand > 0 || value < 1 << 16 {
                    let (base, end) = ([0, 1 << 33][index as usize % 2], built.data.len() as i64);
                    t.check(FAR, &[set, 0, base, end, 1 << 40], &[&built.data]);
                }
            },
        );
        if ctx.quick() && number % 3 != 2 {
            continue;
        }
        // Pairs of extreme values.
        let few = [i32::MIN, -1 << 30, -300, -1, 0, 3, 40, 1 << 30, i32::MAX - 40, i32::MAX];
        ctx.each(
            &format!("typical font {number}: pairs of offsets and sizes set to {} values each", few.len()),
            (places.len() * places.len() * few.len() * few.len()) as u64,
            |mut index, t| {
                let (a, b) = (peel(&mut index, places.len()), peel(&mut index, places.len()));
                let (x, y) = (few[peel(&mut index, few.len())], few[index as usize]);
                if a >= b {
                    return;
                }
                let (first, second) = (places[a], places[b]);
                let tweaks: Vec<Tweak> = if first.0 == second.0 && first.1 == second.1 {
                    vec![Tweak { place: first.0, code: first.1, change: Change::Set(vec![Num::Int(x), Num::Int(y)]) }]
                } else {
                    [(first, x), (second, y)]
                        .iter()
                        .map(|((place, code, operand), value)| Tweak {
                            place: *place,
                            code: *code,
                            change: change(*operand, *value, &entries(&plain.expected, *place), *code),
                        })
                        .collect()
                };
                let built = build(&spec, &layout, &tweaks);
                t.check(READ, &[set, 0, 7], &[&built.data]);
                let large = |place: &(Place, u16, usize), value: i32| place.1 == PRIVATE && place.2 == 0 && value > 1 << 16;
                if !large(&first, x) && !large(&second, y) {
                    t.check(FAR, &[set, 0, 5, built.data.len() as i64, 1 << 40], &[&built.data]);
                }
            },
        );
    }
    // Sizes and offsets of private dictionaries, all pairs.
    for number in [0usize, 1, 4, 8] {
        let font = &fonts[number];
        let layout = Layout { form: 1, ..Default::default() };
        let spec = around(vec![font.clone()], 0);
        let length = build(&spec, &layout, &[]).data.len() as u64 + 3;
        let place = if number < 8 { Place::Top(0) } else { Place::Inner(0, 0) };
        let most = length.min(ctx.pick(100, 400));
        ctx.each(&format!("typical font {number}: all private ranges within {length} bytes"), length * most, |index, t| {
            let (size, offset) = ((index % most) as i32, (index / most) as i32);
            let change = Change::Set(vec![Num::Int(size), Num::Int(offset)]);
            let built = build(&spec, &layout, &[Tweak { place, code: PRIVATE, change }]);
            t.check(READ, &[set, 0, 0], &[&built.data]);
        });
    }
    // Sets that begin plausibly and go on in every way.
    let letters = [0u8, 1, 2, 5, 0x11];
    for length in 0..=ctx.pick(8usize, 10) {
        ctx.each(&format!("sets of a header and {length} bytes"), pow(5, length), |index, t| {
            let mut word = vec![];
            digits(index, 5, length, &mut word);
            let mut data = vec![1, 0, 4, 1];
            data.extend(word.iter().map(|digit| letters[*digit]));
            t.check(READ, &[set, 0, 2], &[&data]);
            t.check(READ, &[count, 0, 2], &[&data]);
        });
    }
    ctx.each("all headers of small values, all sizes", 256 * 3 * 3 * 5, |mut index, t| {
        let size = peel(&mut index, 256) as u8;
        let (major, minor) = (peel(&mut index, 3) as u8, peel(&mut index, 3) as u8);
        let mut data = vec![major, minor, size, [0, 1, 2, 4, 255][index as usize]];
        for length in [0usize, 1, 2, 8, 300] {
            data.resize(4 + length, 0);
            t.check(READ, &[set, 0, 0], &[&data]);
            t.check(READ, &[count, 0, 0], &[&data]);
        }
    });
    // Every reader on all short byte strings.
    for reader in READERS {
        let parameters: &[i64] = match reader {
            Reader::Offset => &[0, 1, 2, 3, 4, 5, 255],
            Reader::CharStrings => &[2],
            Reader::Charset | Reader::Select => &[0, 1, 2, 3, 300, 65535],
            // Covered together with the above.
            Reader::Charset0 | Reader::Charset1 | Reader::Charset2 => continue,
            Reader::Encoding0 | Reader::Encoding1 | Reader::EncodingS => continue,
            Reader::Select0 | Reader::Select3 => continue,
            _ => &[0],
        };
        for parameter in parameters {
            ctx.each(&format!("{reader:?} given {parameter}: all strings of up to 2 bytes"), 257, |index, t| {
                let nums = [reader.code(), *parameter, 3];
                if index == 256 {
                    t.check(READ, &nums, &[&[]]);
                    t.check(MANY, &nums, &[&[], &[]]);
                } else {
                    t.check(MANY, &nums, &[&[index as u8], &[]]);
                }
            });
            let step = ctx.pick(17, 1);
            ctx.each(
                &format!("{reader:?} given {parameter}: all strings of 3 bytes, every {step}th second byte"),
                65536 / step,
                |index, t| {
                    let index = index * step;
                    let nums = [reader.code(), *parameter, 0];
                    t.check(MANY, &nums, &[&[(index >> 8) as u8, index as u8], &[]]);
                },
            );
        }
    }
    // Every structure corrupted.
    let list = structures();
    ctx.each("structures with every byte replaced by every value", list.len() as u64, |index, t| {
        let (reader, parameter, data) = &list[index as usize];
        for other in [*parameter, 0, 1, parameter + 1, 255, 65535] {
            if other != *parameter && !matches!(reader, Reader::Charset | Reader::Select | Reader::Offset | Reader::CharStrings) {
                continue;
            }
            for at in 0..data.len() {
                t.check(MANY, &[reader.code(), other, 5], &[&data[..at], &data[at + 1..]]);
                t.check(READ, &[reader.code(), other, 5], &[&data[..at]]);
            }
        }
    });
    ctx.each("structures with pairs of bytes replaced", (list.len() * list.len()) as u64, |index, t| {
        let (reader, parameter, data) = &list[index as usize % list.len()];
        let (a, b) = (index as usize / list.len(), 0);
        if a >= data.len() {
            return;
        }
        for b in b..a {
            for x in [0u8, 1, 2, 3, 4, 0x0f, 0x1d, 0x7f, 0x80, 0x81, 0xfe, 0xff] {
                let mut data = data.clone();
                data[b] = x;
                t.check(MANY, &[reader.code(), *parameter, 5], &[&data[..a], &data[a + 1..]]);
            }
        }
    });
    // Each reader on what is meant for another.
    ctx.each("every reader on every structure", (list.len() * READERS.len()) as u64, |index, t| {
        let (reader, data) = (READERS[index as usize % READERS.len()], &list[index as usize / READERS.len()].2);
        for parameter in [0, 1, 2, 3, 4, 5, 300, 65535] {
            t.check(READ, &[reader.code(), parameter, 0], &[data]);
            t.check(READ, &[reader.code(), parameter, 0], &[&[&data[..], &data[..], &data[..]].concat()]);
        }
    });
    // The real fonts: their dictionaries corrupted, their ends cut off.
    for which in 0..2usize {
        let font = [SOURCE, HIRA][which];
        let length = font.len() as u64;
        // The header, the names and the top dictionary; then the private dictionary.
        let head = 400u64;
        let values: &[i64] = if ctx.quick() { &[0, 0x1d, 0xff] } else { &[0, 1, 2, 0x0e, 0x12, 0x1d, 0x1e, 0x7f, 0x8b, 0xf7, 0xff] };
        ctx.each(&format!("real font {which}: the first bytes replaced"), head * values.len() as u64, |index, t| {
            let (at, value) = ((index % head) as i64, values[(index / head) as usize]);
            t.check(FIXTURE, &[which as i64, set, 0, length as i64, at, value], &[]);
        });
        let step = ctx.pick(length / 400, 7);
        ctx.each(&format!("real font {which}: truncated, every {step}th length"), length / step, |index, t| {
            t.check(FIXTURE, &[which as i64, set, 0, (length - 1 - index * step) as i64], &[]);
        });
    }
}
