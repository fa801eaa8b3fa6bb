//! Type 2 charstrings: the real interpreter in lockstep with the reference machine.

use postscript::type2::{Operation, Operator, Program};

use crate::model::t2::{Machine, Out, Width};
use crate::run::{Ctx, Print, Stats};

/// The operator of the interface that corresponds to a code of the format.
pub fn operator(code: u16) -> Operator {
    use Operator::*;
    match code {
        1 => HStem,
        3 => VStem,
        4 => VMoveTo,
        5 => RLineTo,
        6 => HLineTo,
        7 => VLineTo,
        8 => RRCurveTo,
        18 => HStemHM,
        19 => HintMask,
        20 => CntrMask,
        21 => RMoveTo,
        22 => HMoveTo,
        23 => VStemHM,
        24 => RCurveLine,
        25 => RLineCurve,
        26 => VVCurveTo,
        27 => HHCurveTo,
        30 => VHCurveTo,
        31 => HVCurveTo,
        0x0c22 => HFlex,
        0x0c23 => Flex,
        0x0c24 => HFlex1,
        0x0c25 => Flex1,
        _ => unreachable!(),
    }
}

#[inline]
pub fn same(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

pub fn same_all(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(*a, *b))
}

type Answer = Result<Option<Operation>, postscript::Error>;

fn show(answer: &Answer) -> String {
    match answer {
        Ok(Some((operator, operands))) => format!("{operator:?} {operands:?}"),
        Ok(None) => "the end".to_string(),
        Err(error) => format!("an error ({error})"),
    }
}

/// How much of the behaviour a check judges.
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// Whether there is an operation, the end, or an error; the finality of the end.
    Total,
    /// In addition, the operations with their operands.
    Operations,
    /// In addition, the width.
    Everything,
}

fn check_width(machine: &Machine, program: &Program, mode: Mode) -> Result<(), String> {
    if mode != Mode::Everything {
        return Ok(());
    }
    let got = program.width();
    match (machine.width, got) {
        (Width::Any, _) => Ok(()),
        (Width::Known(None), None) => Ok(()),
        (Width::Known(Some(a)), Some(b)) if same(a, b) => Ok(()),
        (Width::Known(want), got) => Err(format!("expected width {want:?}, got {got:?}")),
    }
}

/// Make some more requests, the answers to which are open, except that the end is final.
fn settle(program: &mut Program, requests: usize) -> Result<(), String> {
    settle_from(false, program, requests)
}

fn settle_from(mut ended: bool, program: &mut Program, requests: usize) -> Result<(), String> {
    for _ in 0..requests {
        let again = program.next();
        if ended && !matches!(again, Ok(None)) {
            return Err(format!("after the end: expected the end, got {}", show(&again)));
        }
        ended = matches!(again, Ok(None));
    }
    Ok(())
}

const MOST_OPERATIONS: usize = 1 << 20;

/// Run a program on the real interpreter and on the reference machine.
///
/// With `fine`, every state of the reference machine is counted.
pub fn lockstep(
    code: &[u8],
    global: &[Vec<u8>],
    local: &[Vec<u8>],
    fine: bool,
    mode: Mode,
    stats: &mut Stats,
) -> Result<(), String> {
    let mut machine = Machine::new(code, global, local);
    let mut program = Program::new(code, global, local);
    let mut trace = Print::new();
    check_width(&machine, &program, mode).map_err(|error| format!("before the start: {error}"))?;
    let mut ended = false;
    for i in 0..MOST_OPERATIONS {
        let want = machine.next(|machine| {
            if fine {
                stats.state(machine.print());
            }
        });
        let got = program.next();
        let fail = |text: &str| Err(format!("operation {i}: expected {text}, got {}", show(&got)));
        match &want {
            Out::Op(code, operands) => match &got {
                Ok(Some((name, values))) => {
                    if mode != Mode::Total && (*name != operator(*code) || !same_all(operands, values)) {
                        return fail(&format!("{:?} {operands:?}", operator(*code)));
                    }
                    trace = trace.add(*code as u64);
                    for value in values {
                        trace = trace.add(value.to_bits() as u64);
                    }
                }
                Err(_) if machine.deep || machine.lenient => {
                    settle(&mut program, 3)?;
                    break;
                }
                _ => return fail(&format!("{:?} {operands:?}", operator(*code))),
            },
            Out::End => match &got {
                Ok(None) => {
                    trace = trace.add(1 << 40);
                    ended = true;
                }
                Err(_) if machine.deep || machine.lenient => {
                    settle(&mut program, 3)?;
                    break;
                }
                _ => return fail("the end"),
            },
            Out::Error => {
                if got.is_ok() {
                    return fail("an error");
                }
                trace = trace.add(2 << 40);
                // What follows an error is open, except that it shall not crash, and that the end is final.
                settle(&mut program, 3)?;
                break;
            }
            Out::EndOrError => {
                if matches!(got, Ok(Some(_))) {
                    return fail("the end or an error");
                }
                settle_from(matches!(got, Ok(None)), &mut program, 3)?;
                break;
            }
            Out::Any => {
                settle_from(matches!(got, Ok(None)), &mut program, 16)?;
                break;
            }
        }
        check_width(&machine, &program, mode).map_err(|error| format!("operation {i}: {error}"))?;
        if ended {
            // The end is final.
            for _ in 0..3 {
                let again = program.next();
                if !matches!(again, Ok(None)) {
                    return Err(format!("after the end: expected the end, got {}", show(&again)));
                }
                check_width(&machine, &program, mode).map_err(|error| format!("after the end: {error}"))?;
            }
            break;
        }
    }
    if let Some(width) = program.width() {
        trace = trace.add(width.to_bits() as u64 ^ 3 << 40);
    }
    stats.transitions += machine.steps;
    stats.outcome(trace);
    Ok(())
}

/// Check that calling subroutines and having them inline makes no difference.
///
/// Both run on the real interpreter; the reference machine is not involved.
fn transparent(
    inline: &[u8],
    outlined: &[u8],
    global: &[Vec<u8>],
    local: &[Vec<u8>],
) -> Result<(), String> {
    let mut one = Program::new(inline, &[], &[]);
    let mut two = Program::new(outlined, global, local);
    for i in 0..MOST_OPERATIONS {
        let (a, b) = (one.next(), two.next());
        let equal = match (&a, &b) {
            (Ok(Some((a, c))), Ok(Some((b, d)))) => a == b && same_all(c, d),
            (Ok(None), Ok(None)) | (Err(_), Err(_)) => true,
            _ => false,
        };
        let widths = match (one.width(), two.width()) {
            (Some(a), Some(b)) => same(a, b),
            (a, b) => a.is_none() == b.is_none(),
        };
        if !equal || (a.is_ok() && !widths) {
            return Err(format!(
                "operation {i}: inline {} (width {:?}), with subroutines {} (width {:?})",
                show(&a),
                one.width(),
                show(&b),
                two.width(),
            ));
        }
        if !matches!(a, Ok(Some(_))) {
            break;
        }
    }
    Ok(())
}

thread_local! {
    static TABLES: std::cell::RefCell<Vec<(bool, usize, std::rc::Rc<Vec<Vec<u8>>>)>> =
        const { std::cell::RefCell::new(vec![]) };
}

/// A subroutine table in which every subroutine tells its own number and table.
pub fn numbered(count: usize, global: bool) -> std::rc::Rc<Vec<Vec<u8>>> {
    TABLES.with(|tables| {
        let mut tables = tables.borrow_mut();
        for (kind, size, table) in tables.iter() {
            if *kind == global && *size == count {
                return table.clone();
            }
        }
        let table = std::rc::Rc::new(
            (0..count)
                .map(|i| {
                    let [high, low] = (i as u16).to_be_bytes();
                    // <number> {hmoveto or vmoveto} return
                    vec![28, high, low, if global { 4 } else { 22 }, 11]
                })
                .collect::<Vec<_>>(),
        );
        if tables.len() >= 16 {
            tables.remove(0);
        }
        tables.push((global, count, table.clone()));
        table
    })
}

pub const PROGRAM: u32 = 1;
pub const NUMBERED: u32 = 2;
pub const REPEATED: u32 = 3;
pub const FIXED: u32 = 4;
pub const SCHEDULE: u32 = 5;
pub const PREEMPTED: u32 = 42;
pub const CROWDED: u32 = 43;
pub const OUTLINED: u32 = 6;
pub const COARSE: u32 = 7;
pub const BYTES: u32 = 8;
pub const BIASED: u32 = 9;
pub const GLYPH: u32 = 10;
pub const CUT: u32 = 11;
pub const NESTED: u32 = 12;
pub const DISTANT: u32 = 13;
/// As NESTED, and compared with the same inline.
pub const EQUIVALENT: u32 = 40;

/// A piece of code in a context: with a width, stems, operations, calls and operands before it, in
/// subroutines of tables of some size.
pub const CONTEXT: u32 = 41;

/// What comes before a piece of code.
///
/// The numbers: stems, whether there is a width, operations, calls, subroutines in each of the
/// tables, depth of the piece, and operands beneath it.
fn context(nums: &[i64], blobs: &[&[u8]], mode: Mode, stats: &mut Stats) -> Result<(), String> {
    use super::gen::{number, Writer};
    use crate::model::t2::*;
    let [stems, wide, told, calls, size, depth, below] = std::array::from_fn(|i| nums[i] as usize);
    let mut writer = Writer { fill: 0x0b, ..Writer::default() };
    let mut width = wide;
    let mut left = stems;
    while left > 0 {
        let some = left.min(20);
        writer.operation(if left % 2 == 0 { HSTEMHM } else { VSTEM }, 2 * some + width);
        width = 0;
        left -= some;
    }
    if stems > 0 {
        writer.operation(if stems % 3 == 0 { CNTRMASK } else { HINTMASK }, 0);
    }
    for i in 0..told.max(width) {
        let (operator, count) = [(HMOVETO, 1), (RLINETO, 2), (HINTMASK, 0), (HFLEX, 7)][if i % 4 == 2 && stems == 0 { 1 } else { i % 4 }];
        writer.operation(operator, count + width);
        width = 0;
    }
    let mut code = writer.code;
    let bias = bias(size) as i64;
    // The one that returns is the last of the table.
    for i in 0..calls {
        code.extend(number(size as i64 - 1 - bias));
        code.push(if i % 3 == 0 { CALLGSUBR } else { CALLSUBR } as u8);
    }
    for i in 0..below {
        code.extend(number(40 + i as i64 % 30));
    }
    POOLS.with(|pools| {
        let mut pools = pools.borrow_mut();
        let place = pools.iter().position(|pool| pool.0.len() == size).unwrap_or_else(|| {
            pools.push((vec![vec![11]; size], vec![vec![11]; size]));
            pools.len() - 1
        });
        let (global, local) = &mut pools[place];
        let mut body = blobs[0].to_vec();
        for level in 0..depth {
            if !blobs[1].is_empty() {
                body.push(11);
            }
            let wide = level % 3 == 1;
            let mut outer = number(level as i64 - bias);
            outer.push(if wide { CALLGSUBR } else { CALLSUBR } as u8);
            let table = if wide { &mut *global } else { &mut *local };
            table[level] = std::mem::replace(&mut body, outer);
        }
        code.extend(body);
        code.extend_from_slice(blobs[1]);
        let result = lockstep(&code, global, local, false, mode, stats);
        for level in 0..depth {
            global[level] = vec![11];
            local[level] = vec![11];
        }
        result
    })
}

thread_local! {
    static POOLS: std::cell::RefCell<Vec<(Vec<Vec<u8>>, Vec<Vec<u8>>)>> = const { std::cell::RefCell::new(vec![]) };
}

/// Every piece of code in every context; what is left of the charstring follows.
pub fn contexts(ctx: &Ctx, pieces: &[Vec<u8>], rest: &[u8]) {
    // With as many pieces as that, fewer contexts.
    let crowded = pieces.len() > 250;
    let pick = |quick: &[i64], crowd: &[i64], thorough: &[i64]| match crowded {
        true => ctx.pick(quick, crowd).to_vec(),
        false => ctx.pick(quick, thorough).to_vec(),
    };
    let stems = pick(&[0, 1, 20, 97], &[0, 1, 20, 97, 300], &[0, 1, 8, 20, 33, 97, 300]);
    let told = pick(&[0, 1, 300], &[0, 1, 300], &[0, 1, 17, 300, 1100]);
    let calls = pick(&[0, 20, 300], &[0, 20, 300, 1100], &[0, 1, 11, 20, 70, 300, 1100]);
    let sizes = pick(&[12, 1240], &[12, 1240, 33900], &[12, 300, 1240, 33900]);
    let depths = pick(&[0, 1, 9, 10], &[0, 1, 5, 9, 10], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]);
    let belows = [0i64, 1, 5, 40];
    let many = (stems.len() * 2 * told.len() * calls.len() * sizes.len() * depths.len() * belows.len()) as u64;
    ctx.each("pieces of code in contexts", many * pieces.len() as u64, |mut index, t| {
        let piece = &pieces[crate::run::peel(&mut index, pieces.len())];
        let mut pick = |list: &[i64]| list[crate::run::peel(&mut index, list.len())];
        let nums = [pick(&stems), pick(&[0, 1]), pick(&told), pick(&calls), pick(&sizes), pick(&depths), pick(&belows)];
        // The combinations of the large ones are left to the thorough tier.
        if ctx.quick() && nums[2] + nums[3] > 400 {
            return;
        }
        t.check(CONTEXT, &nums, &[piece, rest]);
    });
}

/// A number of bytes that mean `0 hmoveto` over and over, and `0 0 rmoveto` once if it is odd.
///
/// An odd number is at least three.
pub fn padding(size: usize) -> Vec<u8> {
    let mut code = Vec::with_capacity(size);
    if size % 2 == 1 {
        code.extend([0x8b, 0x8b, 21]);
    }
    while code.len() < size {
        code.extend([0x8b, 22]);
    }
    code
}

/// Distances from the beginning of a charstring at which counters of bytes might wrap.
pub const DISTANCES: [usize; 26] = [
    126, 127, 128, 253, 254, 255, 256, 257, 4095, 4096, 32765, 32766, 32767, 32768, 65528, 65530, 65531, 65532, 65533,
    65534, 65535, 65536, 65537, 65540, 131_070, 131_073,
];

/// Every given piece of code at every one of the distances.
pub fn distant(ctx: &Ctx, pieces: &[Vec<u8>]) {
    let many = pieces.len() as u64;
    ctx.each("far from the beginning of the charstring", many * DISTANCES.len() as u64, |index, t| {
        let piece = &pieces[(index % many) as usize];
        let distance = DISTANCES[(index / many) as usize];
        t.check(DISTANT, &[distance as i64, 0], &[piece]);
        t.check(DISTANT, &[distance as i64, 1], &[piece]);
    });
}

/// A glyph of a real font as the reference reader finds it: code, global and local subroutines.
type Glyphs = (Vec<Vec<u8>>, Vec<Vec<u8>>, Vec<Vec<Vec<u8>>>, Vec<usize>);

/// The glyphs of the fonts of the tests of the project: charstrings, global subroutines, tables of
/// local subroutines, and which of the tables each of the glyphs uses.
pub fn fixture(which: usize) -> &'static Glyphs {
    use crate::model::cff::{read, Cursor, Reader, Record, Select, Value, Verdict};
    static FIXTURES: [std::sync::OnceLock<Glyphs>; 2] = [std::sync::OnceLock::new(), std::sync::OnceLock::new()];
    FIXTURES[which].get_or_init(|| {
        let data = [super::c15::SOURCE, super::c15::HIRA][which];
        let Verdict::Is(Value::Set(mut set), _, _) = read(Reader::Set, 0, &mut Cursor::new(data, false)) else {
            panic!("the reference cannot read a real font");
        };
        let font = set.fonts.remove(0);
        let count = font.charstrings.data.len();
        let (tables, places) = match font.record {
            Record::Name(private) => (vec![private.subrs.data], vec![0; count]),
            Record::Cid { select, privates, .. } => {
                let tables = privates.into_iter().map(|private| private.subrs.data).collect();
                let places = match select {
                    Select::Format0(places) => places.into_iter().map(|place| place as usize).collect(),
                    Select::Format3(ranges, _) => (0..count)
                        .map(|i| {
                            let range = ranges.iter().rev().find(|(first, _)| *first as usize <= i);
                            range.unwrap().1 as usize
                        })
                        .collect(),
                };
                (tables, places)
            }
        };
        (font.charstrings.data, set.subrs.data, tables, places)
    })
}

pub fn total(kind: u32, nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    dispatch(kind, nums, blobs, Mode::Total, stats)
}

pub fn operations(kind: u32, nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    dispatch(kind, nums, blobs, Mode::Operations, stats)
}

pub fn everything(kind: u32, nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    dispatch(kind, nums, blobs, Mode::Everything, stats)
}

fn dispatch(kind: u32, nums: &[i64], blobs: &[&[u8]], mode: Mode, stats: &mut Stats) -> Result<(), String> {
    let split = |from: usize, globals: usize| -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
        let rest: Vec<Vec<u8>> = blobs[from..].iter().map(|blob| blob.to_vec()).collect();
        let local = rest[globals..].to_vec();
        (rest[..globals].to_vec(), local)
    };
    match kind {
        // nums: number of global subroutines; blobs: code, global.., local..
        PROGRAM => {
            let (global, local) = split(1, nums[0] as usize);
            lockstep(blobs[0], &global, &local, true, mode, stats)
        }
        // nums: sizes of the two numbered tables; blobs: code
        NUMBERED => {
            let global = numbered(nums[0] as usize, true);
            let local = numbered(nums[1] as usize, false);
            lockstep(blobs[0], &global, &local, true, mode, stats)
        }
        // nums: number of global subroutines, repetitions; blobs: prefix, unit, suffix, global..
        REPEATED => {
            let (global, local) = split(3, nums[0] as usize);
            let mut code = blobs[0].to_vec();
            for _ in 0..nums[1] {
                code.extend_from_slice(blobs[1]);
            }
            code.extend_from_slice(blobs[2]);
            lockstep(&code, &global, &local, false, mode, stats)
        }
        // nums: number of global subroutines; blobs: inline code, outlined code, global.., local..
        OUTLINED => {
            let (global, local) = split(2, nums[0] as usize);
            transparent(blobs[0], blobs[1], &global, &local)?;
            lockstep(blobs[1], &global, &local, true, mode, stats)
        }
        // As PROGRAM, but the states of the reference machine are not counted.
        COARSE => {
            let (global, local) = split(1, nums[0] as usize);
            lockstep(blobs[0], &global, &local, false, mode, stats)
        }
        // nums: number of global subroutines; blobs: prefix, suffix, subroutines;
        // all programs prefix + byte + suffix.
        BYTES => {
            let (global, local) = split(2, nums[0] as usize);
            for byte in 0..=255u8 {
                let mut code = blobs[0].to_vec();
                code.push(byte);
                code.extend_from_slice(blobs[1]);
                lockstep(&code, &global, &local, false, mode, stats)
                    .map_err(|error| format!("byte {byte:#04x} behind the prefix: {error}"))?;
            }
            stats.bulk += 256;
            Ok(())
        }
        // nums: font, glyph.
        GLYPH => {
            let (codes, global, tables, places) = fixture(nums[0] as usize);
            let glyph = nums[1] as usize;
            lockstep(&codes[glyph], global, &tables[places[glyph]], true, mode, stats)
        }
        // nums: font, glyph; everything that can go wrong with a byte or the length of it.
        CUT => {
            let (codes, global, tables, places) = fixture(nums[0] as usize);
            let glyph = nums[1] as usize;
            let code = &codes[glyph];
            for at in 0..=code.len() {
                lockstep(&code[..at], global, &tables[places[glyph]], false, mode, stats)
                    .map_err(|error| format!("cut at {at}: {error}"))?;
                if at < code.len() {
                    let mut code = code.clone();
                    for value in [0, 10, 11, 12, 14, 19, 21, 28, 29, 0x20, 0x8b, 0xf7, 0xfe, 255, code[at] ^ 1, code[at] ^ 0x80] {
                        code[at] = value;
                        lockstep(&code, global, &tables[places[glyph]], false, mode, stats)
                            .map_err(|error| format!("byte {at} is {value:#04x}: {error}"))?;
                        stats.bulk += 1;
                    }
                }
            }
            Ok(())
        }
        // nums: depth, a bit for each level that tells whether it is global, whether there is a
        // return; blobs: code, what comes behind the outermost call.
        NESTED | EQUIVALENT => {
            let (depth, pattern, back) = (nums[0] as usize, nums[1], nums[2] != 0);
            let (mut global, mut local) = (vec![], vec![]);
            let mut body = blobs[0].to_vec();
            for level in 0..depth {
                if back {
                    body.push(11);
                }
                let table = if pattern >> level & 1 == 1 { &mut global } else { &mut local };
                let number = table.len() as u8;
                table.push(std::mem::replace(&mut body, vec![0x20 + number, if pattern >> level & 1 == 1 { 29 } else { 10 }]));
            }
            body.extend_from_slice(blobs[1]);
            if kind == EQUIVALENT {
                transparent(&[blobs[0], blobs[1]].concat(), &body, &global, &local)?;
            }
            lockstep(&body, &global, &local, false, mode, stats)
        }
        // nums: distance, whether it is that from the beginning of a subroutine; blobs: code.
        DISTANT => {
            let mut code = padding(nums[0] as usize);
            code.extend_from_slice(blobs[0]);
            match nums[1] {
                0 => lockstep(&code, &[], &[], false, mode, stats),
                _ => lockstep(&[0x8b, 22, 0x20, 10], &[], &[code], false, mode, stats),
            }
        }
        CONTEXT => context(nums, blobs, mode, stats),
        FIXED => fixed_bulk(nums[0] as u16, nums.len() > 1, stats),
        BIASED => crate::checks::c21::biased(nums, stats),
        PREEMPTED => crate::checks::c21::preempted(nums, blobs, stats),
        CROWDED => crate::checks::c21::crowded(nums, blobs, stats),
        SCHEDULE => crate::checks::c21::schedule(nums, blobs, stats),
        _ => unreachable!(),
    }
}

/// Decode all 65536 16.16 numbers with a given integer part, or with a given fraction.
fn fixed_bulk(half: u16, fraction: bool, stats: &mut Stats) -> Result<(), String> {
    // All in one program: <number> hmoveto, and again.
    let raw = |other: u16| if fraction { (other as u32) << 16 | half as u32 } else { (half as u32) << 16 | other as u32 };
    let mut code = Vec::with_capacity(65536 * 6);
    for other in 0..=0xffffu16 {
        code.push(255);
        code.extend_from_slice(&raw(other).to_be_bytes());
        code.push(22);
    }
    let mut program = Program::new(&code, &[], &[]);
    for other in 0..=0xffffu16 {
        let raw = raw(other) as i32;
        let want = (raw as f64 / 65536.0) as f32;
        match program.next() {
            Ok(Some((Operator::HMoveTo, operands))) if operands.len() == 1 && operands[0] == want => {}
            got => return Err(format!("16.16 number {raw:#x}: expected {want}, got {}", show(&got))),
        }
    }
    stats.bulk += 65536;
    stats.transitions += 65536 * 2;
    stats.state(Print::new().add(half as u64 | 1 << 50 | (fraction as u64) << 51));
    Ok(())
}

/// All glyphs of the real fonts.
pub fn glyphs(ctx: &Ctx, kind: u32, step: u64) {
    for which in 0..2 {
        let count = fixture(which).0.len() as u64;
        let name = if kind == GLYPH { "all glyphs" } else { "all cut-off and corrupted glyphs" };
        let step = step.max(1);
        ctx.each(&format!("{name} of a real font, every {step}th"), count.div_ceil(step), |index, t| {
            t.check(kind, &[which as i64, (index * step) as i64], &[]);
        });
    }
}
