//! C21: independence of interpreters.

use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Condvar, Mutex};

use postscript::type2::Program;

use super::gen::*;
use super::t2::{numbered, operator, same_all, BIASED, CROWDED, PREEMPTED, SCHEDULE};
use crate::model::t2::*;
use crate::preempt::{self, Hand};
use crate::run::{hex, Ctx, Print, Stats};

/// What one request answered: an operation, the end, an error, and the width afterwards.
#[derive(Clone, PartialEq, Debug)]
enum Answer {
    Operation(String, Vec<f32>, Option<f32>),
    End(Option<f32>),
    Error,
}

impl Answer {
    fn equal(&self, other: &Answer) -> bool {
        match (self, other) {
            (Answer::Operation(a, b, c), Answer::Operation(d, e, f)) => a == d && same_all(b, e) && c == f,
            (Answer::End(a), Answer::End(b)) => a == b,
            (Answer::Error, Answer::Error) => true,
            _ => false,
        }
    }
}

fn ask(program: &mut Program) -> Answer {
    let response = program.next();
    answer(response, program)
}

fn answer(response: postscript::Result<Option<postscript::type2::Operation>>, program: &Program) -> Answer {
    match response {
        Ok(Some((operator, operands))) => {
            Answer::Operation(format!("{operator:?}"), operands, program.width())
        }
        Ok(None) => Answer::End(program.width()),
        Err(_) => Answer::Error,
    }
}

/// What the reference machine expects of a program that runs alone.
fn expect(code: &[u8], global: &[Vec<u8>], local: &[Vec<u8>], count: usize) -> Vec<Option<Answer>> {
    let mut machine = Machine::new(code, global, local);
    let mut list = vec![];
    let mut over = false;
    for _ in 0..count {
        if over {
            list.push(None);
            continue;
        }
        let out = machine.next(|_| {});
        // Whether calls as deep as that are possible is open.
        if machine.deep || machine.lenient {
            over = true;
            list.push(None);
            continue;
        }
        let width = match machine.width {
            Width::Known(width) => Some(width),
            Width::Any => None,
        };
        list.push(match (out, width) {
            (Out::Op(code, operands), Some(width)) => {
                Some(Answer::Operation(format!("{:?}", operator(code)), operands, width))
            }
            (Out::End, Some(width)) => Some(Answer::End(width)),
            (Out::Error, _) => {
                over = true;
                Some(Answer::Error)
            }
            _ => {
                over = true;
                None
            }
        });
    }
    list
}

const TOGETHER: i64 = 0;
const THREADS: i64 = 1;
const AFRESH: i64 = 2;
const REUSED: i64 = 3;
/// As `TOGETHER`, but the requests of the schedule from 1000 on are made on another thread.
const MOVED: i64 = 4;

/// Whether programs may be handed over to other threads.
trait Stays {
    const MOVES: bool = false;
}
impl<T> Stays for T {}
struct Moves<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
impl<T: Send> Moves<T> {
    const MOVES: bool = true;
}

struct Carrier<'a>(Vec<Option<Program<'a>>>);
// Only used with `Moves::<Program>::MOVES`.
unsafe impl Send for Carrier<'_> {}

impl Carrier<'_> {
    fn ask(&mut self, i: usize) -> Option<Answer> {
        self.0[i].as_mut().map(|program| {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ask(program)))
                .unwrap_or(Answer::Operation("panic".into(), vec![], None))
        })
    }
}

/// Programs that share what is equal: the code, and the tables of subroutines.
fn together(inputs: &[Input]) -> Vec<Option<Program<'_>>> {
    let code = |i: usize| inputs.iter().position(|input| input.0 == inputs[i].0).unwrap();
    let global = |i: usize| inputs.iter().position(|input| input.1 == inputs[i].1).unwrap();
    let local = |i: usize| inputs.iter().position(|input| input.2 == inputs[i].2).unwrap();
    (0..inputs.len())
        .map(|i| Some(Program::new(&inputs[code(i)].0, &inputs[global(i)].1, &inputs[local(i)].2)))
        .collect()
}

/// Execute one schedule.
///
/// nums: mode, number of programs, for each program its number of globals and locals, and then the
/// schedule, which is a sequence of program numbers, each asking for one more operation; a number
/// plus 100 drops the program. blobs: for each program its code, globals and locals.
pub fn schedule(nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    let mode = nums[0];
    let count = nums[1] as usize;
    let mut at = 0;
    let mut inputs = vec![];
    for i in 0..count {
        let (globals, locals) = (nums[2 + 2 * i] as usize, nums[3 + 2 * i] as usize);
        let mut take = |count: usize| -> Vec<Vec<u8>> {
            at += count;
            blobs[at - count..at].iter().map(|blob| blob.to_vec()).collect()
        };
        inputs.push((take(1).remove(0), take(globals), take(locals)));
    }
    let plan: Vec<usize> = nums[2 + 2 * count..].iter().map(|step| *step as usize).collect();
    let expected: Vec<_> = inputs
        .iter()
        .enumerate()
        .map(|(i, (code, global, local))| {
            expect(code, global, local, plan.iter().filter(|step| **step % 1000 == i).count())
        })
        .collect();
    let mut answers: Vec<Vec<Answer>> = vec![vec![]; count];
    match mode {
        TOGETHER => {
            let mut programs: Vec<Option<Program>> = together(&inputs);
            let mut print = Print::new();
            for step in &plan {
                if *step >= 100 {
                    programs[*step - 100] = None;
                } else if let Some(program) = &mut programs[*step] {
                    answers[*step].push(ask(program));
                }
                print = print.add(*step as u64);
                stats.transitions += 1;
                stats.state(print.bytes(blobs[0]));
            }
        }
        MOVED => {
            if !Moves::<Program>::MOVES {
                return Ok(());
            }
            let programs = Mutex::new(Carrier(together(&inputs)));
            std::thread::scope(|scope| {
                let (there, requests) = std::sync::mpsc::channel::<usize>();
                let (back, responses) = std::sync::mpsc::channel::<Option<Answer>>();
                let carried = &programs;
                scope.spawn(move || {
                    for i in requests {
                        let answer = carried.lock().unwrap().ask(i);
                        back.send(answer).unwrap();
                    }
                    // What is left is dropped here.
                    carried.lock().unwrap().0.clear();
                });
                for step in &plan {
                    let i = step % 1000;
                    let answer = if *step < 1000 {
                        programs.lock().unwrap().ask(i)
                    } else {
                        there.send(i).unwrap();
                        responses.recv().unwrap()
                    };
                    answers[i].extend(answer);
                    stats.transitions += 1;
                }
                drop(there);
            });
            let mut print = Print::new();
            for step in &plan {
                print = print.add(*step as u64);
            }
            stats.state(print.bytes(blobs[0]));
        }
        AFRESH => {
            // Programs one after another, over copies that take the place of each other in memory.
            for (i, (code, global, local)) in inputs.iter().enumerate() {
                let (code, global, local) = (code.clone(), global.clone(), local.clone());
                let mut program = Program::new(&code, &global, &local);
                for _ in plan.iter().filter(|step| **step == i) {
                    answers[i].push(ask(&mut program));
                    stats.transitions += 1;
                }
            }
        }
        REUSED => {
            // Programs one after another over the very same memory, which is overwritten between.
            let most = |of: &dyn Fn(&(Vec<u8>, Vec<Vec<u8>>, Vec<Vec<u8>>)) -> usize| inputs.iter().map(of).max().unwrap();
            let mut code: Vec<u8> = Vec::with_capacity(most(&|input| input.0.len()));
            let table = |count: usize| -> Vec<Vec<u8>> { (0..count).map(|_| Vec::with_capacity(64)).collect() };
            let mut global = table(most(&|input| input.1.len()));
            let mut local = table(most(&|input| input.2.len()));
            for (i, input) in inputs.iter().enumerate() {
                code.clear();
                code.extend_from_slice(&input.0);
                for (table, bodies) in [(&mut global, &input.1), (&mut local, &input.2)] {
                    for (body, with) in table.iter_mut().zip(bodies) {
                        body.clear();
                        body.extend_from_slice(with);
                    }
                }
                let mut program = Program::new(&code, &global[..input.1.len()], &local[..input.2.len()]);
                for _ in plan.iter().filter(|step| **step == i) {
                    answers[i].push(ask(&mut program));
                    stats.transitions += 1;
                }
            }
        }
        THREADS => {
            // One thread for each program; a token passes according to the schedule.
            let turn = (Mutex::new(0usize), Condvar::new());
            let collected = Mutex::new(&mut answers);
            std::thread::scope(|scope| {
                for (i, (code, global, local)) in inputs.iter().enumerate() {
                    let (turn, plan, collected) = (&turn, &plan, &collected);
                    scope.spawn(move || {
                        let mut program = Some(Program::new(code, global, local));
                        for (k, step) in plan.iter().enumerate() {
                            if *step % 100 != i {
                                continue;
                            }
                            let mut now = turn.0.lock().unwrap();
                            while *now != k {
                                now = turn.1.wait(now).unwrap();
                            }
                            if *step >= 100 {
                                program = None;
                            } else if let Some(program) = &mut program {
                                let answer = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ask(program)));
                                collected.lock().unwrap()[i].push(answer.unwrap_or(Answer::Operation("panic".into(), vec![], None)));
                            }
                            *now += 1;
                            turn.1.notify_all();
                        }
                    });
                }
            });
            stats.transitions += plan.len() as u64;
        }
        _ => unreachable!(),
    }
    for i in 0..count {
        for (k, (answer, want)) in answers[i].iter().zip(&expected[i]).enumerate() {
            if let Some(want) = want {
                if !answer.equal(want) {
                    return Err(format!("program {i}, request {k}: expected {want:?}, got {answer:?}"));
                }
            }
        }
    }
    // Alone, on this same thread, afterwards: what the reference leaves open has to be equal too.
    for (i, (code, global, local)) in inputs.iter().enumerate() {
        let mut program = Program::new(code, global, local);
        for (k, answer) in answers[i].iter().enumerate() {
            let alone = ask(&mut program);
            if !alone.equal(answer) {
                return Err(format!("program {i}, request {k}: alone {alone:?}, among others {answer:?}"));
            }
        }
    }
    let mut print = Print::new();
    for answer in answers.iter().flatten() {
        print = print.bytes(format!("{answer:?}").as_bytes());
    }
    stats.outcome(print);
    Ok(())
}

/// One request to the first program is preempted after any of some numbers of instructions.
///
/// nums: for each program its number of globals and locals, how much the second program does before
/// the first one begins and before that is resumed, the number of the step of the first program that
/// is preempted, and the range of instructions. A program is created, answers requests, and is
/// dropped; each of these is a step.
pub fn preempted(nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    let mut at = 0;
    let mut inputs = vec![];
    for counts in [&nums[..2], &nums[2..4]] {
        let mut take = |count: i64| -> Vec<Vec<u8>> {
            at += count as usize;
            blobs[at - count as usize..at].iter().map(|blob| blob.to_vec()).collect()
        };
        inputs.push((take(1).remove(0), take(counts[0]), take(counts[1])));
    }
    let [before, within, preempted, from, to] = nums[4..] else { unreachable!() };
    let alone: Vec<Vec<Answer>> = inputs.iter().map(alone).collect();
    for (i, (code, global, local)) in inputs.iter().enumerate() {
        for (want, got) in expect(code, global, local, alone[i].len()).iter().zip(&alone[i]) {
            if want.as_ref().map_or(false, |want| !want.equal(got)) {
                return Err(format!("program {i} alone: expected {want:?}, got {got:?}"));
            }
        }
    }
    let panicked = || Answer::Operation("panic".into(), vec![], None);
    for after in from..to {
        let hand = Hand::new();
        let (mine, (others, fired)) = std::thread::scope(|scope| {
            let (hand, inputs, alone) = (&hand, &inputs, &alone);
            let other = scope.spawn(move || {
                let (code, global, local) = &inputs[1];
                let mut program = None;
                let mut answers = vec![];
                let steps = alone[1].len() + 2;
                let (before, within) = (before as usize, within as usize);
                for range in [0..before, before..within, within..steps] {
                    hand.follow(|| {
                        for step in range {
                            if step == 0 {
                                program = Some(Program::new(code, global, local));
                            } else if step == steps - 1 {
                                program = None;
                            } else if let Some(program) = &mut program {
                                let answer = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ask(program)));
                                answers.push(answer.unwrap_or_else(|_| panicked()));
                            }
                        }
                    });
                }
                answers
            });
            hand.ask(None);
            let (code, global, local) = &inputs[0];
            let mut program = None;
            let mut answers = vec![];
            let steps = alone[0].len() as i64 + 2;
            let mut fired = false;
            for step in 0..steps {
                let after = if step == preempted { after as u64 } else { 0 };
                macro_rules! run(($section:expr) => (match after {
                    0 => $section,
                    _ => {
                        let (result, _, there) = preempt::run(hand, after, false, || $section);
                        fired = there;
                        result
                    }
                }));
                if step == 0 {
                    program = Some(run!(Program::new(code, global, local)));
                } else if step == steps - 1 {
                    let last = program.take();
                    run!(drop(last));
                } else if let Some(program) = &mut program {
                    let response = run!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| program.next())));
                    answers.push(match response {
                        Ok(response) => answer(response, program),
                        Err(_) => panicked(),
                    });
                }
            }
            if !fired {
                hand.ask(None);
            }
            hand.ask(None);
            (answers, (other.join().unwrap(), fired))
        });
        stats.bulk += 1;
        stats.transitions += (mine.len() + others.len()) as u64;
        for (i, answers) in [mine, others].iter().enumerate() {
            for (k, (got, want)) in answers.iter().zip(&alone[i]).enumerate() {
                if !got.equal(want) {
                    return Err(format!("program {i}, request {k}: alone {want:?}, and {got:?} with a preemption after {after} instructions"));
                }
            }
        }
        if !fired {
            break;
        }
        let mut print = Print::new().bytes(blobs[0]).bytes(blobs[at - 1]);
        for value in [preempted, after, before, within] {
            print = print.add(value as u64);
        }
        stats.state(print);
    }
    Ok(())
}

/// Every step of the first program is preempted after each of its instructions.
///
/// nums: for each program its number of globals and locals, and whether the second one does one step
/// each time, or all of them.
pub fn crowded(nums: &[i64], blobs: &[&[u8]], stats: &mut Stats) -> Result<(), String> {
    let mut at = 0;
    let mut inputs = vec![];
    for counts in [&nums[..2], &nums[2..4]] {
        let mut take = |count: i64| -> Vec<Vec<u8>> {
            at += count as usize;
            blobs[at - count as usize..at].iter().map(|blob| blob.to_vec()).collect()
        };
        inputs.push((take(1).remove(0), take(counts[0]), take(counts[1])));
    }
    let whole = nums[4] == 1;
    let alone: Vec<Vec<Answer>> = inputs.iter().map(alone).collect();
    let hand = Hand::new();
    let over = AtomicBool::new(false);
    let panicked = || Answer::Operation("panic".into(), vec![], None);
    let failure = std::thread::scope(|scope| {
        let (hand, over, inputs, alone) = (&hand, &over, &inputs, &alone);
        let other = scope.spawn(move || {
            let (code, global, local) = &inputs[1];
            let mut program = None;
            let mut failure = None;
            let steps = alone[1].len() + 2;
            let mut step = 0;
            let mut last = false;
            while !last {
                hand.follow(|| loop {
                    last = over.load(Ordering::SeqCst);
                    if last {
                        break;
                    }
                    if step == 0 {
                        program = Some(Program::new(code, global, local));
                    } else if step == steps - 1 {
                        program = None;
                    } else if let Some(program) = &mut program {
                        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ask(program)));
                        let got = got.unwrap_or_else(|_| panicked());
                        if failure.is_none() && !got.equal(&alone[1][step - 1]) {
                            failure = Some(format!("program 1, request {}: alone {:?}, and {got:?} amid a step of another one", step - 1, alone[1][step - 1]));
                        }
                    }
                    step = (step + 1) % steps;
                    if step == 0 || !whole {
                        break;
                    }
                });
            }
            failure
        });
        let (code, global, local) = &inputs[0];
        let mut failure = None;
        let (mut program, mut count, _) = preempt::run(hand, 1, true, || Some(Program::new(code, global, local)));
        for (k, want) in alone[0].iter().enumerate() {
            let program = program.as_mut().unwrap();
            let (response, more, _) = preempt::run(hand, 1, true, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| program.next())));
            count += more;
            let got = response.map_or_else(|_| panicked(), |response| answer(response, program));
            if !got.equal(want) {
                failure = Some(format!("program 0, request {k}: alone {want:?}, and {got:?} with another one between its instructions"));
                break;
            }
        }
        let last = program.take();
        count += preempt::run(hand, 1, true, || drop(last)).1;
        hand.wait();
        over.store(true, Ordering::SeqCst);
        hand.ask(None);
        stats.bulk += count;
        stats.transitions += count;
        other.join().unwrap().or(failure)
    });
    stats.state(Print::new().bytes(blobs[0]).bytes(blobs[at - 1]).add(nums[4] as u64));
    failure.map_or(Ok(()), Err)
}

/// What a program answers up to its end, alone.
fn alone((code, global, local): &Input) -> Vec<Answer> {
    let mut program = Program::new(code, global, local);
    let mut answers = vec![];
    for _ in 0..8 {
        answers.push(ask(&mut program));
        if !matches!(answers.last(), Some(Answer::Operation(..))) {
            break;
        }
    }
    answers
}

/// How many instructions the steps of a program take.
fn instructions(input: &Input) -> Vec<u64> {
    let (code, global, local) = input;
    let mut program = None;
    let mut counts = vec![preempt::measure(|| program = Some(Program::new(code, global, local)))];
    for _ in alone(input) {
        counts.push(preempt::measure(|| {
            let _ = std::hint::black_box(program.as_mut().unwrap().next());
        }));
    }
    let last = program.take();
    counts.push(preempt::measure(|| drop(last)));
    counts
}

/// nums: for each program, whether its table is global, the size of the table, and the index called.
pub fn biased(nums: &[i64], stats: &mut Stats) -> Result<(), String> {
    let mut print = Print::new();
    for (i, step) in nums.chunks(3).enumerate() {
        let (global, count, index) = (step[0] == 1, step[1] as usize, step[2]);
        let bias = if count < 1240 { 107 } else if count < 33900 { 1131 } else { 32768 };
        let table = numbered(count, global);
        let mut code = number((index - bias).clamp(-32768, 32767));
        code.extend([if global { 29 } else { 10 }, 14]);
        let (globals, locals) = if global { (&table[..], &[][..]) } else { (&[][..], &table[..]) };
        let want = expect(&code, globals, locals, 3);
        let mut program = Program::new(&code, globals, locals);
        for want in want.iter().flatten() {
            let got = ask(&mut program);
            stats.transitions += 1;
            if !want.equal(&got) {
                return Err(format!("program {i}: expected {want:?}, got {got:?}"));
            }
        }
        for value in step {
            print = print.add(*value as u64);
        }
        stats.state(print);
    }
    Ok(())
}

type Input = (Vec<u8>, Vec<Vec<u8>>, Vec<Vec<u8>>);

fn inputs() -> Vec<Input> {
    let padded = |first: &[&[u8]], count: usize| -> Vec<Vec<u8>> {
        let mut list: Vec<Vec<u8>> = first.iter().map(|body| body.to_vec()).collect();
        while list.len() < count {
            list.push(vec![0x8c, 11]);
        }
        list
    };
    let stemmed = |stems: usize| {
        let mut writer = Writer { fill: 0x8b, ..Writer::default() };
        writer.operation(HSTEMHM, 2 * stems + 1);
        writer.operation(HINTMASK, 0);
        writer.operation(RMOVETO, 2);
        writer.code.push(14);
        writer.code
    };
    vec![
        // widths, moves
        (vec![0x95, 0x8c, 22, 0x8d, 0x8e, 5, 14], vec![], vec![]),
        // no width, operands left for arithmetic, an error
        (vec![0x8c, 22, 0x8c, 0x8d, 12, 10, 22, 0, 0x8c, 22, 14], vec![], vec![]),
        // stems
        (stemmed(1), vec![], vec![]),
        (stemmed(9), vec![], vec![]),
        // stems declared by every request
        (vec![0x8c, 0x8d, 1, 0x8c, 0x8d, 0x8c, 0x8d, 0x8c, 0x8d, 0x8c, 0x8d, 0x8c, 0x8d, 0x8c, 0x8d, 0x8c, 0x8d, 0x8c, 0x8d, 3, 19, 22, 22, 0x8c, 22, 14], vec![], vec![]),
        // local subroutines
        (vec![0x20, 10, 0x8c, 22, 14], vec![], padded(&[&[0x8c, 0x8d, 5, 11]], 1)),
        // the same number in a global table, and in a table with another bias
        (vec![0x20, 29, 0x8c, 4, 14], padded(&[&[0x8f, 0x8d, 5, 11]], 1), vec![]),
        // operands at the end of the data, and an error in a subroutine
        (vec![0x8c, 22, 0x8c], vec![], vec![]),
        (vec![0x8c, 22, 0x20, 10, 14], vec![], padded(&[&[0x8c, 22, 28]], 1)),
        // deep
        (
            vec![0x20, 10, 14],
            padded(&[&[0x8d, 22, 0x21, 10, 11]], 1),
            padded(&[&[0x8c, 22, 0x20, 29, 0x8e, 22, 11], &[0x90, 0x91, 0x92, 18, 11]], 2),
        ),
        // endchar in a subroutine with a width
        (vec![0x95, 0x20, 10], vec![], padded(&[&[14]], 1)),
    ]
}

/// All interleavings of the given numbers of steps.
fn interleavings(left: &mut [usize], plan: &mut Vec<usize>, all: &mut Vec<Vec<usize>>) {
    if left.iter().all(|left| *left == 0) {
        all.push(plan.clone());
        return;
    }
    for i in 0..left.len() {
        if left[i] > 0 {
            left[i] -= 1;
            plan.push(i);
            interleavings(left, plan, all);
            plan.pop();
            left[i] += 1;
        }
    }
}

/// Two threads, switching between the instructions of the code under test.
fn amid_instructions(ctx: &Ctx, inputs: &[Input]) {
    let mut chosen = inputs.to_vec();
    chosen.push((vec![0x8c, 0x8d, 0x8e, 0x8e, 0x8c, 12, 30, 12, 24, 12, 28, 22, 0x8d, 12, 26, 12, 27, 12, 22, 4, 14], vec![], vec![]));
    let many = chosen.len();
    let pair = |a: usize, b: usize| {
        let mut nums = vec![];
        let mut blobs: Vec<&[u8]> = vec![];
        for i in [a, b] {
            let (code, global, local) = &chosen[i];
            nums.extend([global.len() as i64, local.len() as i64]);
            blobs.push(code);
            blobs.extend(global.iter().chain(local).map(|body| &body[..]));
        }
        (nums, blobs)
    };
    ctx.each_apart("two threads, the one making a step or all after each instruction of the other", (many * many * 2) as u64, |mut index, t| {
        let (a, b) = (crate::run::peel(&mut index, many), crate::run::peel(&mut index, many));
        let (mut nums, blobs) = pair(a, b);
        nums.push(index as i64);
        t.check(CROWDED, &nums, &blobs);
    });
    let mut cases = vec![];
    for (a, input) in chosen.iter().enumerate() {
        if ctx.quick() && ![0, 11].contains(&a) {
            continue;
        }
        let counts = instructions(input);
        let others = ctx.pick(vec![(a * 5 + 4) % many], vec![(a * 5 + 4) % many, (a * 7 + 3) % many]);
        for b in others {
            let steps = alone(&chosen[b]).len() as i64 + 2;
            for (before, within) in ctx.pick(vec![(1, steps)], vec![(0, steps), (1, 3)]) {
                for (step, count) in counts.iter().enumerate() {
                    for from in (1..*count as i64 + 1).step_by(64) {
                        cases.push((a, b, [before, within, step as i64, from, from + 64]));
                    }
                }
            }
        }
    }
    if cases.is_empty() {
        ctx.notes.lock().unwrap().push("preemption: the processor does not trap".into());
    }
    ctx.each_apart("two threads, one preemption after any instruction of any request", cases.len() as u64, |index, t| {
        let (a, b, more) = cases[index as usize];
        let (mut nums, blobs) = pair(a, b);
        nums.extend(more);
        t.check(PREEMPTED, &nums, &blobs);
    });
    let late = preempt::LATE.load(Ordering::SeqCst);
    ctx.notes.lock().unwrap().push(format!("preemption: {late} times the other thread could not do its part right away"));
}

pub fn explore(ctx: &Ctx) {
    let inputs = inputs();
    amid_instructions(ctx, &inputs);
    let many = inputs.len();
    let run = |t: &mut crate::run::T, mode: i64, chosen: &[usize], plan: &[usize]| {
        let mut nums = vec![mode, chosen.len() as i64];
        let mut blobs: Vec<&[u8]> = vec![];
        for i in chosen {
            let (code, global, local) = &inputs[*i];
            nums.extend([global.len() as i64, local.len() as i64]);
            blobs.push(code);
            blobs.extend(global.iter().map(|body| &body[..]));
            blobs.extend(local.iter().map(|body| &body[..]));
        }
        nums.extend(plan.iter().map(|step| *step as i64));
        t.check(SCHEDULE, &nums, &blobs);
    };
    for (count, steps) in ctx.pick(vec![(2, 5), (3, 2), (3, 3)], vec![(2, 7), (3, 3), (3, 4), (4, 2)]) {
        let mut all = vec![];
        interleavings(&mut vec![steps; count], &mut vec![], &mut all);
        let total = (many as u64).pow(count as u32);
        ctx.each(
            &format!("all {} interleavings of {steps} requests each to {count} programs", all.len()),
            total,
            |mut index, t| {
                let chosen: Vec<usize> = (0..count).map(|_| crate::run::peel(&mut index, many)).collect();
                for plan in &all {
                    if t.stopped() {
                        return;
                    }
                    run(t, TOGETHER, &chosen, plan);
                }
                if chosen[..2] == [3, 8] {
                    ctx.sample(format!("programs {} and {}: schedule {:?}", hex(&inputs[3].0), hex(&inputs[8].0), all[all.len() / 2]));
                }
            },
        );
    }
    // Dropping one program at any point of any interleaving.
    let mut all = vec![];
    interleavings(&mut [3, 3], &mut vec![], &mut all);
    ctx.each("dropping a program at any point", (many * many) as u64, |mut index, t| {
        let chosen = [crate::run::peel(&mut index, many), crate::run::peel(&mut index, many)];
        for plan in &all {
            for who in 0..2 {
                for at in 0..plan.len() {
                    let mut plan = plan.clone();
                    plan.insert(at, 100 + who);
                    run(t, TOGETHER, &chosen, &plan);
                }
            }
        }
    });
    // Histories: any sequence of programs run one after another, to any length.
    let length = ctx.pick(4, 5);
    ctx.each(&format!("all histories of {length} programs"), (many as u64).pow(length), |mut index, t| {
        let chosen: Vec<usize> = (0..length).map(|_| crate::run::peel(&mut index, many)).collect();
        for requests in [1, 2, 6] {
            let mut plan = vec![];
            for i in 0..length as usize {
                plan.extend(std::iter::repeat(i).take(if i + 1 == length as usize { 6 } else { requests }));
            }
            run(t, AFRESH, &chosen, &plan);
            run(t, REUSED, &chosen, &plan);
        }
    });
    // Histories of programs that get to any kind of state and end there in any way, then others.
    let states: [&[u8]; 9] = [
        &[],
        &[0x8c, 0x8d],
        &[0x8c, 0x8d, 1],
        &[0x8c, 0x8d, 0x8e, 0x8f, 0x90, 23, 0x8c],
        &[0x8c, 0x8d, 0x8e, 22, 0x95],
        &[0x8c, 0x8d, 22],
        &[0x8c, 0x8d, 22, 22, 0x8c, 0x8d, 1, 0x8c, 0x8d, 18],
        &[0x8c, 0x8d, 12, 10],
        &[0x8c, 0x8d, 0x8e, 0x8c, 0x8d, 20, 0xff],
    ];
    let endings: [&[u8]; 14] = [
        &[14],
        &[],
        &[0],
        &[12, 99],
        &[12, 20],
        &[12, 23],
        &[12],
        &[28, 1],
        &[0x8c, 0x8c, 12, 11, 12, 11, 12, 11, 12, 11, 12, 11],
        &[11],
        &[0xf6, 10],
        &[0x8b, 0xff, 0, 0, 0x80, 0, 29],
        &[0x8c, 24],
        &[19],
    ];
    let mut programs: Vec<Input> = inputs.clone();
    for state in states {
        for ending in endings {
            let code = [state, ending].concat();
            programs.push((code.clone(), vec![], vec![]));
            programs.push((vec![0x8d, 0x20, 10, 19, 0x8f, 0x8f, 21, 14], vec![], vec![code]));
        }
    }
    programs.push((vec![0x20, 10], vec![], vec![vec![0x20, 10]]));
    programs.push((vec![0x20, 29], vec![vec![0x20, 10]], vec![vec![0x8c, 0x8d, 1, 0x20, 29]]));
    let base = programs.len() as u64;
    let more = ctx.pick(2, 3);
    for length in 2..=more {
        ctx.each(&format!("all histories of {length} programs that end in any way in any state"), base.pow(length), |mut index, t| {
            let mut nums = vec![[AFRESH, REUSED][index as usize % 2], length as i64];
            let mut blobs: Vec<&[u8]> = vec![];
            for _ in 0..length {
                let (code, global, local) = &programs[crate::run::peel(&mut index, base as usize)];
                nums.extend([global.len() as i64, local.len() as i64]);
                blobs.push(code);
                blobs.extend(global.iter().chain(local).map(|body| &body[..]));
            }
            for i in 0..length as i64 {
                nums.extend([i; 6]);
            }
            t.check(SCHEDULE, &nums, &blobs);
        });
    }
    // Histories over tables of different sizes.
    let sizes = [1i64, 107, 1239, 1240, 33899, 33900];
    let kinds = 2 * sizes.len();
    for length in 2..=ctx.pick(3u32, 4) {
        ctx.each(
            &format!("all histories of {length} programs over tables of different sizes"),
            (kinds as u64).pow(length),
            |mut index, t| {
                let chosen: Vec<usize> = (0..length).map(|_| crate::run::peel(&mut index, kinds)).collect();
                for border in 0..4 {
                    let mut nums = vec![];
                    for kind in &chosen {
                        let size = sizes[kind / 2];
                        nums.extend_from_slice(&[(kind % 2) as i64, size, [0, size - 1, size, 1131 - 107][border]]);
                    }
                    t.check(BIASED, &nums, &[]);
                }
            },
        );
    }
    // Histories over the same memory, of programs that differ in one place only.
    let variants: Vec<Input> = vec![
        (vec![0x8c, 0x20, 10, 14], vec![], vec![vec![22, 11]]),
        (vec![0x8d, 0x20, 10, 14], vec![], vec![vec![22, 11]]),
        (vec![0x8c, 0x20, 10, 14], vec![], vec![vec![4, 11]]),
        (vec![0x8c, 0x20, 10, 14], vec![vec![22, 11]], vec![vec![22, 14]]),
        (vec![0x8c, 0x20, 29, 14], vec![vec![22, 11]], vec![vec![4, 11]]),
        (vec![0x8c, 0x20, 29, 14], vec![vec![6, 11]], vec![vec![4, 11]]),
        (vec![0x8c, 0x20, 10, 11], vec![], vec![vec![22, 11]]),
        (vec![0x8c, 0x21, 10, 14], vec![], vec![vec![22, 11], vec![6, 11]]),
        (vec![0x8c, 0x21, 10, 14], vec![], vec![vec![22, 11]]),
        (vec![0x8c, 0x8d, 22, 14], vec![], vec![]),
        (vec![0x8c, 0x8d, 21, 14], vec![], vec![]),
        (vec![0x8c, 0x8d, 19, 14], vec![], vec![]),
        (vec![0x8c, 0x8d, 18, 14], vec![], vec![]),
        (vec![0x8c, 0x8d, 13, 14], vec![], vec![]),
    ];
    let many = variants.len();
    let length = ctx.pick(4u32, 5);
    ctx.each(&format!("all histories of {length} similar programs over the same memory"), (many as u64).pow(length), |mut index, t| {
        let mut nums = vec![REUSED, length as i64];
        let mut blobs: Vec<&[u8]> = vec![];
        for _ in 0..length {
            let (code, global, local) = &variants[crate::run::peel(&mut index, many)];
            nums.extend([global.len() as i64, local.len() as i64]);
            blobs.push(code);
            blobs.extend(global.iter().map(|body| &body[..]));
            blobs.extend(local.iter().map(|body| &body[..]));
        }
        for i in 0..length as i64 {
            nums.extend([i, i, i]);
        }
        t.check(SCHEDULE, &nums, &blobs);
    });
    // Pairs and triples of these over the same code and tables, all interleavings.
    for (count, steps) in [(2usize, 3usize), (3, 2)] {
        let mut all = vec![];
        interleavings(&mut vec![steps; count], &mut vec![], &mut all);
        ctx.each(
            &format!("all {} interleavings of {steps} requests each to {count} similar programs that share code and tables", all.len()),
            (many as u64).pow(count as u32),
            |mut index, t| {
                let mut head = vec![TOGETHER, count as i64];
                let mut blobs: Vec<&[u8]> = vec![];
                for _ in 0..count {
                    let (code, global, local) = &variants[crate::run::peel(&mut index, many)];
                    head.extend([global.len() as i64, local.len() as i64]);
                    blobs.push(code);
                    blobs.extend(global.iter().chain(local).map(|body| &body[..]));
                }
                for plan in &all {
                    let mut nums = head.clone();
                    nums.extend(plan.iter().map(|step| *step as i64));
                    t.check(SCHEDULE, &nums, &blobs);
                }
            },
        );
    }
    let many = inputs.len();
    // Programs that are handed over between two threads, for every request anew.
    for steps in ctx.pick(vec![[3usize, 2], [5, 1]], vec![[4, 4], [6, 1]]) {
        let mut all = vec![];
        interleavings(&mut steps.clone(), &mut vec![], &mut all);
        ctx.each(
            &format!("all {} interleavings of {steps:?} requests to 2 programs, each request on either of two threads", all.len()),
            (many * many) as u64,
            |mut index, t| {
                let chosen = [crate::run::peel(&mut index, many), crate::run::peel(&mut index, many)];
                for plan in &all {
                    for threads in 0..1usize << plan.len() {
                        if t.stopped() {
                            return;
                        }
                        let plan: Vec<usize> =
                            plan.iter().enumerate().map(|(k, step)| step + 1000 * (threads >> k & 1)).collect();
                        run(t, MOVED, &chosen, &plan);
                    }
                }
            },
        );
    }
    // One thread for each program, all schedules.
    for (count, steps) in ctx.pick(vec![(2, 4)], vec![(2, 5), (3, 2)]) {
        let mut all = vec![];
        interleavings(&mut vec![steps; count], &mut vec![], &mut all);
        ctx.each(
            &format!("all {} schedules of {steps} requests on each of {count} threads", all.len()),
            (many as u64).pow(count as u32),
            |mut index, t| {
                let chosen: Vec<usize> = (0..count).map(|_| crate::run::peel(&mut index, many)).collect();
                for plan in &all {
                    if t.stopped() {
                        return;
                    }
                    run(t, THREADS, &chosen, plan);
                }
            },
        );
    }
}
