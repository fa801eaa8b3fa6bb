pub mod about;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod cff;
pub mod gen;
pub mod t2;

use std::collections::VecDeque;

use crate::model::t2::{Machine, Out};
use crate::run::{digits, hex, pow, Ctx, Exec, Set};

pub struct Check {
    pub id: &'static str,
    pub explore: fn(&Ctx),
    pub exec: Exec,
    pub level: &'static str,
}

pub fn all() -> Vec<Check> {
    vec![
        Check { id: "C01", explore: c01::explore, exec: t2::operations, level: "model_checking" },
        Check { id: "C02", explore: c02::explore, exec: t2::operations, level: "model_checking" },
        Check { id: "C03", explore: c03::explore, exec: t2::operations, level: "model_checking" },
        Check { id: "C04", explore: c04::explore, exec: t2::operations, level: "model_checking" },
        Check { id: "C05", explore: c05::explore, exec: t2::everything, level: "model_checking" },
        Check { id: "C06", explore: c06::explore, exec: t2::operations, level: "model_checking" },
        Check { id: "C07", explore: c07::explore, exec: t2::total, level: "model_checking" },
        Check { id: "C08", explore: c08::explore, exec: c08::exec, level: "model_checking" },
        Check { id: "C09", explore: c09::explore, exec: c09::exec, level: "model_checking" },
        Check { id: "C10", explore: c10::explore, exec: c10::exec, level: "model_checking" },
        Check { id: "C11", explore: c11::explore, exec: c11::exec, level: "model_checking" },
        Check { id: "C12", explore: c12::explore, exec: c12::exec, level: "model_checking" },
        Check { id: "C13", explore: c13::explore, exec: cff::each_format, level: "model_checking" },
        Check { id: "C14", explore: c14::explore, exec: cff::each_format, level: "model_checking" },
        Check { id: "C19", explore: c19::explore, exec: cff::exec, level: "model_checking" },
        Check { id: "C15", explore: c15::explore, exec: c15::exec, level: "model_checking" },
        Check { id: "C16", explore: c16::explore, exec: cff::each_format, level: "model_checking" },
        Check { id: "C17", explore: c17::explore, exec: c17::exec, level: "model_checking" },
        Check { id: "C18", explore: c18::explore, exec: cff::exec, level: "model_checking" },
        Check { id: "C20", explore: c20::explore, exec: cff::exec, level: "model_checking" },
        Check { id: "C21", explore: c21::explore, exec: t2::everything, level: "model_checking" },
    ]
}

/// Execute all programs `prefix token^depth suffix` over an alphabet of tokens.
pub fn tree(
    ctx: &Ctx,
    name: &str,
    alphabet: &[Vec<u8>],
    depth: usize,
    prefix: &[u8],
    suffix: &[u8],
    subroutines: &[&[u8]],
) {
    let base = alphabet.len() as u64;
    let total = pow(base, depth);
    ctx.each(&format!("{name}, {depth} tokens"), total, |index, t| {
        let mut word = vec![];
        digits(index, base, depth, &mut word);
        let mut code = prefix.to_vec();
        for digit in &word {
            code.extend_from_slice(&alphabet[*digit]);
        }
        code.extend_from_slice(suffix);
        let mut blobs: Vec<&[u8]> = vec![&code];
        blobs.extend_from_slice(subroutines);
        t.check(t2::PROGRAM, &[0], &blobs);
        if index == total / 3 {
            ctx.sample(format!("{name}: charstring {}", hex(&code)));
        }
    });
}

/// Explore the states of the reference machine breadth-first, deduplicated, up to a depth or to a
/// fixed point, and replay every transition on the real interpreter.
///
/// The first history that reaches a state represents it; `within` bounds the states.
pub fn search(
    ctx: &Ctx,
    name: &str,
    alphabet: &[Vec<u8>],
    suffix: &[u8],
    depth: usize,
    within: impl Fn(&Machine) -> bool,
) {
    let mut seen = Set::default();
    let mut frontier: VecDeque<Vec<u8>> = VecDeque::from([vec![]]);
    let mut level = 0;
    let mut complete = false;
    let mut edges = 0u64;
    while level < depth && !ctx.stopped() {
        // Replay all transitions out of this level on the real code.
        let histories: Vec<Vec<u8>> = frontier.iter().cloned().collect();
        let base = alphabet.len() as u64;
        ctx.each(
            &format!("{name}: breadth-first level {level}"),
            histories.len() as u64 * base,
            |index, t| {
                let mut code = histories[(index / base) as usize].clone();
                code.extend_from_slice(&alphabet[(index % base) as usize]);
                code.extend_from_slice(suffix);
                t.check(t2::PROGRAM, &[0], &[&code]);
            },
        );
        let mut next = VecDeque::new();
        for history in frontier.iter() {
            for token in alphabet {
                edges += 1;
                let mut code = history.clone();
                code.extend_from_slice(token);
                let mut machine = Machine::new(&code, &[], &[]);
                // Run to the end of the code; operations clear the stack and go on.
                let mut last = None;
                let live = loop {
                    match machine.next(|machine| last = Some(machine.print().0)) {
                        Out::Op(..) => continue,
                        Out::End | Out::EndOrError => break true,
                        Out::Error | Out::Any => break false,
                    }
                };
                let Some(print) = last else { continue };
                if live && within(&machine) && seen.insert(print) {
                    next.push_back(code);
                }
            }
        }
        level += 1;
        frontier = next;
        if frontier.is_empty() {
            complete = true;
            break;
        }
    }
    let line = format!(
        "{name}: {} states, {edges} transitions, {} levels, {}",
        seen.len(),
        level,
        if complete { "fixed point reached" } else { "bounded by depth" }
    );
    eprintln!("[{}] {line}", ctx.property);
    ctx.notes.lock().unwrap().push(line);
}
