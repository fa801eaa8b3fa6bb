//! Bounded exhaustive exploration of bodoni/postscript against reference models.
//!
//!     mc check <property>     explore (VERIF_TIER, VERIF_SEED), write evidence, report
//!     mc replay <file>        execute one recorded case
//!     mc list

mod alloc;
mod fontbuild;
mod checks;
mod model;
mod preempt;
mod run;

use std::os::unix::process::ExitStatusExt;
use std::process::{Command, ExitCode};
use std::sync::atomic::{AtomicBool, AtomicUsize};
use std::sync::Arc;
use std::time::{Duration, Instant};

use run::{active_cases, guarded, install_panic_hook, map_slots, Case, Ctx, Stats, Tier, Violation};

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".to_string())
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn find(id: &str) -> checks::Check {
    checks::all().into_iter().find(|check| check.id == id).unwrap_or_else(|| {
        eprintln!("no check for {id}");
        std::process::exit(2)
    })
}

fn main() -> ExitCode {
    let arguments: Vec<String> = std::env::args().collect();
    match arguments.get(1).map(String::as_str) {
        Some("check") => parent(&arguments[2]),
        Some("worker") => worker(&arguments[2], &arguments[3]),
        Some("replay") => replay(&arguments[2]),
        Some("list") => {
            for check in checks::all() {
                println!("{}", check.id);
            }
            ExitCode::SUCCESS
        }
        _ => {
            eprintln!("usage: mc check <property> | mc replay <file> | mc list");
            ExitCode::from(2)
        }
    }
}

fn replay(path: &str) -> ExitCode {
    install_panic_hook();
    let text = std::fs::read_to_string(path).expect("replay file");
    let (property, case) = Case::from_text(&text);
    let exec = find(&property).exec;
    // The same stack as the exploring threads have.
    let result = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let blobs: Vec<&[u8]> = case.blobs.iter().map(|blob| &blob[..]).collect();
            guarded(exec, case.kind, &case.nums, &blobs, &mut Stats::default())
        })
        .unwrap()
        .join()
        .unwrap();
    match result {
        Ok(()) => {
            println!("the property {property} holds on this case");
            ExitCode::SUCCESS
        }
        Err(message) => {
            println!("{message}");
            println!("VIOLATION property={property} replay={path}");
            ExitCode::from(1)
        }
    }
}

fn worker(id: &str, scratch: &str) -> ExitCode {
    install_panic_hook();
    let check = find(id);
    let slots = map_slots(&format!("{scratch}/slots"));
    let ctx = Arc::new(Ctx::new(id, tier(), check.exec, slots));
    let finished = Arc::new(AtomicBool::new(false));
    {
        let (ctx, finished) = (ctx.clone(), finished.clone());
        std::thread::spawn(move || ctx.watch(&finished, &AtomicUsize::new(0)));
    }
    (check.explore)(&ctx);
    finished.store(true, std::sync::atomic::Ordering::Relaxed);
    let ctx = loop {
        match std::thread::sleep(Duration::from_millis(1)) {
            () if Arc::strong_count(&ctx) == 1 => break Arc::try_unwrap(ctx).ok().unwrap(),
            () => {}
        }
    };
    let (stats, violations, samples, notes) = ctx.into_result();
    let mut text = String::new();
    text.push_str(&format!("states {}\n", stats.states.len()));
    text.push_str(&format!("outcomes {}\n", stats.outcomes.len()));
    text.push_str(&format!("transitions {}\n", stats.transitions));
    text.push_str(&format!("executions {}\n", stats.executions));
    text.push_str(&format!("bulk {}\n", stats.bulk));
    for sample in &samples {
        text.push_str(&format!("sample {}\n", sample.replace('\n', " ")));
    }
    for note in &notes {
        text.push_str(&format!("note {note}\n"));
    }
    text.push_str(&format!("violations {}\n", violations.len()));
    for (i, violation) in violations.iter().enumerate() {
        std::fs::write(
            format!("{scratch}/violation-{i}"),
            violation.case.to_text(id, &violation.message),
        )
        .unwrap();
    }
    std::fs::write(format!("{scratch}/result"), text).unwrap();
    ExitCode::SUCCESS
}

fn quote(text: &str) -> String {
    let mut out = String::from("\"");
    for character in text.chars() {
        match character {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

/// The known findings that are listed (not fixed) for a property: the text of their cases.
fn known(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    let mut list = vec![];
    for line in text.lines() {
        // known: property=C00 case=<kind>;<nums>;<hex>,<hex> <what fails>
        if let Some(rest) = line.strip_prefix("known: ") {
            let mut words = rest.splitn(3, ' ');
            let property = words.next().unwrap_or("").trim_start_matches("property=");
            let case = words.next().unwrap_or("").trim_start_matches("case=");
            if property == id {
                list.push((case.to_string(), words.next().unwrap_or("").to_string()));
            }
        }
    }
    list
}

fn key(case: &Case) -> String {
    let nums: Vec<_> = case.nums.iter().map(|num| num.to_string()).collect();
    let blobs: Vec<_> = case.blobs.iter().map(|blob| run::hex(blob)).collect();
    format!("{};{};{}", case.kind, nums.join(","), blobs.join(","))
}

/// Run a command with a time limit.
fn run_limited(command: &mut Command, limit: Duration) -> Option<std::process::ExitStatus> {
    let mut child = command.spawn().expect("spawn");
    let started = Instant::now();
    loop {
        if let Some(status) = child.try_wait().expect("wait") {
            return Some(status);
        }
        if started.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn parent(id: &str) -> ExitCode {
    let check = find(id);
    let tier = tier();
    let started = Instant::now();
    let scratch = format!("{}/target/run/{id}-{}", root(), std::process::id());
    std::fs::create_dir_all(&scratch).expect("scratch");
    let this = std::env::current_exe().unwrap();
    let limit = if tier == Tier::Quick { 600 } else { 6 * 3600 };
    let status = run_limited(
        Command::new(&this).args(["worker", id, &scratch]),
        Duration::from_secs(limit),
    );
    let mut violations: Vec<Violation> = vec![];
    let (mut states, mut outcomes, mut transitions, mut executions, mut bulk) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut notes = vec![];
    let mut error = None;
    if matches!(status, Some(status) if status.success()) {
        let result = std::fs::read_to_string(format!("{scratch}/result")).expect("result");
        for line in result.lines() {
            let (word, rest) = line.split_once(' ').unwrap_or((line, ""));
            match word {
                "states" => states = rest.parse().unwrap(),
                "outcomes" => outcomes = rest.parse().unwrap(),
                "transitions" => transitions = rest.parse().unwrap(),
                "executions" => executions = rest.parse().unwrap(),
                "bulk" => bulk = rest.parse().unwrap(),
                "sample" => samples.push(rest.to_string()),
                "note" => notes.push(rest.to_string()),
                "violations" => {
                    for i in 0..rest.parse::<usize>().unwrap() {
                        let text = std::fs::read_to_string(format!("{scratch}/violation-{i}")).unwrap();
                        let message = text.lines().find(|line| line.starts_with("# ")).unwrap_or("")[2..].to_string();
                        violations.push(Violation { case: Case::from_text(&text).1, message });
                    }
                }
                _ => {}
            }
        }
    } else {
        // The explorer itself died or hung: find out on which case.
        let why = match status {
            None => "no answer in time".to_string(),
            Some(status) => match status.signal() {
                Some(signal) => format!("killed by signal {signal}"),
                None if status.code() == Some(77) => "a case does not finish".to_string(),
                None => format!("exit {:?}", status.code()),
            },
        };
        for case in active_cases(&format!("{scratch}/slots")) {
            let path = format!("{scratch}/suspect");
            std::fs::write(&path, case.to_text(id, &why)).unwrap();
            let mut command = Command::new(&this);
            command.args(["replay", &path]);
            command.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
            let message = match run_limited(&mut command, Duration::from_secs(30)) {
                None => "does not finish within 30 s".to_string(),
                Some(status) => match status.signal() {
                    Some(signal) => format!("kills the process with signal {signal}"),
                    None if status.code() == Some(1) => "fails".to_string(),
                    None => continue,
                },
            };
            violations.push(Violation { case, message });
        }
        if violations.is_empty() {
            error = Some(why);
        }
    }
    violations.sort_by_key(|violation| {
        (violation.case.blobs.iter().map(Vec::len).sum::<usize>(), key(&violation.case))
    });
    let known = known(id);
    let mut unlisted = 0;
    for violation in &violations {
        let key = key(&violation.case);
        if let Some((_, what)) = known.iter().find(|(case, _)| *case == key) {
            println!("KNOWN-FINDING: property={id} {what}");
            continue;
        }
        unlisted += 1;
        let directory = format!("{}/replays", root());
        std::fs::create_dir_all(&directory).unwrap();
        let path = format!("{directory}/{id}-{unlisted}.case");
        std::fs::write(&path, violation.case.to_text(id, &violation.message)).unwrap();
        if unlisted <= 3 {
            println!("{}: {}", id, violation.message);
            println!("VIOLATION property={id} replay={path}");
        }
    }
    // Evidence.
    let list = |items: &[String]| items.iter().map(|item| quote(item)).collect::<Vec<_>>().join(", ");
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|seed| seed.parse().ok()).unwrap_or(0);
    let exhaustive = error.is_none() && violations.is_empty();
    let counts = match check.level {
        "model_checking" => format!(
            "\"states\": {states}, \"transitions\": {transitions}, \"traces_validated_against_impl\": {executions}"
        ),
        _ => format!("\"evaluations\": {executions}, \"distinct_nontrivial\": {states}"),
    };
    let evidence = format!(
        "{{\"property\": {}, \"tier\": \"{}\", \"seed\": {seed}, \"level\": {}, \"coverage\": {{{counts}, \"distinct_outcomes\": {outcomes}, \"bulk_inputs\": {bulk}, \"exhaustive\": {exhaustive}, \"rule\": {}, \"bounds\": [{}], \"samples\": [{}]}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {unlisted}}}\n",
        quote(id),
        if tier == Tier::Quick { "quick" } else { "thorough" },
        quote(check.level),
        quote(checks::about::rule(id)),
        list(&notes),
        list(&samples),
        checks::about::assumptions(id).iter().map(|item| quote(item)).collect::<Vec<_>>().join(", "),
        started.elapsed().as_secs_f64(),
    );
    std::fs::create_dir_all(format!("{}/evidence", root())).unwrap();
    std::fs::write(format!("{}/evidence/{id}.json", root()), evidence).unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
    if unlisted > 0 {
        return ExitCode::from(1);
    }
    if let Some(error) = error {
        eprintln!("{id}: the explorer failed: {error}");
        return ExitCode::from(2);
    }
    println!(
        "{id}: held on {executions} executions ({states} states, {transitions} transitions, {bulk} bulk inputs, {outcomes} distinct outcomes) in {:.1} s",
        started.elapsed().as_secs_f64()
    );
    ExitCode::SUCCESS
}
