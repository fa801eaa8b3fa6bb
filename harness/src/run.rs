//! The explorer: exhaustive parallel enumeration, attribution of panics,
//! crashes and hangs to a case, replay files and evidence.

use std::any::Any;
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A hasher for values that are already hashes.
#[derive(Default)]
pub struct Identity(u64);
impl Hasher for Identity {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, value: u64) {
        self.0 = value;
    }
}
pub type Set = HashSet<u64, BuildHasherDefault<Identity>>;

/// A 64-bit fingerprint (multiply-xor over words).
#[derive(Clone, Copy)]
pub struct Print(pub u64);
impl Print {
    pub fn new() -> Self {
        Print(0x9e37_79b9_7f4a_7c15)
    }
    #[inline]
    pub fn add(mut self, value: u64) -> Self {
        self.0 = (self.0 ^ value).wrapping_mul(0xff51_afd7_ed55_8ccd);
        self.0 ^= self.0 >> 32;
        self.0 = self.0.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        self.0 ^= self.0 >> 29;
        self
    }
    pub fn bytes(mut self, value: &[u8]) -> Self {
        self = self.add(value.len() as u64 ^ 0xabcd);
        for chunk in value.chunks(8) {
            let mut word = [0; 8];
            word[..chunk.len()].copy_from_slice(chunk);
            self = self.add(u64::from_le_bytes(word));
        }
        self
    }
}

/// What executions contribute to the evidence.
#[derive(Default)]
pub struct Stats {
    pub states: Set,
    pub outcomes: Set,
    pub transitions: u64,
    pub executions: u64,
    /// Inputs evaluated in bulk loops inside one execution.
    pub bulk: u64,
}

impl Stats {
    #[inline]
    pub fn state(&mut self, print: Print) {
        // Beyond this, states are no longer counted, so as to limit memory.
        if self.states.len() < 1 << 24 {
            self.states.insert(print.0);
        }
    }
    #[inline]
    pub fn outcome(&mut self, print: Print) {
        if self.outcomes.len() < 1 << 20 {
            self.outcomes.insert(print.0);
        }
    }
}

/// A case: everything needed to execute it again.
#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub kind: u32,
    pub nums: Vec<i64>,
    pub blobs: Vec<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub case: Case,
    pub message: String,
}

pub type Exec = fn(u32, &[i64], &[&[u8]], &mut Stats) -> Result<(), String>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub const THREADS: usize = 8;
pub const SLOT: usize = 1 << 21;
pub const HANG_SECONDS: u64 = 20;

pub struct Ctx {
    pub property: String,
    pub tier: Tier,
    pub exec: Exec,
    slots: *mut u8,
    stop: AtomicBool,
    violations: Mutex<Vec<Violation>>,
    stats: Mutex<Stats>,
    samples: Mutex<Vec<String>>,
    /// Whether the running phase has a sample; and its name.
    sampled: AtomicBool,
    phase: Mutex<String>,
    pub notes: Mutex<Vec<String>>,
    pub started: Instant,
}
unsafe impl Sync for Ctx {}
unsafe impl Send for Ctx {}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn prctl(option: i32, value: u64) -> i32;
    fn _exit(status: i32) -> !;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, offset: i64) -> *mut u8;
}

pub fn map_slots(path: &str) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let file = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)
        .expect("slot file");
    file.set_len((THREADS * SLOT) as u64).expect("slot file size");
    let pointer =
        unsafe { mmap(std::ptr::null_mut(), THREADS * SLOT, 3, 1, file.as_raw_fd(), 0) };
    assert!(pointer as isize != -1, "mmap failed");
    std::mem::forget(file);
    pointer
}

// A slot: [sequence u64][active u64][length u64][payload].
fn slot_encode(kind: u32, nums: &[i64], blobs: &[&[u8]], buffer: &mut [u8]) -> usize {
    let mut at = 0;
    macro_rules! put(($bytes:expr) => ({
        let bytes: &[u8] = $bytes;
        if at + bytes.len() > buffer.len() { return usize::MAX; }
        buffer[at..at + bytes.len()].copy_from_slice(bytes);
        at += bytes.len();
    }));
    put!(&kind.to_le_bytes());
    put!(&(nums.len() as u32).to_le_bytes());
    for num in nums {
        put!(&num.to_le_bytes());
    }
    put!(&(blobs.len() as u32).to_le_bytes());
    for blob in blobs {
        put!(&(blob.len() as u32).to_le_bytes());
        put!(blob);
    }
    at
}

fn slot_decode(buffer: &[u8]) -> Option<Case> {
    let mut at = 0;
    let mut get = |count: usize| -> Option<&[u8]> {
        let chunk = buffer.get(at..at + count)?;
        at += count;
        Some(chunk)
    };
    let kind = u32::from_le_bytes(get(4)?.try_into().ok()?);
    let count = u32::from_le_bytes(get(4)?.try_into().ok()?);
    let mut nums = vec![];
    for _ in 0..count {
        nums.push(i64::from_le_bytes(get(8)?.try_into().ok()?));
    }
    let count = u32::from_le_bytes(get(4)?.try_into().ok()?);
    let mut blobs = vec![];
    for _ in 0..count {
        let length = u32::from_le_bytes(get(4)?.try_into().ok()?) as usize;
        blobs.push(get(length)?.to_vec());
    }
    Some(Case { kind, nums, blobs })
}

/// Read the active cases out of a slot file.
pub fn active_cases(path: &str) -> Vec<Case> {
    let data = std::fs::read(path).unwrap_or_default();
    let mut cases = vec![];
    for slot in data.chunks(SLOT) {
        if slot.len() < SLOT {
            continue;
        }
        let active = u64::from_le_bytes(slot[8..16].try_into().unwrap());
        let length = u64::from_le_bytes(slot[16..24].try_into().unwrap()) as usize;
        if active == 1 && length <= SLOT - 24 {
            if let Some(case) = slot_decode(&slot[24..24 + length]) {
                cases.push(case);
            }
        }
    }
    cases
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|information| {
        let message = payload(information.payload());
        let place = information
            .location()
            .map(|location| format!("{}:{}", location.file(), location.line()))
            .unwrap_or_default();
        if !GUARDED.try_with(|guarded| guarded.get()).unwrap_or(true) {
            eprintln!("the explorer panicked: {message} at {place}");
        }
        let _ = PANIC.try_with(|panic| *panic.borrow_mut() = format!("{message} at {place}"));
    }));
}

fn payload(any: &(dyn Any + Send)) -> String {
    if let Some(message) = any.downcast_ref::<&str>() {
        message.to_string()
    } else if let Some(message) = any.downcast_ref::<String>() {
        message.clone()
    } else {
        "panic".to_string()
    }
}

/// Execute one case, turning a panic into a failure.
pub fn guarded(
    exec: Exec,
    kind: u32,
    nums: &[i64],
    blobs: &[&[u8]],
    stats: &mut Stats,
) -> Result<(), String> {
    GUARDED.with(|guarded| guarded.set(true));
    let result = catch_unwind(AssertUnwindSafe(|| exec(kind, nums, blobs, stats)));
    GUARDED.with(|guarded| guarded.set(false));
    match result {
        Ok(result) => result,
        Err(_) => Err(format!("panic: {}", PANIC.with(|panic| panic.borrow().clone()))),
    }
}

/// The context of one exploring thread.
pub struct T<'a> {
    pub ctx: &'a Ctx,
    slot: *mut u8,
    pub stats: Stats,
}

impl<'a> T<'a> {
    /// Execute one case on the real code against its oracle.
    #[inline]
    pub fn check(&mut self, kind: u32, nums: &[i64], blobs: &[&[u8]]) -> bool {
        unsafe {
            let sequence = self.slot as *mut u64;
            let active = sequence.add(1);
            let length = sequence.add(2);
            active.write_volatile(0);
            let payload = std::slice::from_raw_parts_mut(self.slot.add(24), SLOT - 24);
            let count = slot_encode(kind, nums, blobs, payload);
            assert!(count != usize::MAX, "a case is too large for its slot");
            length.write_volatile(count as u64);
            sequence.write_volatile(sequence.read_volatile() + 1);
            active.write_volatile(1);
        }
        self.stats.executions += 1;
        let result = guarded(self.ctx.exec, kind, nums, blobs, &mut self.stats);
        if !self.ctx.sampled.load(Ordering::Relaxed) && !self.ctx.sampled.swap(true, Ordering::Relaxed) {
            self.ctx.sample_case(kind, nums, blobs);
        }
        unsafe {
            (self.slot as *mut u64).add(1).write_volatile(0);
        }
        match result {
            Ok(()) => true,
            Err(message) => {
                self.ctx.violate(
                    Case {
                        kind,
                        nums: nums.to_vec(),
                        blobs: blobs.iter().map(|blob| blob.to_vec()).collect(),
                    },
                    message,
                );
                false
            }
        }
    }

    pub fn stopped(&self) -> bool {
        self.ctx.stopped()
    }
}

impl Ctx {
    pub fn new(property: &str, tier: Tier, exec: Exec, slots: *mut u8) -> Self {
        Ctx {
            property: property.to_string(),
            tier,
            exec,
            slots,
            stop: AtomicBool::new(false),
            violations: Mutex::new(vec![]),
            stats: Mutex::new(Stats::default()),
            samples: Mutex::new(vec![]),
            sampled: AtomicBool::new(false),
            phase: Mutex::new(String::new()),
            notes: Mutex::new(vec![]),
            started: Instant::now(),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// Choose a bound by tier.
    pub fn pick<V>(&self, quick: V, thorough: V) -> V {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    pub fn violate(&self, case: Case, message: String) {
        let mut violations = self.violations.lock().unwrap();
        if violations.len() < 16 {
            violations.push(Violation { case, message });
        }
        self.stop.store(true, Ordering::Relaxed);
    }

    pub fn sample(&self, text: String) {
        let mut samples = self.samples.lock().unwrap();
        if samples.len() < 64 {
            samples.push(text);
        }
    }

    /// Keep the first case of a phase as a sample.
    fn sample_case(&self, kind: u32, nums: &[i64], blobs: &[&[u8]]) {
        let blobs: Vec<_> = blobs
            .iter()
            .take(4)
            .map(|blob| match blob.len() {
                0..=200 => hex(blob),
                length => format!("{}... ({length} bytes)", hex(&blob[..200])),
            })
            .collect();
        let phase = self.phase.lock().unwrap().clone();
        self.sample(format!("{phase}: case kind {kind}, numbers {nums:?}, data {}", blobs.join(" | ")));
    }

    /// Enumerate `0..total` completely, in parallel.
    pub fn each<F>(&self, name: &str, total: u64, body: F)
    where
        F: Fn(u64, &mut T) + Sync,
    {
        if self.stopped() {
            return;
        }
        let started = Instant::now();
        *self.phase.lock().unwrap() = name.to_string();
        self.sampled.store(false, Ordering::Relaxed);
        let before = self.stats.lock().unwrap().executions;
        let chunk = (total / (THREADS as u64 * 64)).clamp(1, 4096);
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        std::thread::scope(|scope| {
            let workers = (THREADS as u64).min(total.max(1)) as usize;
            for id in 0..workers {
                let (next, body, done) = (&next, &body, &done);
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(scope, move || {
                        let mut t = T {
                            ctx: self,
                            slot: unsafe { self.slots.add(id * SLOT) },
                            stats: Stats::default(),
                        };
                        let mut count = 0;
                        'outer: loop {
                            let start = next.fetch_add(chunk, Ordering::Relaxed);
                            if start >= total {
                                break;
                            }
                            for i in start..(start + chunk).min(total) {
                                if self.stopped() {
                                    break 'outer;
                                }
                                body(i, &mut t);
                                count += 1;
                            }
                        }
                        done.fetch_add(count, Ordering::Relaxed);
                        let mut stats = self.stats.lock().unwrap();
                        stats.transitions += t.stats.transitions;
                        stats.executions += t.stats.executions;
                        stats.bulk += t.stats.bulk;
                        if stats.states.is_empty() {
                            stats.states = std::mem::take(&mut t.stats.states);
                        } else if stats.states.len() < 1 << 27 {
                            stats.states.extend(t.stats.states.drain());
                        }
                        stats.outcomes.extend(t.stats.outcomes.drain());
                    })
                    .expect("thread");
            }
        });
        let after = self.stats.lock().unwrap().executions;
        let done = done.load(Ordering::Relaxed);
        let line = format!(
            "{name}: {done} of {total} index points, {} executions, {:.1} s",
            after - before,
            started.elapsed().as_secs_f64()
        );
        eprintln!("[{}] {line}", self.property);
        self.notes.lock().unwrap().push(line);
    }

    /// Enumerate `0..total` completely, in parallel, in a process for each worker: nothing that the code
    /// under test may keep for the whole process is shared with other workers.
    pub fn each_apart<F>(&self, name: &str, total: u64, body: F)
    where
        F: Fn(u64, &mut T) + Sync,
    {
        if self.stopped() {
            return;
        }
        let started = Instant::now();
        *self.phase.lock().unwrap() = name.to_string();
        let before = self.samples.lock().unwrap().len();
        let mut pipes = vec![];
        for id in 0..THREADS {
            let (reader, mut writer) = std::io::pipe().expect("a pipe");
            match unsafe { fork() } {
                0 => {
                    unsafe { prctl(1, 9) };
                    self.sampled.store(id > 0, Ordering::Relaxed);
                    let mut stats = Stats::default();
                    let mut done = 0u64;
                    std::thread::scope(|scope| {
                        let (stats, done, body) = (&mut stats, &mut done, &body);
                        std::thread::Builder::new()
                            .stack_size(2 << 20)
                            .spawn_scoped(scope, move || {
                                let mut t = T { ctx: self, slot: unsafe { self.slots.add(id * SLOT) }, stats: Stats::default() };
                                for i in (id as u64..total).step_by(THREADS) {
                                    if self.stopped() {
                                        break;
                                    }
                                    body(i, &mut t);
                                    *done += 1;
                                }
                                *stats = t.stats;
                            })
                            .expect("thread");
                    });
                    let mut message = Message(vec![]);
                    for number in [done, stats.executions, stats.transitions, stats.bulk, crate::preempt::LATE.load(Ordering::SeqCst)] {
                        message.number(number);
                    }
                    for set in [&stats.states, &stats.outcomes] {
                        message.number(set.len() as u64);
                        set.iter().for_each(|value| message.number(*value));
                    }
                    let samples = self.samples.lock().unwrap();
                    message.number((samples.len() - before) as u64);
                    samples[before..].iter().for_each(|sample| message.bytes(sample.as_bytes()));
                    let violations = self.violations.lock().unwrap();
                    message.number(violations.len() as u64);
                    for violation in violations.iter() {
                        message.bytes(violation.case.to_text("", "").as_bytes());
                        message.bytes(violation.message.as_bytes());
                    }
                    use std::io::Write;
                    let failed = writer.write_all(&message.0).is_err();
                    unsafe { _exit(failed as i32) }
                }
                -1 => panic!("no process for a worker"),
                pid => pipes.push((pid, reader)),
            }
        }
        let (mut done, mut executions) = (0, 0);
        for (pid, mut reader) in pipes {
            use std::io::Read;
            let mut data = vec![];
            reader.read_to_end(&mut data).expect("the answer of a worker");
            let mut status = 0;
            unsafe { waitpid(pid, &mut status, 0) };
            if status != 0 {
                // The case is still in its slot.
                eprintln!("[{}] a worker ended with {status}", self.property);
                std::process::abort();
            }
            let mut message = Message(data);
            message.0.reverse();
            done += message.take();
            let mut stats = self.stats.lock().unwrap();
            let count = message.take();
            executions += count;
            stats.executions += count;
            stats.transitions += message.take();
            stats.bulk += message.take();
            crate::preempt::LATE.fetch_add(message.take(), Ordering::SeqCst);
            for _ in 0..message.take() {
                stats.states.insert(message.take());
            }
            for _ in 0..message.take() {
                stats.outcomes.insert(message.take());
            }
            drop(stats);
            for _ in 0..message.take() {
                let text = message.text();
                self.sample(text);
            }
            for _ in 0..message.take() {
                let case = Case::from_text(&message.text()).1;
                self.violate(case, message.text());
            }
        }
        let line = format!("{name}: {done} of {total} index points, {executions} executions, {:.1} s", started.elapsed().as_secs_f64());
        eprintln!("[{}] {line}", self.property);
        self.notes.lock().unwrap().push(line);
    }

    /// Watch for cases that do not finish.
    pub fn watch(&self, finished: &AtomicBool, hung: &AtomicUsize) {
        let mut last = [(0u64, Instant::now()); THREADS];
        while !finished.load(Ordering::Relaxed) {
            std::thread::sleep(Duration::from_millis(200));
            for (id, last) in last.iter_mut().enumerate() {
                let (sequence, active) = unsafe {
                    let pointer = self.slots.add(id * SLOT) as *mut u64;
                    (pointer.read_volatile(), pointer.add(1).read_volatile())
                };
                if active == 0 || sequence != last.0 {
                    *last = (sequence, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(HANG_SECONDS) {
                    hung.store(id + 1, Ordering::Relaxed);
                    eprintln!("[{}] a case does not finish", self.property);
                    std::process::exit(77);
                }
            }
        }
    }

    pub fn into_result(self) -> (Stats, Vec<Violation>, Vec<String>, Vec<String>) {
        (
            self.stats.into_inner().unwrap(),
            self.violations.into_inner().unwrap(),
            self.samples.into_inner().unwrap(),
            self.notes.into_inner().unwrap(),
        )
    }
}

/// What a worker in a process of its own reports.
struct Message(Vec<u8>);

impl Message {
    fn number(&mut self, value: u64) {
        self.0.extend(value.to_le_bytes());
    }

    fn bytes(&mut self, bytes: &[u8]) {
        self.number(bytes.len() as u64);
        self.0.extend(bytes);
    }

    // The data is reversed before it is taken apart.
    fn take(&mut self) -> u64 {
        let mut bytes = [0; 8];
        bytes.fill_with(|| self.0.pop().expect("a complete answer"));
        u64::from_le_bytes(bytes)
    }

    fn text(&mut self) -> String {
        let count = self.take() as usize;
        let rest = self.0.len() - count;
        let mut bytes = self.0.split_off(rest);
        bytes.reverse();
        String::from_utf8_lossy(&bytes).into_owned()
    }
}

pub fn hex(bytes: &[u8]) -> String {
    bytes.iter().map(|byte| format!("{byte:02x}")).collect()
}

pub fn unhex(text: &str) -> Vec<u8> {
    (0..text.len() / 2)
        .map(|i| u8::from_str_radix(&text[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

impl Case {
    pub fn to_text(&self, property: &str, message: &str) -> String {
        let mut text = format!("property={property}\nkind={}\n", self.kind);
        let nums: Vec<_> = self.nums.iter().map(|num| num.to_string()).collect();
        text.push_str(&format!("nums={}\n", nums.join(",")));
        for blob in &self.blobs {
            text.push_str(&format!("blob={}\n", hex(blob)));
        }
        text.push_str(&format!("# {}\n", message.replace('\n', " ")));
        text
    }

    pub fn from_text(text: &str) -> (String, Case) {
        let mut property = String::new();
        let mut case = Case { kind: 0, nums: vec![], blobs: vec![] };
        for line in text.lines() {
            if let Some((key, value)) = line.split_once('=') {
                match key {
                    "property" => property = value.to_string(),
                    "kind" => case.kind = value.parse().unwrap(),
                    "nums" => {
                        case.nums = value
                            .split(',')
                            .filter(|part| !part.is_empty())
                            .map(|part| part.parse().unwrap())
                            .collect()
                    }
                    "blob" => case.blobs.push(unhex(value)),
                    _ => {}
                }
            }
        }
        (property, case)
    }
}

/// Decode an index into digits of a fixed base, most significant first.
pub fn digits(mut index: u64, base: u64, count: usize, out: &mut Vec<usize>) {
    out.clear();
    out.resize(count, 0);
    for i in (0..count).rev() {
        out[i] = (index % base) as usize;
        index /= base;
    }
}

/// Peel a mixed-radix digit off an index.
pub fn peel(index: &mut u64, base: usize) -> usize {
    let digit = (*index % base as u64) as usize;
    *index /= base as u64;
    digit
}

pub fn pow(base: u64, exponent: usize) -> u64 {
    base.pow(exponent as u32)
}
