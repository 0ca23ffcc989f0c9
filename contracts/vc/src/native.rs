//! Concrete driver for contracts.
use crate::Chooser;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

/// Floats tried by the exhaustive driver.
pub const FLOATS: &[f64] = &[
    0.0, 1.0, -1.0, 0.5, -0.25, 2.0, 3.0, 10.0, -7.5, 100.0, 0.1, -0.0, 1e-3, 1e-5, -1e-5, 1e-7, 123456.789,
    1e15, 1e21, -1e21, 0.3, 12.5,
];

struct Rejected;

/// The run in progress, for the watchdog and the allocation guard.
static CURRENT: AtomicPtr<Concrete> = AtomicPtr::new(std::ptr::null_mut());
static CONTRACT: AtomicPtr<Contract> = AtomicPtr::new(std::ptr::null_mut());
static TRACE: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
static RUNS: AtomicU64 = AtomicU64::new(0);
static LIVE_BYTES: AtomicUsize = AtomicUsize::new(0);
static LIVE_AT_START: AtomicUsize = AtomicUsize::new(0);
/// A single run of a contract must stay below these.
const RUN_SECONDS: u64 = 30;
const RUN_BYTES: usize = 3 << 30;

/// Counts live bytes, so that an unbounded allocation is reported as a failure
/// of the contract with its input instead of exhausting the machine.
pub struct Guard;
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let live = LIVE_BYTES.fetch_add(layout.size(), Ordering::Relaxed) + layout.size();
        if live > LIVE_AT_START.load(Ordering::Relaxed).saturating_add(RUN_BYTES) {
            LIVE_AT_START.store(usize::MAX, Ordering::Relaxed);
            stuck("the call allocates without bound");
        }
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        LIVE_BYTES.fetch_sub(layout.size(), Ordering::Relaxed);
        System.dealloc(ptr, layout)
    }
}
#[global_allocator]
static GUARD: Guard = Guard;

/// Reports the run in progress as failed and ends the process.
fn stuck(what: &str) {
    let chooser = CURRENT.load(Ordering::SeqCst);
    let contract = CONTRACT.load(Ordering::SeqCst);
    if chooser.is_null() || contract.is_null() {
        return;
    }
    // The interrupted run never continues: the process ends here.
    let (chooser, contract) = unsafe { (&*chooser, &*contract) };
    print_failure(contract, chooser, what, "");
    std::process::exit(1);
}

fn watch() {
    std::thread::spawn(|| {
        let mut last = RUNS.load(Ordering::SeqCst);
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = RUNS.load(Ordering::SeqCst);
            if now != last {
                last = now;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(RUN_SECONDS) {
                stuck("the call does not return");
                since = Instant::now();
            }
        }
    });
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Enumerate,
    Random,
    Replay,
}

pub struct Concrete {
    mode: Mode,
    // choices made so far and, when enumerating, how many options each had
    trail: Vec<(u64, u64)>,
    position: usize,
    rng: u64,
    reached: bool,
    notes: Vec<String>,
    record_notes: bool,
}

fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// The characters tried exhaustively: of each width, and of each kind that matters.
const CHARS: &[char] = &['a', ' ', '-', ':', '1', '\u{D6}', '\u{D7}', '\u{2003}', '\u{20AC}', '\u{1F600}'];

impl Concrete {
    fn new(mode: Mode) -> Self {
        Concrete {
            mode,
            trail: vec![],
            position: 0,
            rng: 0,
            reached: false,
            notes: vec![],
            record_notes: false,
        }
    }

    /// `options` = 0 means the full 64-bit range.
    fn choose(&mut self, options: u64, random: impl FnOnce(&mut u64) -> u64) -> u64 {
        let value = self.chosen(options, random);
        if let Some(trace) = TRACE.get() {
            self.trace(trace);
        }
        value
    }

    /// Keeps the choices of the run in progress in a file, to identify a run that
    /// ends the process.
    fn trace(&self, mut file: &std::fs::File) {
        use std::io::{Seek, Write};
        let mode = if self.mode == Mode::Enumerate { "enumerate" } else { "replay" };
        let choices: Vec<String> = self.trail.iter().take(self.position).map(|(v, _)| v.to_string()).collect();
        let text = format!("{mode} {}", choices.join(","));
        let _ = file.rewind();
        let _ = file.write_all(text.as_bytes());
        let _ = file.set_len(text.len() as u64);
    }

    fn chosen(&mut self, options: u64, random: impl FnOnce(&mut u64) -> u64) -> u64 {
        let value = match self.mode {
            Mode::Enumerate => {
                if self.position == self.trail.len() {
                    self.trail.push((0, options));
                }
                self.trail[self.position].0
            }
            Mode::Random => {
                let v = random(&mut self.rng);
                self.trail.push((v, options));
                v
            }
            Mode::Replay => match self.trail.get(self.position) {
                Some((v, _)) => *v,
                None => 0,
            },
        };
        self.position += 1;
        value
    }
}

impl Chooser for Concrete {
    fn below(&mut self, n: usize) -> usize {
        let v = self.choose(n as u64, |rng| splitmix(rng) % (n as u64)) as usize;
        if v >= n {
            self.require(false);
        }
        v
    }
    fn byte(&mut self) -> u8 {
        self.choose(256, |rng| splitmix(rng) & 0xFF) as u8
    }
    fn word(&mut self) -> u64 {
        const WORDS: &[u64] = &[0, 1, 2, 3, u64::MAX, 1 << 31, 1 << 32, i64::MAX as u64, i64::MIN as u64];
        if self.mode == Mode::Enumerate {
            return WORDS[self.choose(WORDS.len() as u64, |_| 0) as usize];
        }
        self.choose(0, |rng| {
            let r = splitmix(rng);
            let s = splitmix(rng) % 64;
            r >> s
        })
    }
    fn float(&mut self) -> f64 {
        if self.mode == Mode::Enumerate {
            return FLOATS[self.choose(FLOATS.len() as u64, |_| 0) as usize];
        }
        f64::from_bits(self.choose(0, |rng| {
            let r = splitmix(rng);
            match r % 8 {
                0 => FLOATS[(splitmix(rng) % FLOATS.len() as u64) as usize].to_bits(),
                1 | 2 => (((splitmix(rng) % 41) as f64) - 20.0).to_bits(),
                3 | 4 => ((((splitmix(rng) % 2_000_001) as f64) - 1_000_000.0) / 1000.0).to_bits(),
                5 => {
                    let m = (splitmix(rng) % 100_000) as f64;
                    let e = (splitmix(rng) % 30) as i32 - 15;
                    (m * 10f64.powi(e)).to_bits()
                }
                6 => {
                    let unit = (splitmix(rng) >> 11) as f64 / (1u64 << 53) as f64;
                    ((unit - 0.5) * 200.0).to_bits()
                }
                _ => {
                    // any exponent
                    let b = splitmix(rng);
                    if f64::from_bits(b).is_finite() {
                        b
                    } else {
                        1.5f64.to_bits()
                    }
                }
            }
        }))
    }
    fn char(&mut self) -> char {
        if self.mode == Mode::Enumerate {
            return CHARS[self.choose(CHARS.len() as u64, |_| 0) as usize];
        }
        let code = self.choose(0, |rng| {
            if splitmix(rng) % 4 == 0 {
                char::from_u32((splitmix(rng) % 0x11_0000) as u32).unwrap_or('~') as u64
            } else {
                CHARS[(splitmix(rng) % CHARS.len() as u64) as usize] as u64
            }
        });
        let char = u32::try_from(code).ok().and_then(char::from_u32);
        self.require(char.is_some());
        char.unwrap_or(' ')
    }
    fn require(&mut self, condition: bool) {
        if !condition {
            resume_unwind(Box::new(Rejected));
        }
    }
    fn reached(&mut self) {
        self.reached = true;
    }
    fn note(&mut self, what: &dyn Fn() -> String) {
        if self.record_notes {
            self.notes.push(what());
        }
    }
}

pub struct Contract {
    pub name: &'static str,
    /// Text of the bound of the exhaustive part.
    pub bound: &'static str,
    pub run: fn(&mut Concrete),
    /// Same quantified values in the same order as the Kani harness of this name.
    pub random: bool,
}

type Kept = (*mut (), fn(*mut ()));
thread_local! {
    static KEPT: RefCell<Vec<Kept>> = const { RefCell::new(Vec::new()) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

enum Outcome {
    Held { reached: bool },
    Rejected,
    Failed(String),
}

fn run_once(contract: &Contract, chooser: &mut Concrete) -> Outcome {
    chooser.position = 0;
    chooser.reached = false;
    RUNS.fetch_add(1, Ordering::SeqCst);
    LIVE_AT_START.store(LIVE_BYTES.load(Ordering::Relaxed), Ordering::Relaxed);
    CURRENT.store(chooser, Ordering::SeqCst);
    CONTRACT.store(std::ptr::from_ref(contract).cast_mut(), Ordering::SeqCst);
    let result = catch_unwind(AssertUnwindSafe(|| (contract.run)(chooser)));
    let result = result.map_err(|payload| payload.is::<Rejected>());
    KEPT.with(|kept| {
        while let Some((value, free)) = { kept.borrow_mut().pop() } {
            free(value);
        }
    });
    match result {
        Ok(()) => Outcome::Held {
            reached: chooser.reached,
        },
        Err(true) => Outcome::Rejected,
        Err(false) => Outcome::Failed(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// Keeps a value until the end of the run.
pub fn keep<T: 'static>(value: T) -> &'static mut T {
    let value = Box::into_raw(Box::new(value));
    KEPT.with(|kept| {
        kept.borrow_mut().push((value.cast(), |p| drop(unsafe { Box::from_raw(p.cast::<T>()) })));
    });
    unsafe { &mut *value }
}

fn json_string(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn print_failure(contract: &Contract, chooser: &Concrete, message: &str, input: &str) {
    let choices: Vec<String> = chooser.trail.iter().map(|(v, _)| v.to_string()).collect();
    println!(
        "{{\"contract\":{},\"status\":\"failed\",\"mode\":\"{}\",\"choices\":[{}],\"message\":{},\"input\":{}}}",
        json_string(contract.name),
        if chooser.mode == Mode::Enumerate { "enumerate" } else { "replay" },
        choices.join(","),
        json_string(message),
        json_string(input),
    );
}

fn report_failure(contract: &Contract, chooser: &mut Concrete, message: &str) {
    chooser.record_notes = true;
    if chooser.mode == Mode::Random {
        chooser.mode = Mode::Replay;
    }
    let _ = run_once(contract, chooser);
    print_failure(contract, chooser, message, &chooser.notes.join("; "));
}

/// `check NAME EXHAUSTIVE_LIMIT RANDOM_RUNS SEED SECONDS`
fn check(contract: &Contract, limit: u64, random_runs: u64, seed: u64, seconds: f64) -> bool {
    let start = Instant::now();
    let budget = Duration::from_secs_f64(seconds);
    let mut chooser = Concrete::new(Mode::Enumerate);
    let (mut held, mut rejected, mut reached) = (0u64, 0u64, 0u64);
    let mut exhaustive = false;
    let mut runs = 0u64;
    // The random part always gets its share of the time.
    let enumerate_budget = if contract.random { budget.mul_f64(0.6) } else { budget };
    loop {
        if runs >= limit || start.elapsed() > enumerate_budget {
            break;
        }
        runs += 1;
        match run_once(contract, &mut chooser) {
            Outcome::Held { reached: r } => {
                held += 1;
                reached += u64::from(r);
            }
            Outcome::Rejected => rejected += 1,
            Outcome::Failed(message) => {
                chooser.trail.truncate(chooser.position);
                report_failure(contract, &mut chooser, &message);
                return false;
            }
        }
        // advance the odometer
        chooser.trail.truncate(chooser.position);
        while let Some((v, n)) = chooser.trail.pop() {
            if v + 1 < n {
                chooser.trail.push((v + 1, n));
                break;
            }
        }
        if chooser.trail.is_empty() {
            exhaustive = true;
            break;
        }
    }
    let enumerated = held;
    let mut random_held = 0u64;
    if contract.random {
        let mut rng = seed ^ 0xA5A5_5A5A_1234_5678;
        for b in contract.name.bytes() {
            rng = rng.wrapping_mul(31).wrapping_add(u64::from(b));
        }
        let mut tries = 0u64;
        while tries < random_runs && start.elapsed() < budget {
            tries += 1;
            let mut chooser = Concrete::new(Mode::Random);
            chooser.rng = splitmix(&mut rng);
            match run_once(contract, &mut chooser) {
                Outcome::Held { reached: r } => {
                    random_held += 1;
                    reached += u64::from(r);
                }
                Outcome::Rejected => rejected += 1,
                Outcome::Failed(message) => {
                    report_failure(contract, &mut chooser, &message);
                    return false;
                }
            }
        }
    }
    println!(
        "{{\"contract\":{},\"status\":\"held\",\"exhaustive\":{},\"bound\":{},\"enumerated\":{},\"random\":{},\"rejected\":{},\"reached\":{},\"seconds\":{:.3}}}",
        json_string(contract.name),
        exhaustive,
        json_string(contract.bound),
        enumerated,
        random_held,
        rejected,
        reached,
        start.elapsed().as_secs_f64()
    );
    true
}

/// Command line: `list` | `check NAME LIMIT RANDOM SEED SECONDS` | `replay NAME MODE CHOICES`
/// where CHOICES is a comma separated list. Exit 1 on a failed contract.
pub fn main(contracts: &[Contract]) {
    std::panic::set_hook(Box::new(|info| {
        let message = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let place = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{message} at {place}"));
    }));
    if let Ok(path) = std::env::var("VC_TRACE") {
        let _ = TRACE.set(std::fs::File::create(path).unwrap());
    }
    watch();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let find = |name: &str| {
        contracts.iter().find(|c| c.name == name).unwrap_or_else(|| {
            eprintln!("no contract {name}");
            std::process::exit(2)
        })
    };
    match args.first().map(String::as_str) {
        Some("list") => {
            for c in contracts {
                println!("{}", c.name);
            }
        }
        Some("check") => {
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            let ok = check(find(&args[1]), n(2), n(3), n(4), args[5].parse().unwrap());
            std::process::exit(i32::from(!ok));
        }
        Some("replay") => {
            let contract = find(&args[1]);
            let mut chooser = Concrete::new(if args[2] == "enumerate" {
                Mode::Enumerate
            } else {
                Mode::Replay
            });
            chooser.trail = args
                .get(3)
                .map(String::as_str)
                .unwrap_or("")
                .split(',')
                .filter(|s| !s.is_empty())
                .map(|s| (s.parse().unwrap(), 0))
                .collect();
            chooser.record_notes = true;
            match run_once(contract, &mut chooser) {
                Outcome::Held { .. } => println!("held: {}", chooser.notes.join("; ")),
                Outcome::Rejected => println!("rejected: the choices do not satisfy the precondition"),
                Outcome::Failed(message) => {
                    println!("failed: {message}\ninput: {}", chooser.notes.join("; "));
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("usage: list | check NAME LIMIT RANDOM SEED SECONDS | replay NAME MODE CHOICES");
            std::process::exit(2);
        }
    }
}
