//! The explorer: enumerates every case of every space of a check, in processes of its own, and
//! writes what was covered.
//!
//! A *space* is a finite set of cases, indexed from zero. A *case* is one execution (or a small
//! family of executions) of the real code together with its comparison against a reference
//! model. Cases are dealt to shard processes, so that code under test which crashes, hangs or
//! keeps state between calls disturbs nothing but its own shard.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn parse(text: &str) -> Self {
        match text {
            "thorough" => Tier::Thorough,
            _ => Tier::Quick,
        }
    }

    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }

    /// Choose a bound by tier.
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

pub type Verdict = Result<(), String>;

/// What one shard counted in one space.
#[derive(Default)]
pub struct Cx {
    /// Cases visited.
    pub cases: u64,
    /// States of an explicit search that were visited inside cases.
    pub inner_states: u64,
    /// Calls into the code under test whose result was checked.
    pub transitions: u64,
    /// Complete executions of the code under test that were compared with the reference model.
    pub traces: u64,
    /// Executions not compared, because rounding decides what the reference model would say.
    pub ambiguous: u64,
    /// Cases which are not trivial by the rule of the space.
    pub nontrivial: u64,
    /// The longest time one case took.
    slowest: Duration,
    outcomes: HashSet<u64>,
}

const MAX_OUTCOMES: usize = 1 << 18;

impl Cx {
    pub fn step(&mut self) {
        self.transitions += 1;
    }

    pub fn trace(&mut self) {
        self.traces += 1;
    }

    /// Record an observed outcome, to count the distinct ones.
    pub fn outcome<T: Hash>(&mut self, outcome: &T) {
        if self.outcomes.len() < MAX_OUTCOMES {
            self.outcomes.insert(hash(outcome));
        }
    }
}

/// FNV-1a, fixed so that runs are reproducible.
pub struct Fnv(u64);

impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}

impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }

    fn write(&mut self, bytes: &[u8]) {
        for byte in bytes {
            self.0 ^= u64::from(*byte);
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}

pub fn hash<T: Hash>(value: &T) -> u64 {
    let mut hasher = Fnv::default();
    value.hash(&mut hasher);
    hasher.finish()
}

type Run = Box<dyn Fn(u64, &mut Cx) -> Verdict>;
type Show = Box<dyn Fn(u64) -> String>;

pub struct Space {
    pub name: String,
    /// What is enumerated, and within which bounds.
    pub bound: String,
    pub size: u64,
    pub run: Run,
    pub show: Show,
}

impl Space {
    pub fn new(
        name: &str,
        bound: &str,
        size: u64,
        show: impl Fn(u64) -> String + 'static,
        run: impl Fn(u64, &mut Cx) -> Verdict + 'static,
    ) -> Self {
        Self {
            name: name.to_string(),
            bound: bound.to_string(),
            size,
            run: Box::new(run),
            show: Box::new(show),
        }
    }
}

/// Take a digit off a mixed-radix number.
pub fn digit(rest: &mut u64, radix: u64) -> u64 {
    let digit = *rest % radix;
    *rest /= radix;
    digit
}

/// The number of sequences of length 0..=n over an alphabet.
pub fn sequences_up_to(alphabet: u64, n: u32) -> u64 {
    (0..=n).map(|len| alphabet.pow(len)).sum()
}

/// Decode a sequence, shortest first.
pub fn sequence(mut index: u64, alphabet: u64) -> Vec<u64> {
    let mut len = 0u32;
    while index >= alphabet.pow(len) {
        index -= alphabet.pow(len);
        len += 1;
    }
    (0..len).map(|_| digit(&mut index, alphabet)).collect()
}

/// Decode a permutation of 0..n.
pub fn permutation(mut index: u64, n: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut result = Vec::with_capacity(n);
    for left in (1..=n).rev() {
        let at = digit(&mut index, left as u64) as usize;
        result.push(pool.remove(at));
    }
    result
}

pub fn factorial(n: u64) -> u64 {
    (1..=n).product()
}

// --- running one case ---------------------------------------------------------------------------

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static CATCHING: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !CATCHING.with(|c| c.get()) {
            default(info);
            return;
        }
        let place = info
            .location()
            .map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let message = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((place, message)));
    }));
}

/// Run code under test and turn a panic of it into an error. A panic of the harness itself is
/// passed on: it is an error of the check and never a verdict.
pub fn guarded<T>(body: impl FnOnce() -> T) -> Result<T, String> {
    let before = CATCHING.with(|c| c.replace(true));
    let result = catch_unwind(AssertUnwindSafe(body));
    CATCHING.with(|c| c.set(before));
    result.map_err(|_| {
        let (place, message) = PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_default();
        if place.starts_with("src/") || place.contains("/verif/harness/") {
            eprintln!("mc: the harness itself panicked at {place}: {message}");
            std::process::exit(EXIT_ERROR);
        }
        format!("panicked at {place}: {message}")
    })
}

const EXIT_ERROR: i32 = 3;
const EXIT_FOUND: i32 = 10;

fn run_case(space: &Space, index: u64, cx: &mut Cx) -> Verdict {
    cx.cases += 1;
    let from = Instant::now();
    let verdict = guarded(|| (space.run)(index, cx)).unwrap_or_else(Err);
    cx.slowest = cx.slowest.max(from.elapsed());
    verdict
}

// --- shared progress ----------------------------------------------------------------------------

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn prctl(option: i32, ...) -> i32;
}

/// Progress of a shard in a file mapped into both processes: space, index and a change counter.
struct Progress(*mut u64);

impl Progress {
    fn open(path: &Path) -> Self {
        use std::os::fd::AsRawFd;
        let file = fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("progress file");
        file.set_len(4096).expect("progress file");
        // PROT_READ | PROT_WRITE, MAP_SHARED
        let at = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, file.as_raw_fd(), 0) };
        assert!(at as isize != -1, "mmap failed");
        Progress(at.cast())
    }

    fn set(&self, space: u64, index: u64) {
        unsafe {
            self.0.write_volatile(space);
            self.0.add(1).write_volatile(index);
            self.0.add(2).write_volatile(self.0.add(2).read_volatile() + 1);
        }
    }

    fn get(&self) -> (u64, u64, u64) {
        unsafe {
            (
                self.0.read_volatile(),
                self.0.add(1).read_volatile(),
                self.0.add(2).read_volatile(),
            )
        }
    }
}

fn limit_memory() {
    // RLIMIT_AS: runaway allocation of the code under test ends its shard, not the sandbox.
    let limit: [u64; 2] = [6 << 30, 6 << 30];
    unsafe {
        setrlimit(9, &limit);
    }
}

pub fn die_with_parent() {
    // PR_SET_PDEATHSIG, SIGKILL
    unsafe {
        prctl(1, 9u64);
    }
}

// --- shard --------------------------------------------------------------------------------------

fn chunk_of(size: u64, shards: u64) -> u64 {
    (size / (shards * 64)).clamp(1, 1024)
}

fn clean(text: &str) -> String {
    text.replace(['\t', '\n'], " ")
}

/// Explore this shard's cases; stop at the first violation.
pub fn shard(spaces: &[Space], shard: u64, shards: u64, dir: &Path, deadline: Duration) -> i32 {
    die_with_parent();
    limit_memory();
    let progress = Progress::open(&dir.join(format!("progress-{shard}")));
    let started = Instant::now();
    let mut report = String::new();
    let mut code = 0;
    let mut capped = false;
    'spaces: for (number, space) in spaces.iter().enumerate() {
        let mut cx = Cx::default();
        let chunk = chunk_of(space.size, shards);
        let mut at = shard * chunk;
        let mut verdict = Ok(());
        let mut bad = 0;
        'walk: while at < space.size {
            for index in at..(at + chunk).min(space.size) {
                progress.set(number as u64, index);
                verdict = run_case(space, index, &mut cx);
                if verdict.is_err() {
                    bad = index;
                    break 'walk;
                }
                if started.elapsed() > deadline {
                    capped = true;
                    break 'walk;
                }
            }
            at += chunk * shards;
        }
        report.push_str(&format!(
            "space\t{number}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n",
            cx.cases,
            cx.inner_states,
            cx.transitions,
            cx.traces,
            cx.ambiguous,
            cx.nontrivial,
            cx.slowest.as_micros()
        ));
        let mut outcomes = Vec::with_capacity(cx.outcomes.len() * 8);
        for outcome in &cx.outcomes {
            outcomes.extend_from_slice(&outcome.to_le_bytes());
        }
        fs::write(dir.join(format!("outcomes-{number}-{shard}")), outcomes).expect("outcomes");
        if let Err(message) = verdict {
            report.push_str(&format!("violation\t{number}\t{bad}\t{}\n", clean(&message)));
            code = EXIT_FOUND;
            break 'spaces;
        }
        if capped {
            report.push_str("capped\n");
            break 'spaces;
        }
    }
    fs::write(dir.join(format!("report-{shard}")), report).expect("report");
    code
}

/// Run one case alone.
pub fn one(spaces: &[Space], space: usize, index: u64) -> i32 {
    die_with_parent();
    limit_memory();
    let Some(space) = spaces.get(space).filter(|s| index < s.size) else {
        println!("no such case");
        return EXIT_ERROR;
    };
    println!("space: {}\ncase {}: {}", space.name, index, (space.show)(index));
    match run_case(space, index, &mut Cx::default()) {
        Ok(()) => {
            println!("the property holds on this case");
            0
        }
        Err(message) => {
            println!("violated: {message}");
            EXIT_FOUND
        }
    }
}

// --- parent -------------------------------------------------------------------------------------

#[derive(Default, Clone)]
struct Totals {
    cases: u64,
    inner_states: u64,
    transitions: u64,
    traces: u64,
    ambiguous: u64,
    nontrivial: u64,
    outcomes: u64,
    slowest: u64,
}

struct Worker {
    child: Child,
    progress: Progress,
    seen: (u64, u64, u64),
    seen_wall: Instant,
    seen_cpu: f64,
    done: bool,
}

fn cpu_seconds(pid: u32) -> f64 {
    let Ok(stat) = fs::read_to_string(format!("/proc/{pid}/stat")) else {
        return 0.0;
    };
    let rest = stat.rsplit(')').next().unwrap_or("");
    let fields: Vec<&str> = rest.split_whitespace().collect();
    let ticks = |at: usize| fields.get(at).and_then(|t| t.parse::<f64>().ok()).unwrap_or(0.0);
    (ticks(11) + ticks(12)) / 100.0
}

/// The seconds of processor time and of real time after which a case counts as hanging.
fn patience(tier: Tier) -> (f64, f64) {
    tier.pick((100.0, 200.0), (400.0, 800.0))
}

enum OneResult {
    Holds,
    Violated,
    Crashed(String),
    Hung,
}

fn run_one(id: &str, tier: Tier, space: u64, index: u64) -> OneResult {
    let mut child = Command::new(std::env::current_exe().expect("exe"))
        .args(["one", id, tier.name(), &space.to_string(), &index.to_string()])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let started = Instant::now();
    loop {
        if let Some(status) = child.try_wait().expect("wait") {
            return match status.code() {
                Some(0) => OneResult::Holds,
                Some(EXIT_FOUND) => OneResult::Violated,
                _ => OneResult::Crashed(format!("{status}")),
            };
        }
        let (cpu, wall) = patience(tier);
        if cpu_seconds(child.id()) > cpu || started.elapsed().as_secs_f64() > wall {
            let _ = child.kill();
            let _ = child.wait();
            return OneResult::Hung;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub fn json(text: &str) -> String {
    let mut out = String::from("\"");
    for c in text.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

struct Found {
    space: u64,
    index: u64,
    message: String,
    /// The case was already run again on its own, with the same result.
    confirmed: bool,
}

/// Run a check: exit code 0 when the property held on everything explored, 1 on a violation, 3
/// when the check itself failed.
pub fn check(id: &str, tier: Tier, spaces: &[Space], root: &Path) -> i32 {
    let started = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(0);
    let shards = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 16) as u64;
    let deadline = match tier {
        Tier::Quick => 200u64,
        Tier::Thorough => 3 * 3600,
    };
    let dir = std::env::temp_dir().join(format!("mc-{id}-{}", std::process::id()));
    fs::create_dir_all(&dir).expect("scratch");
    let exe = std::env::current_exe().expect("exe");
    let mut workers: Vec<Worker> = (0..shards)
        .map(|shard| Worker {
            child: Command::new(&exe)
                .args(["shard", id, tier.name()])
                .args([shard.to_string(), shards.to_string(), deadline.to_string()])
                .arg(&dir)
                .stdout(Stdio::null())
                .stderr(Stdio::inherit())
                .spawn()
                .expect("spawn"),
            progress: Progress::open(&dir.join(format!("progress-{shard}"))),
            seen: (0, 0, 0),
            seen_wall: Instant::now(),
            seen_cpu: 0.0,
            done: false,
        })
        .collect();

    let mut found: Vec<Found> = Vec::new();
    let mut engine_error: Option<String> = None;
    let mut suspects: Vec<(u64, u64, String)> = Vec::new();
    let mut found_at: Option<Instant> = None;
    let mut stopped_early = false;
    loop {
        for worker in workers.iter_mut().filter(|w| !w.done) {
            if let Some(status) = worker.child.try_wait().expect("wait") {
                worker.done = true;
                match status.code() {
                    Some(0) => {}
                    Some(EXIT_FOUND) => found_at = found_at.or(Some(Instant::now())),
                    Some(EXIT_ERROR) => {
                        engine_error = Some("the harness failed, see above".to_string())
                    }
                    _ => {
                        let (space, index, _) = worker.progress.get();
                        suspects.push((space, index, format!("crashed: {status}")));
                        found_at = found_at.or(Some(Instant::now()));
                    }
                }
                continue;
            }
            let now = worker.progress.get();
            if now != worker.seen {
                worker.seen = now;
                worker.seen_wall = Instant::now();
                worker.seen_cpu = cpu_seconds(worker.child.id());
            } else if now.2 > 0 {
                let wall = worker.seen_wall.elapsed().as_secs_f64();
                if wall > 5.0
                    && (wall > patience(tier).1 || cpu_seconds(worker.child.id()) - worker.seen_cpu > patience(tier).0)
                {
                    let _ = worker.child.kill();
                    let _ = worker.child.wait();
                    worker.done = true;
                    suspects.push((now.0, now.1, "does not terminate".to_string()));
                    found_at = found_at.or(Some(Instant::now()));
                }
            }
        }
        if workers.iter().all(|w| w.done) {
            break;
        }
        // A violation is decided: give the other shards a moment to find an earlier one.
        if found_at.is_some_and(|at| at.elapsed() > Duration::from_secs(10)) {
            stopped_early = true;
            for worker in workers.iter_mut().filter(|w| !w.done) {
                let _ = worker.child.kill();
                let _ = worker.child.wait();
                worker.done = true;
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }

    let mut totals: Vec<Totals> = vec![Totals::default(); spaces.len()];
    let mut capped = false;
    for shard in 0..shards {
        let report = fs::read_to_string(dir.join(format!("report-{shard}"))).unwrap_or_default();
        for line in report.lines() {
            let fields: Vec<&str> = line.split('\t').collect();
            let number = |at: usize| fields[at].parse::<u64>().expect("report");
            match fields[0] {
                "space" => {
                    let total = &mut totals[number(1) as usize];
                    total.cases += number(2);
                    total.inner_states += number(3);
                    total.transitions += number(4);
                    total.traces += number(5);
                    total.ambiguous += number(6);
                    total.nontrivial += number(7);
                    total.slowest = total.slowest.max(number(8));
                }
                "violation" => found.push(Found {
                    space: number(1),
                    index: number(2),
                    message: fields[3].to_string(),
                    confirmed: false,
                }),
                _ => capped = true,
            }
        }
    }
    for (number, total) in totals.iter_mut().enumerate() {
        let mut distinct: HashSet<u64> = HashSet::new();
        for shard in 0..shards {
            let bytes = fs::read(dir.join(format!("outcomes-{number}-{shard}"))).unwrap_or_default();
            for eight in bytes.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(eight.try_into().expect("eight bytes")));
            }
        }
        total.outcomes = distinct.len() as u64;
    }
    let _ = fs::remove_dir_all(&dir);

    let known = known_findings(root, id);
    let listed = |space: u64, index: u64| {
        let key = format!("{}#{index}", spaces[space as usize].name);
        known.iter().any(|k| k == &key)
    };

    // Crashes and hangs are verdicts only when the case does it again on its own.
    suspects.sort_by_key(|s| (s.0, s.1));
    for (space, index, what) in suspects {
        if found.iter().any(|f| f.confirmed && !listed(f.space, f.index)) {
            break;
        }
        let message = match run_one(id, tier, space, index) {
            OneResult::Crashed(status) => {
                format!("the process running the code under test {what}; again alone: {status}")
            }
            OneResult::Hung => format!("{what}: no answer after {} s of processor time", patience(tier).0),
            OneResult::Violated => format!("violated when run alone (its shard {what})"),
            OneResult::Holds => {
                engine_error = Some(format!(
                    "a shard {what} in space {space} case {index}, which passes when run alone"
                ));
                continue;
            }
        };
        found.push(Found { space, index, message, confirmed: true });
    }

    found.sort_by_key(|f| (f.space, f.index));
    let mut open: Vec<&Found> = Vec::new();
    for f in &found {
        let key = format!("{}#{}", spaces[f.space as usize].name, f.index);
        if listed(f.space, f.index) {
            println!("KNOWN-FINDING: property={id} {key} {}", f.message);
        } else {
            open.push(f);
        }
    }

    let mut exit = 0;
    if let Some(first) = open.first() {
        let space = &spaces[first.space as usize];
        let again = if first.confirmed {
            "yes"
        } else {
            match run_one(id, tier, first.space, first.index) {
                OneResult::Holds => {
                    "no: the case alone holds; what ran before it in its process matters, replay the whole check"
                }
                _ => "yes",
            }
        };
        let replays = root.join("evidence/replay");
        fs::create_dir_all(&replays).expect("replay directory");
        let path = replays.join(format!("{id}-{}-{}.txt", space.name, first.index));
        let text = format!(
            "property: {id}\nspace: {}\nbound: {}\ncase: {}\ninput: {}\nviolation: {}\nreproduced alone: {again}\nreplay: ./check.sh replay {id} {} {} {}\n",
            space.name,
            space.bound,
            first.index,
            (space.show)(first.index),
            first.message,
            tier.name(),
            first.space,
            first.index
        );
        fs::write(&path, &text).expect("replay file");
        print!("{text}");
        println!("VIOLATION property={id} replay={}", path.display());
        exit = 1;
    } else if let Some(error) = engine_error {
        eprintln!("mc: error: {error}");
        return EXIT_ERROR;
    }

    write_evidence(
        id,
        tier,
        seed,
        spaces,
        &totals,
        capped,
        stopped_early || !open.is_empty(),
        started.elapsed(),
        open.len(),
        root,
    );
    exit
}

fn known_findings(root: &Path, id: &str) -> Vec<String> {
    let text = fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    let prefix = format!("finding: property={id} case=");
    text.lines()
        .filter_map(|line| line.strip_prefix(&prefix))
        .filter_map(|rest| rest.split_whitespace().next())
        .map(str::to_string)
        .collect()
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    id: &str,
    tier: Tier,
    seed: u64,
    spaces: &[Space],
    totals: &[Totals],
    capped: bool,
    stopped: bool,
    wall: Duration,
    violations: usize,
    root: &Path,
) {
    let sum = |f: fn(&Totals) -> u64| totals.iter().map(f).sum::<u64>();
    let states = sum(|t| t.cases) + sum(|t| t.inner_states);
    let mut samples = Vec::new();
    for (space, total) in spaces.iter().zip(totals) {
        if total.cases > 0 && space.size > 0 {
            for index in [space.size / 3, space.size - 1] {
                samples.push(json(&format!("{} #{index}: {}", space.name, (space.show)(index))));
            }
        }
    }
    samples.dedup();
    let per_space: Vec<String> = spaces
        .iter()
        .zip(totals)
        .map(|(space, t)| {
            format!(
                "{{\"space\": {}, \"bound\": {}, \"size\": {}, \"cases_explored\": {}, \"search_states\": {}, \"transitions\": {}, \"traces_compared\": {}, \"ambiguous_skipped\": {}, \"nontrivial\": {}, \"distinct_outcomes\": {}, \"slowest_case_s\": {:.3}, \"complete\": {}}}",
                json(&space.name),
                json(&space.bound),
                space.size,
                t.cases,
                t.inner_states,
                t.transitions,
                t.traces,
                t.ambiguous,
                t.nontrivial,
                t.outcomes,
                t.slowest as f64 / 1e6,
                t.cases == space.size
            )
        })
        .collect();
    let complete = spaces.iter().zip(totals).all(|(s, t)| s.size == t.cases);
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {states},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"ambiguous_skipped\": {},\n  \"nontrivial_cases\": {},\n  \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n  \"capped\": {capped},\n  \"stopped_at_violation\": {stopped},\n  \"spaces\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [\"states are cases enumerated (each index once) plus states of searches inside cases; transitions are checked calls into the real code; traces are complete executions of the real code compared with the reference model\"],\n \"wall_s\": {:.3},\n \"violations\": {violations}\n}}\n",
        json(id),
        json(tier.name()),
        sum(|t| t.transitions),
        sum(|t| t.traces),
        sum(|t| t.ambiguous),
        sum(|t| t.nontrivial),
        sum(|t| t.outcomes),
        complete && !capped,
        per_space.join(",\n   "),
        samples.join(",\n   "),
        wall.as_secs_f64()
    );
    let path: PathBuf = root.join("evidence");
    fs::create_dir_all(&path).expect("evidence directory");
    let mut file = fs::File::create(path.join(format!("{id}.json"))).expect("evidence file");
    file.write_all(text.as_bytes()).expect("evidence file");
    println!(
        "{id} {}: {states} states, {} transitions, {} traces compared, {} ambiguous, {} distinct outcomes, complete={}, {:.1} s",
        tier.name(),
        sum(|t| t.transitions),
        sum(|t| t.traces),
        sum(|t| t.ambiguous),
        sum(|t| t.outcomes),
        complete && !capped,
        wall.as_secs_f64()
    );
    let mut by_space: BTreeMap<&str, String> = BTreeMap::new();
    for (space, t) in spaces.iter().zip(totals) {
        by_space.insert(
            &space.name,
            format!(
                "{}/{} cases, {} nontrivial, {} transitions, {} outcomes, slowest case {:.2} s",
                t.cases,
                space.size,
                t.nontrivial,
                t.transitions,
                t.outcomes,
                t.slowest as f64 / 1e6
            ),
        );
    }
    for (name, line) in by_space {
        println!("  {name}: {line}");
    }
}
