//! Exploration framework shared by all checks: counters, parallel enumeration,
//! violation recording, evidence and replay files.
#[cfg(feature = "tiny")]
pub mod tiny;

pub mod probe;

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Cell { states: u64, transitions: u64, traces: u64, samples: Vec<String>, outcomes: BTreeMap<String, u64>, capped: Option<String>, wall: f64 }

struct Viol { cell: String, key: String, what: String }

/// Work counted so far by all cells, and the cell running now: a check that
/// stops making progress (code under test that never returns) is reported.
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static RUNNING: Mutex<String> = Mutex::new(String::new());

pub struct Ctx {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    only_cell: Option<String>,
    t0: Instant,
    root: String,
    cells: Mutex<Vec<(String, Cell)>>,
    viols: Mutex<Vec<Viol>>,
    nviol: AtomicUsize,
    assumptions: Mutex<Vec<String>>,
    planned: AtomicUsize,
    /// Another build configuration of the code, whose cells go into the
    /// evidence of the main run.
    config: Option<String>,
}

/// Handle to one named sub-space of a check.
pub struct CellCtx<'a> {
    pub ctx: &'a Ctx,
    pub name: String,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    samples: Mutex<Vec<String>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    capped: Mutex<Option<String>>,
}

impl<'a> CellCtx<'a> {
    pub fn thorough(&self) -> bool { self.ctx.thorough }
    /// A distinct explored state (input tuple, assignment, history node...).
    pub fn states(&self, n: u64) { self.states.fetch_add(n, Ordering::Relaxed); PROGRESS.fetch_add(1, Ordering::Relaxed); }
    /// Operations executed / state transitions taken.
    pub fn transitions(&self, n: u64) { self.transitions.fetch_add(n, Ordering::Relaxed); PROGRESS.fetch_add(1, Ordering::Relaxed); }
    /// Complete model behaviours compared against the implementation.
    pub fn traces(&self, n: u64) { self.traces.fetch_add(n, Ordering::Relaxed); PROGRESS.fetch_add(1, Ordering::Relaxed); }
    /// One state, one transition, one comparison with the implementation.
    pub fn tick(&self) { self.states(1); self.transitions(1); self.traces(1); }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 3 { v.push(s()); }
    }
    pub fn outcome(&self, s: &str) { *self.outcomes.lock().unwrap().entry(s.to_string()).or_default() += 1; }
    pub fn outcomes(&self, s: &str, n: u64) { *self.outcomes.lock().unwrap().entry(s.to_string()).or_default() += n; }
    pub fn capped(&self, why: &str) { *self.capped.lock().unwrap() = Some(why.to_string()); }
    /// Records a violation. `key` identifies the failing input stably.
    pub fn violation(&self, key: impl Into<String>, what: impl Into<String>) {
        let n = self.ctx.nviol.fetch_add(1, Ordering::Relaxed);
        if n < 40 {
            self.ctx.viols.lock().unwrap().push(Viol { cell: self.name.clone(), key: key.into(), what: what.into() });
        }
    }
    pub fn check(&self, ok: bool, key: impl FnOnce() -> String, what: impl FnOnce() -> String) -> bool {
        if !ok { self.violation(key(), what()); }
        ok
    }
    /// `check` comparing two values.
    pub fn same<T: PartialEq + std::fmt::Debug>(&self, got: &T, want: &T, key: impl FnOnce() -> String) -> bool {
        if got != want { self.violation(key(), format!("got {:?}, expected {:?}", got, want)); false } else { true }
    }
    /// Runs `f`, turning a panic into a violation.
    pub fn guard<R>(&self, key: impl Fn() -> String, f: impl FnOnce() -> R) -> Option<R> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(e) => { self.violation(key(), format!("panicked: {}", panic_msg(&e))); None }
        }
    }
    /// Runs `f`, returning Err(message) on panic (for cases where refusing by panicking is allowed).
    pub fn attempt<R>(&self, f: impl FnOnce() -> R) -> Result<R, String> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_msg(&e))
    }
    pub fn too_many(&self) -> bool { self.ctx.nviol.load(Ordering::Relaxed) >= 40 }
    /// Distributes items over worker threads. Each item is guarded.
    pub fn par<T: Sync + std::fmt::Debug>(&self, items: &[T], f: impl Fn(&T) + Sync) {
        let next = AtomicUsize::new(0);
        let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8).min(items.len().max(1));
        std::thread::scope(|s| {
            for _ in 0..workers {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= items.len() || self.too_many() { break; }
                    self.guard(|| format!("{:?}", items[i]), || f(&items[i]));
                }).unwrap();
            }
        });
    }
    pub fn par_range(&self, n: u64, f: impl Fn(u64) + Sync) {
        let next = AtomicU64::new(0);
        let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8).min(n.max(1) as usize);
        std::thread::scope(|s| {
            for _ in 0..workers {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n || self.too_many() { break; }
                    self.guard(|| format!("{i}"), || f(i));
                }).unwrap();
            }
        });
    }
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "(no message)".into() }
}

impl Ctx {
    /// Command line: PROPERTY [--thorough] [--replay FILE] [--cell NAME]
    pub fn from_args() -> Ctx {
        std::panic::set_hook(Box::new(|_| {}));
        let mut property = String::new();
        let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let mut only_cell = None;
        let mut it = std::env::args().skip(1);
        while let Some(a) = it.next() {
            match a.as_str() {
                "--thorough" => thorough = true,
                "--quick" => thorough = false,
                "--cell" => only_cell = it.next(),
                "--replay" => {
                    let f = std::fs::read_to_string(it.next().expect("file")).expect("replay file");
                    let c = f.lines().find_map(|l| l.trim().strip_prefix("\"cell\": \"").map(|r| r.trim_end_matches(',').trim_end_matches('"').to_string()));
                    only_cell = c;
                }
                _ => property = a,
            }
        }
        watchdog(property.clone(), if thorough { 3600 } else { 400 });
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        Ctx { property, thorough, seed, only_cell, t0: Instant::now(), root: std::env::var("VERIF_ROOT").unwrap_or("/verif".into()),
            cells: Mutex::new(vec![]), viols: Mutex::new(vec![]), nviol: AtomicUsize::new(0), assumptions: Mutex::new(vec![]), planned: AtomicUsize::new(0), config: std::env::var("MC_CONFIG").ok() }
    }
    pub fn root(&self) -> &str { &self.root }
    pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.into()); }
    pub fn cell(&self, name: &str, f: impl FnOnce(&CellCtx)) {
        self.planned.fetch_add(1, Ordering::Relaxed);
        let name = &*self.config.as_ref().map(|k| format!("{name} ({k})")).unwrap_or(name.into());
        if let Some(o) = &self.only_cell { if o != name { return; } }
        *RUNNING.lock().unwrap() = name.into();
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        let t = Instant::now();
        let c = CellCtx { ctx: self, name: name.into(), states: 0.into(), transitions: 0.into(), traces: 0.into(), samples: Default::default(), outcomes: Default::default(), capped: Default::default() };
        c.guard(|| format!("{name}: unexpected"), || f(&c));
        let cell = Cell { states: c.states.into_inner(), transitions: c.transitions.into_inner(), traces: c.traces.into_inner(), samples: c.samples.into_inner().unwrap(), outcomes: c.outcomes.into_inner().unwrap(), capped: c.capped.into_inner().unwrap(), wall: t.elapsed().as_secs_f64() };
        println!("[{}] {:<40} states={} transitions={} traces={} {:.2}s {}", self.property, name, cell.states, cell.transitions, cell.traces, cell.wall,
            cell.outcomes.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "));
        self.cells.lock().unwrap().push((name.into(), cell));
    }
    pub fn finish(self) -> ! {
        let root = self.root.clone();
        let cells = self.cells.into_inner().unwrap();
        let mut viols = self.viols.into_inner().unwrap();
        let total_viol = self.nviol.load(Ordering::Relaxed);
        // Known findings: lines `PROPERTY<TAB>KEY-PREFIX<TAB>description`.
        let known: Vec<(String, String, String)> = std::fs::read_to_string(format!("{root}/known-findings.tsv")).unwrap_or_default().lines()
            .filter(|l| !l.starts_with('#') && !l.starts_with("fixed:"))
            .filter_map(|l| { let mut p = l.splitn(3, '\t'); Some((p.next()?.to_string(), p.next()?.to_string(), p.next()?.to_string())) }).collect();
        let mut seen_known = BTreeMap::new();
        viols.retain(|v| {
            let full = format!("{}::{}", v.cell, v.key);
            match known.iter().find(|(p, k, _)| *p == self.property && *k == full) {
                Some((_, k, d)) => { seen_known.insert(k.clone(), d.clone()); false }
                None => true,
            }
        });
        for (_, d) in &seen_known { println!("KNOWN-FINDING: property={} {}", self.property, d); }
        let bad = !viols.is_empty() || total_viol > 40;
        let mut rep = String::new();
        if bad {
            let _ = std::fs::create_dir_all(format!("{root}/replays"));
            for (i, v) in viols.iter().enumerate().take(10) {
                let path = format!("{root}/replays/{}-{}{}.json", self.property, self.config.as_deref().unwrap_or(""), i);
                let body = format!("{{\n  \"property\": {},\n  \"cell\": {},\n  \"key\": {},\n  \"what\": {},\n  \"replay\": {}\n}}\n", json_str(&self.property), json_str(&v.cell), json_str(&v.key), json_str(&v.what),
                    json_str(&format!("./run.sh {} --replay {}", self.property, path)));
                let _ = std::fs::write(&path, body);
                if i == 0 { rep = path; }
            }
            for v in viols.iter().take(10) { println!("  violated in {}: {} -- {}", v.cell, clip(&v.key), clip(&v.what)); }
        }
        let mut ev = String::new();
        let mut part = String::new();
        let (mut s, mut t, mut tr) = (0, 0, 0);
        let mut samples = vec![];
        let mut exhaustive = true;
        let mut det = vec![];
        for (n, c) in &cells {
            s += c.states; t += c.transitions; tr += c.traces;
            for x in c.samples.iter().take(2) { samples.push(json_str(&format!("{n}: {}", clip(x)))); }
            if c.capped.is_some() { exhaustive = false; }
            let _ = writeln!(part, "{} {} {} {}", c.states, c.transitions, c.traces, c.capped.is_none());
            det.push(format!("{{\"cell\": {}, \"states\": {}, \"transitions\": {}, \"traces\": {}, \"wall_s\": {:.3}, \"outcomes\": {{{}}}{}}}", json_str(n), c.states, c.transitions, c.traces, c.wall,
                c.outcomes.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "),
                c.capped.as_ref().map(|w| format!(", \"capped\": {}", json_str(w))).unwrap_or_default()));
        }
        if let Ok(f) = std::env::var("MC_MERGE").map(|f| std::fs::read_to_string(f).unwrap_or_default()) {
            let l: Vec<&str> = f.lines().collect();
            for p in l.chunks(2) {
                let mut n = p[0].split(' ');
                let mut u = || n.next().unwrap().parse::<u64>().unwrap();
                s += u(); t += u(); tr += u();
                exhaustive &= n.next() == Some("true");
                det.push(p[1].into());
            }
        }
        let _ = write!(ev, "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {s},\n  \"transitions\": {t},\n  \"traces_validated_against_impl\": {tr},\n  \"exhaustive\": {exhaustive},\n  \"samples\": [{}],\n  \"cells\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            json_str(&self.property), if self.thorough { "thorough" } else { "quick" }, self.seed, samples.join(", "), det.join(",\n   "),
            self.assumptions.into_inner().unwrap().iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", "), self.t0.elapsed().as_secs_f64(), viols.len());
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        if self.config.is_some() {
            let body: String = part.lines().zip(&det).map(|(a, b)| format!("{a}\n{b}\n")).collect();
            std::fs::write(std::env::var("MC_PART").expect("MC_PART"), body).expect("part");
        } else { std::fs::write(format!("{root}/evidence/{}.json", self.property), ev).expect("evidence"); }
        println!("[{}] total states={s} transitions={t} traces={tr} wall={:.1}s violations={}", self.property, self.t0.elapsed().as_secs_f64(), viols.len());
        if bad {
            println!("VIOLATION property={} replay={}", self.property, rep);
            std::process::exit(1);
        }
        if s == 0 { eprintln!("nothing explored (unknown property or cell?)"); std::process::exit(3); }
        std::process::exit(0);
    }
}

fn watchdog(property: String, seconds: u64) {
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    std::thread::spawn(move || {
        let (mut seen, mut idle) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now != seen { seen = now; idle = 0; continue; }
            idle += 1;
            if idle < seconds { continue; }
            let cell = RUNNING.lock().map(|c| c.clone()).unwrap_or_default();
            let path = format!("{root}/replays/{property}-hang.json");
            let _ = std::fs::create_dir_all(format!("{root}/replays"));
            let _ = std::fs::write(&path, format!("{{\n  \"property\": {},\n  \"cell\": {},\n  \"key\": \"hang\",\n  \"what\": \"no progress for {seconds} s\"\n}}\n", json_str(&property), json_str(&cell)));
            println!("  violated in {cell}: the code under test does not return ({seconds} s without progress)");
            println!("VIOLATION property={property} replay={path}");
            std::process::exit(1);
        }
    });
}

fn clip(s: &str) -> String { if s.chars().count() > 400 { s.chars().take(400).collect::<String>() + "..." } else { s.into() } }

/// All vectors of the given length over `0..base`, in lexicographic order.
pub fn tuples(base: u64, len: usize) -> impl Iterator<Item = Vec<u64>> {
    let n = (base as u128).pow(len as u32);
    (0..n).map(move |mut i| { let mut v = vec![0; len]; for k in (0..len).rev() { v[k] = (i % base as u128) as u64; i /= base as u128; } v })
}
