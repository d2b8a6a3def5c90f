//! M01: optional witness values. The same generic program is run in the
//! present and in the absent world over every operation history up to a bound
//! and compared with a plain model.
use kit::{CellCtx, Ctx};
use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind, Perhaps};
use std::cell::Cell;

thread_local! {
    static RUNS: Cell<u64> = const { Cell::new(0) };
    static CLONES: Cell<u64> = const { Cell::new(0) };
}
fn ran() { RUNS.with(|r| r.set(r.get() + 1)); }
fn take_runs() -> u64 { RUNS.with(|r| r.replace(0)) }
fn take_clones() -> u64 { CLONES.with(|r| r.replace(0)) }

/// Not `Copy`, counts duplications.
#[derive(Debug, PartialEq)]
pub struct Val(u64);
impl Clone for Val { fn clone(&self) -> Self { CLONES.with(|c| c.set(c.get() + 1)); Val(self.0) } }
#[derive(Debug)]
pub struct Wrapped(u64);
impl From<Val> for Wrapped { fn from(v: Val) -> Self { ran(); Wrapped(v.0 * 3 + 1) } }

const OPS: u8 = 16;
const NAMES: [&str; 16] = ["map", "and_then", "into", "clone", "as_ref.map", "as_mut.map", "snag", "pair.cast.0", "pair.cast.1", "array.cast", "try_just ok", "try_just err", "as_mut.take", "nested and_then", "zip refs", "triple.cast"];

/// Runs one history; returns the final value, or the error at the failing step.
fn run_hist<K: MaybeKind>(ops: &[u8], seed: u64, log: &mut Vec<(u64, u64)>) -> Result<Perhaps<K, Val>, u8> {
    let mut v: Perhaps<K, Val> = K::maybe_just(|| { ran(); Val(seed) });
    log.push((take_runs(), take_clones()));
    for (i, op) in ops.iter().enumerate() {
        match op {
            0 => v = v.map(|x| { ran(); Val(x.0 * 2 + 1) }),
            1 => v = v.and_then(|x| { ran(); K::maybe_just(|| { ran(); Val(x.0 + 7) }) }),
            2 => v = Maybe::into::<Wrapped>(v).map(|w| { ran(); Val(w.0) }),
            3 => { let c = Maybe::clone(&v); v = c; }
            4 => { let r = v.as_ref().map(|x| { ran(); x.0 + 11 }); v = r.map(|y| { ran(); Val(y) }); }
            5 => { v.as_mut().map(|x| { ran(); x.0 += 5; }); }
            6 => { let s = K::maybe_just(|| { ran(); v.snag().0 * 5 }); v = s.map(Val); }
            7 => { let (a, b) = v.map(|x| { ran(); let y = Val(x.0 + 100); (x, y) }).cast::<(Val, Val)>(); b.map(|_| ran()); v = a; }
            8 => { let (a, b) = v.map(|x| { ran(); let y = Val(x.0 + 100); (x, y) }).cast::<(Val, Val)>(); a.map(|_| ran()); v = b; }
            9 => { let [a, b, c] = v.map(|x| { ran(); [Val(x.0), Val(x.0 + 1000), Val(x.0 + 2000)] }).cast::<[Val; 3]>();
                   v = a.and_then(|a| b.and_then(|b| c.map(|c| { ran(); Val(a.0 + 2 * b.0 + 3 * c.0) }))); }
            10 => { let w = K::maybe_try_just(|| { ran(); Ok::<Val, u8>(Val(3)) })?; v = v.and_then(|x| { ran(); w.map(|w| { ran(); Val(x.0 + w.0) }) }); }
            11 => { let w = K::maybe_try_just(|| { ran(); Err::<Val, u8>(i as u8) }); if w.is_err() { log.push((take_runs(), take_clones())); } w?; }
            12 => { K::maybe_just(|| { ran(); *v.as_mut().take() = Val(77) }); }
            13 => { v = v.and_then(|x| { ran(); K::maybe_just(|| { ran(); x }).and_then(|y| { ran(); K::maybe_just(|| Val(y.0 + 1)) }) }); }
            14 => { let c = Maybe::clone(&v); let s = K::maybe_just(|| { ran(); Val(c.snag().0 + v.snag().0) }); v = s; }
            15 => { let (a, b, c) = v.map(|x| { ran(); (x.0 as u8, Val(x.0 + 1), [x.0 + 2]) }).cast::<(u8, Val, [u64; 1])>();
                    v = b.and_then(|b| a.and_then(|a| c.map(|c| { ran(); Val(b.0 + 10 * a as u64 + c[0]) }))); }
            _ => unreachable!(),
        }
        log.push((take_runs(), take_clones()));
    }
    Ok(v)
}

/// The model: (runs, clones) per step and the final value or failing step.
fn model(ops: &[u8], seed: u64) -> (Vec<(u64, u64)>, Result<u64, u8>) {
    let mut v = seed;
    let mut log = vec![(1, 0)];
    for (i, op) in ops.iter().enumerate() {
        let e = match op {
            0 => { v = v * 2 + 1; (1, 0) }
            1 => { v += 7; (2, 0) }
            2 => { v = v * 3 + 1; (2, 0) }
            3 => (0, 1),
            4 => { v += 11; (2, 0) }
            5 => { v += 5; (1, 0) }
            6 => { v *= 5; (1, 0) }
            7 => (2, 0),
            8 => { v += 100; (2, 0) }
            9 => { v = v + 2 * (v + 1000) + 3 * (v + 2000); (2, 0) }
            10 => { v += 3; (3, 0) }
            11 => { log.push((1, 0)); return (log, Err(i as u8)); }
            12 => { v = 77; (1, 0) }
            13 => { v += 1; (3, 0) }
            14 => { v = v * 2; (1, 1) }
            15 => { v = v + 1 + 10 * ((v as u8) as u64) + v + 2; (2, 0) }
            _ => unreachable!(),
        };
        log.push(e);
    }
    (log, Ok(v))
}

fn histories(c: &CellCtx, depth: usize) {
    for len in 0..=depth {
        let n = (OPS as u64).pow(len as u32);
        let chunks: Vec<u64> = (0..n.div_ceil(4096)).collect();
        c.par(&chunks, |ch| {
            for i in ch * 4096..((ch + 1) * 4096).min(n) {
                let mut k = i;
                let mut ops = vec![0u8; len];
                for o in ops.iter_mut().rev() { *o = (k % OPS as u64) as u8; k /= OPS as u64; }
                let key = || ops.iter().map(|o| NAMES[*o as usize]).collect::<Vec<_>>().join(", ");
                take_runs(); take_clones();
                let mut log = vec![];
                let got = run_hist::<Always<()>>(&ops, 5, &mut log).map(|v| v.take().0);
                let (mlog, want) = model(&ops, 5);
                c.same(&got, &want, || format!("present: {}", key()));
                c.same(&log, &mlog, || format!("present (closure runs, clones): {}", key()));
                take_runs(); take_clones();
                let mut log = vec![];
                let got = run_hist::<Empty>(&ops, 5, &mut log).map(|_: Empty| ());
                c.same(&got, &Ok(()), || format!("absent: {}", key()));
                c.check(log.iter().all(|l| *l == (0, 0)), || format!("absent: {}", key()), || format!("closures or clones ran: {log:?}"));
                c.states(2); c.traces(2); c.transitions(2 * (len as u64 + 1));
                c.outcome(if want.is_ok() { "value" } else { "error" });
                c.sample(|| key());
            }
        });
    }
}

/// Array regrouping of every length up to 40 (plus zero-sized and large ones).
fn arrays(c: &CellCtx) {
    macro_rules! arr { ($($n:literal)*) => { $( {
        const N: usize = $n;
        let parts = <Always<()> as MaybeKind>::maybe_just(|| core::array::from_fn::<Val, N, _>(|i| Val(i as u64 * 3 + 1))).cast::<[Val; N]>();
        for (i, p) in parts.into_iter().enumerate() { c.same(&p.take(), &Val(i as u64 * 3 + 1), || format!("array {N} position {i}")); c.tick(); }
        let e: [Empty; N] = <Empty as Maybe<[Val; N]>>::cast(Empty);
        c.same(&e.len(), &N, || format!("absent array {N}"));
        c.tick();
    } )* } }
    arr!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 40 64 100 256);
    c.same(&take_clones(), &0, || "regrouping duplicates values".into());
    c.same(&(std::mem::size_of::<Always<u64>>(), std::mem::size_of::<Empty>()), &(8, 0), || "sizes".into());
}

/// Tuple regrouping for each arity, and the compile-time refusals, are probed by
/// compiling small programs against the built crate.
fn probes(c: &CellCtx) {
    let p = kit::probe::Probe::new(c, "ragu_core");
    let mut progs = vec![];
    for n in 2..=32usize {
        let tys = (0..n).map(|i| format!("V<{i}>")).collect::<Vec<_>>().join(", ");
        let vals = (0..n).map(|i| format!("V::<{i}>({})", i * 7 + 3)).collect::<Vec<_>>().join(", ");
        let names = (0..n).map(|i| format!("x{i}")).collect::<Vec<_>>().join(", ");
        let chk = (0..n).map(|i| format!("assert_eq!(x{i}.take().0, {});", i * 7 + 3)).collect::<Vec<_>>().join(" ");
        let same_tys = vec!["u64"; n].join(", ");
        let same_vals = (0..n).map(|i| format!("{}u64", i * 7 + 3)).collect::<Vec<_>>().join(", ");
        let chk2 = (0..n).map(|i| format!("assert_eq!(x{i}.take(), {});", i * 7 + 3)).collect::<Vec<_>>().join(" ");
        let empties = (0..n).map(|_| "Empty").collect::<Vec<_>>().join(", ");
        progs.push((format!("tuple regrouping of arity {n}"), format!(r#"
use ragu_core::maybe::{{Always, Empty, Maybe, MaybeKind}};
struct V<const I: usize>(u64);
impl<const I: usize> Drop for V<I> {{ fn drop(&mut self) {{ DROPS.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }} }}
static DROPS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn main() {{
  let ({names},) = <Always<()> as MaybeKind>::maybe_just(|| ({vals},)).cast::<({tys},)>();
  {chk}
  assert_eq!(DROPS.load(std::sync::atomic::Ordering::Relaxed), {n});
  let ({names},) = <Always<()> as MaybeKind>::maybe_just(|| ({same_vals},)).cast::<({same_tys},)>();
  {chk2}
  let ({empties},) = <Empty as Maybe<({tys},)>>::cast::<({tys},)>(Empty);
}}"#)));
    }
    p.must_run_all(&progs);
    let rej = [
        ("taking an absent value", "use ragu_core::maybe::{Empty, Maybe}; fn main() { let x: u64 = <Empty as Maybe<u64>>::take(Empty); println!(\"{x}\"); }"),
        ("snagging an absent value", "use ragu_core::maybe::{Empty, Maybe}; fn main() { let x: &u64 = <Empty as Maybe<u64>>::snag(&Empty); println!(\"{x}\"); }"),
        ("absent instance of the present kind", "use ragu_core::maybe::{Always, Maybe, MaybeKind}; fn main() { let x = <Always<()> as MaybeKind>::empty::<u64>(); println!(\"{}\", x.take()); }"),
    ];
    p.must_fail_all(&rej.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>());
}

pub fn run(ctx: &Ctx) {
    ctx.assume("operation histories are bounded; closures are total");
    ctx.cell("histories", |c| histories(c, if c.thorough() { 6 } else { 5 }));
    ctx.cell("array regrouping", arrays);
    ctx.cell("tuple regrouping and refusals (compiled probes)", probes);
}
