//! D08: rerandomization, interleaved with fusing in every way up to a depth.
use crate::general_step;
use crate::parts::*;
use crate::steps::*;
use kit::{CellCtx, Ctx};
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::maybe::Maybe;
use ragu_core::Result;
use ragu_pasta::{Fp, Pasta};
use ragu_pcd::header::Header;
use ragu_pcd::mc;
use ragu_pcd::step::{Encoded, Index, Step};
use ragu_pcd::ApplicationBuilder;
use ragu_primitives::Element;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

/// Multiplies two numbers and adds one.
pub struct Fuse;
general_step!([] Fuse, 1, Num, Num, Num, |dr, w, l, r| {
    let x = l.as_gadget().mul(dr, r.as_gadget())?;
    let s = x.add(dr, &Element::one());
    let v = val(&s);
    (s, v, w)
});
fn small() -> App<HS> { ApplicationBuilder::<Pasta, R, HS>::new().register(Leaf).unwrap().register(Fuse).unwrap().finalize(Pasta::baked()).unwrap() }
struct Kept(App<HS>);
unsafe impl Send for Kept {}
static POOL: Mutex<Vec<Kept>> = Mutex::new(vec![]);
/// The first rerandomization of an application also prepares a trivial partner
/// (with randomness of its own); done here with the same randomness everywhere.
fn warm() -> App<HS> {
    let app = small();
    let (p, _) = app.seed(&mut Rng::of("warm"), Leaf, Fp::from(2)).unwrap();
    app.rerandomize(p, &mut Rng::of("warm")).unwrap();
    app
}
fn with_small<T>(f: impl FnOnce(&App<HS>) -> T) -> T {
    let a = POOL.lock().unwrap().pop().unwrap_or_else(|| Kept(warm()));
    let t = f(&a.0);
    POOL.lock().unwrap().push(a);
    t
}

#[derive(Clone)]
struct Term { name: String, pcd: P<Num>, data: Fp }
#[derive(Clone)]
enum Op<'a> { Again(&'a Term), Fuse(&'a Term, &'a Term) }
impl std::fmt::Debug for Op<'_> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { match self { Op::Again(t) => write!(f, "{}'", t.name), Op::Fuse(l, r) => write!(f, "({} {})", l.name, r.name) } } }

/// Every term of exactly n operations over one leaf, for n up to `depth`;
/// terms share their parts, as proof-carrying data does.
fn interleavings(c: &CellCtx, depth: usize) {
    let leaf = with_small(|app| {
        let (p, _) = app.seed(&mut Rng::of("leaf"), Leaf, Fp::from(3)).unwrap();
        Term { name: "a".into(), data: Fp::from(9), pcd: p }
    });
    let mut levels: Vec<Vec<Term>> = vec![vec![leaf]];
    for n in 1..=depth {
        let mut ops: Vec<Op> = levels[n - 1].iter().map(Op::Again).collect();
        for k in 0..n { for l in &levels[k] { for r in &levels[n - 1 - k] { ops.push(Op::Fuse(l, r)); } } }
        let out = Mutex::new(vec![]);
        c.par(&ops.iter().enumerate().collect::<Vec<_>>(), |(i, o)| with_small(|app| {
            let name = format!("{o:?}");
            let mut rng = Rng::of(&name);
            let (got, want) = match o {
                Op::Again(t) => (app.rerandomize(t.pcd.clone(), &mut rng), t.data),
                Op::Fuse(l, r) => (app.fuse(&mut rng, Fuse, Fp::from(1), l.pcd.clone(), r.pcd.clone()).map(|p| p.0), l.data * r.data + Fp::from(1)),
            };
            c.tick();
            match got {
                Err(e) => c.violation(&name, format!("refused: {e}")),
                Ok(p) => {
                    c.same(p.data(), &want, || format!("{name}: data"));
                    let v = app.verify(&p, &mut Rng::of(&format!("verify {name}")));
                    if c.check(matches!(v, Ok(true)), || name.clone(), || format!("verification gives {v:?}")) { out.lock().unwrap().push((*i, Term { name: name.clone(), pcd: p, data: want })); }
                }
            }
            c.outcome(if matches!(o, Op::Again(_)) { "rerandomized" } else { "fused" });
            c.sample(|| name);
        }));
        let mut v = out.into_inner().unwrap();
        v.sort_by_key(|x| x.0);
        levels.push(v.into_iter().map(|x| x.1).collect());
    }
}

fn proof(a: &Any) -> Pf {
    match a.clone() { Any::U(p) => mc::open(p).0, Any::N(p) => mc::open(p).0, Any::P(p) => mc::open(p).0, Any::F(p) => mc::open(p).0, Any::E(p) => mc::open(p).0 }
}
/// One piece of proof-carrying data of every step.
fn every_step(c: &CellCtx) -> BTreeMap<usize, Any> {
    let mut have: BTreeMap<usize, Any> = BTreeMap::new();
    with_app(|app| {
        for s in [0usize, 7, 8] { have.insert(s, seed(app, &mut Rng::of(STEPS[s].name), s, Fp::from(5)).unwrap().0); }
        for s in [1usize, 5, 6, 9, 10, 11, 2, 3, 4, 12] {
            let find = |k: char| have.values().find(|a| a.kind() == k).cloned().unwrap_or_else(|| panic!("no {k}"));
            // Full must exist before the steps over it.
            if (s == 4 || s == 12) && !have.values().any(|a| a.kind() == 'F') { unreachable!() }
            let (l, r) = (find(STEPS[s].left), find(STEPS[s].right));
            let n = format!("made by {}", STEPS[s].name);
            if let Some(p) = honest(c, app, &n, apply(app, &mut Rng::of(&n), s, Fp::from(2), &l, &r), reference(s, Fp::from(2), &l.data(), &r.data())) { have.insert(s, p); }
        }
    });
    have
}
/// Rerandomized twice, whatever the header; then used in every position.
fn every_kind(c: &CellCtx, deep: bool) -> Vec<(Any, Any, Any)> {
    let have = every_step(c);
    let again = Mutex::new(BTreeMap::new());
    c.par(&have.iter().map(|x| *x.0).collect::<Vec<_>>(), |s| with_app(|app| {
        let p = &have[s];
        let n = STEPS[*s].name;
        let Some(a) = honest(c, app, &format!("{n}'"), p.rerandomize(app, &mut Rng::of(&format!("{n}'"))).map(|p| (p, Fp::from(0))), (p.data(), Fp::from(0))) else { return };
        let Some(b) = honest(c, app, &format!("{n}''"), a.rerandomize(app, &mut Rng::of(&format!("{n}''"))).map(|p| (p, Fp::from(0))), (p.data(), Fp::from(0))) else { return };
        c.tick(); c.tick();
        c.outcomes("rerandomized", 2);
        again.lock().unwrap().insert(*s, (a, b));
    }));
    let again = again.into_inner().unwrap();
    // Every step, every producer of its inputs, rerandomized once on the left and twice on the right and the other way round.
    let mut jobs = vec![];
    for (s, i) in STEPS.iter().enumerate() {
        let (ls, rs): (Vec<_>, Vec<_>) = (have.iter().filter(|p| p.1.kind() == i.left).map(|p| *p.0).collect(), have.iter().filter(|p| p.1.kind() == i.right).map(|p| *p.0).collect());
        for (a, l) in ls.iter().enumerate() { for (b, r) in rs.iter().enumerate() { for w in 0..2 { if deep || (a == 0 && w == 0) || (b == 0 && w == 1) || a == b { if deep || (a + b + s) % 3 == 0 || ls.len() * rs.len() == 1 { jobs.push((s, *l, *r, w)); } } } } }
    }
    c.par(&jobs, |(s, l, r, w)| with_app(|app| {
        let pick = |k: usize, twice: bool| again.get(&k).map(|p| if twice { p.1.clone() } else { p.0.clone() });
        let (Some(x), Some(y)) = (pick(*l, *w == 1), pick(*r, *w == 0)) else { return };
        let n = format!("{}({}{}, {}{})", STEPS[*s].name, STEPS[*l].name, if *w == 1 { "''" } else { "'" }, STEPS[*r].name, if *w == 0 { "''" } else { "'" });
        honest(c, app, &n, apply(app, &mut Rng::of(&n), *s, Fp::from(4), &x, &y), reference(*s, Fp::from(4), &x.data(), &y.data()));
        c.tick();
        c.outcome("used");
        c.sample(|| n);
    }));
    have.into_iter().filter_map(|(s, p)| again.get(&s).map(|(a, b)| (p, a.clone(), b.clone()))).collect()
}

/// What identifies the step rather than hiding anything.
fn fixed(name: &str) -> bool { name.starts_with("application.circuit_id") || name.ends_with("_header") }
fn equal(a: &BTreeMap<String, Own>, b: &BTreeMap<String, Own>) -> BTreeSet<String> {
    a.iter().filter(|(n, x)| !fixed(n) && b.get(*n).is_some_and(|y| x.same(y))).map(|x| x.0.clone()).collect()
}
fn differs(c: &CellCtx, what: &str, a: &Pf, b: &Pf) {
    let (x, y) = (all(a), all(b));
    let e = equal(&x, &y);
    c.check(e.is_empty(), || what.to_string(), || format!("these components are the same: {e:?}"));
    c.states(x.len() as u64); c.transitions(1); c.traces(1);
    c.outcome("pair of proofs");
    c.sample(|| what.to_string());
}

/// Random numbers of which one draw is replaced.
struct Perturbed { inner: Rng, calls: u64, at: u64, width: u64 }
impl Perturbed { fn next(&mut self) -> bool { self.calls += 1; (self.calls - 1) / self.width == self.at } }
impl rand::TryRng for Perturbed {
    type Error = core::convert::Infallible;
    fn try_next_u32(&mut self) -> std::result::Result<u32, Self::Error> { let v = self.inner.try_next_u32()?; Ok(if self.next() { v ^ 1 } else { v }) }
    fn try_next_u64(&mut self) -> std::result::Result<u64, Self::Error> { let v = self.inner.try_next_u64()?; Ok(if self.next() { v ^ 1 } else { v }) }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> std::result::Result<(), Self::Error> { self.inner.try_fill_bytes(b)?; if self.next() && !b.is_empty() { b[0] ^= 1; } Ok(()) }
}
impl rand::TryCryptoRng for Perturbed {}

/// Everything a component is computed from, apart from its own randomness: the
/// challenge drawn before its stage, and what its stage computes alongside.
fn inputs(name: &str) -> (Option<&'static str>, fn(&str, &str) -> bool) {
    let none: fn(&str, &str) -> bool = |_, _| false;
    // The stage's native side: for a bridge all of it, otherwise all but the component itself.
    let native: fn(&str, &str) -> bool = |me, o| o.starts_with(&format!("{}.native", stage(me))) && base(o) != base(me);
    let siblings: fn(&str, &str) -> bool = |me, o| stage(me) == stage(o) && base(o) != base(me) && o != "p.nested.step_rxs";
    match stage(name) {
        "preamble" => (None, native), "s_prime" => (Some("w"), native), "inner_error" => (Some("z"), native), "outer_error" => (Some("nu"), native),
        "ab" => (Some("nu_prime"), native), "query" => (Some("x"), native), "f" => (Some("alpha"), native), "eval" => (Some("u"), native),
        "p" | "circuits" => (Some("pre_beta"), siblings), _ => (None, none),
    }
}
fn stage(name: &str) -> &str { name.split('.').next().unwrap() }
fn base(name: &str) -> &str { name.strip_suffix(".rx").or(name.strip_suffix(".commitment")).unwrap_or(name) }
/// Components with randomness of their own: some single draw changes them
/// although everything they are computed from (up to the preceding challenge) stays.
fn draws(c: &CellCtx, width: u64) {
    let (base, pcd) = with_small(|app| {
        let (p, _) = app.seed(&mut Rng::of("leaf"), Leaf, Fp::from(3)).unwrap();
        let (q, _) = app.fuse(&mut Rng::of("fused"), Fuse, Fp::from(1), p.clone(), p).unwrap();
        let mut r = Perturbed { inner: Rng::of("draws"), calls: 0, at: u64::MAX, width };
        let out = app.rerandomize(q.clone(), &mut r).unwrap();
        (all(&mc::open(out).0), (q, r.calls))
    });
    let (pcd, calls) = pcd;
    let own: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    c.par_range(calls.div_ceil(width), |k| with_small(|app| {
        let mut r = Perturbed { inner: Rng::of("draws"), calls: 0, at: k, width };
        let out = app.rerandomize(pcd.clone(), &mut r).unwrap();
        let v = app.verify(&out, &mut Rng::of("verify"));
        c.check(matches!(v, Ok(true)), || format!("draw {k} replaced"), || format!("verification gives {v:?}"));
        c.same(out.data(), pcd.data(), || format!("draw {k} replaced: data"));
        let now = all(&mc::open(out).0);
        let changed: BTreeSet<&String> = base.iter().filter(|(n, x)| !x.same(&now[*n])).map(|x| x.0).collect();
        let mut o = own.lock().unwrap();
        for n in &changed {
            let (ch, same) = inputs(n);
            if n.starts_with("challenges") || ch.is_some_and(|ch| changed.contains(&format!("challenges.{ch}"))) { continue; }
            if !changed.iter().any(|o| same(n, o)) { *o.entry((*n).clone()).or_default() += 1; }
        }
        c.states(changed.len() as u64); c.transitions(1); c.traces(1);
        c.outcome("draw");
    }));
    let own = own.into_inner().unwrap();
    c.sample(|| format!("{} draws; {} components have randomness of their own", calls.div_ceil(width), own.len()));
    for n in blinded() { c.check(own.contains_key(&n), || n.clone(), || "no randomness of its own: it changes only together with what it is computed from".into()); }
    if std::env::var("D08_LIST").is_ok() { for n in own.keys() { println!("own {n}"); } for n in base.keys().filter(|n| !own.contains_key(*n)) { println!("none {n}"); } }
}
/// Every committed trace and stage.
fn blinded() -> Vec<String> {
    let mut v: Vec<String> = ["application.rx_triple", "preamble.native", "inner_error.native.rx_triple", "outer_error.native", "query.native.rx_triple", "eval.native",
        "circuits.hashes_1", "circuits.hashes_2", "circuits.inner_collapse", "circuits.outer_collapse", "circuits.compute_v"].iter().map(|s| s.to_string()).collect();
    for b in ["preamble", "s_prime", "inner_error", "outer_error", "ab", "query", "f", "eval"] { v.push(format!("{b}.bridge")); }
    let mut v: Vec<String> = v.iter().flat_map(|s| [format!("{s}.rx"), format!("{s}.commitment")]).collect();
    v.extend(["p.nested.endoscalar_rx".into(), "p.nested.points_rx".into()]);
    v.extend((0..9).map(|i| format!("p.nested.step_rxs[{i}]")));
    v
}

pub fn run(ctx: &Ctx) {
    let deep = ctx.thorough;
    ctx.assume("Randomness is a fixed pseudorandom stream per place of the exploration. Hiding is judged as every component changing, and as every blinded component having a random draw of its own; statistical indistinguishability is not decided.");
    ctx.cell("all interleavings of fusing and rerandomizing", |c| interleavings(c, if deep { 5 } else { 3 }));
    ctx.cell("repeated rerandomization", |c| with_small(|app| {
        let (mut p, _) = app.seed(&mut Rng::of("leaf"), Leaf, Fp::from(3)).unwrap();
        let mut last = vec![mc::open(p.clone()).0];
        for i in 0..if deep { 24 } else { 6 } {
            p = app.rerandomize(p, &mut Rng::of(&format!("again {i}"))).unwrap();
            let v = app.verify(&p, &mut Rng(i));
            c.check(matches!(v, Ok(true)) && *p.data() == Fp::from(9), || format!("rerandomized {} times", i + 1), || format!("verification gives {v:?}"));
            let pf = mc::open(p.clone()).0;
            for (k, q) in last.iter().enumerate() { differs(c, &format!("rerandomized {k} and {} times", i + 1), q, &pf); }
            last.push(pf);
            c.tick();
        }
        let (q, _) = app.fuse(&mut Rng::of("use"), Fuse, Fp::from(1), p.clone(), p).unwrap();
        let v = app.verify(&q, &mut Rng(0));
        c.check(matches!(v, Ok(true)) && *q.data() == Fp::from(82), || "used after many rerandomizations".into(), || format!("verification gives {v:?}"));
    }));
    let mut triples = vec![];
    ctx.cell("every step's data, in every use", |c| triples = every_kind(c, deep));
    ctx.cell("every component differs", |c| {
        let items: Vec<(usize, &(Any, Any, Any))> = triples.iter().enumerate().collect();
        #[derive(Clone, Copy)] struct I<'a>(usize, &'a (Any, Any, Any));
        impl std::fmt::Debug for I<'_> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "proof {}", self.0) } }
        c.par(&items.iter().map(|(i, t)| I(*i, t)).collect::<Vec<_>>(), |I(i, (p, a, b))| {
            let n = |s: &str| format!("proof {i}, {s}");
            differs(c, &n("original and rerandomized"), &proof(p), &proof(a));
            differs(c, &n("original and twice rerandomized"), &proof(p), &proof(b));
            differs(c, &n("rerandomized once and twice"), &proof(a), &proof(b));
            // The same proof, other randomness.
            let o = with_app(|app| p.rerandomize(app, &mut Rng::of(&n("other"))).unwrap());
            differs(c, &n("rerandomized with different randomness"), &proof(a), &proof(&o));
        });
    });
    ctx.cell("every draw replaced", |c| draws(c, 1));
}
