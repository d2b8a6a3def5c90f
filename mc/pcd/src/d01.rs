//! D01: all fusing trees over the step kinds, up to a depth.
use crate::steps::*;
use crate::general_step;
use ff::Field;
use kit::{CellCtx, Ctx};
use ragu_pasta::{Fp, Pasta};
use std::sync::Mutex;
use ragu_core::Result;
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::maybe::Maybe;
use ragu_primitives::Element;
use ragu_pcd::header::{Header, Suffix};
use ragu_core::gadgets::{Bound, Kind};
use ragu_primitives::vec::{CollectFixed, ConstLen, FixedVec};
use ragu_pcd::step::{Encoded, Index, Step};

/// One piece of proof-carrying data and how it came to be.
#[derive(Clone)]
struct Node { name: String, step: usize, depth: usize, rr: usize, pcd: Any }
impl std::fmt::Debug for Node { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.name) } }

#[derive(Debug, Clone)]
enum Job<'a> { Seed(usize, Fp), Fuse(usize, Fp, &'a Node, &'a Node), Again(&'a Node) }

fn run_jobs(c: &CellCtx, jobs: &[Job]) -> Vec<Node> {
    let out = Mutex::new(vec![]);
    let order: Vec<_> = jobs.iter().enumerate().collect();
    c.par(&order, |(i, j)| with_app(|app| {
        let (name, step, depth, rr, got, want) = match j {
            Job::Seed(s, w) => { let n = STEPS[*s].name.to_string(); let g = seed(app, &mut Rng::of(&n), *s, *w); (n, *s, 1, 0, g, reference(*s, *w, &[], &[])) }
            Job::Fuse(s, w, l, r) => {
                let n = format!("{}({},{})", STEPS[*s].name, l.name, r.name);
                let g = apply(app, &mut Rng::of(&n), *s, *w, &l.pcd, &r.pcd);
                (n, *s, 1 + l.depth.max(r.depth), 0, g, reference(*s, *w, &l.pcd.data(), &r.pcd.data()))
            }
            Job::Again(p) => {
                let n = format!("{}'", p.name);
                let g = p.pcd.rerandomize(app, &mut Rng::of(&n)).map(|p| (p, Fp::ZERO));
                (n, p.step, p.depth, p.rr + 1, g, (p.pcd.data(), Fp::ZERO))
            }
        };
        c.transitions(1);
        if let Some(pcd) = honest(c, app, &name, got, want) {
            c.states(1);
            c.traces(1);
            c.sample(|| name.clone());
            out.lock().unwrap().push((*i, Node { name, step, depth, rr, pcd }));
        }
    }));
    let mut out = out.into_inner().unwrap();
    out.sort_by_key(|x| x.0);
    out.into_iter().map(|x| x.1).collect()
}

/// Every step applied to every ordered pair from the pool of matching type
/// (a piece of proof-carrying data is also paired with itself), keeping only those for which `keep`.
fn all_fuses<'a>(pool: &'a [Node], keep: impl Fn(usize, &Node, &Node) -> bool) -> Vec<Job<'a>> {
    let mut jobs = vec![];
    for (s, i) in STEPS.iter().enumerate() {
        for l in pool.iter().filter(|n| n.pcd.kind() == i.left) {
            for r in pool.iter().filter(|n| n.pcd.kind() == i.right) {
                if keep(s, l, r) { jobs.push(Job::Fuse(s, Fp::from(3 + jobs.len() as u64), l, r)); }
            }
        }
    }
    jobs
}

/// The first of each (producer, whether rerandomized).
fn classes(nodes: &[Node]) -> Vec<Node> {
    let mut v: Vec<Node> = vec![];
    for n in nodes { if !v.iter().any(|m| m.step == n.step && (m.rr > 0) == (n.rr > 0)) { v.push(n.clone()); } }
    v
}

pub fn run(ctx: &Ctx) {
    ctx.assume("challenges are drawn from fixed pseudorandom streams: a false claim surviving a random challenge (probability about 2^-240) is not distinguished from a true one");
    // Trees of height 1 and 2 exhaustively, over leaves of every kind and their rerandomizations.
    let mut pool = vec![];
    ctx.cell("leaves", |c| {
        let seeds: Vec<Job> = [0, 7, 8].iter().map(|&s| Job::Seed(s, Fp::from(5))).collect();
        pool = run_jobs(c, &seeds);
        let again: Vec<Job> = pool.iter().map(Job::Again).collect();
        let more = run_jobs(c, &again);
        if c.thorough() { let again: Vec<Job> = more.iter().map(Job::Again).collect(); let m = run_jobs(c, &again); pool.extend(m); }
        pool.extend(more);
    });
    let mut two = vec![];
    ctx.cell("trees of height 2", |c| {
        two = run_jobs(c, &all_fuses(&pool, |_, _, _| true));
    });
    let mut three = vec![];
    ctx.cell("trees of height 3 over classes", |c| {
        // Classes of children: producer and whether it was rerandomized.
        let plain = classes(&two);
        let rr = run_jobs(c, &plain.iter().filter(|n| ctx.thorough || n.rr == 0).map(Job::Again).collect::<Vec<_>>());
        let mut cls = classes(&pool);
        let top = if ctx.thorough { vec![plain.clone(), rr.clone()].concat() } else { vec![plain.clone(), rr.into_iter().filter(|n| n.step == 1).collect()].concat() };
        if !ctx.thorough { cls.retain(|n| n.rr == 0); }
        cls.extend(top);
        three = run_jobs(c, &all_fuses(&cls, |_, l, r| (l.depth == 2 || r.depth == 2) && (ctx.thorough || !new_pair(2, l, r))));
        three.extend(cls);
    });
    ctx.cell("trees of height 4 over classes", |c| {
        let new: Vec<Node> = three.iter().filter(|n| n.depth == 3).cloned().collect();
        let mut cls: Vec<Node> = classes(&new);
        // The quick exploration keeps one producer of every header type.
        if !ctx.thorough { let mut k = vec![]; cls.retain(|n| { k.push(n.pcd.kind()); k.iter().filter(|x| **x == n.pcd.kind()).count() <= 1 }); }
        let old: Vec<Node> = three.iter().filter(|n| n.depth < 3 && n.rr == 0).cloned().collect();
        if ctx.thorough { cls.extend(classes(&old)); }
        // One shallow partner of every type.
        for n in &old { if !cls.iter().any(|m| m.depth < 3 && m.pcd.kind() == n.pcd.kind()) { cls.push(n.clone()); } }
        let four = run_jobs(c, &all_fuses(&cls, |_, l, r| (l.depth == 3 || r.depth == 3) && (ctx.thorough || !new_pair(3, l, r))));
        let top = run_jobs(c, &classes(&four).iter().map(Job::Again).collect::<Vec<_>>());
        // Back down: everything of height 4 with itself.
        let again: Vec<Node> = classes(&four).into_iter().chain(top).collect();
        run_jobs(c, &all_fuses(&again, |_, l, r| l.name == r.name));
    });
    ctx.cell("header sizes", header_sizes);
    ctx.cell("numbers of steps", step_counts);
}

/// In the quick exploration, two equally deep children are only combined when they are the same.
fn new_pair(d: usize, l: &Node, r: &Node) -> bool { l.depth == d && r.depth == d && l.name != r.name }



/// A header of K elements.
pub struct Wide<const K: usize>;
impl<const K: usize> Header<Fp> for Wide<K> {
    const SUFFIX: Suffix = Suffix::new(100 + K);
    type Data = [Fp; K];
    type Output = Kind![Fp; FixedVec<Element<'_, _>, ConstLen<K>>];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, [Fp; K]>) -> Result<Bound<'dr, D, Self::Output>> {
        (0..K).map(|i| Element::alloc(dr, w.as_ref().map(|w| w[i]))).try_collect_fixed()
    }
}
/// Fills a header of K elements with w, 2w, 3w, ...
pub struct Make<const K: usize, const I: usize>;
general_step!([const K: usize, const I: usize] Make<K, I>, I, (), (), Wide<K>, |dr, w, l, r| {
    let x = Element::alloc(dr, w)?;
    let mut v = vec![];
    let mut y = x.clone();
    for _ in 0..K { v.push(y.clone()); y = y.add(dr, &x); }
    let d = D::just(|| core::array::from_fn(|i| *v[i].value().take()));
    (FixedVec::try_from(v)?, d, val(&x))
});
/// Multiplies two headers element by element and reverses the result.
pub struct Times<const K: usize, const I: usize>;
general_step!([const K: usize, const I: usize] Times<K, I>, I, Wide<K>, Wide<K>, Wide<K>, |dr, w, l, r| {
    let mut v = vec![];
    for i in (0..K).rev() { v.push(l.as_gadget()[i].mul(dr, &r.as_gadget()[i])?); }
    let d = D::just(|| core::array::from_fn(|i| *v[i].value().take()));
    (FixedVec::try_from(v)?, d, w)
});

/// One application whose headers fill the whole encoding (N = K + 1).
fn filled<const N: usize, const K: usize>(c: &CellCtx) {
    let name = format!("header size {N}");
    let built = ragu_pcd::ApplicationBuilder::<Pasta, R, N>::new().register(Make::<K, 0>).and_then(|b| b.register(Times::<K, 1>)).and_then(|b| b.finalize(Pasta::baked()));
    let app = match built {
        Ok(a) => a,
        // Larger headers do not fit into the internal circuits and are refused.
        Err(_) if N > 65 => { c.outcome("refused"); c.tick(); return; }
        Err(e) => { c.violation(name, format!("refused: {e}")); return; }
    };
    c.outcome("built");
    let check = |what: &str, got: Result<(P<Wide<K>>, Fp)>, want: [Fp; K], aux: Fp| -> Option<P<Wide<K>>> {
        c.tick();
        let (p, a) = match got { Ok(x) => x, Err(e) => { c.violation(format!("{name} {what}"), format!("refused: {e}")); return None; } };
        c.same(p.data(), &want, || format!("{name} {what}: data"));
        c.same(&a, &aux, || format!("{name} {what}: aux"));
        let v = app.verify(&p, &mut Rng::of(what));
        c.check(matches!(v, Ok(true)), || format!("{name} {what}"), || format!("verification gives {v:?}")).then_some(p)
    };
    let w = Fp::from(3);
    let d0: [Fp; K] = core::array::from_fn(|i| w * Fp::from(i as u64 + 1));
    let times = |a: &[Fp; K], b: &[Fp; K]| -> [Fp; K] { core::array::from_fn(|i| a[K - 1 - i] * b[K - 1 - i]) };
    let mut rng = Rng::of(&name);
    let Some(a) = check("seed", app.seed(&mut rng, Make::<K, 0>, w), d0, w) else { return };
    let Some(b) = check("rerandomized", app.rerandomize(a.clone(), &mut rng).map(|p| (p, w)), d0, w) else { return };
    let d1 = times(&d0, &d0);
    let Some(t) = check("fused", app.fuse(&mut rng, Times::<K, 1>, w, a, b), d1, w) else { return };
    let d2 = times(&d1, &d1);
    let Some(u) = check("fused again", app.fuse(&mut rng, Times::<K, 1>, w, t.clone(), t), d2, w) else { return };
    check("rerandomized fused", app.rerandomize(u, &mut rng).map(|p| (p, w)), d2, w);
}
fn header_sizes(c: &CellCtx) {
    type Run = fn(&CellCtx);
    #[derive(Clone, Copy)] struct S(usize, Run);
    impl std::fmt::Debug for S { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
    let mut v = vec![S(1, filled::<1, 0>), S(2, filled::<2, 1>), S(3, filled::<3, 2>), S(9, filled::<9, 8>), S(65, filled::<65, 64>), S(66, filled::<66, 65>), S(67, filled::<67, 66>), S(68, filled::<68, 67>)];
    v.reverse();
    c.par(&v, |s| s.1(c));
}

/// A step that multiplies numbers and adds its position.
pub struct Nth<const I: usize>;
general_step!([const I: usize] Nth<I>, I, Num, Num, Num, |dr, w, l, r| {
    let x = l.as_gadget().mul(dr, r.as_gadget())?;
    let i = Element::constant(dr, Fp::from(I as u64));
    let s = x.add(dr, &i);
    let v = val(&s);
    (s, v, w)
});
fn step_counts(c: &CellCtx) {
    // 15 internal circuits and steps come with every application: the registry
    // grows past a power of two at 2, 18 and 50 steps.
    macro_rules! count { ($n:literal: $($i:literal)*) => { {
        let b = ragu_pcd::ApplicationBuilder::<Pasta, R, HS>::new().register(Leaf);
        $( let b = b.and_then(|b| b.register(Nth::<$i>)); )*
        let which: &[usize] = &[$($i),*];
        let most = which.len();
        match b.and_then(|b| b.finalize(Pasta::baked())) {
            Err(e) => c.violation(format!("{} steps", $n), format!("refused: {e}")),
            Ok(app) => {
                let mut rng = Rng::of("counts");
                let name = format!("{} steps, ", $n);
                let w = Fp::from(7);
                let Some(a) = honest(c, &app, &format!("{name}Leaf"), app.seed(&mut rng, Leaf, w).map(|(p, a)| (Any::N(p), a)), (vec![w * w], w)) else { return };
                c.tick();
                let Any::N(mut p) = a else { unreachable!() };
                let mut v = w * w;
                $( if c.thorough() || $i == 1 || $i == most || $i == most - 1 {
                    v = v * v + Fp::from($i as u64);
                    let got = app.fuse(&mut rng, Nth::<$i>, w, p.clone(), p.clone()).map(|(p, a)| (Any::N(p), a));
                    match honest(c, &app, &format!("{name}Nth({})", $i), got, (vec![v], w)) { Some(Any::N(q)) => p = q, _ => return }
                    c.tick();
                } )*
                let got = app.rerandomize(p.clone(), &mut rng).map(|p| (Any::N(p), w));
                honest(c, &app, &format!("{name}rerandomized"), got, (vec![v], w));
                c.tick();
            }
        }
    } } }
    #[derive(Debug)] struct K(u64);
    c.par(&[K(18), K(17), K(3), K(2), K(1), K(50), K(49)], |k| match k.0 {
        1 => count!(1:),
        2 => count!(2: 1),
        3 => count!(3: 1 2),
        17 => count!(17: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16),
        18 => count!(18: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17),
        49 if c.thorough() => count!(49: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48),
        50 if c.thorough() => count!(50: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49),
        _ => {}
    });
}
