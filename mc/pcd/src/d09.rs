//! D09: what does not verify cannot be laundered by fusing or rerandomizing,
//! and no step can make a proof of something it did not check.
use crate::claims::*;
use crate::isolate::isolating;
use crate::d02::{APP_STEPS, Made, carry, made, suffix};
use crate::parts::*;
use crate::steps::*;
use ff::Field;
use kit::{CellCtx, Ctx};
use ragu_arithmetic::Cycle;
use ragu_core::Result;
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::maybe::Maybe;
use ragu_pasta::{Fp, Pasta};
use ragu_pcd::header::Header;
use ragu_pcd::step::{Encoded, Index, Step};
use ragu_primitives::Element;

/// The result of fusing must be refused at some point: by the prover or by the verifier.
fn refused(c: &CellCtx, app: &App<HS>, what: &str, f: impl FnOnce() -> Result<Any>) -> Option<Any> {
    c.tick();
    match c.attempt(f) {
        Err(_) => { c.outcome("prover panics"); None }
        Ok(Err(_)) => { c.outcome("prover refuses"); None }
        Ok(Ok(p)) => match c.attempt(|| p.verify(app, &mut Rng::of(what))) {
            Ok(Ok(true)) => { c.violation(what, "proof-carrying data that verifies was made from invalid proof-carrying data"); None }
            Ok(Ok(false)) => { c.outcome("verifier rejects"); Some(p) }
            Ok(Err(_)) => { c.outcome("verifier refuses"); Some(p) }
            Err(m) => { c.violation(what, format!("verification panicked: {m}")); None }
        },
    }
}

/// Components whose correctness is accumulated on the native side.
fn accumulated(k: &str) -> bool {
    // The nested side of a child and values that are only used while its own proof is made are not accumulated.
    !(k.ends_with("bridge.rx") || k.starts_with("p.nested") || k.starts_with("f.native") || k.starts_with("s_prime.native") || k.contains("registry_wy"))
}

/// The same proof with commitments to what its native traces and polynomials
/// now are, so that only a claim about them can be what is wrong.
fn committed(mut pf: Pf, base: &Pf) -> Pf {
    use ragu_arithmetic::Cycle;
    let (now, was) = (all(&pf), all(base));
    for (k, v) in &now {
        let Own::Native(p) = v else { continue };
        let Some(com) = k.strip_suffix("rx").or(k.strip_suffix("poly")).map(|p| format!("{p}commitment")) else { continue };
        if v.same(&was[k]) || !now.contains_key(&com) || !now[&com].same(&was[&com]) { continue; }
        set(&mut pf, &com, &Own::Host(p.commit_to_affine(ragu_pasta::Pasta::host_generators(ragu_pasta::Pasta::baked()))));
    }
    pf
}

/// Where the altered child goes, and with what sibling: another of its kind, or one whose header says nothing.
const PLACES: [&str; 4] = ["as left child", "as right child", "as left child of a pair with nothing", "as right child of a pair with nothing"];
fn places(kind: char) -> std::ops::Range<usize> { match kind { 'N' => 0..4, 'U' => 2..4, _ => 0..2 } }
/// A step that takes the altered child in the given place, with valid siblings.
fn used(app: &App<HS>, rng: &mut Rng, place: usize, bad: &Any, good: &Good) -> Result<Any> {
    let w = Fp::ONE;
    let leaf = good.leaf.any();
    Ok(match (bad.kind(), place) {
        ('N', 0) => apply(app, rng, 1, w, bad, &leaf)?.0,
        ('N', 1) => apply(app, rng, 1, w, &leaf, bad)?.0,
        ('N', 2) => apply(app, rng, 10, w, bad, &good.unit.any())?.0,
        ('N', 3) => apply(app, rng, 5, w, &good.unit.any(), bad)?.0,
        ('P', 0) => apply(app, rng, 2, w, bad, &good.pair.any())?.0,
        ('P', 1) => apply(app, rng, 2, w, &good.pair.any(), bad)?.0,
        // Here it is the altered child that says nothing; together with another of that kind it would not be looked at.
        ('U', 2) => apply(app, rng, 5, w, bad, &leaf)?.0,
        ('U', 3) => apply(app, rng, 10, w, &leaf, bad)?.0,
        ('E', 0) => apply(app, rng, 11, w, bad, &good.empty.any())?.0,
        ('E', 1) => apply(app, rng, 11, w, &good.empty.any(), bad)?.0,
        _ => unreachable!(),
    })
}
impl Made { fn any(&self) -> Any { carry(self.kind, self.pf.clone(), &self.data) } }
struct Good { leaf: Made, pair: Made, unit: Made, empty: Made }

fn good() -> Good {
    with_app(|app| {
        let mut rng = Rng(5);
        let w = Fp::from(3);
        let (a, _) = seed(app, &mut rng, 0, w).unwrap();
        let (b, _) = seed(app, &mut rng, 0, Fp::from(4)).unwrap();
        let (p, _) = apply(app, &mut rng, 1, w, &a, &b).unwrap();
        let (unit, _) = seed(app, &mut rng, 8, w).unwrap();
        let (empty, _) = seed(app, &mut rng, 7, w).unwrap();
        Good { leaf: made("Leaf", a), pair: made("PairUp(Leaf,Leaf)", p), unit: made("Unit", unit), empty: made("Mk", empty) }
    })
}

pub fn run(ctx: &Ctx) {
    ctx.assume("the nested side of a child's proof is not accumulated by this version of the protocol (verification checks it directly); alterations of it are covered for direct verification by D02 only");
    ctx.assume("two children with the header () are not looked at at all, as the protocol starts from them; altered ones are used next to a child with another header, and rerandomized");
    let good = good();
    let Good { leaf, pair, unit, .. } = &good;
    let r = with_app(|app| Reference::new(app, APP_STEPS));
    ctx.cell("altered children", |c| {
        let mut jobs = vec![];
        for b in [pair, leaf, unit] {
            for (k, v) in all(&b.pf) {
                if !accumulated(&k) { continue; }
                let mut n = 0;
                for (a, w) in alterations(&v, 0) {
                    let mut pf = b.pf.clone();
                    set(&mut pf, &k, &w);
                    // Altered commitments are noticed only by the accumulation.
                    let wrong = matches!(w, Own::Host(_)) || with_app(|app| r.fails(app, &all(&pf), &b.data, suffix(b.kind)).is_some());
                    if !wrong { continue; }
                    for p in places(b.kind) { if c.thorough() || b.kind == 'P' || (jobs.len() + p) % 4 == 0 { jobs.push((b, format!("{k} {a}"), pf.clone(), p)); } }
                    if !matches!(w, Own::Native(_)) { n += 1; if n >= if c.thorough() { 6 } else { 1 } { break; } continue; }
                    let pf = committed(pf, &b.pf);
                    for p in places(b.kind) { if c.thorough() || (b.kind == 'P' && p == n % 2) { jobs.push((b, format!("{k} {a}, committed,"), pf.clone(), p)); } }
                    n += 1;
                    if n >= if c.thorough() { 6 } else { 1 } { break; }
                }
            }
        }
        c.par_range(jobs.len() as u64, |j| with_app(|app| {
            let (b, n, pf, place) = &jobs[j as usize];
            let bad = carry(b.kind, pf.clone(), &b.data);
            let what = format!("{} with {n} {}", b.name, PLACES[*place]);
            refused(c, app, &what, || used(app, &mut Rng::of(&what), *place, &bad, &good));
        }));
    });
    ctx.cell("children with one false claim", |c| {
        // Alterations that leave every claim but one true, so that each claim must itself be accumulated.
        let per = if c.thorough() { 4 } else { 1 };
        let (plus, minus) = (isolating(&r, pair, per, false), isolating(&r, pair, per, true));
        let nested = |k: &str| ["Bridge", "Endo", "Points"].iter().any(|p| k.starts_with(p));
        let mut seen = std::collections::BTreeMap::<String, u32>::new();
        let mut jobs = vec![];
        for (i, a) in plus.iter().enumerate() {
            if ["p.nested", "bridge.rx", "in the ratio of", "accumulated"].iter().any(|p| a.what.contains(p)) && !a.what.contains("with the same value at challenges.w") && a.what != "accumulated commitment" { continue; }
            let f = with_app(|app| r.fails_all(app, &all(&a.pf), &a.data, suffix(pair.kind)));
            if f.len() != 1 || nested(&f[0]) { continue; }
            let n = seen.entry(f[0].clone()).or_default();
            *n += 1;
            if *n > per as u32 { continue; }
            // On the left, on the right, and on both sides so that the errors cancel out.
            for side in 0..3 { jobs.push((f[0].clone(), i, side)); }
        }
        c.par_range(jobs.len() as u64, |j| with_app(|app| {
            let (f, i, side) = &jobs[j as usize];
            let bad = carry(pair.kind, committed(plus[*i].pf.clone(), &pair.pf), &pair.data);
            let other = if *side == 2 { carry(pair.kind, committed(minus[*i].pf.clone(), &pair.pf), &pair.data) } else { carry(pair.kind, pair.pf.clone(), &pair.data) };
            let (l, r) = if *side == 1 { (&other, &bad) } else { (&bad, &other) };
            let what = format!("{} ({f} is false) {}", plus[*i].what, ["as left child", "as right child", "as left child and its opposite as right child"][*side]);
            refused(c, app, &what, || Ok(apply(app, &mut Rng::of(&what), 2, Fp::ONE, l, r)?.0));
        }));
        c.outcomes("claims falsified alone", seen.len() as u64);
    });
    ctx.cell("wrong data through several levels", |c| {
        let mut jobs = vec![];
        for b in [pair, leaf] {
            for i in 0..b.data.len() { for p in places(b.kind) { let mut d = b.data.clone(); d[i] += Fp::ONE; jobs.push((b, b.kind, d, p)); } }
        }
        jobs.push((pair, 'N', vec![pair.data[0]], 0));
        jobs.push((leaf, 'P', vec![leaf.data[0], Fp::ZERO], 0));
        jobs.push((leaf, 'P', vec![leaf.data[0], Fp::ZERO], 1));
        // Proofs of something that are presented as proofs of nothing, and the other way round.
        for p in places('U') { jobs.push((leaf, 'U', vec![], p)); jobs.push((pair, 'U', vec![], p)); }
        for p in places('E') { jobs.push((leaf, 'E', vec![], p)); jobs.push((unit, 'E', vec![], p)); }
        for p in places('N') { jobs.push((unit, 'N', vec![Fp::ZERO], p)); }
        c.par_range(jobs.len() as u64, |j| with_app(|app| {
            let (b, kind, data, place) = &jobs[j as usize];
            let what = format!("{} as {kind} with data {data:?} {}", b.name, PLACES[*place]);
            let mut rng = Rng::of(&what);
            let bad = carry(*kind, b.pf.clone(), data);
            // Rerandomizing pairs with a child that says nothing: see below.
            if *kind != 'U' { refused(c, app, &format!("{what}, rerandomized"), || bad.rerandomize(app, &mut rng.clone())); }
            let Some(one) = refused(c, app, &what, || used(app, &mut rng, *place, &bad, &good)) else { return };
            // The invalid result again, alone and with valid siblings.
            let Some(two) = refused(c, app, &format!("{what}, then rerandomized"), || one.rerandomize(app, &mut rng.clone())) else { return };
            for p in [&one, &two] { for s in places(p.kind()) {
                if !c.thorough() && s > 1 && (*place > 1 || j % 2 == 0) { continue; }
                let n = format!("{what}, then {}", PLACES[s]);
                let Some(three) = refused(c, app, &n, || used(app, &mut rng.clone(), s, p, &good)) else { continue };
                if c.thorough() { for t in places(three.kind()) { refused(c, app, &format!("{n}, again {}", PLACES[t]), || used(app, &mut rng.clone(), t, &three, &good)); } }
            } }
        }));
    });
    ctx.cell("the trivial header, rerandomized", |c| {
        // What is rerandomized verifies identically, also when it says nothing.
        let mut jobs = vec![("Leaf as ()".to_string(), leaf.pf.clone()), ("PairUp(Leaf,Leaf) as ()".into(), pair.pf.clone()), ("Unit".into(), unit.pf.clone())];
        for k in ["p.native.v", "ab.native.c"] {
            let (a, w) = alterations(&all(&unit.pf)[k], 0).remove(0);
            let mut pf = unit.pf.clone();
            set(&mut pf, k, &w);
            jobs.push((format!("Unit with {k} {a}"), pf));
        }
        c.par_range(jobs.len() as u64, |j| with_app(|app| {
            let (n, pf) = &jobs[j as usize];
            let p = carry('U', pf.clone(), &[]);
            let before = p.verify(app, &mut Rng::of(n));
            let mut rng = Rng::of(&format!("{n} rerandomized"));
            let after = p.rerandomize(app, &mut rng.clone()).and_then(|q| q.verify(app, &mut rng));
            c.tick();
            let ok = |r: &Result<bool>| matches!(r, Ok(true));
            c.check(ok(&before) == (n == "Unit"), || format!("{n}, verified"), || format!("verification gives {before:?}"));
            c.check(ok(&before) == ok(&after), || n.clone(), || format!("verification gives {before:?} before and {after:?} after rerandomizing"));
        }));
    });
    ctx.cell("dishonest steps", dishonest);
    ctx.cell("other applications", other_applications);
}

/// Steps that do not compute what they claim, all taking and giving numbers.
macro_rules! liars {
    ($($t:ident $index:literal: |$dr:ident, $l:ident, $r:ident, $left:ident, $right:ident, $w:ident| $e:expr;)*) => { $(
        #[derive(Clone)] pub struct $t;
        impl Step<Pasta> for $t {
            const INDEX: Index = Index::new($index);
            type Witness<'source> = Fp;
            type Aux<'source> = ();
            type Left = Num;
            type Right = Num;
            type Output = Num;
            fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = Fp>, const N: usize>(
                &self, $dr: &mut D, $w: DriverValue<D, Fp>, $left: DriverValue<D, Fp>, $right: DriverValue<D, Fp>,
            ) -> Result<((Encoded<'dr, D, Num, N>, Encoded<'dr, D, Num, N>, Encoded<'dr, D, Num, N>), DriverValue<D, Fp>, DriverValue<D, ()>)> where Self: 'dr {
                let ($l, $r, out, data): (Element<'dr, D>, Element<'dr, D>, Element<'dr, D>, DriverValue<D, Fp>) = $e;
                Ok(((Encoded::from_gadget($l), Encoded::from_gadget($r), Encoded::from_gadget(out)), data, D::unit()))
            }
        }
    )* };
}
fn shift<'dr, D: Driver<'dr, F = Fp>>(v: DriverValue<D, Fp>, by: DriverValue<D, Fp>) -> DriverValue<D, Fp> { D::just(|| v.take() + by.take()) }
// The witness is how far the lie is from the truth: with zero every step is honest.
liars! {
    LieLeft 1: |dr, l, r, left, right, w| { let l = Element::alloc(dr, shift::<D>(left, w))?; let r = Element::alloc(dr, right)?; let s = l.add(dr, &r); let v = val(&s); (l, r, s, v) };
    LieRight 2: |dr, l, r, left, right, w| { let l = Element::alloc(dr, left)?; let r = Element::alloc(dr, shift::<D>(right, w))?; let s = l.add(dr, &r); let v = val(&s); (l, r, s, v) };
    LieData 3: |dr, l, r, left, right, w| { let l = Element::alloc(dr, left)?; let r = Element::alloc(dr, right)?; let s = l.add(dr, &r); let v = shift::<D>(val(&s), w); (l, r, s, v) };
    // An unsatisfied linear constraint, an unsatisfied product, and a wrong inverse.
    Linear 4: |dr, l, r, left, right, w| { let l = Element::alloc(dr, left)?; let r = Element::alloc(dr, right)?; let s = Element::alloc(dr, D::just(|| *l.value().take() + *r.value().take() + w.take()))?; let t = l.add(dr, &r); let d = s.sub(dr, &t); d.enforce_zero(dr)?; let v = val(&s); (l, r, s, v) };
    Product 5: |dr, l, r, left, right, w| { let l = Element::alloc(dr, left)?; let r = Element::alloc(dr, right)?; let p = l.mul(dr, &r)?; let s = Element::alloc(dr, D::just(|| *p.value().take() + w.take()))?; let d = s.sub(dr, &p); d.enforce_zero(dr)?; let v = val(&s); (l, r, s, v) };
    Exchanged 6: |dr, l, r, left, right, w| {
        // With a non-zero witness the children's headers are exchanged.
        let (a, b) = D::just(|| { let (x, y) = (left.take(), right.take()); if bool::from(w.take().is_zero()) { (x, y) } else { (y, x) } }).cast();
        let l = Element::alloc(dr, a)?; let r = Element::alloc(dr, b)?; let s = l.add(dr, &r); let v = val(&s); (l, r, s, v)
    };
}

fn dishonest(c: &CellCtx) {
    fn build() -> App<HS> { ragu_pcd::ApplicationBuilder::<Pasta, R, HS>::new().register(Leaf).and_then(|b| b.register(LieLeft)).and_then(|b| b.register(LieRight)).and_then(|b| b.register(LieData))
        .and_then(|b| b.register(Linear)).and_then(|b| b.register(Product)).and_then(|b| b.register(Exchanged)).and_then(|b| b.finalize(Pasta::baked())).expect("application") }
    thread_local!(static APP: App<HS> = build());
    #[derive(Debug)] struct J(usize, Fp, usize);
    let mut jobs = vec![];
    for s in 1..=6 { for w in [Fp::ONE, Fp::ZERO, -Fp::ONE] { if !c.thorough() && s % 2 == 0 && w == -Fp::ONE { continue; } for depth in if c.thorough() { 1..=3 } else { 1..=2 } { jobs.push(J(s, w, depth)); } } }
    c.par(&jobs, |J(s, w, depth)| APP.with(|app| {
        let what = format!("step {s}, off by {w:?}, at depth {depth}");
        let mut rng = Rng::of(&what);
        let (mut a, _) = app.seed(&mut rng, Leaf, Fp::from(3)).unwrap();
        let (b, _) = app.seed(&mut rng, Leaf, Fp::from(5)).unwrap();
        for _ in 1..*depth { a = app.fuse(&mut rng, LieData, Fp::ZERO, a, b.clone()).unwrap().0; }
        macro_rules! go { ($($i:literal $t:ident),*) => { match s { $($i => app.fuse(&mut rng, $t, *w, a, b.clone()).map(|p| p.0),)* _ => unreachable!() } } }
        let made = go!(1 LieLeft, 2 LieRight, 3 LieData, 4 Linear, 5 Product, 6 Exchanged);
        c.tick();
        if bool::from(w.is_zero()) {
            let ok = made.and_then(|p| app.verify(&p, &mut rng));
            c.check(matches!(ok, Ok(true)), || what.clone(), || format!("an honest step is not accepted: {ok:?}"));
            c.outcome("honest");
            return;
        }
        let Ok(p) = made else { c.outcome("prover refuses"); return };
        let v = app.verify(&p, &mut rng);
        c.check(!matches!(v, Ok(true)), || what.clone(), || "a proof of a false statement verifies".into());
        // Nor after anything else is built on it.
        let q = app.fuse(&mut rng, LieData, Fp::ZERO, p.clone(), b.clone()).and_then(|q| app.verify(&q.0, &mut rng));
        c.check(!matches!(q, Ok(true)), || format!("{what}, then fused"), || "a proof of a false statement verifies".into());
        let q = app.rerandomize(p, &mut rng).and_then(|q| app.verify(&q, &mut rng));
        c.check(!matches!(q, Ok(true)), || format!("{what}, then rerandomized"), || "a proof of a false statement verifies".into());
        c.outcome("rejected");
    }));
}

/// Proofs made by an application whose steps differ are not accepted by another.
fn other_applications(c: &CellCtx) {
    type B = ragu_pcd::ApplicationBuilder<'static, Pasta, R, HS>;
    let build = |v: usize| -> App<HS> {
        let b: B = B::new().register(Leaf).unwrap();
        match v {
            0 => b.register(LieLeft),
            // The same kinds of headers and as many steps, but another circuit.
            1 => b.register(Other),
            2 => b.register(LieLeft).and_then(|b| b.register(LieRight)),
            3 => b.register(LieLeft).and_then(|b| b.register(LieRight)).and_then(|b| b.register(LieData)),
            _ => Ok(b),
        }.unwrap().finalize(Pasta::baked()).unwrap()
    };
    let mut jobs = vec![];
    for a in 0..5 { for b in 0..5 { if a != b { jobs.push((a, b)); } } }
    c.par(&jobs, |&(a, b)| {
        let (from, to) = (build(a), build(b));
        let mut rng = Rng::of("other");
        let what = format!("proof of application {a} presented to application {b}");
        let (p, _) = from.seed(&mut rng, Leaf, Fp::from(3)).unwrap();
        c.tick();
        c.check(matches!(from.verify(&p, &mut rng), Ok(true)), || what.clone(), || "not accepted where it was made".into());
        c.check(!matches!(to.verify(&p, &mut rng), Ok(true)), || what.clone(), || "accepted".into());
        let q = to.rerandomize(p, &mut rng).and_then(|q| to.verify(&q, &mut rng));
        c.check(!matches!(q, Ok(true)), || format!("{what}, rerandomized"), || "accepted".into());
    });
}
liars! {
    Other 1: |dr, l, r, left, right, w| { let l = Element::alloc(dr, left)?; let r = Element::alloc(dr, right)?; let s = l.sub(dr, &r); let v = shift::<D>(val(&s), w); (l, r, s, v) };
}
