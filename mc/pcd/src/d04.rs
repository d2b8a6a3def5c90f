//! D04: registration of steps.
use crate::steps::{App, HS, Leaf, Num, P, R, Rng, val};
use crate::general_step;
use ff::Field;
use kit::{CellCtx, Ctx};
use ragu_arithmetic::Cycle;
use ragu_circuits::registry::CircuitIndex;
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::maybe::Maybe;
use ragu_core::{Error, Result};
use ragu_pasta::{Fp, Pasta};
use ragu_pcd::header::{Header, Suffix};
use ragu_pcd::step::{Encoded, Index, Step};
use ragu_pcd::{ApplicationBuilder, mc};
use ragu_primitives::Element;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::Mutex;

type B<const N: usize> = ApplicationBuilder<'static, Pasta, R, N>;

/// Header type number T, with suffix S.
pub struct Hd<const T: usize, const S: usize>;
impl<const T: usize, const S: usize> Header<Fp> for Hd<T, S> {
    const SUFFIX: Suffix = Suffix::new(S);
    type Data = Fp;
    type Output = Kind![Fp; Element<'_, _>];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, Fp>) -> Result<Bound<'dr, D, Self::Output>> { Element::alloc(dr, w) }
}
trait Of: Header<Fp> { const TYPE: usize; const SUFFIX_NUMBER: Option<usize>; fn of(x: Fp) -> Self::Data; }
impl Of for () { const TYPE: usize = 99; const SUFFIX_NUMBER: Option<usize> = None; fn of(_: Fp) {} }
impl<const T: usize, const S: usize> Of for Hd<T, S> { const TYPE: usize = T; const SUFFIX_NUMBER: Option<usize> = Some(S); fn of(x: Fp) -> Fp { x } }

/// A step with any headers and any index.
struct Reg<L, Rr, O, const I: usize>(PhantomData<fn() -> (L, Rr, O)>);
impl<L: Of, Rr: Of, O: Of, const I: usize> Step<Pasta> for Reg<L, Rr, O, I> {
    const INDEX: Index = Index::new(I);
    type Witness<'source> = ();
    type Aux<'source> = ();
    type Left = L;
    type Right = Rr;
    type Output = O;
    fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = Fp>, const N: usize>(&self, dr: &mut D, _: DriverValue<D, ()>, left: DriverValue<D, L::Data>, right: DriverValue<D, Rr::Data>)
        -> Result<((Encoded<'dr, D, L, N>, Encoded<'dr, D, Rr, N>, Encoded<'dr, D, O, N>), DriverValue<D, O::Data>, DriverValue<D, ()>)> where Self: 'dr {
        let out = D::just(|| O::of(Fp::from(7)));
        Ok(((Encoded::new(dr, left)?, Encoded::new(dr, right)?, Encoded::new(dr, out.clone())?), out, D::unit()))
    }
}

/// One way of calling `register`, and what it is.
#[derive(Clone, Copy)]
struct Call { index: usize, headers: [(usize, Option<usize>); 3], go: fn(B<HS>) -> Result<B<HS>> }
impl std::fmt::Debug for Call {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let n = |h: (usize, Option<usize>)| match h.1 { None => "()".to_string(), Some(s) => format!("type {} suffix {s}", h.0) };
        write!(f, "#{}: {}, {} -> {}", self.index, n(self.headers[0]), n(self.headers[1]), n(self.headers[2]))
    }
}
fn call<L: Of, Rr: Of, O: Of, const I: usize>() -> Call {
    Call { index: I, headers: [(L::TYPE, L::SUFFIX_NUMBER), (Rr::TYPE, Rr::SUFFIX_NUMBER), (O::TYPE, O::SUFFIX_NUMBER)], go: |b| b.register(Reg::<L, Rr, O, I>(PhantomData)) }
}
fn calls() -> Vec<Call> {
    let mut v = vec![];
    macro_rules! all {
        (1 [$($l:ty),*] $r:tt) => { $( all!(2 $l, $r $r); )* };
        (2 $l:ty, [$($r:ty),*] $o:tt) => { $( all!(3 $l, $r, $o); )* };
        (3 $l:ty, $r:ty, [$($o:ty),*]) => { $( v.push(call::<$l, $r, $o, 0>()); v.push(call::<$l, $r, $o, 1>()); v.push(call::<$l, $r, $o, 2>()); )* };
    }
    // Two types share suffix 0.
    all!(1 [(), Hd<0, 0>, Hd<1, 0>, Hd<0, 1>] [(), Hd<0, 0>, Hd<1, 0>, Hd<0, 1>]);
    v.push(call::<Hd<0, 0>, Hd<0, 0>, Hd<0, 0>, 3>());
    v.push(call::<Hd<0, 0>, Hd<0, 0>, Hd<0, 0>, { u32::MAX as usize }>());
    v.push(call::<Hd<0, 0>, Hd<0, 0>, Hd<0, 0>, { 1 << 32 }>());
    v.push(call::<Hd<0, 0>, Hd<0, 0>, Hd<0, 0>, { usize::MAX }>());
    v.push(call::<Hd<2, 0>, Hd<3, 1>, Hd<4, 2>, 0>());
    v.push(call::<Hd<2, 0>, Hd<3, 1>, Hd<4, 2>, 1>());
    v.push(call::<Hd<4, 2>, Hd<0, 1>, Hd<2, 0>, 1>());
    v.push(call::<(), Hd<1, 2>, (), 1>());
    v.push(call::<(), Hd<1, 2>, (), 2>());
    // Suffixes that agree in their low bits.
    v.push(call::<Hd<5, 256>, Hd<6, 0x1_0000_0000>, Hd<7, { usize::MAX - 2 }>, 0>());
    v.push(call::<Hd<5, 256>, Hd<6, 0x1_0000_0000>, Hd<7, { usize::MAX - 2 }>, 1>());
    v.push(call::<Hd<5, 0x1_0000_0000>, (), (), 1>());
    v
}

/// The reference: number of steps so far and which type has which suffix.
#[derive(Clone, Default)]
struct Model { n: usize, types: BTreeMap<usize, usize> }
impl Model {
    fn register(&mut self, c: &Call) -> bool {
        if c.index != self.n { return false; }
        for (t, s) in c.headers { if let Some(s) = s { if *self.types.entry(s).or_insert(t) != t { return false; } } }
        self.n += 1;
        true
    }
}
fn replay(h: &[Call]) -> Result<B<HS>> { let mut b = B::<HS>::new(); for c in h { b = (c.go)(b)?; } Ok(b) }

pub fn run(ctx: &Ctx) {
    let calls = calls();
    ctx.cell("registration histories", |c| {
        // Every history of accepted registrations, followed by every registration.
        let depth = 4;
        let mut level: Vec<(Vec<Call>, Model)> = vec![(vec![], Model::default())];
        for d in 0..depth {
            let next = Mutex::new(vec![]);
            c.par(&level.iter().map(|x| Hist(x)).collect::<Vec<_>>(), |h| {
                let mut mine = vec![];
                for k in &calls {
                    let (hist, model) = h.0;
                    c.tick();
                    let mut m = model.clone();
                    let want = m.register(k);
                    let key = || format!("{hist:?} then {k:?}");
                    let b = match c.attempt(|| replay(hist)) { Ok(Ok(b)) => b, Ok(Err(e)) => { c.violation(key(), format!("the beginning is refused the second time: {e}")); continue } Err(e) => { c.violation(key(), format!("panics: {e}")); continue } };
                    match c.attempt(|| (k.go)(b).map(|_| ())) {
                        Err(e) => c.violation(key(), format!("panics: {e}")),
                        Ok(Ok(())) => { c.outcome("accepted"); if !want { c.violation(key(), "accepted"); } else { let mut h = hist.clone(); h.push(*k); mine.push((h, m)); } }
                        Ok(Err(e)) => { c.outcome("refused"); if want { c.violation(key(), format!("refused: {e}")); } else if !matches!(e, Error::Initialization(_)) { c.violation(key(), format!("refused for the wrong reason: {e}")); } }
                    }
                }
                if d + 1 < depth { next.lock().unwrap().extend(mine); }
            });
            level = next.into_inner().unwrap();
            // What follows depends on the known headers and the number of steps: of histories of
            // three steps one represents all with the same known headers.
            if d >= 2 { let mut seen = std::collections::BTreeSet::new(); level.sort_by_key(|x| format!("{:?}", x.0)); level.retain(|x| seen.insert(format!("{:?}", x.1.types))); }
        }
    });
    ctx.cell("finished applications", |c| {
        // Whatever was accepted can be finished and used.
        let firsts: Vec<&Call> = calls.iter().filter(|k| Model::default().register(k)).collect();
        
        c.par(&firsts, |k| {
            c.tick();
            match replay(&[**k]).and_then(|b| b.finalize(Pasta::baked())) {
                Err(e) => c.violation(format!("{k:?}"), format!("cannot be finished: {e}")),
                Ok(app) => {
                    if k.headers[0].1.is_none() && k.headers[1].1.is_none() && k.headers[2].1 == Some(0) && k.headers[2].0 == 0 {
                        let mut rng = Rng(1);
                        let v = app.seed(&mut rng, Reg::<(), (), Hd<0, 0>, 0>(PhantomData), ()).and_then(|p| app.verify(&p.0, &mut rng));
                        c.check(matches!(v, Ok(true)), || format!("{k:?}"), || format!("cannot be used: {v:?}"));
                    }
                }
            }
        });
    });
    ctx.cell("positions", positions);
    ctx.cell("positions among any number", |c| {
        // Every index below a bound and around every power of two, among every such number of steps.
        let mut at: Vec<usize> = (0..if c.thorough() { 2200 } else { 600 }).collect();
        for b in 9..31 { for d in -20i64..=20 { at.push(((1i64 << b) + d) as usize); } }
        at.sort();
        at.dedup();
        let Some(first) = mc::index(0, 1) else { return c.violation("step 0 of 1", "has no position") };
        c.par(&at, |n| for i in &at {
            c.same(&mc::index(*i, *n), &(i < n).then(|| first + i), || format!("step {i} of {n}"));
            c.tick();
        });
    });
    ctx.cell("steps that are not registered", unregistered);
    ctx.cell("failing steps", failing);
}
struct Hist<'a>(&'a (Vec<Call>, Model));
impl std::fmt::Debug for Hist<'_> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0.0) } }

/// A step that multiplies numbers and adds its position.
pub struct Nth<const I: usize>;
general_step!([const I: usize] Nth<I>, I, Num, Num, Num, |dr, w, l, r| {
    let x = l.as_gadget().mul(dr, r.as_gadget())?;
    let i = Element::constant(dr, Fp::from(I as u64));
    let s = x.add(dr, &i);
    let v = val(&s);
    (s, v, w)
});
type Used = Mutex<BTreeMap<usize, (usize, CircuitIndex)>>;
fn place(c: &CellCtx, used: &Used, n: usize, i: usize, p: P<Num>) {
    let at = mc::position(p);
    let mut u = used.lock().unwrap();
    let (m, first) = u.entry(i).or_insert((n, at)).clone();
    c.check(first == at, || format!("step {i}"), || format!("at {at:?} among {n} steps but at {first:?} among {m}"));
    for (j, (_, o)) in u.iter() { c.check(*j == i || *o != at, || format!("steps {i} and {j}"), || format!("both at {at:?}")); }
}
fn use_step<const I: usize>(c: &CellCtx, used: &Used, n: usize, app: &App<HS>, p: &P<Num>) {
    c.tick();
    let name = || format!("step {I} of {n}");
    let mut rng = Rng::of(&name());
    match app.fuse(&mut rng, Nth::<I>, Fp::from(3), p.clone(), p.clone()) {
        Err(e) => c.violation(name(), format!("refused: {e}")),
        Ok((q, _)) => {
            c.same(q.data(), &(p.data().square() + Fp::from(I as u64)), name);
            let v = app.verify(&q, &mut rng);
            c.check(matches!(v, Ok(true)), name, || format!("verification gives {v:?}"));
            place(c, used, n, I, q);
        }
    }
}
fn first(app: &App<HS>) -> Result<P<Num>> { Ok(app.seed(&mut Rng(11), Leaf, Fp::from(5))?.0) }
fn positions(c: &CellCtx) {
    let used: Used = Mutex::new(BTreeMap::new());
    macro_rules! app { ($($i:literal)*) => { {
        let b = B::<HS>::new().register(Leaf);
        $( let b = b.and_then(|b| b.register(Nth::<$i>)); )*
        b.and_then(|b| b.finalize(Pasta::baked()))
    } } }
    macro_rules! go { ($n:literal: $app:expr; $($i:literal)*) => { {
        match $app.and_then(|a| first(&a).map(|p| (a, p))) {
            Err(e) => c.violation(format!("{} steps", $n), format!("refused: {e}")),
            Ok((app, p)) => { let _ = &app;
                c.tick();
                place(c, &used, $n, 0, p.clone());
                $( use_step::<$i>(c, &used, $n, &app, &p); )*
            }
        }
    } } }
    let mut jobs = vec![17, 18, 5, 4, 3, 2, 1];
    if c.thorough() { jobs.push(50); }
    c.par(&jobs, |n| match n {
        1 => go!(1: app!(); ),
        2 => go!(2: app!(1); 1),
        3 => go!(3: app!(1 2); 1 2),
        4 => go!(4: app!(1 2 3); 1 2 3),
        5 => go!(5: app!(1 2 3 4); 1 2 3 4),
        17 => go!(17: app!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16); 1 2 3 4 16),
        18 => go!(18: app!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17); 1 2 15 16 17),
        50 => go!(50: app!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49); 1 16 17 31 32 33 48 49),
        _ => unreachable!(),
    });
}

/// As Nth, but another circuit or other headers.
pub struct Fake<const I: usize>;
general_step!([const I: usize] Fake<I>, I, Num, Num, Num, |dr, w, l, r| {
    let x = l.as_gadget().add(dr, r.as_gadget());
    let v = val(&x);
    (x, v, w)
});
pub struct Other<const I: usize>;
general_step!([const I: usize] Other<I>, I, Num, Num, Hd<8, 8>, |dr, w, l, r| {
    let x = l.as_gadget().mul(dr, r.as_gadget())?;
    let i = Element::constant(dr, Fp::from(I as u64));
    let s = x.add(dr, &i);
    let v = val(&s);
    (s, v, w)
});
pub struct From_<const I: usize>;
general_step!([const I: usize] From_<I>, I, (), (), Num, |dr, w, l, r| {
    let x = Element::alloc(dr, w)?;
    let v = val(&x);
    (x.clone(), v, val(&x))
});
fn unregistered(c: &CellCtx) {
    macro_rules! beyond { ($app:ident, $p:ident, $n:literal: $($i:expr),*) => { $( {
        c.tick();
        let name = format!("step {} of an application of {}", { let i: usize = $i; i }, $n);
        match c.attempt(|| $app.fuse(&mut Rng(2), Nth::<{ $i }>, Fp::ONE, $p.clone(), $p.clone()).map(|_| ())) {
            Err(e) => c.violation(name.clone(), format!("panics: {e}")),
            Ok(r) => { c.check(r.is_err(), || name.clone(), || "fused".into()); }
        }
        match c.attempt(|| $app.seed(&mut Rng(2), From_::<{ $i }>, Fp::ONE).map(|_| ())) {
            Err(e) => c.violation(name.clone(), format!("panics: {e}")),
            Ok(r) => { c.check(r.is_err(), || name.clone(), || "seeded".into()); }
        }
    } )* } }
    macro_rules! fake { ($app:ident, $p:ident, $t:expr) => { {
        c.tick();
        let name = format!("{} in the place of another step", stringify!($t));
        let v = c.attempt(|| $app.fuse(&mut Rng(2), $t, Fp::ONE, $p.clone(), $p.clone()).and_then(|q| $app.verify(&q.0, &mut Rng(3))));
        c.check(!matches!(v, Ok(Ok(true))), || name.clone(), || "makes a proof that verifies".into());
    } } }
    c.par(&[1, 3], |n| {
        if *n == 1 {
            let app = B::<HS>::new().register(Leaf).and_then(|b| b.finalize(Pasta::baked())).unwrap();
            let p = first(&app).unwrap();
            beyond!(app, p, 1: 1, 2, 15, usize::MAX - 15, usize::MAX, 0x1_0000_0000, 0xffff_fff1);
        } else {
            let app = B::<HS>::new().register(Leaf).and_then(|b| b.register(Nth::<1>)).and_then(|b| b.register(Nth::<2>)).and_then(|b| b.finalize(Pasta::baked())).unwrap();
            let p = first(&app).unwrap();
            beyond!(app, p, 3: 3, 4, 5, usize::MAX - 12, usize::MAX, 0x1_0000_0000);
            fake!(app, p, Nth::<0>);
            fake!(app, p, Fake::<1>);
            fake!(app, p, Other::<1>);
            fake!(app, p, Other::<2>);
            c.tick();
            for s in 0..2 {
                let v = c.attempt(|| if s == 0 { app.seed(&mut Rng(2), From_::<1>, Fp::ONE) } else { app.seed(&mut Rng(2), From_::<0>, Fp::ONE) }.and_then(|q| app.verify(&q.0, &mut Rng(3))));
                c.check(!matches!(v, Ok(Ok(true))), || "another seed in the place of a step".into(), || "makes a proof that verifies".into());
            }
        }
    });
}

/// A step whose synthesis fails: always, or only when there is a witness.
struct Fails<const A: bool>;
impl<const A: bool> Step<Pasta> for Fails<A> {
    const INDEX: Index = Index::new(1);
    type Witness<'source> = u64;
    type Aux<'source> = ();
    type Left = Num;
    type Right = Num;
    type Output = Num;
    fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = Fp>, const N: usize>(&self, dr: &mut D, w: DriverValue<D, u64>, left: DriverValue<D, Fp>, right: DriverValue<D, Fp>)
        -> Result<((Encoded<'dr, D, Num, N>, Encoded<'dr, D, Num, N>, Encoded<'dr, D, Num, N>), DriverValue<D, Fp>, DriverValue<D, ()>)> where Self: 'dr {
        if A { return Err(Error::InvalidWitness("always".into())); }
        let l = Encoded::new(dr, left)?;
        let r = Encoded::new(dr, right)?;
        let x = Element::alloc(dr, D::try_just(|| if w.take() == 0 { Err(Error::InvalidWitness("witness".into())) } else { Ok(Fp::from(5)) })?)?;
        let v = val(&x);
        Ok(((l, r, Encoded::from_gadget(x)), v, D::unit()))
    }
}
fn failing(c: &CellCtx) {
    c.tick();
    let r = c.attempt(|| B::<HS>::new().register(Leaf).and_then(|b| b.register(Fails::<true>)).map(|_| ()));
    c.check(matches!(r, Ok(Err(Error::InvalidWitness(_)))), || "a step that cannot be synthesized".into(), || format!("registering gives {r:?}"));
    let app = B::<HS>::new().register(Leaf).and_then(|b| b.register(Fails::<false>)).and_then(|b| b.finalize(Pasta::baked()));
    let app = match app { Ok(a) => a, Err(e) => { c.violation("a step that fails for some witnesses", format!("refused: {e}")); return } };
    let p = first(&app).unwrap();
    // The application is still usable after a failure.
    for w in [0, 1, 0, 2] {
        c.tick();
        let r = c.attempt(|| app.fuse(&mut Rng(3), Fails::<false>, w, p.clone(), p.clone()).and_then(|q| app.verify(&q.0, &mut Rng(3))));
        if w == 0 { c.check(matches!(r, Ok(Err(Error::InvalidWitness(_)))), || "a step that fails for a witness".into(), || format!("fusing gives {r:?}")); }
        else { c.check(matches!(r, Ok(Ok(true))), || "a step after a failure".into(), || format!("verification gives {r:?}")); }
    }
}
