//! An application with several kinds of steps and headers, together with a
//! plain native reference of what every step computes.
use ff::Field;
use kit::CellCtx;
use ragu_arithmetic::Cycle;
use ragu_circuits::polynomials::ProductionRank;
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::maybe::Maybe;
use ragu_core::Result;
use ragu_pasta::{Fp, Pasta};
use ragu_pcd::header::{Header, Suffix};
use ragu_pcd::step::{Encoded, Index, Step};
use ragu_pcd::{Application, ApplicationBuilder, Pcd};
use ragu_primitives::Element;
use std::sync::Mutex;

/// Deterministic random numbers.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    fn step(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ z >> 27).wrapping_mul(0x94D049BB133111EB);
        z ^ z >> 31
    }
    /// Randomness belonging to one named place of the exploration.
    pub fn of(s: &str) -> Rng {
        Rng(s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)))
    }
}
impl rand::TryRng for Rng {
    type Error = core::convert::Infallible;
    fn try_next_u32(&mut self) -> std::result::Result<u32, Self::Error> { Ok(self.step() as u32) }
    fn try_next_u64(&mut self) -> std::result::Result<u64, Self::Error> { Ok(self.step()) }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> std::result::Result<(), Self::Error> {
        for c in b.chunks_mut(8) { let v = self.step().to_le_bytes(); c.copy_from_slice(&v[..c.len()]); }
        Ok(())
    }
}
impl rand::TryCryptoRng for Rng {}

pub const HS: usize = 4;
pub type R = ProductionRank;
pub type App<const N: usize> = Application<'static, Pasta, R, N>;
pub type P<H> = Pcd<Pasta, R, H>;

#[macro_export]
macro_rules! header {
    ($t:ident, $suffix:expr, $data:ty, $out:ty, |$dr:ident, $w:ident| $e:expr) => {
        #[derive(Debug)]
        pub struct $t;
        impl Header<Fp> for $t {
            const SUFFIX: Suffix = Suffix::new($suffix);
            type Data = $data;
            type Output = $out;
            fn encode<'dr, D: Driver<'dr, F = Fp>>($dr: &mut D, $w: DriverValue<D, $data>) -> Result<Bound<'dr, D, Self::Output>> { $e }
        }
    };
}
header!(Num, 0, Fp, Kind![Fp; Element<'_, _>], |dr, w| Element::alloc(dr, w));
header!(Pair, 1, (Fp, Fp), Kind![Fp; (Element<'_, _>, Element<'_, _>)], |dr, w| { let (a, b) = w.cast(); Ok((Element::alloc(dr, a)?, Element::alloc(dr, b)?)) });
header!(Full, 7, [Fp; 3], Kind![Fp; (Element<'_, _>, (Element<'_, _>, Element<'_, _>))], |dr, w| { let [a, b, c] = [0, 1, 2].map(|i| w.as_ref().map(|w| w[i])); Ok((Element::alloc(dr, a)?, (Element::alloc(dr, b)?, Element::alloc(dr, c)?))) });
header!(Empty, 2, (), (), |_dr, _w| Ok(()));

#[macro_export]
macro_rules! step {
    ($t:ident, $index:expr, $w:ty, $l:ty, $r:ty, $o:ty, |$dr:ident, $wit:ident, $left:ident, $right:ident| $e:expr) => {
        #[derive(Debug, Clone)]
        pub struct $t;
        impl Step<Pasta> for $t {
            const INDEX: Index = Index::new($index);
            type Witness<'source> = $w;
            type Aux<'source> = Fp;
            type Left = $l;
            type Right = $r;
            type Output = $o;
            fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = Fp>, const N: usize>(
                &self, $dr: &mut D, $wit: DriverValue<D, $w>, left: DriverValue<D, <$l as Header<Fp>>::Data>, right: DriverValue<D, <$r as Header<Fp>>::Data>,
            ) -> Result<((Encoded<'dr, D, $l, N>, Encoded<'dr, D, $r, N>, Encoded<'dr, D, $o, N>), DriverValue<D, <$o as Header<Fp>>::Data>, DriverValue<D, Fp>)> where Self: 'dr {
                let $left: Encoded<'dr, D, $l, N> = Encoded::new($dr, left)?;
                let $right: Encoded<'dr, D, $r, N> = Encoded::new($dr, right)?;
                let (out, data, aux) = $e;
                Ok((($left, $right, Encoded::from_gadget(out)), data, aux))
            }
        }
    };
}
/// As `step!`, for steps with parameters.
#[macro_export]
macro_rules! general_step {
    ([$($g:tt)*] $t:ty, $index:expr, $l:ty, $r:ty, $o:ty, |$dr:ident, $wit:ident, $left:ident, $right:ident| $e:expr) => {
        impl<$($g)*> Step<Pasta> for $t {
            const INDEX: Index = Index::new($index);
            type Witness<'source> = Fp;
            type Aux<'source> = Fp;
            type Left = $l;
            type Right = $r;
            type Output = $o;
            fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = Fp>, const N: usize>(
                &self, $dr: &mut D, $wit: DriverValue<D, Fp>, left: DriverValue<D, <$l as Header<Fp>>::Data>, right: DriverValue<D, <$r as Header<Fp>>::Data>,
            ) -> Result<((Encoded<'dr, D, $l, N>, Encoded<'dr, D, $r, N>, Encoded<'dr, D, $o, N>), DriverValue<D, <$o as Header<Fp>>::Data>, DriverValue<D, Fp>)> where Self: 'dr {
                let $left: Encoded<'dr, D, $l, N> = Encoded::new($dr, left)?;
                let $right: Encoded<'dr, D, $r, N> = Encoded::new($dr, right)?;
                let (out, data, aux) = $e;
                Ok((($left, $right, Encoded::from_gadget(out)), data, aux))
            }
        }
    };
}
pub fn val<'dr, D: Driver<'dr, F = Fp>>(e: &Element<'dr, D>) -> DriverValue<D, Fp> { e.value().map(|v| *v) }

// Witnesses are field elements throughout; `()` children may be trivial or real.
step!(Leaf, 0, Fp, (), (), Num, |dr, w, l, r| { let x = Element::alloc(dr, w)?; let y = x.mul(dr, &x)?; let v = val(&y); (y, v, val(&x)) });
step!(PairUp, 1, Fp, Num, Num, Pair, |dr, w, l, r| {
    let (a, b) = (l.as_gadget().clone(), r.as_gadget().clone());
    let s = a.add(dr, &b);
    let d = val(&s).and_then(|s| val(&a).map(|a| (s, a)));
    ((s.clone(), a), d, w)
});
step!(Sum, 2, Fp, Pair, Pair, Num, |dr, w, l, r| {
    let ((a, b), (c, d)) = (l.as_gadget().clone(), r.as_gadget().clone());
    let x = a.mul(dr, &c)?;
    let y = b.mul(dr, &d)?;
    let s = x.sub(dr, &y);
    let v = val(&s);
    (s, v, w)
});
step!(Grow, 3, Fp, Num, Pair, Full, |dr, w, l, r| {
    let (n, (a, b)) = (l.as_gadget().clone(), r.as_gadget().clone());
    let w = Element::alloc(dr, w)?;
    let x = a.mul(dr, &w)?;
    let d = D::just(|| [*n.value().take(), *x.value().take(), *b.value().take()]);
    ((n, (x, b)), d, val(&w))
});
step!(Shrink, 4, Fp, Full, (), Num, |dr, w, l, r| {
    let (a, (b, c)) = l.as_gadget().clone();
    let x = a.mul(dr, &b)?;
    let s = x.add(dr, &c);
    let v = val(&s);
    (s, v, w)
});
step!(Lift, 5, Fp, (), Num, Num, |dr, w, l, r| {
    let n = r.as_gadget().clone();
    let s = n.add(dr, &Element::one());
    let v = val(&s);
    (s, v, w)
});
step!(Drop_, 6, Fp, Empty, Num, (), |dr, w, l, r| { let _ = &dr; ((), D::unit(), w) });
step!(Mk, 7, Fp, (), (), Empty, |dr, w, l, r| { let _ = &dr; ((), D::unit(), w) });
step!(Unit, 8, Fp, (), (), (), |dr, w, l, r| { let w = Element::alloc(dr, w)?; let s = w.square(dr)?; ((), D::unit(), val(&s)) });
// Nearly as many gates as a circuit can have.
step!(Big, 9, Fp, (), Num, Num, |dr, w, l, r| {
    let mut x = r.as_gadget().clone();
    for _ in 0..BIG { x = x.square(dr)?; }
    let v = val(&x);
    (x, v, w)
});
step!(Mix, 10, Fp, Num, (), Empty, |dr, w, l, r| { let _ = &dr; ((), D::unit(), w) });
step!(Both, 11, Fp, Empty, Empty, Empty, |dr, w, l, r| { let _ = &dr; ((), D::unit(), w) });
step!(Join, 12, Fp, Full, Full, Full, |dr, w, l, r| {
    let ((a, (b, c)), (d, (e, f))) = (l.as_gadget().clone(), r.as_gadget().clone());
    let x = a.mul(dr, &d)?;
    let y = b.add(dr, &e);
    let z = c.sub(dr, &f);
    let v = D::just(|| [*x.value().take(), *y.value().take(), *z.value().take()]);
    ((x, (y, z)), v, w)
});
pub const BIG: usize = 2000;

/// Proof-carrying data of any of the header types.
#[derive(Clone)]
pub enum Any { U(P<()>), N(P<Num>), P(P<Pair>), F(P<Full>), E(P<Empty>) }
impl Any {
    pub fn data(&self) -> Vec<Fp> {
        match self { Any::U(_) | Any::E(_) => vec![], Any::N(p) => vec![*p.data()], Any::P(p) => vec![p.data().0, p.data().1], Any::F(p) => p.data().to_vec() }
    }
    pub fn kind(&self) -> char { match self { Any::U(_) => 'U', Any::N(_) => 'N', Any::P(_) => 'P', Any::F(_) => 'F', Any::E(_) => 'E' } }
    pub fn verify<const N: usize>(&self, app: &App<N>, rng: &mut Rng) -> Result<bool> {
        match self { Any::U(p) => app.verify(p, rng), Any::N(p) => app.verify(p, rng), Any::P(p) => app.verify(p, rng), Any::F(p) => app.verify(p, rng), Any::E(p) => app.verify(p, rng) }
    }
    pub fn rerandomize<const N: usize>(&self, app: &App<N>, rng: &mut Rng) -> Result<Any> {
        Ok(match self.clone() {
            Any::U(p) => Any::U(app.rerandomize(p, rng)?), Any::N(p) => Any::N(app.rerandomize(p, rng)?), Any::P(p) => Any::P(app.rerandomize(p, rng)?),
            Any::F(p) => Any::F(app.rerandomize(p, rng)?), Any::E(p) => Any::E(app.rerandomize(p, rng)?),
        })
    }
}

/// What a step takes, produces and computes.
pub struct Info { pub name: &'static str, pub left: char, pub right: char, pub out: char }
pub const STEPS: [Info; 13] = [
    Info { name: "Leaf", left: 'U', right: 'U', out: 'N' },
    Info { name: "PairUp", left: 'N', right: 'N', out: 'P' },
    Info { name: "Sum", left: 'P', right: 'P', out: 'N' },
    Info { name: "Grow", left: 'N', right: 'P', out: 'F' },
    Info { name: "Shrink", left: 'F', right: 'U', out: 'N' },
    Info { name: "Lift", left: 'U', right: 'N', out: 'N' },
    Info { name: "Drop", left: 'E', right: 'N', out: 'U' },
    Info { name: "Mk", left: 'U', right: 'U', out: 'E' },
    Info { name: "Unit", left: 'U', right: 'U', out: 'U' },
    Info { name: "Big", left: 'U', right: 'N', out: 'N' },
    Info { name: "Mix", left: 'N', right: 'U', out: 'E' },
    Info { name: "Both", left: 'E', right: 'E', out: 'E' },
    Info { name: "Join", left: 'F', right: 'F', out: 'F' },
];
/// Data and auxiliary output a step must produce.
pub fn reference(step: usize, w: Fp, l: &[Fp], r: &[Fp]) -> (Vec<Fp>, Fp) {
    match step {
        0 => (vec![w * w], w),
        1 => (vec![l[0] + r[0], l[0]], w),
        2 => (vec![l[0] * r[0] - l[1] * r[1]], w),
        3 => (vec![l[0], r[0] * w, r[1]], w),
        4 => (vec![l[0] * l[1] + l[2]], w),
        5 => (vec![r[0] + Fp::ONE], w),
        8 => (vec![], w * w),
        9 => (vec![(0..BIG).fold(r[0], |x, _| x.square())], w),
        12 => (vec![l[0] * r[0], l[1] + r[1], l[2] - r[2]], w),
        6 | 7 | 10 | 11 => (vec![], w),
        _ => unreachable!(),
    }
}
pub fn apply<const N: usize>(app: &App<N>, rng: &mut Rng, step: usize, w: Fp, l: &Any, r: &Any) -> Result<(Any, Fp)> {
    macro_rules! go { ($s:expr, $l:ident, $r:ident, $o:ident) => { match (l.clone(), r.clone()) { (Any::$l(l), Any::$r(r)) => { let (p, a) = app.fuse(rng, $s, w, l, r)?; (Any::$o(p), a) } _ => unreachable!() } } }
    Ok(match step {
        0 => go!(Leaf, U, U, N), 1 => go!(PairUp, N, N, P), 2 => go!(Sum, P, P, N), 3 => go!(Grow, N, P, F), 4 => go!(Shrink, F, U, N), 5 => go!(Lift, U, N, N),
        6 => go!(Drop_, E, N, U), 7 => go!(Mk, U, U, E), 8 => go!(Unit, U, U, U), 9 => go!(Big, U, N, N), 10 => go!(Mix, N, U, E), 11 => go!(Both, E, E, E), 12 => go!(Join, F, F, F),
        _ => unreachable!(),
    })
}
pub fn seed<const N: usize>(app: &App<N>, rng: &mut Rng, step: usize, w: Fp) -> Result<(Any, Fp)> {
    Ok(match step {
        0 => { let (p, a) = app.seed(rng, Leaf, w)?; (Any::N(p), a) }
        7 => { let (p, a) = app.seed(rng, Mk, w)?; (Any::E(p), a) }
        8 => { let (p, a) = app.seed(rng, Unit, w)?; (Any::U(p), a) }
        _ => unreachable!(),
    })
}
pub fn app<const N: usize>() -> Result<App<N>> {
    ApplicationBuilder::<Pasta, R, N>::new()
        .register(Leaf)?.register(PairUp)?.register(Sum)?.register(Grow)?.register(Shrink)?.register(Lift)?.register(Drop_)?
        .register(Mk)?.register(Unit)?.register(Big)?.register(Mix)?.register(Both)?.register(Join)?
        .finalize(Pasta::baked())
}

/// Applications are not shared between threads; idle ones are kept for reuse.
struct Kept(App<HS>);
unsafe impl Send for Kept {}
static POOL: Mutex<Vec<Kept>> = Mutex::new(vec![]);
pub fn with_app<T>(f: impl FnOnce(&App<HS>) -> T) -> T {
    let a = POOL.lock().unwrap().pop().unwrap_or_else(|| Kept(app::<HS>().expect("the application can be built")));
    let t = f(&a.0);
    POOL.lock().unwrap().push(a);
    t
}

/// Checks one produced piece of proof-carrying data against the reference.
pub fn honest<const N: usize>(c: &CellCtx, app: &App<N>, name: &str, got: Result<(Any, Fp)>, want: (Vec<Fp>, Fp)) -> Option<Any> {
    let (p, aux) = match got { Ok(x) => x, Err(e) => { c.violation(name, format!("refused: {e}")); return None; } };
    c.same(&p.data(), &want.0, || format!("{name}: data"));
    c.same(&aux, &want.1, || format!("{name}: aux"));
    match p.verify(app, &mut Rng::of(&format!("verify {name}"))) {
        Ok(true) => {}
        v => { c.violation(name, format!("verification gives {v:?}")); return None; }
    }
    Some(p)
}
