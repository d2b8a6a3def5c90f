//! D03: header encodings.
use crate::general_step;
use crate::steps::{P, R as Prod, Rng};
use ff::Field;
use kit::{CellCtx, Ctx};
use mc_drv::{Cs, Dry, Live, Mode, System, Wire};
use ragu_arithmetic::Cycle;
use ragu_circuits::polynomials::{R, Rank};
use ragu_core::drivers::emulator::Emulator;
use ragu_core::drivers::{Driver, DriverTypes, DriverValue};
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::maybe::{Maybe, MaybeKind};
use ragu_core::{Error, Result};
use ragu_pasta::{Fp, Pasta};
use ragu_pcd::header::{Header, Suffix};
use ragu_pcd::mc;
use ragu_pcd::step::{Encoded, Index, Step};
use ragu_primitives::vec::{CollectFixed, ConstLen, FixedVec};
use ragu_primitives::{Boolean, Element, GadgetExt};
use std::collections::BTreeMap;
use std::sync::Mutex;

/// A header of K elements with suffix S.
pub struct Raw<const K: usize, const S: usize>;
impl<const K: usize, const S: usize> Header<Fp> for Raw<K, S> {
    const SUFFIX: Suffix = Suffix::new(S);
    type Data = [Fp; K];
    type Output = Kind![Fp; FixedVec<Element<'_, _>, ConstLen<K>>];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, [Fp; K]>) -> Result<Bound<'dr, D, Self::Output>> {
        (0..K).map(|i| Element::alloc(dr, w.as_ref().map(|w| w[i]))).try_collect_fixed()
    }
}
macro_rules! shaped {
    ($t:ident, $s:expr, $data:ty, $out:ty, |$dr:ident, $w:ident| $e:expr) => {
        pub struct $t;
        impl Header<Fp> for $t {
            const SUFFIX: Suffix = Suffix::new($s);
            type Data = $data;
            type Output = $out;
            fn encode<'dr, D: Driver<'dr, F = Fp>>($dr: &mut D, $w: DriverValue<D, $data>) -> Result<Bound<'dr, D, Self::Output>> { $e }
        }
    };
}
// Encodings that allocate in another order, constrain, repeat, or have constants.
shaped!(Nested, 20, (Fp, (Fp, Fp)), Kind![Fp; ((Element<'_, _>, ()), (Element<'_, _>, Element<'_, _>))], |dr, w| {
    let (a, b) = w.cast(); let (b, c) = b.cast();
    let c = Element::alloc(dr, c)?; let b = Element::alloc(dr, b)?; let a = Element::alloc(dr, a)?;
    Ok(((a, ()), (b, c)))
});
shaped!(Square, 21, Fp, Kind![Fp; (Element<'_, _>, Element<'_, _>)], |dr, w| { let a = Element::alloc(dr, w)?; let b = a.square(dr)?; Ok((a, b)) });
shaped!(Bits, 22, (bool, bool), Kind![Fp; (Boolean<'_, _>, Boolean<'_, _>)], |dr, w| { let (a, b) = w.cast(); Ok((Boolean::alloc(dr, a)?, Boolean::alloc(dr, b)?)) });
shaped!(Tagged, 23, Fp, Kind![Fp; (Element<'_, _>, Element<'_, _>)], |dr, w| { let a = Element::alloc(dr, w)?; Ok((Element::constant(dr, Fp::from(9)), a)) });
shaped!(Twice, 24, Fp, Kind![Fp; (Element<'_, _>, Element<'_, _>)], |dr, w| { let a = Element::alloc(dr, w)?; Ok((a.clone(), a)) });
shaped!(Blank, 25, Fp, (), |_dr, _w| Ok(()));

type Cases<H> = Vec<(<H as Header<Fp>>::Data, Vec<Fp>)>;
fn raw<const K: usize>(deep: bool) -> Vec<([Fp; K], Vec<Fp>)> {
    let al = [Fp::ZERO, Fp::ONE, -Fp::ONE];
    let mut v: Vec<[Fp; K]> = vec![];
    if K <= if deep { 5 } else { 3 } { for t in kit::tuples(3, K) { v.push(core::array::from_fn(|i| al[t[i] as usize])); } }
    else {
        v.push([Fp::ZERO; K]);
        v.push([-Fp::ONE; K]);
        for i in 0..K { let mut a = [Fp::ZERO; K]; a[i] = Fp::ONE; v.push(a); }
    }
    v.push(core::array::from_fn(|i| Fp::from(1000 + i as u64)));
    v.into_iter().map(|d| (d, d.to_vec())).collect()
}

fn padded(data: &[Fp], n: usize, suffix: u64) -> Option<Vec<Fp>> {
    if data.len() > n - 1 { return None; }
    let mut v = data.to_vec();
    v.resize(n - 1, Fp::ZERO);
    v.push(Fp::from(suffix));
    Some(v)
}
fn value<'dr, D: Driver<'dr, F = Fp>>(v: &[Element<'dr, D>]) -> Vec<Fp> { v.iter().map(|e| *e.value().take()).collect() }
fn too_long<T>(r: &Result<T>) -> bool { matches!(r, Err(Error::MalformedEncoding(_))) }
fn wires<'dr, M: Mode>(v: &[Element<'dr, Cs<Fp, M>>]) -> Vec<Wire<Fp>> where Cs<Fp, M>: Driver<'dr, F = Fp, Wire = Wire<Fp>> { v.iter().map(|e| e.wire().clone()).collect() }
fn some<M: Mode, T: Send>(t: T) -> DriverValue<Cs<Fp, M>, T> { <Cs<Fp, M> as DriverTypes>::MaybeKind::maybe_just(|| t) }

type Shape = (System<Fp>, Vec<Wire<Fp>>);
/// What the uniform encoding of each header size looks like to the circuit.
static SHAPES: Mutex<BTreeMap<usize, Shape>> = Mutex::new(BTreeMap::new());

fn encodings<H: Header<Fp>, const N: usize>(c: &CellCtx, name: &str, suffix: u64, cases: Cases<H>) {
    for (data, flat) in cases {
        c.tick();
        let want = padded(&flat, N, suffix);
        let key = || format!("{name}, header size {N}, data {flat:?}");
        c.guard(key, || {
            // Natively.
            let dr = &mut Emulator::execute();
            let just = |d: H::Data| <Emulator<ragu_core::drivers::emulator::Wireless<ragu_core::maybe::Always<()>, Fp>> as DriverTypes>::MaybeKind::maybe_just(|| d);
            let g = Encoded::<_, H, N>::new(dr, just(data.clone())).and_then(|e| { let f = e.clone(); let a = mc::write(e, dr)?; let b = mc::write(f, dr)?; Ok((value(&a), value(&b))) });
            let u = mc::uniform::<_, H, N>(dr, just(data.clone())).and_then(|e| { let f = e.clone(); let a = mc::write(e, dr)?; let b = mc::write(f, dr)?; Ok((value(&a), value(&b))) });
            match &want {
                None => {
                    c.outcome("refused");
                    c.check(too_long(&g), key, || format!("a header that does not fit is encoded as {g:?}"));
                    c.check(too_long(&u), key, || format!("a header that does not fit is uniformly encoded as {u:?}"));
                }
                Some(w) => {
                    c.outcome("encoded");
                    c.check(matches!(&g, Ok(x) if x.0 == *w && x.1 == *w), key, || format!("encoding is {g:?}, expected {w:?}"));
                    c.check(matches!(&u, Ok(x) if x.0 == *w && x.1 == *w), key, || format!("uniform encoding is {u:?}, expected {w:?}"));
                }
            }
            // In a circuit.
            circuit::<H, Live, N>(c, &key, &data, &want);
            circuit::<H, Dry, N>(c, &key, &data, &want);
        });
    }
}
fn circuit<H: Header<Fp>, M: Mode, const N: usize>(c: &CellCtx, key: &dyn Fn() -> String, data: &H::Data, want: &Option<Vec<Fp>>) {
    let mut cs = Cs::<Fp, M>::new();
    let mut k = 0;
    let g = Encoded::<_, H, N>::new(&mut cs, some::<M, _>(data.clone())).and_then(|e| { let mut v = vec![]; e.as_gadget().write(&mut cs, &mut v)?; k = v.len(); Ok((wires(&v), wires(&mc::write(e, &mut cs)?))) });
    match (want, g) {
        (None, g) => { c.check(too_long(&g), key, || "a header that does not fit is encoded in a circuit".into()); }
        (Some(_), Err(e)) => c.violation(key(), format!("encoding in a circuit is refused: {e}")),
        (Some(w), Ok((inner, all))) => {
            c.check(all.len() == N && all[..k] == inner[..], key, || "the encoded data are not the wires of the header".into());
            if M::LIVE {
                let v: Vec<Fp> = all.iter().map(|x| cs.value(x)).collect();
                c.same(&v, w, || format!("{} in a circuit", key()));
                if let Some(b) = cs.violated() { c.violation(key(), format!("encoding violates its own constraints: {b}")); }
            }
            // Padding and suffix must not be left to the prover.
            for i in k..N {
                let fixed = all[i].terms().is_empty() || cs.sys.solve(&[]).unique(&all[i]).is_some();
                c.check(fixed, key, || format!("position {i} of the encoding is not fixed by the circuit"));
                if fixed && all[i].terms().is_empty() { c.same(&all[i].k, &w[i], || format!("{} position {i} in a circuit", key())); }
            }
        }
    }
    let mut cs = Cs::<Fp, M>::new();
    let u = mc::uniform::<_, H, N>(&mut cs, some::<M, _>(data.clone())).and_then(|e| mc::write(e, &mut cs));
    match (want, u) {
        (None, u) => { c.check(too_long(&u), key, || "a header that does not fit is uniformly encoded in a circuit".into()); }
        (Some(_), Err(e)) => c.violation(key(), format!("uniform encoding in a circuit is refused: {e}")),
        (Some(w), Ok(v)) => {
            if M::LIVE {
                let v: Vec<Fp> = v.iter().map(|x| cs.value(x.wire())).collect();
                c.same(&v, w, || format!("{} uniformly in a circuit", key()));
                if let Some(b) = cs.violated() { c.violation(key(), format!("uniform encoding violates its own constraints: {b}")); }
            }
            let shape = (cs.sys.clone(), wires(&v));
            let first = SHAPES.lock().unwrap().entry(N).or_insert_with(|| shape.clone()).clone();
            c.check(first == shape, key, || "the uniform encoding depends on the header type".into());
        }
    }
}

/// Steps passing on headers of given lengths: (left, right) -> output, all data from the witness and the children.
pub struct Pass<const A: usize, const B: usize, const O: usize>;
general_step!([const A: usize, const B: usize, const O: usize] Pass<A, B, O>, 0, Raw<A, 1>, Raw<B, 2>, Raw<O, 3>, |dr, w, l, r| {
    let x = Element::alloc(dr, w)?;
    let mut v = vec![];
    let mut y = x.clone();
    for _ in 0..O { v.push(y.clone()); y = y.add(dr, &x); }
    let d = D::just(|| core::array::from_fn(|i| *v[i].value().take()));
    (FixedVec::try_from(v)?, d, crate::steps::val(&x))
});
fn step<const A: usize, const B: usize, const O: usize, const N: usize>(c: &CellCtx) {
    let name = || format!("headers of {A}, {B} -> {O}, header size {N}");
    c.tick();
    let a: [Fp; A] = core::array::from_fn(|i| Fp::from(100 + i as u64));
    let b: [Fp; B] = core::array::from_fn(|i| Fp::from(200 + i as u64));
    let o: [Fp; O] = core::array::from_fn(|i| Fp::from(7 * (1 + i as u64)));
    let want = (|| Some((padded(&a, N, 3)?, padded(&b, N, 4)?, padded(&o, N, 5)?)))();
    c.guard(name, || {
        let mut cs = Cs::<Fp, Live>::new();
        let got = mc::synthesize::<Pasta, Prod, _, _, N>(&mut cs, Pass::<A, B, O>, some::<Live, _>((a, b, Fp::from(7))));
        match (want, got) {
            (None, g) => { c.outcome("refused"); c.check(matches!(g, Err(Error::MalformedEncoding(_))), name, || "a step whose headers do not fit can be used".into()); }
            (Some(_), Err(e)) => c.violation(name(), format!("refused: {e}")),
            (Some((l, r, u)), Ok((out, aux))) => {
                c.outcome("synthesized");
                let v: Vec<Fp> = out.iter().map(|e| cs.value(e.wire())).collect();
                c.same(&v, &[l.clone(), r.clone(), u].concat(), || format!("{}: outputs", name()));
                let ((hl, hr), d, aux) = aux.take();
                c.same(&hl.to_vec(), &l, || format!("{}: left header", name()));
                c.same(&hr.to_vec(), &r, || format!("{}: right header", name()));
                c.same(&d, &o, || format!("{}: data", name()));
                c.same(&aux, &Fp::from(7), || format!("{}: aux", name()));
            }
        }
    });
}

fn points() -> Vec<(Fp, Fp)> { (0..3).map(|i| (Fp::from(0x1234567 + i), Fp::from(0x98765 + 31 * i))).collect() }
static WIRING: Mutex<BTreeMap<(usize, u32), Vec<Fp>>> = Mutex::new(BTreeMap::new());
/// The rerandomization circuit is the same whatever the header.
fn rerand<H: Header<Fp>, const N: usize, Q: Rank>(c: &CellCtx, name: &str, suffix: u64, case: (H::Data, Vec<Fp>)) {
    let key = || format!("rerandomizing {name}, header size {N}, rank {}", Q::RANK);
    c.tick();
    let want = padded(&case.1, N, suffix);
    c.guard(key, || {
        let w = mc::wiring_of_rerandomize::<Pasta, Q, H, N>(&points());
        let mut cs = Cs::<Fp, Live>::new();
        let out = mc::rerandomize::<Pasta, Q, H, _, N>(&mut cs, some::<Live, _>(case.0.clone()));
        match want {
            None => { c.outcome("refused"); c.check(w.is_err() && out.is_err(), key, || "a header that does not fit can be rerandomized".into()); }
            Some(h) => {
                c.outcome("uniform");
                match w {
                    Err(e) => c.violation(key(), format!("refused: {e}")),
                    Ok(w) => { let first = WIRING.lock().unwrap().entry((N, Q::RANK)).or_insert(w.clone()).clone(); c.check(first == w, key, || "the circuit depends on the header".into()); }
                }
                match out {
                    Err(e) => c.violation(key(), format!("refused: {e}")),
                    Ok(o) => { let v: Vec<Fp> = o.iter().map(|e| cs.value(e.wire())).collect(); c.same(&v, &[h.clone(), padded(&[], N, 1).unwrap(), h].concat(), key); }
                }
            }
        }
    });
}

#[derive(Clone, Copy)]
struct Job(&'static str, fn(&CellCtx));
impl std::fmt::Debug for Job { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.0) } }

pub fn run(ctx: &Ctx) {
    ctx.assume("header sizes are at least 1");
    ctx.cell("encodings", |c| {
        let mut jobs: Vec<Job> = vec![];
        // () first: it is what uniform encodings of other headers are compared with.
        macro_rules! sizes { ($($n:literal: $ks:tt)*) => { $(
            encodings::<(), $n>(c, "()", 1, vec![((), vec![])]);
            jobs.push(Job(concat!("shapes ", $n), |c| {
                encodings::<Nested, $n>(c, "Nested", 22, raw::<3>(false).into_iter().map(|(d, v)| ((d[0], (d[1], d[2])), v)).collect());
                encodings::<Square, $n>(c, "Square", 23, raw::<1>(false).into_iter().map(|(d, _)| (d[0], vec![d[0], d[0] * d[0]])).collect());
                encodings::<Bits, $n>(c, "Bits", 24, (0..4u64).map(|i| ((i & 1 == 1, i > 1), vec![Fp::from(i & 1), Fp::from(i >> 1)])).collect());
                encodings::<Tagged, $n>(c, "Tagged", 25, raw::<1>(false).into_iter().map(|(d, _)| (d[0], vec![Fp::from(9), d[0]])).collect());
                encodings::<Twice, $n>(c, "Twice", 26, raw::<1>(false).into_iter().map(|(d, _)| (d[0], vec![d[0], d[0]])).collect());
                encodings::<Blank, $n>(c, "Blank", 27, raw::<1>(false).into_iter().map(|(d, _)| (d[0], vec![])).collect());
            }));
            sizes!(@ $n: $ks);
        )* }; (@ $n:literal: ($($k:literal)*)) => { $(
            jobs.push(Job(concat!("length ", $k, " size ", $n), |c| encodings::<Raw<$k, 0>, $n>(c, concat!("Raw<", $k, ">"), 2, raw(c.thorough()))));
        )* } }
        sizes!(1: (0 1 2) 2: (0 1 2 3) 3: (0 1 2 3 4) 4: (0 1 2 3 4 5) 5: (0 1 2 3 4 5 6) 6: (0 4 5 6) 7: (0 5 6 7) 8: (0 6 7 8 9));
        c.par(&jobs, |j| j.1(c));
        // Long headers around large sizes.
        encodings::<(), 66>(c, "()", 1, vec![((), vec![])]);
        encodings::<Raw<64, 0>, 66>(c, "Raw<64>", 2, raw(false));
        encodings::<Raw<65, 0>, 66>(c, "Raw<65>", 2, raw(false));
        encodings::<Raw<66, 0>, 66>(c, "Raw<66>", 2, raw(false));
        encodings::<Raw<67, 0>, 66>(c, "Raw<67>", 2, raw(false));
    });
    ctx.cell("suffixes", suffixes);
    ctx.cell("different types", injective);
    ctx.cell("circuits of steps", |c| {
        let mut jobs: Vec<Job> = vec![];
        macro_rules! all {
            ($n:literal: $($a:literal)*) => { all!(@1 $n [$($a)*] [$($a)*]); };
            (@1 $n:literal [$($a:literal)*] $bs:tt) => { $( all!(@2 $n $a $bs $bs); )* };
            (@2 $n:literal $a:literal [$($b:literal)*] $os:tt) => { $( all!(@3 $n $a $b $os); )* };
            (@3 $n:literal $a:literal $b:literal [$($o:literal)*]) => { $( jobs.push(Job(concat!($a, $b, $o, "/", $n), step::<$a, $b, $o, $n>)); )* };
        }
        all!(1: 0 1);
        all!(2: 0 1 2);
        all!(3: 0 2 3);
        all!(4: 0 3 4);
        c.par(&jobs, |j| j.1(c));
    });
    ctx.cell("rerandomization circuits", |c| {
        let mut jobs: Vec<Job> = vec![];
        macro_rules! sizes { ($($n:literal: $ks:tt)*) => { $(
            // Both while () is still the first and compared with.
            rerand::<(), $n, R<7>>(c, "()", 1, ((), vec![]));
            rerand::<(), $n, R<13>>(c, "()", 1, ((), vec![]));
            jobs.push(Job(concat!("size ", $n), |c| {
                rerand::<Nested, $n, R<7>>(c, "Nested", 22, ((Fp::ONE, (Fp::from(2), Fp::from(3))), vec![Fp::ONE, Fp::from(2), Fp::from(3)]));
                rerand::<Square, $n, R<7>>(c, "Square", 23, (Fp::from(3), vec![Fp::from(3), Fp::from(9)]));
                rerand::<Bits, $n, R<7>>(c, "Bits", 24, ((true, false), vec![Fp::ONE, Fp::ZERO]));
                rerand::<Tagged, $n, R<7>>(c, "Tagged", 25, (Fp::from(3), vec![Fp::from(9), Fp::from(3)]));
                rerand::<Blank, $n, R<7>>(c, "Blank", 27, (Fp::from(3), vec![]));
                rerand::<Square, $n, R<13>>(c, "Square", 23, (Fp::from(3), vec![Fp::from(3), Fp::from(9)]));
            }));
            sizes!(@ $n: $ks);
        )* }; (@ $n:literal: ($($k:literal)*)) => { $(
            jobs.push(Job(concat!("length ", $k, " size ", $n), |c| { let case = raw::<$k>(false).pop().unwrap(); rerand::<Raw<$k, 4>, $n, R<7>>(c, concat!("Raw<", $k, ">"), 6, case); }));
        )* } }
        sizes!(1: (0 1) 2: (0 1 2) 4: (0 1 2 3 4) 7: (5 6 7));
        c.par(&jobs, |j| j.1(c));
    });
    ctx.cell("proofs", proofs);
}

/// Numbers presented to circuits for all suffixes around the limits.
fn suffixes(c: &CellCtx) {
    let mut v: Vec<usize> = (0..if c.thorough() { 1 << 20 } else { 1 << 14 }).collect();
    for b in [8u32, 16, 31, 32, 33, 48, 62, 63] { for d in -3i64..=3 { v.push(((1i128 << b) + d as i128) as usize); } }
    for d in 0..8 { v.push(usize::MAX - d); }
    v.sort();
    v.dedup();
    let mut seen = BTreeMap::new();
    seen.insert(0u64, "an internal suffix".to_string());
    seen.insert(1, "the suffix of the trivial header".to_string());
    for s in v {
        c.tick();
        match c.attempt(|| mc::suffix(Suffix::new(s))) {
            Err(_) => { c.outcome("refused"); c.check(s > usize::MAX - 2, || format!("suffix {s}"), || "refused".into()); }
            Ok(g) => { c.outcome("accepted"); if let Some(o) = seen.insert(g, format!("suffix {s}")) { c.violation(format!("suffix {s}"), format!("presented as {g}, which is {o}")); } }
        }
    }
}

/// No two different header types have the same encoding, and neither have
/// different data of one type.
fn injective(c: &CellCtx) {
    const N: usize = 4;
    type Seen = BTreeMap<Vec<[u8; 32]>, String>;
    let mut seen: Seen = BTreeMap::new();
    fn add<H: Header<Fp>>(c: &CellCtx, seen: &mut Seen, name: &str, cases: Cases<H>) {
        for (d, flat) in cases {
            c.tick();
            let dr = &mut Emulator::execute();
            let e = Encoded::<_, H, N>::new(dr, <Emulator<ragu_core::drivers::emulator::Wireless<ragu_core::maybe::Always<()>, Fp>> as DriverTypes>::MaybeKind::maybe_just(|| d)).and_then(|e| mc::write(e, dr));
            let Ok(e) = e else { c.violation(format!("{name} {flat:?}"), "refused"); continue };
            let k: Vec<[u8; 32]> = value(&e).iter().map(|v| ff::PrimeField::to_repr(v)).collect();
            if let Some(o) = seen.insert(k, format!("{name} {flat:?}")) { c.violation(format!("{name} {flat:?}"), format!("encoded like {o}")); }
        }
    }
    // Trailing zeros are where padding could be confused with data; the data
    // include values that look like suffixes.
    fn vals<const K: usize>() -> Cases<Raw<K, 0>> { kit::tuples(6, K).map(|t| { let d: [Fp; K] = core::array::from_fn(|i| Fp::from(t[i])); (d, d.to_vec()) }).collect() }
    add::<()>(c, &mut seen, "()", vec![((), vec![])]);
    add::<Raw<0, 0>>(c, &mut seen, "Raw<0, 0>", vals::<0>());
    add::<Raw<1, 1>>(c, &mut seen, "Raw<1, 1>", vals::<1>());
    add::<Raw<2, 2>>(c, &mut seen, "Raw<2, 2>", vals::<2>());
    add::<Raw<3, 3>>(c, &mut seen, "Raw<3, 3>", vals::<3>());
    add::<Raw<3, 4>>(c, &mut seen, "Raw<3, 4>", vals::<3>());
    add::<Raw<0, 5>>(c, &mut seen, "Raw<0, 5>", vals::<0>());
    add::<Raw<3, 252>>(c, &mut seen, "Raw<3, 252>", vals::<3>());
    add::<Raw<3, 254>>(c, &mut seen, "Raw<3, 254>", vals::<3>());
    add::<Raw<3, 256>>(c, &mut seen, "Raw<3, 256>", vals::<3>());
    add::<Raw<3, 65534>>(c, &mut seen, "Raw<3, 65534>", vals::<3>());
    add::<Raw<3, 0x1_0000_0000>>(c, &mut seen, "Raw<3, 2^32>", vals::<3>());
    add::<Raw<3, 0x1_0000_0003>>(c, &mut seen, "Raw<3, 2^32+3>", vals::<3>());
    add::<Raw<3, { usize::MAX - 2 }>>(c, &mut seen, "Raw<3, MAX-2>", vals::<3>());
}

/// Makes a header of K elements with suffix S out of nothing.
pub struct Make<const K: usize, const S: usize, const I: usize>;
general_step!([const K: usize, const S: usize, const I: usize] Make<K, S, I>, I, (), (), Raw<K, S>, |dr, w, l, r| {
    let x = Element::alloc(dr, w)?;
    let mut v = vec![];
    for _ in 0..K { v.push(x.clone()); }
    let d = D::just(|| core::array::from_fn(|i| *v[i].value().take()));
    (FixedVec::try_from(v)?, d, crate::steps::val(&x))
});
/// Keeps the first of two headers.
pub struct First<const A: usize, const S: usize, const B: usize, const T: usize, const I: usize>;
general_step!([const A: usize, const S: usize, const B: usize, const T: usize, const I: usize] First<A, S, B, T, I>, I, Raw<A, S>, Raw<B, T>, Raw<A, S>, |dr, w, l, r| {
    let o = l.as_gadget().clone();
    let d = D::just(|| core::array::from_fn(|i| *o[i].value().take()));
    (o, d, w)
});
fn application() -> Result<ragu_pcd::Application<'static, Pasta, Prod, 4>> {
    ragu_pcd::ApplicationBuilder::new()
        .register(Make::<0, 0, 0>)?.register(Make::<1, 1, 1>)?.register(Make::<2, 2, 2>)?.register(Make::<3, 3, 3>)?.register(Make::<3, 4, 4>)?
        .register(First::<0, 0, 1, 1, 5>)?.register(First::<1, 1, 2, 2, 6>)?.register(First::<2, 2, 3, 3, 7>)?.register(First::<3, 3, 3, 4, 8>)?.register(First::<3, 4, 0, 0, 9>)?
        .finalize(Pasta::baked())
}
fn proofs(c: &CellCtx) {
    const N: usize = 4;
    type App4 = ragu_pcd::Application<'static, Pasta, Prod, N>;
    fn ready(c: &CellCtx) -> Option<App4> { match application() { Ok(a) => Some(a), Err(e) => { c.violation("application", format!("refused: {e}")); None } } }
    fn seeded<const K: usize, const S: usize, const I: usize>(c: &CellCtx, w: Fp) {
        c.tick();
        let Some(app) = ready(c) else { return };
        let name = format!("Raw<{K}, {S}> of {w:?}");
        let mut rng = Rng::of(&name);
        let p = match app.seed(&mut rng, Make::<K, S, I>, w) { Err(e) => { c.violation(name, format!("refused: {e}")); return } Ok((p, _)) => p };
        c.same(p.data(), &[w; K], || format!("{name}: data"));
        let (l, r, proof) = mc::headers(p);
        c.same(&l, &padded(&[], N, 1).unwrap(), || format!("{name}: left header"));
        c.same(&r, &padded(&[], N, 1).unwrap(), || format!("{name}: right header"));
        // Presented as every type.
        let q: P<()> = proof.clone().carry(());
        c.tick();
        c.check(!matches!(app.verify(&q, &mut rng), Ok(true)), || format!("{name} as ()"), || "verifies".into());
        macro_rules! as_type { ($($k:literal $s:literal),*) => { $( {
            c.tick();
            let q: P<Raw<$k, $s>> = proof.clone().carry([w; $k]);
            let v = app.verify(&q, &mut rng);
            c.check(matches!(v, Ok(true)) == ((K, S) == ($k, $s)), || format!("{name} as Raw<{}, {}>", $k, $s), || format!("verification gives {v:?}"));
        } )* } }
        as_type!(0 0, 1 1, 2 2, 3 3, 3 4);
    }
    fn fused<const A: usize, const S: usize, const I: usize, const B: usize, const T: usize, const J: usize, const M: usize>(c: &CellCtx, w: Fp) {
        c.tick();
        let Some(app) = ready(c) else { return };
        let name = format!("Raw<{A}, {S}> and Raw<{B}, {T}> of {w:?}");
        let mut rng = Rng::of(&name);
        let got = (|| { let (l, _) = app.seed(&mut rng, Make::<A, S, I>, w)?; let (r, _) = app.seed(&mut rng, Make::<B, T, J>, w)?; app.fuse(&mut rng, First::<A, S, B, T, M>, w, l, r) })();
        match got {
            Err(e) => c.violation(name, format!("refused: {e}")),
            Ok((p, _)) => {
                c.check(matches!(app.verify(&p, &mut rng), Ok(true)), || name.clone(), || "does not verify".into());
                let (l, r, _) = mc::headers(p);
                c.same(&l, &padded(&[w; A], N, S as u64 + 2).unwrap(), || format!("{name}: left header"));
                c.same(&r, &padded(&[w; B], N, T as u64 + 2).unwrap(), || format!("{name}: right header"));
            }
        }
    }
    // Zero data make headers differ in nothing but their type.
    let all: [(&'static str, fn(&CellCtx, Fp)); 10] = [
        ("0 0", seeded::<0, 0, 0>), ("1 1", seeded::<1, 1, 1>), ("2 2", seeded::<2, 2, 2>), ("3 3", seeded::<3, 3, 3>), ("3 4", seeded::<3, 4, 4>),
        ("0 0 + 1 1", fused::<0, 0, 0, 1, 1, 1, 5>), ("1 1 + 2 2", fused::<1, 1, 1, 2, 2, 2, 6>), ("2 2 + 3 3", fused::<2, 2, 2, 3, 3, 3, 7>), ("3 3 + 3 4", fused::<3, 3, 3, 3, 4, 4, 8>), ("3 4 + 0 0", fused::<3, 4, 4, 0, 0, 0, 9>),
    ];
    struct One(&'static str, fn(&CellCtx, Fp), Fp);
    impl std::fmt::Debug for One { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{} {:?}", self.0, self.2) } }
    let jobs: Vec<One> = all.into_iter().flat_map(|(n, f)| [Fp::from(2), Fp::ZERO].map(|w| One(n, f, w))).filter(|j| c.thorough() || j.2 == Fp::ZERO || j.0.len() > 3 || j.0 == "3 3").collect();
    c.par(&jobs, |j| j.1(c, j.2));
}
