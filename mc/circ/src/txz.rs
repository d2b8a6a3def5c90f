//! t(X, Z): the definition, the polynomials, and the routine that evaluates it.
use ff::{Field, PrimeField};
use kit::CellCtx;
use crate::prog::eval;
use mc_drv::{Cs, Live, Values};
use ragu_circuits::polynomials::{txz, Rank, TestRank};
use ragu_core::{drivers::emulator::{Emulator, Wired}, maybe::{Always, Maybe, MaybeKind}, routines::Prediction, Error, Result};
use ragu_pasta::Fp;
use ragu_primitives::Element;

type F = kit::tiny::Tiny<257>;

/// A routine run on its own: prediction against execution.
fn predicted<F: PrimeField, R: Rank>(x: F, z: F) -> Result<(Option<F>, F)> {
    Emulator::<Wired<F>>::emulate_wired((x, z), |dr, w| {
        let (x, z) = w.cast();
        let input = (Element::alloc(dr, x)?, Element::alloc(dr, z)?);
        let r = txz::Evaluate::<R>::new();
        let (known, aux) = match Emulator::predict(&r, &input)? { Prediction::Known(o, a) => (Some(*o.value().take()), a), Prediction::Unknown(a) => (None, a) };
        let out = ragu_core::routines::Routine::execute(&r, dr, input, aux)?;
        assert_eq!(out.wire(), out.value().take());
        Ok((known, *out.wire()))
    })
}

/// Over the whole field, then at chosen points of the production field.
pub fn decide(c: &CellCtx) {
    // Over the whole of F_257 x F_257: prediction, execution, the two
    // partial evaluations and the definition.
    let n = TestRank::n();
    let all: Vec<F> = F::all().collect();
    c.par(&all, |x| {
        let tx: Vec<F> = TestRank::tx(*x).iter_coeffs().collect();
        for z in &all {
            let mut want = F::ZERO;
            if *x != F::ZERO && *z != F::ZERO { for i in 0..n { want -= x.pow_vartime([(4 * n - 1 - i) as u64]) * (z.pow_vartime([(2 * n - 1 - i) as u64]) + z.pow_vartime([(2 * n + i) as u64])); } }
            let name = || format!("x = {x:?}, z = {z:?}");
            c.same(&TestRank::txz(*x, *z), &want, name);
            c.same(&eval(&tx, *z), &want, name);
            c.same(&TestRank::tz(*z).eval(*x), &want, name);
            let r = predicted::<F, TestRank>(*x, *z);
            if *x == F::ZERO || *z == F::ZERO { c.check(matches!(r, Err(Error::InvalidWitness(_))), name, || format!("{r:?}")); c.outcome("refused"); }
            else { match r { Ok((k, o)) => { c.check(o == want && k.is_none_or(|k| k == want), name, || format!("predicted {k:?}, executed {o:?}, expected {want:?}")); } Err(e) => c.violation(name(), format!("{e}")) } }
            c.states(4); c.transitions(4); c.traces(1);
        }
    });
    let pts = [Fp::ZERO, Fp::ONE, -Fp::ONE, Fp::from(3), Fp::ROOT_OF_UNITY, Fp::ROOT_OF_UNITY_INV, Fp::MULTIPLICATIVE_GENERATOR];
    for x in pts { for z in pts {
        type R = ragu_circuits::polynomials::ProductionRank;
        let n = R::n() as u64;
        let mut want = Fp::ZERO;
        if x != Fp::ZERO && z != Fp::ZERO { let (xi, zi) = (x.invert().unwrap(), z.invert().unwrap()); let (mut xp, mut l, mut r) = (x.pow_vartime([4 * n - 1]), z.pow_vartime([2 * n - 1]), z.pow_vartime([2 * n])); for _ in 0..n { want -= xp * (l + r); xp *= xi; l *= zi; r *= z; } }
        let name = || format!("production rank, x = {x:?}, z = {z:?}");
        c.same(&R::txz(x, z), &want, name);
        c.same(&R::tz(z).eval(x), &want, name);
        c.same(&R::tx::<Fp>(x).eval(z), &want, name);
        if x != Fp::ZERO && z != Fp::ZERO { c.same(&predicted::<Fp, R>(x, z).map_err(|e| e.to_string()), &Ok((Some(want), want)), name); }
        c.tick();
    } }
    // What its constraints allow, for any values of the wires in between.
    let some: Vec<F> = if c.thorough() { all.clone() } else { all.iter().copied().filter(|v| *v != F::ZERO).step_by(16).collect() };
    c.par(&some, |x| for z in &all {
        if *z == F::ZERO || *x == F::ZERO { continue; }
        let name = || format!("constraints, x = {x:?}, z = {z:?}");
        let mut cs = Cs::<F, Live>::new();
        let (xw, zw) = (cs.input(*x), cs.input(*z));
        let el = |w, v: F| Element::promote(w, Always::<()>::maybe_just(|| v));
        let aux = Always::<()>::maybe_just(|| (x.invert().unwrap(), z.invert().unwrap()));
        let (xe, ze) = (el(Clone::clone(&xw), *x), el(Clone::clone(&zw), *z));
        let out = match ragu_core::routines::Routine::execute(&txz::Evaluate::<TestRank>::new(), &mut cs, (xe, ze), aux) { Ok(o) => o, Err(e) => return c.violation(name(), format!("{e}")) };
        c.check(cs.violated().is_none(), name, || format!("{:?}", cs.violated()));
        let want = TestRank::txz(*x, *z);
        let got = cs.sys.solve(&[(xw, *x), (zw, *z)]).values(&[out.wire().clone()]);
        c.check(got == Values::Some(vec![vec![want]]), name, || format!("the constraints allow {got:?}, expected {want:?}"));
        c.tick();
    });
}
