//! R05: stages, masks, staged circuits and bonding circuits against the
//! documented layout.
use crate::bond;
use crate::prog::*;
use ff::{Field, FromUniformBytes, PrimeField};
use kit::tiny::Tiny;
use kit::{CellCtx, Ctx};
use mc_drv::{Dry, Live};
use ragu_arithmetic::Coeff;
use ragu_circuits::polynomials::{sparse, ProductionRank, Rank, TestRank};
use ragu_circuits::registry::{CircuitIndex, RegistryBuilder};
use ragu_circuits::staging::{MultiStage, MultiStageCircuit, Stage, StageBuilder, StageExt};
use ragu_circuits::{BondingObject, CircuitExt, WithAux};
use ragu_core::drivers::{Driver, DriverValue, LinearExpression};
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::maybe::Maybe;
use ragu_core::{Error, Result};
use ragu_pasta::Fp;
use ragu_primitives::vec::{CollectFixed, ConstLen, FixedVec, Len};
use ragu_primitives::{Boolean, Element};
use std::cell::Cell;

type F = Tiny<257>;

/// Shape of one stage: values it declares, elements and booleans it produces.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Lay { values: usize, elems: usize, bools: usize, style: u8 }
impl Lay { fn actual(&self) -> usize { self.elems + self.bools } fn gates(&self) -> usize { self.values.div_ceil(2) } }
thread_local! { static LAY: Cell<[Lay; 4]> = const { Cell::new([Lay { values: 0, elems: 0, bools: 0, style: 0 }; 4]) }; }
fn lay(i: usize) -> Lay { LAY.get()[i] }
fn set(l: &[Lay]) { let mut a = [Lay::default(); 4]; a[..l.len()].copy_from_slice(l); LAY.set(a); }

struct El<const I: usize>;
impl<const I: usize> Len for El<I> { fn len() -> usize { lay(I).elems } }
struct Bo<const I: usize>;
impl<const I: usize> Len for Bo<I> { fn len() -> usize { lay(I).bools } }

/// Value of each wire of a stage.
fn honest<F: PrimeField>(i: usize, l: &Lay, w: &[F]) -> Vec<F> {
    let mut o: Vec<F> = (0..l.elems).map(|j| match (l.style, j % 4) { (1, 1) => w[j] * w[j], (1, 2) => F::from((10 * i + j) as u64), (1, 3) => w[j] + w[0], _ => w[j] }).collect();
    o.extend(&w[l.elems..]);
    o
}
fn witness_for<F: PrimeField>(i: usize, l: &Lay, salt: u64) -> Vec<F> {
    (0..l.elems).map(|j| F::from(100 * i as u64 + 7 * j as u64 + 3 + salt)).chain((0..l.bools).map(|j| F::from((i as u64 + j as u64 + salt) % 2))).collect()
}
fn produce<'dr, F: PrimeField, D: Driver<'dr, F = F>, const I: usize>(dr: &mut D, witness: DriverValue<D, Vec<F>>) -> Result<(FixedVec<Element<'dr, D>, El<I>>, FixedVec<Boolean<'dr, D>, Bo<I>>)> {
    let l = lay(I);
    let mut first: Option<Element<'dr, D>> = None;
    let e = (0..l.elems).map(|j| {
        let x = match (l.style, j % 4) {
            (1, 2) => Element::constant(dr, F::from((10 * I + j) as u64)),
            (1, 1) => { let v = Element::alloc(dr, witness.as_ref().map(|w| w[j]))?; v.square(dr)? }
            (1, 3) => { let v = Element::alloc(dr, witness.as_ref().map(|w| w[j]))?; match &first { Some(f) => v.add(dr, f), None => v } }
            _ => Element::alloc(dr, witness.as_ref().map(|w| w[j]))?,
        };
        if j == 0 { first = Some(x.clone()); }
        Ok(x)
    }).collect::<Result<Vec<_>>>()?;
    let b = (0..l.bools).map(|j| Boolean::alloc(dr, witness.as_ref().map(|w| w[l.elems + j] == F::ONE))).collect::<Result<Vec<_>>>()?;
    Ok((e.into_iter().collect_fixed()?, b.into_iter().collect_fixed()?))
}
macro_rules! stages { ($($name:ident $i:literal $parent:ty),*) => { $(
    #[derive(Default, Clone)]
    struct $name;
    impl<F: PrimeField, R: Rank> Stage<F, R> for $name {
        type Parent = $parent;
        type Witness<'source> = Vec<F>;
        type OutputKind = Kind![F; (FixedVec<Element<'_, _>, El<$i>>, FixedVec<Boolean<'_, _>, Bo<$i>>)];
        fn values() -> usize { lay($i).values }
        fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, witness: DriverValue<D, Vec<F>>) -> Result<Bound<'dr, D, Self::OutputKind>> where Self: 'dr { produce::<F, D, $i>(dr, witness) }
    }
)* } }
stages!(S0 0 (), S1 1 S0, S2 2 S1, S3 3 S2);

/// How a circuit takes a stage.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Take { Enforced, Unenforced, Skipped }
#[derive(Clone, Debug)]
struct Plan { take: Vec<Take>, reverse: bool, outs: bool, body: u8 }
/// A circuit over the first stages: weights all stage wires into a public output.
macro_rules! circuits { ($($name:ident $last:ty, [$($s:ident $i:literal $g:ident),*], [$($r:ident),*]);*) => { $(
    #[derive(Clone, Debug)]
    struct $name(Plan);
    impl<F: PrimeField, R: Rank> MultiStageCircuit<F, R> for $name {
        type Last = $last;
        type Instance<'source> = ();
        type Witness<'source> = Vec<Vec<F>>;
        type Output = Kind![F; FixedVec<Element<'_, _>, ConstLen<2>>];
        type Aux<'source> = ();
        fn instance<'dr, 'source: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, _: DriverValue<D, ()>) -> Result<Bound<'dr, D, Self::Output>> where Self: 'dr { FixedVec::try_from_fn(|_| Ok(Element::zero(dr))) }
        #[allow(unused_mut, unused_variables, unused_macros)]
        fn witness<'a, 'dr, 'source: 'dr, D: Driver<'dr, F = F>>(&self, b: StageBuilder<'a, 'dr, D, R, (), Self::Last>, witness: DriverValue<D, Vec<Vec<F>>>) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>> where Self: 'dr {
            $( let ($g, b) = if self.0.take[$i] == Take::Skipped { (None, b.skip_stage::<$s>()?) } else if $i % 2 == 0 { let (g, b) = b.add_stage::<$s>()?; (Some(g), b) } else { let (g, b) = b.configure_stage($s)?; (Some(g), b) }; )*
            let dr = b.finish();
            let mut parts: Vec<(usize, Vec<Element<'dr, D>>)> = vec![];
            macro_rules! take { ($k:ident, $idx:expr) => { if let Some(g) = $k {
                let w = witness.as_ref().map(|w| w[$idx].clone());
                let (e, bo) = if self.0.take[$idx] == Take::Enforced { g.enforced(dr, w)? } else { g.unenforced(dr, w)? };
                parts.push(($idx, e.into_inner().into_iter().chain(bo.into_inner().into_iter().map(|b| b.element())).collect()));
            } } }
            if self.0.reverse { $( take!($r, idx_of(stringify!($r))); )* } else { $( take!($g, $i); )* }
            finish(&self.0, dr, parts)
        }
    }
)* } }
fn idx_of(s: &str) -> usize { s[1..].parse().unwrap() }
fn finish<'dr, F: PrimeField, D: Driver<'dr, F = F>>(p: &Plan, dr: &mut D, mut parts: Vec<(usize, Vec<Element<'dr, D>>)>) -> Result<WithAux<FixedVec<Element<'dr, D>, ConstLen<2>>, DriverValue<D, ()>>> {
    parts.sort_by_key(|p| p.0);
    let (a, b) = match p.body {
        // Weigh all wires.
        0 => {
            let all: Vec<&Element<'dr, D>> = parts.iter().flat_map(|p| &p.1).collect();
            let sum = |dr: &mut D, k: u64| { let x = dr.add(|l| all.iter().enumerate().fold(l, |l, (i, e)| l.add_term(e.wire(), Coeff::Arbitrary(F::from(k + (i * i) as u64 + 5 * i as u64))))); Element::promote(x, D::just(|| all.iter().enumerate().map(|(i, e)| *e.value().take() * F::from(k + (i * i) as u64 + 5 * i as u64)).sum())) };
            (sum(dr, 1), sum(dr, 17))
        }
        // Multiply wires and keep the result.
        _ => {
            let mut acc = Element::alloc(dr, D::just(|| F::from(2)))?;
            for (_, es) in &parts { for e in es { acc = acc.mul(dr, e)?; acc = acc.add(dr, e); } }
            let keep = Element::alloc(dr, acc.value().map(|v| *v))?;
            keep.enforce_zero_with(dr, &acc)?;
            (keep.clone(), acc)
        }
    };
    let outs = if p.outs { vec![a, b] } else { vec![b, a] };
    Ok(WithAux::new(outs.into_iter().collect_fixed()?, D::unit()))
}
trait Same<'dr, D: Driver<'dr>> { fn enforce_zero_with(&self, dr: &mut D, o: &Self) -> Result<()>; }
impl<'dr, D: Driver<'dr>> Same<'dr, D> for Element<'dr, D> { fn enforce_zero_with(&self, dr: &mut D, o: &Self) -> Result<()> { dr.enforce_equal(self.wire(), o.wire()) } }
circuits!(M0 (), [], []; M1 S0, [S0 0 g0], [g0]; M2 S1, [S0 0 g0, S1 1 g1], [g1, g0]; M3 S2, [S0 0 g0, S1 1 g1, S2 2 g2], [g2, g1, g0]; M4 S3, [S0 0 g0, S1 1 g1, S2 2 g2, S3 3 g3], [g3, g2, g1, g0]);
macro_rules! by_depth { ($d:expr, $p:expr, $c:ident => $e:expr) => { match $d { 0 => { let $c = M0($p); $e } 1 => { let $c = M1($p); $e } 2 => { let $c = M2($p); $e } 3 => { let $c = M3($p); $e } _ => { let $c = M4($p); $e } } } }
macro_rules! by_stage { ($i:expr, $s:ident => $e:expr) => { match $i { 0 => { type $s = S0; $e } 1 => { type $s = S1; $e } 2 => { type $s = S2; $e } _ => { type $s = S3; $e } } } }

/// First gate of a stage.
fn skip(ls: &[Lay], i: usize) -> usize { 1 + ls[..i].iter().map(|l| l.gates()).sum::<usize>() }
/// Dense partial trace of a stage.
fn partial<F: PrimeField>(n: usize, ls: &[Lay], i: usize, vals: &[F], alpha: F) -> Vec<F> {
    let mut o = vec![F::ZERO; 4 * n];
    o[Sys::<F>::texp(n, 0, 3)] = alpha;
    for (j, v) in vals.iter().enumerate() { o[Sys::<F>::texp(n, skip(ls, i) + j / 2, if j % 2 == 0 { 1 } else { 3 })] = *v; }
    o
}
/// Powers of XY that a mask over the given gates contains.
fn mask_set(n: usize, from: usize, count: usize) -> Vec<bool> {
    let mut o = vec![false; 4 * n];
    for g in 1..n { if g < from || g >= from + count { for k in 0..4 { o[Sys::<F>::xexp(n, g, k)] = true; } } }
    o
}
fn alone<F: FromUniformBytes<64>, R: Rank>(b: BondingObject<'static, F, R>) -> ragu_circuits::registry::Registry<'static, F, R> { RegistryBuilder::new().register_bonding(b).finalize().unwrap() }
/// A registry holding only this mask, compared with the set of constrained wires.
fn mask_is<F: FromUniformBytes<64>, R: Rank>(c: &CellCtx, name: &dyn Fn() -> String, b: Result<BondingObject<'static, F, R>>, from: usize, count: usize, ys: &[F], xs: &[F]) {
    let n = R::n();
    let b = match b { Ok(b) => b, Err(e) => return c.violation(name(), format!("mask refused: {e}")) };
    let reg = alone(b);
    let (i, key, top) = (CircuitIndex::new(0), reg.digest(), 4 * n - 1);
    let set = mask_set(n, from, count);
    c.same(&reg.constraint_counts(i), &(n, 4 * n - 1), name);
    let w: F = i.omega_j();
    for y in ys {
        let pw = powers(*y, 4 * n);
        let want = (0..4 * n).map(|k| if set[k] { pw[k] } else { F::ZERO } + if k == top { key * pw[k] } else { F::ZERO });
        if !reg.circuit_y(i, *y).iter_coeffs().eq(want.clone()) { return c.violation(name(), format!("mask at y = {y:?}")); }
        if !reg.wx(w, *y).iter_coeffs().eq(want) { return c.violation(name(), format!("mask at x = {y:?}")); }
        for x in xs {
            let pw = powers(*x * *y, 4 * n);
            let want: F = (0..4 * n).filter(|k| set[*k]).map(|k| pw[k]).fold(F::ZERO, |a, b| a + b) + key * pw[top];
            let got = reg.circuit_xy(i, *x, *y);
            if got != want { return c.violation(name(), format!("mask at {x:?}, {y:?}: {got:?}, expected {want:?}")); }
        }
        c.states(2); c.transitions(2 + xs.len() as u64);
    }
    c.traces(1);
}

/// Runs everything about one circuit over stages.
fn staged<F: FromUniformBytes<64>, R: Rank, C: MultiStageCircuit<F, R, Witness<'static> = Vec<Vec<F>>, Instance<'static> = ()> + Clone + 'static>(c: &CellCtx, name: &dyn Fn() -> String, circuit: C, ls: &[Lay], plan: &Plan, ys: &[F]) {
    let n = R::n();
    let ws: Vec<Vec<F>> = ls.iter().enumerate().map(|(i, l)| witness_for(i, l, 0)).collect();
    let hs: Vec<Vec<F>> = ls.iter().enumerate().map(|(i, l)| honest(i, l, &ws[i])).collect();
    let m = MultiStage::<F, R, C>::new(circuit);
    let sys = match reference_of::<F, Live, _>(&m, || ws.clone()) { Ok(s) => s, Err(e) => return c.violation(name(), format!("synthesis: {e}")) };
    let first = skip(ls, ls.len());
    if sys.gates > n { c.outcome("too large"); return; }
    // Stage gates of the circuit's own assignment are zero.
    for g in 1..first { if sys.vals[g] != [F::ZERO; 4] { return c.violation(name(), format!("gate {g} belongs to a stage and is assigned")); } }
    // With the stages added, everything is satisfied.
    let mut full = sys.clone();
    for (i, h) in hs.iter().enumerate() { for (j, v) in h.iter().enumerate() { full.vals[skip(ls, i) + j / 2][if j % 2 == 0 { 1 } else { 3 }] = *v; } }
    let taken: Vec<F> = hs.iter().zip(&plan.take).filter(|(_, t)| **t != Take::Skipped).flat_map(|(h, _)| h.iter().copied()).collect();
    let weigh = |k: u64| taken.iter().enumerate().map(|(i, e)| *e * F::from(k + (i * i) as u64 + 5 * i as u64)).fold(F::ZERO, |a, b| a + b);
    full.outs = match plan.body { 0 => vec![weigh(1), weigh(17)], _ => vec![taken.iter().fold(F::from(2), |a, e| a * *e + *e); 2] };
    if !plan.outs { full.outs.reverse(); }
    let used: Vec<Vec<bool>> = ls.iter().enumerate().map(|(i, l)| (0..l.values.div_ceil(2) * 2).map(|j| plan.take[i] != Take::Skipped && j < l.actual()).collect()).collect();
    if !full.satisfied() { return c.violation(name(), "stages and final trace do not satisfy the circuit"); }
    // Each stage value that the circuit takes matters; none of the others does.
    for (i, l) in ls.iter().enumerate() { for j in 0..2 * l.gates() { for d in [F::ONE, F::from(2)] {
        let mut bad = full.clone();
        bad.vals[skip(ls, i) + j / 2][if j % 2 == 0 { 1 } else { 3 }] += d;
        let want = !used[i][j];
        c.check(bad.satisfied() == want, name, || format!("value {j} of stage {i} changed by {d:?}: {}", if want { "refused" } else { "accepted" }));
        c.transitions(1);
    } } }
    // An enforced boolean can only be zero or one, whatever else is assigned:
    // its wire must appear in constraints other than the outputs.
    for (i, l) in ls.iter().enumerate() { for j in 0..l.bools {
        let k = l.elems + j;
        let at = (skip(ls, i) + k / 2, if k % 2 == 0 { 1 } else { 3 });
        let inner = sys.lin.iter().filter(|(y, t)| *y > sys.outs.len() && t.iter().any(|t| t.0 == at)).count();
        let enforced = plan.take[i] == Take::Enforced;
        if plan.body == 0 { c.check((inner > 0) == enforced, name, || format!("boolean {j} of stage {i} occurs in {inner} constraints of its own")); }
    } }
    // The real trace, stage polynomials and wiring polynomial.
    let alpha = F::from(23);
    let reg = match RegistryBuilder::<F, R>::new().register_circuit(m.clone()).and_then(|b| b.finalize()) { Ok(r) => r, Err(e) => return c.violation(name(), format!("registration: {e}")) };
    let ix = CircuitIndex::new(0);
    let top = 4 * n - 1;
    for y in ys {
        let mut sy = sys.sy(n, *y);
        sy[top] += reg.digest() * y.pow_vartime([top as u64]);
        if !reg.circuit_y(ix, *y).iter_coeffs().eq(sy.iter().copied()) { return c.violation(name(), format!("wiring polynomial at y = {y:?}")); }
        c.states(1);
    }
    let own = match m.trace(ws.clone()).and_then(|t| reg.assemble_with_alpha(&t.into_output(), ix, alpha)) { Ok(t) => t, Err(e) => return c.violation(name(), format!("trace: {e}")) };
    if !own.iter_coeffs().eq(sys.trace(n, alpha)) { return c.violation(name(), "final trace"); }
    let mut sum: sparse::Polynomial<F, R> = own.clone();
    let mut want = full.trace(n, alpha);
    for i in 0..ls.len() {
        let a = F::from(31 + i as u64);
        let rx = match by_stage!(i, S => <S as StageExt<F, R>>::rx(a, ws[i].clone())) { Ok(r) => r, Err(e) => return c.violation(name(), format!("stage {i}: {e}")) };
        sum.add_assign(&rx);
        want[Sys::<F>::texp(n, 0, 3)] += a;
    }
    if !sum.iter_coeffs().eq(want.iter().copied()) { return c.violation(name(), "stage polynomials and final trace do not add up to the whole trace"); }
    // The masks accept exactly their own parts.
    let fm = mask_set(n, first, n - first);
    let d: Vec<F> = own.iter_coeffs().collect();
    c.check((0..4 * n).all(|k| !fm[k] || d[top - k] == F::ZERO), name, || "final trace leaves the remaining gates".into());
    c.states(1); c.transitions(2 + ls.len() as u64); c.traces(1);
    c.sample(|| name());
}
fn lays(max: usize, style: u8) -> Vec<Lay> { let mut v = vec![]; for values in 0..=max { for actual in 0..=values { for bools in 0..=actual { if bools == 0 || bools == actual || bools == 1 { v.push(Lay { values, elems: actual - bools, bools, style }); } } } } v }
fn nth<T: Copy>(pool: &[T], len: usize, mut i: u64) -> Vec<T> { (0..len).map(|_| { let x = pool[(i % pool.len() as u64) as usize]; i /= pool.len() as u64; x }).collect() }

pub fn run(ctx: &Ctx) {
    ctx.assume("Stage types read their sizes from thread-local data, so that all layouts up to the bounds can be enumerated; everything else is the real code.");
    ctx.assume("The field is F_257 at the test rank (n = 32 gates) except where stated.");
    let all: Vec<F> = F::all().collect();
    ctx.cell("masks of every range of gates", |c| {
        let n = TestRank::n();
        let items: Vec<(usize, usize)> = (1..=n).flat_map(|s| (0..=n - s).map(move |m| (s, m))).collect();
        let xs: Vec<F> = if c.thorough() { all.clone() } else { [0, 1, 2, 16, 256, 3].map(F::new).to_vec() };
        c.par(&items, |(s, m)| {
            // Odd sizes occupy one more value than they declare.
            for odd in [0, 1] {
                if 2 * (s - 1) < odd || 2 * m < odd { continue; }
                set(&[Lay { values: 2 * (s - 1) - odd, ..Lay::default() }, Lay { values: 2 * m - odd, ..Lay::default() }]);
                c.same(&(<S1 as Stage<F, TestRank>>::skip_gates(), <S1 as StageExt<F, TestRank>>::num_gates()), &(*s, *m), || format!("gates {s}+{m}"));
                mask_is::<F, TestRank>(c, &|| format!("mask of gates {s}+{m}"), S1::mask(), *s, *m, &all, &xs);
                mask_is::<F, TestRank>(c, &|| format!("final mask after gates {s}+{m}"), S1::final_mask(), s + m, n - s - m, &all, &xs);
                for k in 0..*m { c.same(&<S1 as StageExt<F, TestRank>>::generator_index_for_b(k), &Sys::<F>::texp(n, s + k, 1), || format!("generator {k} of gates {s}+{m}")); }
                c.check(c.attempt(|| <S1 as StageExt<F, TestRank>>::generator_index_for_b(*m)).is_err(), || format!("generator {m} of gates {s}+{m}"), || "not refused".into());
            }
        });
    });
    ctx.cell("masks accept exactly confined traces", |c| {
        // Every single-position trace against every mask, as a polynomial in y.
        let n = TestRank::n();
        let items: Vec<(usize, usize)> = (1..=n).flat_map(|s| (0..=n - s).map(move |m| (s, m))).filter(|(s, m)| c.thorough() || s % 3 == 1 || *m < 3 || s + m > n - 2).collect();
        c.par(&items, |(s, m)| {
            set(&[Lay { values: 2 * (s - 1), ..Lay::default() }, Lay { values: 2 * m, ..Lay::default() }]);
            for fin in [false, true] {
                let Ok(b) = (if fin { <S1 as StageExt<F, TestRank>>::final_mask() } else { S1::mask() }) else { return c.violation(format!("gates {s}+{m}"), "refused") };
                let reg = alone(b);
                let key = reg.digest();
                let ys = [3, 5, 9].map(F::new);
                let sys: Vec<_> = ys.iter().map(|y| { let mut p = reg.circuit_y(CircuitIndex::new(0), *y); let mut k = vec![F::ZERO; 4 * n]; k[4 * n - 1] = key * y.pow_vartime([4 * n as u64 - 1]); p.sub_assign(&sparse::Polynomial::from_coeffs(k)); p }).collect();
                for g in 0..n { for k in 0..4 {
                    let mut e = vec![F::ZERO; 4 * n];
                    e[Sys::<F>::texp(n, g, k)] = F::new(7);
                    let e = sparse::Polynomial::<F, TestRank>::from_coeffs(e);
                    let confined = g == 0 || if fin { g >= s + m } else { g >= *s && g < s + m };
                    for (y, p) in ys.iter().zip(&sys) { c.check((e.revdot(p) == F::ZERO) == confined, || format!("gates {s}+{m} final {fin}"), || format!("wire {k} of gate {g} at y = {y:?}")); }
                    c.tick();
                } }
            }
        });
    });
    ctx.cell("mask capacity", |c| {
        let n = TestRank::n();
        for s in 1..=n + 3 { for m in 0..=n + 3 { for odd in [0usize, 1] {
            if 2 * (s - 1) < odd || 2 * m < odd { continue; }
            set(&[Lay { values: 2 * (s - 1) - odd, ..Lay::default() }, Lay { values: 2 * m - odd, ..Lay::default() }]);
            for (what, r) in [("mask", <S1 as StageExt<F, TestRank>>::mask()), ("final mask", S1::final_mask())] {
                let name = || format!("{what} of gates {s}+{m}");
                match r { Ok(_) => { c.check(s + m <= n, name, || "accepted".into()); } Err(Error::GateBoundExceeded { limit }) => { c.check(s + m > n && limit == n, name, || format!("refused with limit {limit}")); } Err(e) => c.violation(name(), format!("{e}")) }
                c.tick();
            }
        } } }
        for s in [2045usize, 2046, 2047, 2048, 2049] { for m in [0usize, 1, 2, 3] {
            set(&[Lay { values: 2 * (s - 1), ..Lay::default() }, Lay { values: 2 * m, ..Lay::default() }]);
            c.check(<S1 as StageExt<F, ProductionRank>>::mask().is_ok() == (s + m <= 2048), || format!("production mask of gates {s}+{m}"), || "wrong".into());
            c.check(<S1 as StageExt<F, ProductionRank>>::final_mask().is_ok() == (s + m <= 2048), || format!("production final mask of gates {s}+{m}"), || "wrong".into());
        } }
    });
    ctx.cell("stage polynomials", |c| {
        // Every chain of stages of up to three, every declared and actual size.
        let pools = [lays(if c.thorough() { 7 } else { 5 }, 0), lays(if c.thorough() { 7 } else { 5 }, 1)];
        for pool in &pools { for depth in 1..=3usize {
            let total = (pool.len() as u64).pow(depth as u32);
            c.par_range(total, |k| {
                let ls = nth(pool, depth, k);
                set(&ls);
                let i = depth - 1;
                let w: Vec<F> = witness_for(i, &ls[i], 0);
                let h = honest(i, &ls[i], &w);
                for alpha in [F::ZERO, F::new(41)] {
                    let name = || format!("{ls:?} alpha {alpha:?}");
                    match by_stage!(i, S => <S as StageExt<F, TestRank>>::rx(alpha, w.clone())) { Ok(r) => { c.check(r.iter_coeffs().eq(partial(32, &ls, i, &h, alpha)), name, || "stage polynomial".into()); } Err(e) => c.violation(name(), format!("{e}")) }
                    c.tick();
                }
            });
        } }
        // More values than declared.
        for values in 0..8 { for extra in 1..4 { for lead in [0, 3, 4] {
            let ls = [Lay { values: lead, elems: lead, ..Lay::default() }, Lay { values, elems: values + extra, bools: 0, style: 0 }];
            set(&ls);
            let name = || format!("{ls:?}");
            let limit = values.div_ceil(2);
            let r = S1.rx_configured_for(witness_for(1, &ls[1], 0));
            c.check(matches!(r, Err(Error::GateBoundExceeded { limit: l }) if l == limit), name, || "stage polynomial with too many values".into());
            let plan = Plan { take: vec![Take::Unenforced; 2], reverse: false, outs: true, body: 0 };
            let m = MultiStage::<F, TestRank, _>::new(M2(plan));
            c.check(matches!(RegistryBuilder::<F, TestRank>::new().register_circuit(m), Err(Error::GateBoundExceeded { limit: l }) if l == limit), name, || "circuit over a stage with too many values".into());
            c.tick();
        } } }
    });
    ctx.cell("circuits over stages", |c| {
        // Every chain, every way of taking each stage, both orders.
        let pool = lays(if c.thorough() { 4 } else { 3 }, 1);
        let ys = [0, 1, 5].map(F::new);
        for depth in 0..=if c.thorough() { 3 } else { 2 } {
            let layouts = (pool.len() as u64).pow(depth as u32);
            let takes = 3u64.pow(depth as u32);
            c.par_range(layouts * takes * 4, |k| {
                let (mode, k) = (k % 4, k / 4);
                let take: Vec<Take> = nth(&[Take::Enforced, Take::Unenforced, Take::Skipped], depth, k % takes);
                let ls = nth(&pool, depth, k / takes);
                set(&ls);
                let plan = Plan { take, reverse: mode & 1 == 1, outs: mode & 2 == 0, body: (mode >> 1) as u8 };
                by_depth!(depth, plan.clone(), m => staged::<F, TestRank, _>(c, &|| format!("{ls:?} {plan:?}"), m, &ls, &plan, &ys));
            });
        }
    });
    ctx.cell("longer chains", |c| {
        let pool = [Lay { values: 0, ..Lay::default() }, Lay { values: 1, elems: 1, bools: 0, style: 0 }, Lay { values: 3, elems: 1, bools: 1, style: 0 }, Lay { values: 4, elems: 4, bools: 0, style: 1 }, Lay { values: 5, elems: 0, bools: 3, style: 0 }];
        let ys = [3, 200].map(F::new);
        for depth in 3..=4usize {
            let layouts = (pool.len() as u64).pow(depth as u32);
            let takes = 3u64.pow(depth as u32);
            let step = if c.thorough() || depth == 3 { 1 } else { 7 };
            if step > 1 { c.outcome("every seventh chain of four"); }
            c.par_range(layouts * takes / step, |k| {
                let k = k * step;
                let take: Vec<Take> = nth(&[Take::Enforced, Take::Unenforced, Take::Skipped], depth, k % takes);
                let ls = nth(&pool, depth, k / takes);
                set(&ls);
                let plan = Plan { take, reverse: k % 2 == 1, outs: true, body: (k / 2 % 2) as u8 };
                by_depth!(depth, plan.clone(), m => staged::<F, TestRank, _>(c, &|| format!("{ls:?} {plan:?}"), m, &ls, &plan, &ys));
            });
        }
    });
    ctx.cell("bonding circuits", |c| {
        let ys = [0, 1, 3, 200].map(F::new);
        let mut st = steps(0);
        for k in 0..linear_subs().len() { st.push(Op::Call(k, 0, 1)); }
        st.extend([Op::One, Op::Zero(vec![Lc::T(0, Co::One), Lc::T(1, Co::Two)]), Op::Add(vec![Lc::T(1, Co::Arb(3)), Lc::T(2, Co::Neg)]), Op::Zero(vec![Lc::One(Co::Zero), Lc::T(0, Co::Two)]), Op::Add(vec![Lc::One(Co::One)])]);
        let subs = std::sync::Arc::new(linear_subs().iter().cloned().chain(subs().iter().cloned()).collect::<Vec<_>>());
        for k in [0usize, 2, 4, 8, 9, 10] { st.push(Op::Call(linear_subs().len() + k, 0, 1)); }
        for len in 0..=if c.thorough() { 4 } else { 3 } { for outs in 0..3usize {
            c.par_range(n_sequences(&st, len), |i| {
                let mut ops = vec![Op::Alloc(Val::K(0)), Op::Alloc(Val::K(0)), Op::Alloc(Val::K(0))];
                ops.extend(sequence(&st, len, i));
                let p = Prog { ops, outs: (0..outs).collect(), subs: subs.clone() };
                let name = || format!("{:?} outs {outs}", &p.ops[3..]);
                let allowed = is_linear(&p);
                let r = bond!(&p, b => MultiStage::<F, TestRank, _>::new(b).into_bonding_object());
                match r {
                    Ok(o) => {
                        if !allowed { return c.violation(name(), "accepted although it uses multiplication or constants"); }
                        let mut sys = bond!(&p, b => reference_of::<F, Dry, _>(&MultiStage::<F, TestRank, _>::new(b), Vec::new)).unwrap();
                        sys.lin.retain(|(y, _)| *y != 0);
                        let reg = alone(o);
                        let ix = CircuitIndex::new(0);
                        c.same(&reg.constraint_counts(ix), &(sys.gates, sys.cons - 1), name);
                        for y in &ys {
                            let key = reg.digest() * y.pow_vartime([127]);
                            let mut sy = sys.sy(32, *y); sy[127] += key;
                            let mut sx = sys.sx(32, *y); sx[127] += key;
                            c.check(reg.circuit_y(ix, *y).iter_coeffs().eq(sy.iter().copied()), name, || format!("constraints at y = {y:?}"));
                            c.check(reg.wx(ix.omega_j(), *y).iter_coeffs().eq(sx), name, || format!("constraints at x = {y:?}"));
                            for x in &ys { c.same(&reg.circuit_xy(ix, *x, *y), &eval(&sy, *x), name); }
                        }
                        c.states(ys.len() as u64); c.transitions(6 * ys.len() as u64); c.traces(1);
                        if i % 64 == 0 { c.outcome("accepted (one in 64)"); }
                    }
                    Err(Error::InvalidWitness(_)) => { if allowed { c.violation(name(), "refused although it is linear"); } c.tick(); if i % 64 == 0 { c.outcome("refused (one in 64)"); } }
                    Err(e) => c.violation(name(), format!("{e}")),
                }
            });
        } }
    });
    ctx.cell("bonds between stages", |c| {
        // Bonding constraints over two stages accept exactly the traces that satisfy them.
        #[derive(Clone)]
        struct Tie(u8);
        impl<F: PrimeField, R: Rank> MultiStageCircuit<F, R> for Tie {
            type Last = S1;
            type Instance<'source> = ();
            type Witness<'source> = Vec<Vec<F>>;
            type Output = ();
            type Aux<'source> = ();
            fn instance<'dr, 'source: 'dr, D: Driver<'dr, F = F>>(&self, _: &mut D, _: DriverValue<D, ()>) -> Result<Bound<'dr, D, ()>> where Self: 'dr { Ok(()) }
            fn witness<'a, 'dr, 'source: 'dr, D: Driver<'dr, F = F>>(&self, b: StageBuilder<'a, 'dr, D, R, (), S1>, w: DriverValue<D, Vec<Vec<F>>>) -> Result<WithAux<Bound<'dr, D, ()>, DriverValue<D, ()>>> where Self: 'dr {
                let (g, b) = b.add_stage::<S0>()?;
                let (h, b) = b.add_stage::<S1>()?;
                let dr = b.finish();
                let x = g.unenforced(dr, w.as_ref().map(|w| w[0].clone()))?.0.into_inner();
                let y = h.unenforced(dr, w.as_ref().map(|w| w[1].clone()))?.0.into_inner();
                match self.0 {
                    0 => for (x, y) in x.iter().zip(&y) { dr.enforce_equal(x.wire(), y.wire())?; },
                    1 => dr.enforce_zero(|l| x.iter().chain(&y).enumerate().fold(l, |l, (i, e)| l.add_term(e.wire(), Coeff::Arbitrary(F::from(i as u64 + 1)))))?,
                    _ => for (x, y) in x.iter().rev().zip(&y) { dr.enforce_zero(|l| l.add(x.wire()).add(x.wire()).sub(y.wire()))?; },
                }
                Ok(WithAux::new((), D::unit()))
            }
        }
        let sizes: Vec<(usize, usize, u8)> = (1..=3).flat_map(|a| (1..=3).flat_map(move |b| (0..3).map(move |k| (a, b, k)))).collect();
        c.par(&sizes, |(a, b, k)| {
            let ls = [Lay { values: *a, elems: *a, ..Lay::default() }, Lay { values: *b, elems: *b, ..Lay::default() }];
            set(&ls);
            let reg = match MultiStage::<F, TestRank, _>::new(Tie(*k)).into_bonding_object() { Ok(o) => alone(o), Err(e) => return c.violation(format!("{a} {b} {k}"), format!("{e}")) };
            let n = 32;
            let ys: Vec<F> = (1..20).map(F::new).collect();
            let sy: Vec<_> = ys.iter().map(|y| { let mut p = reg.circuit_y(CircuitIndex::new(0), *y); let mut t = vec![F::ZERO; 4 * n]; t[4 * n - 1] = reg.digest() * y.pow_vartime([127]); p.sub_assign(&sparse::Polynomial::from_coeffs(t)); p }).collect();
            for v in kit::tuples(if c.thorough() { 7 } else { 4 }, a + b) {
                let v: Vec<F> = v.into_iter().map(F::new).collect();
                let (x, y) = v.split_at(*a);
                let mut tr = S0::rx(F::new(5), x.to_vec()).unwrap();
                tr.add_assign(&S1::rx(F::new(6), y.to_vec()).unwrap());
                let want = match k { 0 => x.iter().zip(y).all(|(x, y)| x == y), 1 => v.iter().enumerate().map(|(i, x)| *x * F::new(i as u64 + 1)).fold(F::ZERO, |a, b| a + b) == F::ZERO, _ => x.iter().rev().zip(y).all(|(x, y)| x.double() == *y) };
                // At most three constraints: at most three of the points can miss a violation.
                let zeros = sy.iter().filter(|s| tr.revdot(s) == F::ZERO).count();
                c.check(if want { zeros == ys.len() } else { zeros <= 3 }, || format!("{a} {b} {k}"), || format!("values {v:?} accepted at {zeros} of {} points", ys.len()));
                c.tick();
            }
        });
    });
    ctx.cell("masks and bonds together", |c| {
        let ls = [Lay { values: 5, elems: 3, bools: 2, style: 0 }, Lay { values: 4, elems: 4, bools: 0, style: 1 }, Lay { values: 1, elems: 1, bools: 0, style: 0 }];
        set(&ls);
        let plan = Plan { take: vec![Take::Enforced; 3], reverse: false, outs: true, body: 0 };
        let m = MultiStage::<F, TestRank, _>::new(M3(plan));
        let sys = reference_of::<F, Dry, _>(&m, Vec::new).unwrap();
        let reg = RegistryBuilder::<F, TestRank>::new().register_bonding(S0::mask().unwrap()).register_bonding(m.final_mask().unwrap()).register_bonding(S2::mask().unwrap()).register_circuit(m.clone()).unwrap().register_bonding(S1::mask().unwrap()).finalize().unwrap();
        let n = 32;
        for y in &all {
            let pw = powers(*y, 4 * n);
            for (i, (from, count)) in [(1, 3), (skip(&ls, 3), n - skip(&ls, 3)), (skip(&ls, 2), 1), (skip(&ls, 1), 2)].into_iter().enumerate() {
                let set = mask_set(n, from, count);
                c.check(reg.circuit_y(CircuitIndex::new(i), *y).iter_coeffs().eq((0..4 * n).map(|k| if set[k] { pw[k] } else { F::ZERO } + if k == 127 { pw[k] * reg.digest() } else { F::ZERO })), || format!("mask at position {i}"), || format!("y = {y:?}"));
                c.tick();
            }
            let mut sy = sys.sy(n, *y);
            sy[127] += pw[127] * reg.digest();
            c.check(reg.circuit_y(CircuitIndex::new(4), *y).iter_coeffs().eq(sy), || "circuit after masks".into(), || format!("y = {y:?}"));
            c.tick();
        }
    });
    ctx.cell("production field and rank", |c| {
        let pts = [0, 1, 3].map(Fp::from);
        let pool = [Lay { values: 7, elems: 4, bools: 3, style: 1 }, Lay { values: 400, elems: 399, bools: 0, style: 0 }, Lay { values: 1201, elems: 1000, bools: 30, style: 1 }];
        let items: Vec<u64> = (0..27).collect();
        c.par(&items, |k| {
            let ls = nth(&pool, 3, *k);
            set(&ls);
            let s = skip(&ls, 2);
            mask_is::<Fp, ProductionRank>(c, &|| format!("{ls:?}"), S2::mask(), s, ls[2].gates(), &pts, &pts);
            mask_is::<Fp, ProductionRank>(c, &|| format!("final {ls:?}"), S2::final_mask(), s + ls[2].gates(), 2048 - s - ls[2].gates(), &pts, &pts);
            let plan = Plan { take: vec![Take::Enforced, Take::Skipped, Take::Unenforced], reverse: k % 2 == 0, outs: true, body: 0 };
            staged::<Fp, ProductionRank, _>(c, &|| format!("{ls:?}"), M3(plan.clone()), &ls, &plan, &pts);
        });
    });
}
/// Whether a program uses neither gates nor constants.
fn is_linear(p: &Prog) -> bool {
    // Wires: true if it is the constant one.
    fn go(p: &Prog, ops: &[Op], w: &mut Vec<bool>) -> bool {
        for op in ops {
            let at = |w: &Vec<bool>, k: usize| w[(w.len() - 1).saturating_sub(k)];
            match op {
                Op::Alloc(_) => w.push(false),
                Op::Mul(..) | Op::RawMul(..) | Op::Gate(..) | Op::Const(_) => return false,
                Op::Add(t) | Op::Zero(t) => { if t.iter().any(|t| match t { Lc::T(k, _) => at(w, *k), Lc::One(_) => true, Lc::G(_) => false }) { return false; } if matches!(op, Op::Add(_)) { w.push(false); } }
                Op::Eq(a, b) => if at(w, *a) || at(w, *b) { return false; },
                Op::One => w.push(true),
                Op::Shaped(..) => unreachable!(),
                Op::Call(k, a, b) => { let mut v = vec![true, at(w, *a), at(w, *b)]; if !go(p, &p.subs[*k].ops, &mut v) { return false; } for o in p.subs[*k].outs { w.push(at(&v, o)); } }
            }
        }
        true
    }
    let mut w = vec![];
    go(p, &p.ops, &mut w) && p.outs.iter().all(|k| !w[(w.len() - 1).saturating_sub(*k)])
}
trait TooMany { fn rx_configured_for(&self, w: Vec<F>) -> Result<()>; }
impl TooMany for S1 { fn rx_configured_for(&self, w: Vec<F>) -> Result<()> { StageExt::<F, TestRank>::rx_configured(self, F::ONE, w).map(|_| ()) } }
