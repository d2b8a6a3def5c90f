//! D05: the protocol transcript, over every history of operations up to a depth.
use crate::sponge::{Ref, Table};
use crate::steps::{Any, Rng, STEPS, apply, seed, with_app};
use ff::{Field, PrimeField};
use kit::{CellCtx, Ctx};
use mc_drv::{Cs, Dry, Live, System};
use ragu_arithmetic::{Cycle, CurveAffine, PoseidonPermutation};
use ragu_core::drivers::Driver;
use ragu_core::drivers::emulator::Emulator;
use ragu_core::maybe::Maybe;
use ragu_core::Result;
use ragu_pasta::{Fp, Fq, Pasta};
use ragu_pcd::mc::{self, ResumedTranscript, Transcript};
use ragu_primitives::poseidon::SaveError;
use ragu_primitives::{Element, GadgetExt, Simulator};
use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    /// Absorb a value of its own, zero, or two values written as one gadget.
    Absorb, Zero, Pair,
    Challenge,
    /// Save and resume.
    Save,
    /// Turn a resumed transcript back into a full one.
    Into,
    /// Go on with a clone for a while, then with the original.
    Fork,
}
#[derive(Clone, Copy, PartialEq)]
enum Mode { Absorbing, Squeezing, Resumed, Used }
/// All histories of exactly `n` operations that the types permit.
fn histories(n: usize) -> Vec<Vec<Op>> {
    let mut level = vec![(vec![], Mode::Absorbing)];
    for _ in 0..n {
        level = level.into_iter().flat_map(|(h, m)| {
            let ops: Vec<(Op, Mode)> = match m {
                Mode::Absorbing | Mode::Squeezing => vec![(Op::Absorb, Mode::Absorbing), (Op::Zero, Mode::Absorbing), (Op::Pair, Mode::Absorbing), (Op::Challenge, Mode::Squeezing), (Op::Save, if m == Mode::Absorbing { Mode::Resumed } else { m }), (Op::Fork, m)],
                Mode::Resumed | Mode::Used => vec![(Op::Challenge, Mode::Used), (Op::Into, Mode::Squeezing)],
            };
            ops.into_iter().map(move |(o, n)| { let mut h = h.clone(); h.push(o); (h, n) })
        }).collect();
    }
    level.into_iter().map(|x| x.0).collect()
}
/// Into without a challenge since resuming must panic; nothing can follow it.
fn illegal(h: &[Op]) -> Option<usize> {
    let mut fresh = false;
    let mut absorbing = true;
    for (i, o) in h.iter().enumerate() {
        match o {
            Op::Save => if absorbing { fresh = true; absorbing = false; },
            Op::Challenge => { fresh = false; absorbing = false; }
            Op::Into => if fresh { return Some(i); },
            Op::Absorb | Op::Zero | Op::Pair => { absorbing = true; }
            Op::Fork => {}
        }
    }
    None
}
enum T<'dr, D: Driver<'dr>, P: PoseidonPermutation<D::F>> { Full(Transcript<'dr, D, P>), Resumed(ResumedTranscript<'dr, D, P>) }

fn inputs<F: PrimeField>(n: usize) -> Vec<F> { (0..n).map(|i| F::from(0x1001 + 77 * i as u64).square() + F::from(i as u64)).collect() }
/// Runs a history; `ins` are the values absorbed in turn. Returns all challenges.
fn real<'dr, D: Driver<'dr, F: PrimeField>, P: PoseidonPermutation<D::F>>(dr: &mut D, params: &'dr P, tag: &[u8], h: &[Op], ins: &[Element<'dr, D>]) -> Result<Vec<Element<'dr, D>>> {
    let mut ins = ins.iter().cloned();
    let mut o = vec![];
    let mut t = T::Full(Transcript::new(dr, params, tag)?);
    let mut absorbing = true;
    for op in h {
        t = match (op, t) {
            (Op::Absorb, T::Full(mut t)) => { ins.next().unwrap().write(dr, &mut t)?; absorbing = true; T::Full(t) }
            (Op::Zero, T::Full(mut t)) => { Element::zero(dr).write(dr, &mut t)?; absorbing = true; T::Full(t) }
            (Op::Pair, T::Full(mut t)) => { (ins.next().unwrap(), ins.next().unwrap()).write(dr, &mut t)?; absorbing = true; T::Full(t) }
            (Op::Challenge, T::Full(mut t)) => { o.push(t.challenge(dr)?); absorbing = false; T::Full(t) }
            (Op::Challenge, T::Resumed(mut t)) => { o.push(t.challenge(dr)?); T::Resumed(t) }
            (Op::Save, T::Full(t)) => match (t.clone().save_state(dr), absorbing) {
                (Ok(s), true) => { absorbing = false; T::Resumed(Transcript::resume_from_state(s, params)) }
                (Err(SaveError::AlreadyInSqueezeMode), false) => T::Full(t),
                (Ok(_), false) => panic!("saving succeeds after a challenge"),
                (Err(e), _) => panic!("saving is refused: {e}"),
            },
            (Op::Into, T::Resumed(t)) => T::Full(t.into_transcript()),
            (Op::Fork, T::Full(t)) => {
                let mut f = t.clone();
                o.push(f.challenge(dr)?);
                Element::one().write(dr, &mut f)?;
                o.push(f.challenge(dr)?);
                T::Full(t)
            }
            _ => unreachable!(),
        };
    }
    Ok(o)
}
fn reference<F: PrimeField>(p: &Table<F>, tag: &[u8], h: &[Op], ins: &[F]) -> Vec<F> {
    let mut ins = ins.iter().copied();
    let mut r = Ref::new(p, tag);
    let mut o = vec![];
    for op in h {
        match op {
            Op::Absorb => r.absorb(ins.next().unwrap()),
            Op::Zero => r.absorb(F::ZERO),
            Op::Pair => { r.absorb(ins.next().unwrap()); r.absorb(ins.next().unwrap()); }
            Op::Challenge => o.push(r.challenge()),
            Op::Save => if !r.squeezing { r.save() },
            Op::Into => {}
            Op::Fork => { let mut f = r.clone(); o.push(f.challenge()); f.absorb(F::ONE); o.push(f.challenge()); }
        }
    }
    o
}

fn native<F: PrimeField, P: PoseidonPermutation<F>>(params: &P, tag: &[u8], h: &[Op], v: &[F]) -> Result<Vec<F>> {
    let mut dr = Emulator::execute();
    let e: Vec<_> = v.iter().map(|v| Element::constant(&mut dr, *v)).collect();
    Ok(real(&mut dr, params, tag, h, &e)?.iter().map(|e| *e.value().take()).collect())
}
fn simulated<F: PrimeField, P: PoseidonPermutation<F>>(params: &P, tag: &[u8], h: &[Op], v: &[F]) -> Result<Vec<F>> {
    let mut dr = Simulator::<F>::new();
    let e = v.iter().map(|v| Element::alloc(&mut dr, Simulator::<F>::just(|| *v))).collect::<Result<Vec<_>>>()?;
    Ok(real(&mut dr, params, tag, h, &e)?.iter().map(|e| *e.value().take()).collect())
}
/// In a recorded constraint system: what it computes, whether it is satisfied, and the system.
fn circuit<F: PrimeField, P: PoseidonPermutation<F>>(params: &P, tag: &[u8], h: &[Op], v: &[F]) -> Result<(Vec<F>, Option<String>, System<F>)> {
    let mut dr = Cs::<F, Live>::new();
    let e = v.iter().map(|v| Element::alloc(&mut dr, Cs::<F, Live>::just(|| *v))).collect::<Result<Vec<_>>>()?;
    let o = real(&mut dr, params, tag, h, &e)?;
    Ok((o.iter().map(|e| dr.value(e.wire())).collect(), dr.violated(), dr.sys))
}
fn dry<F: PrimeField, P: PoseidonPermutation<F>>(params: &P, tag: &[u8], h: &[Op], n: usize) -> Result<System<F>> {
    let mut dr = Cs::<F, Dry>::new();
    let e = (0..n).map(|_| Element::alloc(&mut dr, Cs::<F, Dry>::just(|| F::ZERO))).collect::<Result<Vec<_>>>()?;
    real(&mut dr, params, tag, h, &e)?;
    Ok(dr.sys)
}

fn one<F: PrimeField, P: PoseidonPermutation<F> + Sync>(c: &CellCtx, params: &P, table: &Table<F>, tag: &[u8], h: &[Op], deep: bool) {
    c.tick();
    c.transitions(h.len() as u64);
    let key = || format!("tag of {} bytes, {h:?}", tag.len());
    let v = inputs::<F>(2 * h.len());
    if let Some(i) = illegal(h) {
        // Reported once, where it first happens.
        if i + 1 < h.len() { return; }
        c.outcome("not permitted");
        c.check(c.attempt(|| native(params, tag, h, &v)).is_err(), key, || "unused challenges are discarded".into());
        return;
    }
    c.outcome("run");
    let want = reference(table, tag, h, &v);
    c.guard(key, || {
        match native(params, tag, h, &v) { Ok(o) => { c.same(&o, &want, || format!("{}: natively", key())); } Err(e) => c.violation(key(), format!("natively refused: {e}")) }
        if !deep { return; }
        match simulated(params, tag, h, &v) { Ok(o) => { c.same(&o, &want, || format!("{}: simulated", key())); } Err(e) => c.violation(key(), format!("refused by the simulator: {e}")) }
        match circuit(params, tag, h, &v) {
            Err(e) => c.violation(key(), format!("refused in a circuit: {e}")),
            Ok((o, bad, sys)) => {
                c.same(&o, &want, || format!("{}: in a circuit", key()));
                if let Some(b) = bad { c.violation(key(), format!("violates its own constraints: {b}")); }
                match dry(params, tag, h, v.len()) { Ok(d) => { c.check(d == sys, key, || "the constraints depend on the witness".into()); } Err(e) => c.violation(key(), format!("refused without witness: {e}")) }
            }
        }
    });
}

#[derive(Clone)]
struct Tag(Vec<u8>);
fn tags(most: usize) -> Vec<Tag> {
    let mut v = vec![];
    for n in 0..=most {
        v.push(vec![0u8; n]);
        for i in 0..n { for b in [1u8, 0x80, 0xff] { let mut t = vec![0; n]; t[i] = b; v.push(t); } }
        // The number a shorter or longer tag would be, or the length itself.
        v.push((0..n).map(|i| i as u8 + 1).collect());
        v.push(vec![n as u8; n]);
        if n > 0 { v.push(vec![0xff; n]); }
        for i in 1..n { let mut t = vec![0; n]; t[i - 1] = 1; t[i] = 1; v.push(t); }
    }
    // Lengths around those that a narrower integer holds.
    for n in [127usize, 128, 254, 255, 256, 257, 258, 271, 272, 273, 511, 512, 513, 1024, 4096, 65535, 65536, 65537] {
        v.push(vec![0u8; n]);
        v.push((0..n).map(|i| (i % 251) as u8).collect());
    }
    v.sort();
    v.dedup();
    v.into_iter().map(Tag).collect()
}
impl std::fmt::Debug for Tag { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
#[derive(Clone)]
struct H(Vec<Op>);
impl std::fmt::Debug for H { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) } }

fn field<F: PrimeField, P: PoseidonPermutation<F> + Sync>(ctx: &Ctx, name: &str, params: &P) {
    let table = Table::of(params);
    ctx.cell(&format!("histories over {name}"), |c| {
        let depth = if c.thorough() { 7 } else { 6 };
        for n in 0..=depth {
            let hs: Vec<H> = histories(n).into_iter().map(H).collect();
            // Beyond a depth only natively.
            let deep = n + 1 < depth;
            c.par(&hs, |h| one(c, params, &table, mc::TAG, &h.0, deep));
            if n <= 3 { for tag in [0, 15, 16, 17, 31, 32, 33, 64, 80] { let t: Vec<u8> = (0..tag).map(|i| 200 - i).collect(); c.par(&hs, |h| one(c, params, &table, &t, &h.0, true)); } }
        }
    });
    ctx.cell(&format!("dependence over {name}"), |c| {
        // Every absorbed value, and the order of any two, matters for every later challenge and for no earlier one.
        let depth = if c.thorough() { 9 } else { 7 };
        let mut hs = vec![];
        for n in 1..=depth { for t in kit::tuples(2, n) { let mut h: Vec<Op> = t.iter().map(|x| if *x == 0 { Op::Absorb } else { Op::Challenge }).collect(); h.push(Op::Challenge); hs.push(H(h)); } }
        c.par(&hs, |h| {
            let h = &h.0;
            let k = h.iter().filter(|o| **o == Op::Absorb).count();
            let v = inputs::<F>(k);
            let Ok(o) = native(params, mc::TAG, h, &v) else { c.violation(format!("{h:?}"), "refused"); return };
            // Number of challenges before each absorption.
            let mut before = vec![];
            let mut n = 0;
            for x in h { if *x == Op::Absorb { before.push(n); } else { n += 1; } }
            let test = |w: &[F], from: usize, what: &dyn Fn() -> String| {
                c.tick();
                let Ok(p) = native(params, mc::TAG, h, w) else { c.violation(what(), "refused"); return };
                for i in 0..o.len() { c.check((p[i] == o[i]) == (i < from), what, || format!("challenge {i} is {}", if p[i] == o[i] { "unaffected" } else { "affected" })); }
            };
            for i in 0..k {
                for (d, x) in [v[i] + F::ONE, F::ZERO, -v[i]].into_iter().enumerate() { let mut w = v.clone(); w[i] = x; test(&w, before[i], &|| format!("{h:?} with value {i} altered (way {d})")); }
                for j in i + 1..k { let mut w = v.clone(); w.swap(i, j); test(&w, before[i], &|| format!("{h:?} with values {i} and {j} exchanged")); }
            }
        });
    });
    ctx.cell(&format!("tags over {name}"), |c| {
        let seen: Mutex<BTreeMap<Vec<u8>, Vec<u8>>> = Mutex::new(BTreeMap::new());
        c.par(&tags(if c.thorough() { 100 } else { 50 }), |t| {
            one(c, params, &table, &t.0, &[Op::Challenge], false);
            one(c, params, &table, &t.0, &[Op::Absorb, Op::Challenge], false);
            if let Ok(o) = native(params, &t.0, &[Op::Challenge], &[]) {
                if let Some(u) = seen.lock().unwrap().insert(o[0].to_repr().as_ref().to_vec(), t.0.clone()) { c.violation(format!("tags {:?} and {u:?}", t.0), "the same challenge"); }
            }
        });
    });
}

pub fn run(ctx: &Ctx) {
    ctx.assume("different inputs of the permutation are taken to give different challenges exactly when they do for the values enumerated");
    field(ctx, "Fp", Pasta::circuit_poseidon(Pasta::baked()));
    field(ctx, "Fq", Pasta::scalar_poseidon(Pasta::baked()));
    ctx.cell("protocol", |c| {
        // Every challenge of every proof, recomputed from the commitments it must bind.
        let table = Table::of::<<Pasta as Cycle>::CircuitPoseidon>(Pasta::circuit_poseidon(Pasta::baked()));
        let check = |p: &Any, name: &str| {
            let rounds = match p.clone() { Any::U(p) => mc::protocol(p), Any::N(p) => mc::protocol(p), Any::P(p) => mc::protocol(p), Any::F(p) => mc::protocol(p), Any::E(p) => mc::protocol(p) };
            let mut r = Ref::<Fp>::new(&table, mc::TAG);
            for (what, commitment, challenges) in rounds {
                let xy = commitment.coordinates().into_option().expect("not the identity");
                r.absorb(*xy.x());
                r.absorb(*xy.y());
                for (n, got) in challenges { c.tick(); c.same(&got, &r.challenge(), || format!("{name}: challenge {n} after {what}")); }
            }
        };
        let seeds: Vec<(usize, Any)> = with_app(|app| [0, 7, 8].into_iter().map(|s| (s, seed(app, &mut Rng::of("protocol"), s, Fp::from(9)).unwrap().0)).collect());
        for (s, p) in &seeds { check(p, STEPS[*s].name); }
        let pick = |k: char| seeds.iter().find(|x| x.1.kind() == k).map(|x| x.1.clone()).unwrap();
        let jobs: Vec<usize> = vec![0, 1, 5, 6, 7, 8, 10, 11, 20, 21];
        c.par(&jobs, |s| with_app(|app| {
            let mut rng = Rng::of(&format!("protocol {s}"));
            if *s >= 20 { let p = pick(if *s == 20 { 'N' } else { 'U' }).rerandomize(app, &mut rng).unwrap(); check(&p, "rerandomized"); return; }
            let (l, r) = (pick(STEPS[*s].left), pick(STEPS[*s].right));
            match apply(app, &mut rng, *s, Fp::from(4), &l, &r) { Ok((p, _)) => check(&p, &format!("{}({}, {})", STEPS[*s].name, STEPS[*s].left, STEPS[*s].right)), Err(e) => c.violation(STEPS[*s].name, format!("refused: {e}")) }
        }));
    });
    let _ = core::marker::PhantomData::<Fq>;
}
