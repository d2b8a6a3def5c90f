//! P05: the sponge gadget against a reference duplex sponge, over every
//! history of operations up to a depth.
use crate::unit::{decide, Unit, Want};
use ff::{Field, PrimeField};
use kit::tiny::Tiny;
use kit::{CellCtx, Ctx};
use ragu_arithmetic::PoseidonPermutation;
use ragu_core::drivers::Driver;
use ragu_core::{Error, Result};
use ragu_primitives::poseidon::{SaveError, Sponge, SpongeState};
use ragu_primitives::vec::FixedVec;
use ragu_primitives::{Element, GadgetExt};
use ragu_primitives::io::Buffer;

/// Parameters over a tiny field; every entry is different from its neighbours.
pub struct Params<const P: u64, const T: usize, const RATE: usize, const FULL: usize, const PART: usize> { rc: Vec<Vec<Tiny<P>>>, mds: Vec<Vec<Tiny<P>>> }
impl<const P: u64, const T: usize, const RATE: usize, const FULL: usize, const PART: usize> Params<P, T, RATE, FULL, PART> {
    fn make() -> &'static Self {
        let rc = (0..FULL + PART).map(|r| (0..T).map(|i| Tiny::new(((r * 7 + i * 3 + 1) * (r + 2 * i + 3) + r * r * i) as u64)).collect()).collect();
        let mds = (0..T).map(|i| (0..T).map(|j| Tiny::new((1 + i * i + 3 * j + 2 * i * j * j + (i * 5 + j * 11) % 4) as u64)).collect()).collect();
        Box::leak(Box::new(Params { rc, mds }))
    }
}
impl<const P: u64, const T: usize, const R: usize, const FULL: usize, const PART: usize> PoseidonPermutation<Tiny<P>> for Params<P, T, R, FULL, PART> {
    const T: usize = T;
    const RATE: usize = R;
    const FULL_ROUNDS: usize = FULL;
    const PARTIAL_ROUNDS: usize = PART;
    const ALPHA: isize = 5;
    fn round_constants(&self) -> impl Iterator<Item = &[Tiny<P>]> { self.rc.iter().map(|r| &r[..]) }
    fn mds_matrix(&self) -> impl ExactSizeIterator<Item = &[Tiny<P>]> { self.mds.iter().map(|r| &r[..]) }
}

/// The reference permutation.
fn permute<F: Field, P: PoseidonPermutation<F>>(p: &P, s: &mut Vec<F>) {
    let rc: Vec<Vec<F>> = p.round_constants().map(|r| r.to_vec()).collect();
    let m: Vec<Vec<F>> = p.mds_matrix().map(|r| r.to_vec()).collect();
    let rounds = P::FULL_ROUNDS + P::PARTIAL_ROUNDS;
    assert_eq!(rc.len(), rounds);
    for r in 0..rounds {
        let full = r < P::FULL_ROUNDS / 2 || r >= P::FULL_ROUNDS / 2 + P::PARTIAL_ROUNDS;
        for i in 0..P::T { s[i] += rc[r][i]; if full || i == 0 { let x = s[i]; s[i] = x * x * x * x * x; } }
        *s = (0..P::T).map(|i| (0..P::T).fold(F::ZERO, |a, j| a + m[i][j] * s[j])).collect();
    }
}
/// The reference duplex sponge.
#[derive(Clone)]
struct Ref<F> { state: Vec<F>, pending: Vec<F>, out: Vec<F>, squeezing: bool }
impl<F: Field> Ref<F> {
    fn new(t: usize) -> Self { Ref { state: vec![F::ZERO; t], pending: vec![], out: vec![], squeezing: false } }
    fn flush<P: PoseidonPermutation<F>>(&mut self, p: &P) { for (i, v) in self.pending.drain(..).enumerate() { self.state[i] += v; } permute(p, &mut self.state); }
    fn absorb<P: PoseidonPermutation<F>>(&mut self, p: &P, v: F) {
        if self.squeezing { self.squeezing = false; self.out.clear(); self.pending.clear(); }
        if self.pending.len() == P::RATE { self.flush(p); }
        self.pending.push(v);
    }
    fn squeeze<P: PoseidonPermutation<F>>(&mut self, p: &P) -> Option<F> {
        if !self.squeezing {
            if self.pending.is_empty() { return None; }
            self.flush(p); self.squeezing = true; self.out = self.state[..P::RATE].to_vec();
        } else if self.out.is_empty() { permute(p, &mut self.state); self.out = self.state[..P::RATE].to_vec(); }
        Some(self.out.remove(0))
    }
    fn save<P: PoseidonPermutation<F>>(mut self, p: &P) -> std::result::Result<Vec<F>, SaveError> {
        if self.squeezing { return Err(SaveError::AlreadyInSqueezeMode); }
        if self.pending.is_empty() { return Err(SaveError::NothingAbsorbed); }
        self.flush(p);
        Ok(self.state)
    }
    fn resume<P: PoseidonPermutation<F>>(state: Vec<F>) -> Self { Ref { out: state[..P::RATE].to_vec(), state, pending: vec![], squeezing: true } }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Absorb, Squeeze,
    /// Save a copy; on success continue from the resumed state (and emit the saved state).
    Save,
    /// Save through from_elements/into_elements, twice.
    SaveRaw,
    /// Use a clone (absorb, squeeze, squeeze), then go on with the original.
    Fork,
    /// Write a pair of elements through the buffer interface.
    Write,
}
struct History<'a, P: 'static> { ops: &'a [Op], params: &'static P }
const PREFIX: [u64; 12] = [3, 1, 4, 2, 6, 5, 9, 8, 7, 11, 10, 12];
impl<F: PrimeField, P: PoseidonPermutation<F>> Unit<F> for History<'_, P> {
    fn run<'dr, D: Driver<'dr, F = F> + 'dr>(&self, dr: &mut D, ins: &[Element<'dr, D>]) -> Result<Vec<Element<'dr, D>>> {
        let mut s = Sponge::<'dr, D, P>::new(dr, self.params);
        let mut o = vec![];
        let mut next = ins.iter().cycle().cloned();
        // What the history must report, tracked by mode alone.
        let (mut squeezing, mut absorbed) = (false, false);
        for op in self.ops {
            match op {
                Op::Absorb => { s.absorb(dr, &next.next().unwrap())?; squeezing = false; absorbed = true; }
                Op::Write => { let pair = (next.next().unwrap(), [next.next().unwrap()]); pair.write(dr, &mut s)?; squeezing = false; absorbed = true; }
                Op::Squeeze => match s.squeeze(dr) {
                    Ok(e) => { if !absorbed { panic!("squeezing an empty sponge succeeds"); } o.push(e); squeezing = true; }
                    Err(Error::Initialization(_)) if !absorbed => {}
                    Err(e) => return Err(e),
                },
                Op::Save | Op::SaveRaw => match s.clone().save_state(dr) {
                    Ok(st) => {
                        if !absorbed || squeezing { panic!("saving succeeds in a mode that does not permit it"); }
                        st.write(dr, &mut o)?;
                        s = if *op == Op::Save { Sponge::resume(st, self.params) } else {
                            let v = SpongeState::from_elements(st.into_elements()).into_elements();
                            let v: Vec<_> = v.iter().cloned().collect();
                            Sponge::resume(SpongeState::from_elements(FixedVec::new(v)?), self.params)
                        };
                        squeezing = true;
                    }
                    Err(SaveError::AlreadyInSqueezeMode) if squeezing => {}
                    Err(SaveError::NothingAbsorbed) if !absorbed => {}
                    Err(e) => panic!("saving is refused: {e}"),
                },
                Op::Fork => {
                    let mut t = s.clone();
                    Buffer::write(&mut t, dr, &next.next().unwrap())?;
                    o.push(t.squeeze(dr)?);
                    o.push(t.squeeze(dr)?);
                }
            }
        }
        Ok(o)
    }
}
fn reference<F: PrimeField, P: PoseidonPermutation<F>>(h: &History<'_, P>, ins: &[F]) -> Vec<F> {
    let p = h.params;
    let mut s = Ref::<F>::new(P::T);
    let mut o = vec![];
    let mut next = ins.iter().cycle().copied();
    for op in h.ops {
        match op {
            Op::Absorb => s.absorb(p, next.next().unwrap()),
            Op::Write => { s.absorb(p, next.next().unwrap()); s.absorb(p, next.next().unwrap()); }
            Op::Squeeze => o.extend(s.squeeze(p)),
            Op::Save | Op::SaveRaw => if let Ok(st) = s.clone().save(p) { o.extend(&st); s = Ref::resume::<P>(st); },
            Op::Fork => { let mut t = s.clone(); t.absorb(p, next.next().unwrap()); o.extend(t.squeeze(p)); o.extend(t.squeeze(p)); }
        }
    }
    o
}
fn histories<F: PrimeField, P: PoseidonPermutation<F>>(c: &CellCtx, name: &str, params: &'static P, alphabet: &[Op], depth: usize) {
    let n = alphabet.len() as u64;
    let ins: Vec<F> = PREFIX.iter().map(|x| F::from(*x)).collect();
    for len in 0..=depth {
        c.par_range(n.pow(len as u32), |mut i| {
            let ops: Vec<Op> = (0..len).map(|_| { let o = alphabet[(i % n) as usize]; i /= n; o }).collect();
            let h = History { ops: &ops, params };
            decide(c, &h, &ins, &Want::Is(reference(&h, &ins)), || format!("{name} {ops:?}"));
            c.sample(|| format!("{name} {ops:?}"));
        });
    }
    c.outcomes("histories", (0..=depth).map(|d| n.pow(d as u32)).sum());
}
/// Histories made of long runs: a absorbed, b squeezed, c absorbed, d squeezed.
fn runs<F: PrimeField, P: PoseidonPermutation<F>>(c: &CellCtx, name: &str, params: &'static P, most: [usize; 4]) {
    let ins: Vec<F> = PREFIX.iter().map(|x| F::from(*x)).collect();
    let dims: Vec<u64> = most.iter().map(|m| *m as u64 + 1).collect();
    c.par_range(dims.iter().product(), |mut i| {
        let k: Vec<usize> = dims.iter().map(|d| { let v = i % d; i /= d; v as usize }).collect();
        let ops: Vec<Op> = [Op::Absorb, Op::Squeeze, Op::Absorb, Op::Squeeze].iter().zip(&k).flat_map(|(o, n)| vec![*o; *n]).collect();
        let h = History { ops: &ops, params };
        decide(c, &h, &ins, &Want::Is(reference(&h, &ins)), || format!("{name} runs of {k:?}"));
    });
    c.outcomes("run histories", dims.iter().product());
}
/// Short histories with every input value.
fn values<const P: u64, Q: PoseidonPermutation<Tiny<P>>>(c: &CellCtx, name: &str, params: &'static Q, n: usize, ops: &[Op]) {
    c.par_range(P.pow(n as u32), |mut i| {
        let ins: Vec<Tiny<P>> = (0..n).map(|_| { let v = Tiny::new(i % P); i /= P; v }).collect();
        let h = History { ops, params };
        decide(c, &h, &ins, &Want::Is(reference(&h, &ins)), || format!("{name} {ops:?} on {ins:?}"));
    });
}
/// One permutation of the whole state given by the inputs.
struct Whole<P: 'static>(&'static P);
impl<F: PrimeField, P: PoseidonPermutation<F>> Unit<F> for Whole<P> {
    fn run<'dr, D: Driver<'dr, F = F> + 'dr>(&self, dr: &mut D, ins: &[Element<'dr, D>]) -> Result<Vec<Element<'dr, D>>> {
        let mut s = Sponge::resume(SpongeState::<D, P>::from_elements(FixedVec::new(ins.to_vec())?), self.0);
        let z = Element::zero(dr);
        s.absorb(dr, &z)?;
        Ok(s.save_state(dr).map_err(|e| Error::InvalidWitness(Box::new(e)))?.into_elements().into_inner())
    }
}
fn whole<F: PrimeField, P: PoseidonPermutation<F>>(c: &CellCtx, name: &str, params: &'static P, alphabet: &[F]) {
    let b = alphabet.len() as u64;
    c.par_range(b.pow(P::T as u32), |mut i| {
        let ins: Vec<F> = (0..P::T).map(|_| { let v = alphabet[(i % b) as usize]; i /= b; v }).collect();
        let mut out = ins.clone();
        permute(params, &mut out);
        decide(c, &Whole(params), &ins, &Want::Is(out), || format!("{name} permutation of {ins:?}"));
    });
    c.outcomes("states permuted", b.pow(P::T as u32));
}

pub fn run(ctx: &Ctx) {
    use Op::*;
    let t = ctx.thorough;
    ctx.assume("exponent 5, the only one supported, and fields where it is a permutation");
    ctx.cell("histories, T=2 RATE=1, F_7", |c| histories(c, "F_7 2/1", Params::<7, 2, 1, 2, 1>::make(), &[Absorb, Squeeze, Save, Fork], if t { 9 } else { 7 }));
    ctx.cell("histories, T=3 RATE=2, F_13", |c| histories(c, "F_13 3/2", Params::<13, 3, 2, 4, 1>::make(), &[Absorb, Squeeze, Save, Fork], if t { 9 } else { 8 }));
    ctx.cell("histories, T=4 RATE=3, F_17", |c| histories(c, "F_17 4/3", Params::<17, 4, 3, 2, 2>::make(), &[Absorb, Squeeze, SaveRaw, Write], if t { 9 } else { 7 }));
    ctx.cell("histories, T=5 RATE=4, F_97", |c| histories(c, "F_97 5/4", Params::<97, 5, 4, 2, 0>::make(), &[Absorb, Squeeze, Save], if t { 11 } else { 9 }));
    ctx.cell("histories, T=6 RATE=5 and T=8 RATE=3, F_13", |c| {
        histories(c, "F_13 6/5", Params::<13, 6, 5, 2, 1>::make(), &[Absorb, Squeeze, Save], if t { 10 } else { 8 });
        histories(c, "F_13 8/3", Params::<13, 8, 3, 2, 1>::make(), &[Absorb, Squeeze, Save, Fork], if t { 7 } else { 5 });
    });
    ctx.cell("histories, T=3 RATE=3 (no capacity), F_7", |c| histories(c, "F_7 3/3", Params::<7, 3, 3, 0, 3>::make(), &[Absorb, Squeeze, Save, SaveRaw, Fork, Write], if t { 7 } else { 5 }));
    ctx.cell("histories of long runs", |c| {
        let w = |r: usize| if t { [2 * r + 2, 3 * r + 2, 2 * r + 1, 2 * r + 1] } else { [r + 2, 2 * r + 2, r + 1, r + 1] };
        runs(c, "F_13 6/5", Params::<13, 6, 5, 2, 1>::make(), w(5));
        runs(c, "F_13 8/3", Params::<13, 8, 3, 2, 1>::make(), w(3));
        runs(c, "F_97 5/4", Params::<97, 5, 4, 2, 0>::make(), w(4));
        runs(c, "F_17 4/3", Params::<17, 4, 3, 2, 2>::make(), w(3));
        runs(c, "F_13 3/2", Params::<13, 3, 2, 4, 1>::make(), w(2));
        runs(c, "F_7 2/1", Params::<7, 2, 1, 2, 1>::make(), w(1));
        runs(c, "Fp", &ragu_pasta::PoseidonFp, if t { [10, 10, 5, 5] } else { [9, 9, 0, 0] });
        runs(c, "Fq", &ragu_pasta::PoseidonFq, if t { [10, 10, 5, 5] } else { [5, 9, 0, 0] });
    });
    ctx.cell("all inputs of short histories", |c| {
        let p = Params::<7, 3, 2, 4, 1>::make();
        values::<7, _>(c, "F_7", p, 3, &[Absorb, Absorb, Absorb, Squeeze, Squeeze, Squeeze]);
        values::<7, _>(c, "F_7", p, 3, &[Absorb, Squeeze, Absorb, Save, Absorb, Squeeze]);
        values::<7, _>(c, "F_7", p, 4, &[Write, Fork, Write, Squeeze, Squeeze]);
        values::<13, _>(c, "F_13", Params::<13, 2, 1, 2, 3>::make(), 3, &[Absorb, Absorb, Save, Squeeze, Absorb, Squeeze]);
    });
    ctx.cell("permutation of every state", |c| {
        whole(c, "F_7 T=3", Params::<7, 3, 2, 4, 2>::make(), &Tiny::<7>::all().collect::<Vec<_>>());
        whole(c, "F_7 T=4", Params::<7, 4, 3, 2, 1>::make(), &Tiny::<7>::all().collect::<Vec<_>>());
        whole(c, "F_13 T=3", Params::<13, 3, 2, 4, 1>::make(), &Tiny::<13>::all().collect::<Vec<_>>());
        whole(c, "F_17 T=2", Params::<17, 2, 1, 8, 9>::make(), &Tiny::<17>::all().collect::<Vec<_>>());
        if t { whole(c, "F_7 T=5", Params::<7, 5, 4, 2, 1>::make(), &Tiny::<7>::all().collect::<Vec<_>>()); }
    });
    ctx.cell("production parameters", |c| {
        use ragu_pasta::{Fp, Fq, PoseidonFp, PoseidonFq};
        histories::<Fp, _>(c, "Fp", &PoseidonFp, &[Absorb, Squeeze, Save, Fork], if t { 5 } else { 3 });
        histories::<Fq, _>(c, "Fq", &PoseidonFq, &[Absorb, Squeeze, SaveRaw, Write], if t { 5 } else { 3 });
        let al = |n: u64| (0..n).map(|i| [Fp::ZERO, Fp::ONE, -Fp::ONE, Fp::from(1 << 40)][i as usize]).collect::<Vec<_>>();
        whole(c, "Fp", &PoseidonFp, &al(if t { 4 } else { 2 }));
        whole(c, "Fq", &PoseidonFq, &[Fq::ZERO, -Fq::ONE]);
        let long: Vec<Op> = (0..13).map(|i| if i < 9 { Absorb } else { Squeeze }).collect();
        let ins: Vec<Fp> = PREFIX.iter().map(|x| Fp::from(*x)).collect();
        let h = History { ops: &long, params: &PoseidonFp };
        decide(c, &h, &ins, &Want::Is(reference(&h, &ins)), || "Fp nine absorbed, four squeezed".into());
    });
}
