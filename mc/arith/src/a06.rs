//! A06: parameters of the Pasta cycle.
use ff::PrimeField;
use group::prime::PrimeCurveAffine;
use kit::{probe::Probe, CellCtx, Ctx};
use num_bigint::BigUint;
use pasta_curves::arithmetic::CurveAffine;
use ragu_arithmetic::{Cycle, FixedGenerators, PoseidonPermutation};
use ragu_pasta::{Pasta, PastaParams};
use std::collections::HashMap;

type Xy = (Vec<u8>, Vec<u8>);
fn xy<C: CurveAffine>(p: &C) -> Option<Xy> { let c: Option<_> = p.coordinates().into(); c.map(|c: ragu_arithmetic::Coordinates<C>| (c.x().to_repr().as_ref().to_vec(), c.y().to_repr().as_ref().to_vec())) }
fn modulus<F: PrimeField>() -> BigUint { BigUint::parse_bytes(F::MODULUS.trim_start_matches("0x").as_bytes(), 16).unwrap() }
fn big<F: PrimeField>(f: &F) -> BigUint { BigUint::from_bytes_le(f.to_repr().as_ref()) }

fn points<C: CurveAffine + PrimeCurveAffine>(c: &CellCtx, name: &str, g: &[C], h: &C, b: u64) {
    let p = modulus::<C::Base>();
    let mut seen: HashMap<Xy, usize> = HashMap::new();
    c.check(!g.is_empty(), || format!("{name}: no generators"), || "empty".into());
    for (i, q) in g.iter().chain([h]).enumerate() {
        c.tick();
        let key = || if i == g.len() { format!("{name} blinding generator") } else { format!("{name} generator {i}") };
        let Some(k) = xy(q) else { c.violation(key(), "is the identity"); continue };
        let (x, y) = (BigUint::from_bytes_le(&k.0), BigUint::from_bytes_le(&k.1));
        c.check(&y * &y % &p == (&x * &x * &x + b) % &p && x < p && y < p, key, || "is not on the curve".into());
        c.check(bool::from(q.is_on_curve()), key, || "reported as not on the curve".into());
        if let Some(j) = seen.insert(k, i) { c.violation(key(), format!("equals generator {j}")); }
    }
    c.sample(|| format!("{name}: {} generators", g.len()));
}
fn equal<C: CurveAffine>(c: &CellCtx, name: &str, a: (&[C], &C), b: (&[C], &C)) {
    c.same(&a.0.len(), &b.0.len(), || format!("{name}: number of generators"));
    for i in 0..a.0.len().min(b.0.len()) { c.check(xy(&a.0[i]) == xy(&b.0[i]), || format!("{name} generator {i}"), || "differs".into()); c.tick(); }
    c.check(xy(a.1) == xy(b.1), || format!("{name} blinding generator"), || "differs".into()); c.tick();
}

/// The Grain generator of the Hades/Poseidon reference.
struct Grain(Vec<u8>, usize);
impl Grain {
    fn new(n: usize, t: usize, rf: usize, rp: usize) -> Self {
        let mut b = vec![];
        for (v, l) in [(1usize, 2usize), (0, 4), (n, 12), (t, 12), (rf, 10), (rp, 10), ((1 << 30) - 1, 30)] { for i in (0..l).rev() { b.push((v >> i & 1) as u8); } }
        let mut g = Grain(b, 0);
        for _ in 0..160 { g.step(); }
        g
    }
    fn step(&mut self) -> u8 { let b = &self.0[self.1..]; let x = b[62] ^ b[51] ^ b[38] ^ b[23] ^ b[13] ^ b[0]; self.0.push(x); self.1 += 1; x }
    fn bit(&mut self) -> u8 { while self.step() == 0 { self.step(); } self.step() }
    fn bits(&mut self, n: usize) -> BigUint { let mut v = BigUint::from(0u32); for _ in 0..n { v = v * 2u32 + self.bit(); } v }
}

fn poseidon<F: PrimeField, P: PoseidonPermutation<F>>(c: &CellCtx, name: &str, p: &P) {
    let m = modulus::<F>();
    let rows: Vec<Vec<F>> = p.round_constants().map(|r| r.to_vec()).collect();
    let mds: Vec<Vec<F>> = p.mds_matrix().map(|r| r.to_vec()).collect();
    c.same(&p.mds_matrix().len(), &P::T, || format!("{name}: reported number of linear-layer rows"));
    c.check(P::RATE < P::T && P::RATE > 0, || format!("{name}: rate"), || format!("rate {} with state {}", P::RATE, P::T));
    c.check(P::FULL_ROUNDS % 2 == 0 && P::FULL_ROUNDS > 0, || format!("{name}: full rounds"), || format!("{}", P::FULL_ROUNDS));
    c.same(&rows.len(), &(P::FULL_ROUNDS + P::PARTIAL_ROUNDS), || format!("{name}: rounds covered by constants"));
    for (i, r) in rows.iter().enumerate() {
        c.same(&r.len(), &P::T, || format!("{name}: constants of round {i}"));
        for j in 0..i { c.check(rows[j] != *r, || format!("{name}: constants of rounds {j} and {i}"), || "equal".into()); }
        c.tick();
    }
    c.same(&mds.len(), &P::T, || format!("{name}: rows of the linear layer"));
    if mds.iter().any(|r| r.len() != P::T) || mds.len() != P::T { c.violation(format!("{name}: linear layer"), "is not square"); return; }
    // every square submatrix is invertible (so in particular the matrix is)
    for rs in 1u32..1 << P::T { for cs in 1u32..1 << P::T { if rs.count_ones() == cs.count_ones() {
        let ri: Vec<usize> = (0..P::T).filter(|i| rs >> i & 1 == 1).collect();
        let ci: Vec<usize> = (0..P::T).filter(|i| cs >> i & 1 == 1).collect();
        let mut a: Vec<Vec<F>> = ri.iter().map(|i| ci.iter().map(|j| mds[*i][*j]).collect()).collect();
        let n = a.len();
        let mut ok = true;
        for k in 0..n {
            let Some(pv) = (k..n).find(|i| a[*i][k] != F::ZERO) else { ok = false; break };
            a.swap(k, pv);
            let inv = a[k][k].invert().unwrap();
            for i in k + 1..n { let f = a[i][k] * inv; for j in k..n { let t = a[k][j]; a[i][j] -= f * t; } }
        }
        c.check(ok, || format!("{name}: linear layer rows {ri:?} columns {ci:?}"), || "singular".into());
        c.tick();
    } } }
    // exponent
    let (mut a, mut b) = (BigUint::from(P::ALPHA.unsigned_abs()), &m - 1u32);
    while b > BigUint::from(0u32) { let r = &a % &b; a = b; b = r; }
    c.check(a == BigUint::from(1u32), || format!("{name}: exponent {}", P::ALPHA), || format!("shares the factor {a} with the multiplicative order"));
    // reference derivation of every constant
    let n = F::NUM_BITS as usize;
    let mut g = Grain::new(n, P::T, P::FULL_ROUNDS, P::PARTIAL_ROUNDS);
    for (i, r) in rows.iter().enumerate() { for (j, x) in r.iter().enumerate() {
        let want = loop { let v = g.bits(n); if v < m { break v; } };
        c.check(big(x) == want, || format!("{name}: round {i} constant {j}"), || "is not the reference constant".into());
        c.tick();
    } }
    let xs: Vec<BigUint> = (0..2 * P::T).map(|_| g.bits(n) % &m).collect();
    for i in 0..P::T { for j in 0..P::T {
        c.check(big(&mds[i][j]) * ((&xs[i] + &xs[P::T + j]) % &m) % &m == BigUint::from(1u32), || format!("{name}: linear layer entry ({i}, {j})"), || "is not the reference entry".into());
        c.tick();
    } }
    c.sample(|| format!("{name}: T={} RATE={} rounds {}+{} exponent {}", P::T, P::RATE, P::FULL_ROUNDS, P::PARTIAL_ROUNDS, P::ALPHA));
}

pub fn run(ctx: &Ctx) {
    ctx.assume("hash-to-curve, the fields and the curves are this directory's stand-ins for pasta_curves, which is not available offline");
    let (a, b): (PastaParams, PastaParams) = std::thread::scope(|s| { let a = s.spawn(Pasta::generate); let b = s.spawn(Pasta::generate); (a.join().unwrap(), b.join().unwrap()) });
    let nested = |p: &'static PastaParams| Pasta::nested_generators(p);
    let (a, b): (&'static PastaParams, &'static PastaParams) = (Box::leak(Box::new(a)), Box::leak(Box::new(b)));
    let host = |p: &'static PastaParams| Pasta::host_generators(p);
    ctx.cell("generators", |c| {
        points(c, "Pallas", nested(a).g(), nested(a).h(), 5);
        points(c, "Vesta", host(a).g(), host(a).h(), 5);
    });
    ctx.cell("derivation is deterministic", |c| {
        equal(c, "Pallas, generated twice", (nested(a).g(), nested(a).h()), (nested(b).g(), nested(b).h()));
        equal(c, "Vesta, generated twice", (host(a).g(), host(a).h()), (host(b).g(), host(b).h()));
        let k = Pasta::baked();
        equal(c, "Pallas, baked", (nested(a).g(), nested(a).h()), (nested(k).g(), nested(k).h()));
        equal(c, "Vesta, baked", (host(a).g(), host(a).h()), (host(k).g(), host(k).h()));
    });
    ctx.cell("prefix independence", |c| {
        // The derivation takes the number of generators as an argument that
        // the public interface fixes; it is reached by including its file.
        let lens: &str = if c.thorough() { "[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 2048, 4096, 16384]" } else { "[0usize, 1, 2, 3, 4, 5, 8, 16, 17, 255, 256, 257, 300, 512]" };
        let mut p = Probe::new(c, "ragu_arithmetic group pasta_curves");
        p.opt = "2";
        let src = format!(r#"extern crate alloc; #[allow(warnings)] mod common {{ include!("/repo/crates/ragu_pasta/pasta_common.rs");
            pub fn run<C: CurveExt>(name: &str) {{
                let (full, h) = params_for_curve::<C>(600);
                for n in {lens} {{
                    let (g, hn) = params_for_curve::<C>(n);
                    let m = n.min(600);
                    if g.len() != n || g[..m] != full[..m] || hn != h {{ println!("DIFFERS {{}} {{}}", name, n); }} else {{ println!("SAME"); }}
                }}
            }}
            pub fn go() {{ run::<Ep>("Pallas"); run::<Eq>("Vesta"); }} }}
            fn main() {{ common::go(); println!("DONE"); }}"#);
        let o = p.exec("prefix", &src, true);
        if !o.compiled { c.outcome("derivation not reachable"); c.capped("the derivation function could not be reached by name"); c.states(1); return; }
        for l in o.text.lines() {
            if let Some(r) = l.strip_prefix("DIFFERS ") { c.violation(format!("prefix: {r}"), "the first generators depend on how many are requested"); }
            if l == "SAME" { c.tick(); c.outcome("same prefix"); }
        }
        c.check(o.ran && o.text.contains("DONE"), || "prefix program".into(), || o.text.clone());
    });
    ctx.cell("permutation parameters", |c| {
        poseidon::<pasta_curves::Fp, _>(c, "circuit field", Pasta::circuit_poseidon(a));
        poseidon::<pasta_curves::Fq, _>(c, "scalar field", Pasta::scalar_poseidon(a));
    });
}
