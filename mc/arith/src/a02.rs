//! A02: polynomial helpers.
use ff::{Field, PrimeField};
use kit::{tiny::Tiny, tuples, CellCtx, Ctx};
use ragu_arithmetic::{dot, eval, factor, factor_iter, geosum, low_u64, poly_with_roots};
use std::fmt::Debug;

fn poly<F: Field>(v: &[F], x: F) -> F { let mut r = F::ZERO; let mut p = F::ONE; for c in v { r += *c * p; p *= x; } r }

fn evals<const P: u64>(c: &CellCtx, max: usize) {
    for len in 0..=max {
        let all: Vec<Vec<u64>> = tuples(P, len).collect();
        let chunks: Vec<usize> = (0..all.len().div_ceil(256)).collect();
        c.par(&chunks, |ch| for t in all.iter().skip(ch * 256).take(256) {
            let v: Vec<Tiny<P>> = t.iter().map(|x| Tiny::new(*x)).collect();
            for x in Tiny::<P>::all() {
                c.same(&eval(&v, x), &poly(&v, x), || format!("F_{P} eval {v:?} at {x:?}"));
                c.tick();
                if !v.is_empty() {
                    // (X - x) * quotient + remainder == v, with quotient one shorter
                    let q = factor(v.iter().copied(), x);
                    let key = || format!("F_{P} division of {v:?} by X - {x:?}");
                    if c.same(&q.len(), &(v.len() - 1), key) {
                        let mut back = vec![Tiny::<P>::ZERO; v.len()];
                        for (i, q) in q.iter().enumerate() { back[i + 1] += *q; back[i] -= *q * x; }
                        back[0] += poly(&v, x);
                        c.check(back == v, key, || format!("quotient {q:?}"));
                    }
                    let mut s: Vec<Tiny<P>> = factor_iter(v.iter().copied(), x).collect();
                    s.reverse();
                    c.check(s == q, key, || format!("streamed quotient (reversed) {s:?}, materialized {q:?}"));
                    let mut it = factor_iter(v.clone(), x);
                    for _ in 0..v.len() - 1 { it.next(); }
                    c.check(it.next().is_none() && it.next().is_none(), key, || "stream does not end".into());
                    c.states(2); c.transitions(2); c.traces(2);
                }
            }
        });
        c.sample(|| format!("F_{P}: all vectors of length {len} at all points"));
    }
    let r = c.attempt(|| factor(Vec::<Tiny<P>>::new(), Tiny::ONE));
    c.check(r.is_err(), || format!("F_{P} division of the empty vector"), || format!("{r:?}"));
}
fn dots<const P: u64>(c: &CellCtx, max: usize) {
    for la in 0..=max {
        for lb in 0..=max {
            let all: Vec<Vec<u64>> = tuples(if la == lb { P } else { 2 }, la + lb).collect();
            let chunks: Vec<usize> = (0..all.len().div_ceil(1024)).collect();
            c.par(&chunks, |ch| for t in all.iter().skip(ch * 1024).take(1024) {
                let v: Vec<Tiny<P>> = t.iter().map(|x| Tiny::new(*x)).collect();
                let (a, b) = v.split_at(la);
                c.tick();
                let key = || format!("F_{P} inner product of {a:?} and {b:?}");
                if la == lb {
                    let want = (0..la).fold(0, |s, i| (s + a[i].v() * b[i].v()) % P);
                    c.same(&dot(a, b).v(), &want, key);
                } else {
                    let r = c.attempt(|| dot(a, b));
                    c.check(r.is_err(), key, || format!("lengths differ, but {r:?} was returned"));
                    c.outcome("refused");
                }
            });
        }
    }
    // far-apart lengths, including ones that agree modulo small numbers
    for la in 0..70usize { for lb in 0..70usize { if la != lb {
        let (a, b) = (vec![Tiny::<P>::ZERO; la], vec![Tiny::<P>::ZERO; lb]);
        c.check(c.attempt(|| dot(&a, &b)).is_err(), || format!("inner product of lengths {la} and {lb}"), || "accepted".into());
        c.tick();
    } } }
}
/// Long vectors with few nonzero positions: index handling for large lengths.
fn long<F: PrimeField + Debug>(c: &CellCtx, name: &str, lens: &[usize]) {
    c.par(lens, |&n| {
        for i in 0..n.min(200) {
            let mut v = vec![F::ZERO; n];
            v[i] = F::from(3); v[n - 1 - i / 2] += F::ONE;
            for x in [F::ZERO, F::ONE, -F::ONE, F::from(2), F::MULTIPLICATIVE_GENERATOR] {
                let key = || format!("{name}: length {n}, position {i}, at {x:?}");
                let want = poly(&v, x);
                c.same(&eval(&v, x), &want, key);
                let w: Vec<F> = (0..n).scan(F::ONE, |p, _| { let r = *p; *p *= x; Some(r) }).collect();
                c.same(&dot(&v, &w), &want, key);
                let q = factor(v.iter().copied(), x);
                let mut back = vec![F::ZERO; n];
                for (i, q) in q.iter().enumerate() { back[i + 1] += *q; back[i] -= *q * x; }
                back[0] += want;
                c.check(back == v && q.len() == n - 1, key, || "quotient is wrong".into());
                c.states(3); c.transitions(3); c.traces(3);
            }
        }
        c.sample(|| format!("{name} length {n}"));
    });
}
fn geosums<F: PrimeField + Debug>(c: &CellCtx, name: &str, rs: &[F], upto: usize) {
    c.par(rs, |r| {
        let (mut s, mut p) = (F::ZERO, F::ONE);
        for m in 0..=upto {
            c.same(&geosum(*r, m), &s, || format!("{name} geometric sum of {r:?}, {m} terms"));
            c.tick();
            s += p; p *= r;
        }
        // closed form at the boundaries of the machine word
        let mut ms = vec![usize::MAX, usize::MAX - 1, usize::MAX / 3, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa];
        for b in 0..64 { let k = 1usize << b; ms.extend([k, k.wrapping_sub(1), k.wrapping_add(1), !k]); }
        for m in ms {
            let want = if *r == F::ONE { F::from(m as u64) } else { (r.pow([m as u64]) - F::ONE) * (*r - F::ONE).invert().unwrap() };
            c.same(&geosum(*r, m), &want, || format!("{name} geometric sum of {r:?}, {m} terms"));
            c.tick();
        }
        c.sample(|| format!("{name}, ratio {r:?}"));
    });
}
fn expand<F: Field>(roots: &[F]) -> Vec<F> {
    let mut p = vec![F::ONE];
    for r in roots { let mut q = vec![F::ZERO; p.len() + 1]; for (i, x) in p.iter().enumerate() { q[i + 1] += *x; q[i] -= *x * r; } p = q; }
    p
}
fn roots_of<F: PrimeField + Debug>(c: &CellCtx, name: &str, alphabet: &[F], len: usize) {
    let b = alphabet.len() as u64;
    let total = b.pow(len as u32);
    let chunks: Vec<u64> = (0..total.div_ceil(1024)).collect();
    c.par(&chunks, |ch| for i in ch * 1024..((ch + 1) * 1024).min(total) {
        let mut j = i;
        let v: Vec<F> = (0..len).map(|_| { let x = alphabet[(j % b) as usize]; j /= b; x }).collect();
        let got = poly_with_roots(&v);
        c.same(&got, &expand(&v), || format!("{name} polynomial with roots {v:?}"));
        c.tick();
    });
    c.sample(|| format!("{name}: all {total} lists of {len} roots over {b} values"));
}

pub fn run(ctx: &Ctx) {
    fn tiny<const P: u64>() -> Vec<Tiny<P>> { Tiny::<P>::all().collect() }
    ctx.cell("evaluation and division", |c| {
        evals::<3>(c, if c.thorough() { 9 } else { 7 }); evals::<7>(c, if c.thorough() { 6 } else { 4 }); evals::<17>(c, if c.thorough() { 4 } else { 3 }); evals::<97>(c, 2);
    });
    ctx.cell("inner products", |c| { dots::<3>(c, 5); dots::<7>(c, if c.thorough() { 4 } else { 3 }); dots::<17>(c, 2); });
    ctx.cell("long vectors", |c| {
        let lens: Vec<usize> = (1..70).chain([100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025]).collect();
        long::<Tiny<12289>>(c, "F_12289", &lens);
        long::<pasta_curves::Fp>(c, "Fp", &[1, 2, 3, 4, 5, 7, 8, 9, 31, 32, 33, 64, 65]);
    });
    ctx.cell("geometric sums", |c| {
        geosums::<Tiny<3>>(c, "F_3", &tiny(), 300);
        geosums::<Tiny<7>>(c, "F_7", &tiny(), 300);
        geosums::<Tiny<97>>(c, "F_97", &tiny(), 2100);
        geosums::<Tiny<257>>(c, "F_257", &tiny(), 1100);
        use pasta_curves::{Fp, Fq};
        geosums::<Fp>(c, "Fp", &[Fp::ZERO, Fp::ONE, -Fp::ONE, Fp::from(2), Fp::DELTA, Fp::ROOT_OF_UNITY, Fp::TWO_INV], 1100);
        geosums::<Fq>(c, "Fq", &[Fq::ZERO, Fq::ONE, -Fq::ONE, Fq::from(2), Fq::DELTA, Fq::ROOT_OF_UNITY, Fq::TWO_INV], 300);
    });
    ctx.cell("polynomials from roots", |c| {
        for n in 0..=4 { roots_of::<Tiny<17>>(c, "F_17", &tiny(), n); }
        for n in 5..=10 { roots_of::<Tiny<17>>(c, "F_17", &[0, 1, 16].map(Tiny::new), n); }
        roots_of::<Tiny<17>>(c, "F_17", &[0, 4].map(Tiny::new), 15);
        for n in 0..=2 { roots_of::<Tiny<97>>(c, "F_97", &tiny(), n); }
        for n in 3..=if c.thorough() { 7 } else { 6 } { roots_of::<Tiny<97>>(c, "F_97", &[0, 1, 96, 5, 22].map(Tiny::new), n); }
        // every length, several families (repeated, zero, roots of unity, distinct)
        let lens: Vec<usize> = (0..if c.thorough() { 700 } else { 150 }).chain([255, 256, 257, 511, 512, 513, 633]).collect();
        c.par(&lens, |&n| {
            type F = Tiny<12289>;
            let w = F::ROOT_OF_UNITY;
            for fam in 0..6 {
                let v: Vec<F> = (0..n).map(|i| match fam { 0 => F::from(i as u64), 1 => F::from(7), 2 => F::ZERO, 3 => w.pow([i as u64 * 8]), 4 => F::from((i % 3) as u64), _ => -F::from((i * i + 1) as u64) }).collect();
                c.check(poly_with_roots(&v) == expand(&v), || format!("F_12289, {n} roots, family {fam}"), || "coefficients are wrong".into());
                c.tick();
            }
        });
    });
    ctx.cell("low words", |c| {
        use num_bigint::BigUint;
        fn go<F: PrimeField>(c: &CellCtx, name: &str) {
            let m = BigUint::parse_bytes(F::MODULUS.trim_start_matches("0x").as_bytes(), 16).unwrap();
            let mut v = vec![];
            for b in 0..255u32 { for d in 0..3u32 { let x = (BigUint::from(1u32) << b) + d; v.push(&x % &m); v.push((&m + &m - (&x % &m)) % &m); } }
            for x in v {
                let mut f = F::ZERO;
                for d in x.to_u32_digits().iter().rev() { f = f * F::from(1 << 32) + F::from(*d as u64); }
                let want = x.to_u64_digits().first().copied().unwrap_or(0);
                c.same(&low_u64(&f), &want, || format!("{name} low word of {x}"));
                c.tick();
            }
        }
        go::<pasta_curves::Fp>(c, "Fp"); go::<pasta_curves::Fq>(c, "Fq");
        for x in Tiny::<12289>::all() { c.same(&low_u64(&x), &x.v(), || format!("F_12289 low word of {x:?}")); c.tick(); }
    });
}
