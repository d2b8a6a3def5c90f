//! A03: multi-scalar multiplication, batch normalization, short commitments.
use ff::{Field, PrimeField};
use group::{prime::PrimeCurveAffine, Curve, Group};
use kit::{tiny::{cycle13, cycle577, cycle7, cycle79}, CellCtx, Ctx};
use pasta_curves::arithmetic::{CurveAffine, CurveExt};
use ragu_arithmetic::{batch_to_affine, mul, FixedGenerators};

/// scalar * point by repeated doubling, from the group law alone.
fn times<C: CurveAffine>(s: &C::ScalarExt, p: &C) -> C::CurveExt {
    let r = s.to_repr();
    let mut acc = C::CurveExt::identity();
    for b in r.as_ref().iter().rev() { for i in (0..8).rev() { acc = acc.double(); if b >> i & 1 == 1 { acc += *p; } } }
    acc
}
fn naive<C: CurveAffine>(s: &[C::ScalarExt], p: &[C]) -> C::CurveExt { s.iter().zip(p).fold(C::CurveExt::identity(), |a, (s, p)| a + times(s, p)) }

/// Every list of `n` (scalar, point) pairs over the alphabets.
fn all_lists<C: CurveAffine<CurveExt: CurveExt<AffineExt = C>> + PrimeCurveAffine<Scalar = C::ScalarExt, Curve = C::CurveExt>>(c: &CellCtx, name: &str, n: usize, scalars: &[C::ScalarExt], points: &[C]) {
    let k = (scalars.len() * points.len()) as u64;
    let total = k.pow(n as u32);
    // individual products, looked up
    let table: Vec<C::CurveExt> = (0..k as usize).map(|i| times(&scalars[i % scalars.len()], &points[i / scalars.len()])).collect();
    let chunks: Vec<u64> = (0..total.div_ceil(1024)).collect();
    c.par(&chunks, |ch| for i in ch * 1024..((ch + 1) * 1024).min(total) {
        let mut j = i;
        let mut s = vec![]; let mut p = vec![]; let mut want = C::CurveExt::identity();
        for _ in 0..n { let d = (j % k) as usize; j /= k; s.push(scalars[d % scalars.len()]); p.push(points[d / scalars.len()]); want += table[d]; }
        let got: C::CurveExt = mul(&s, &p);
        c.check(got == want, || format!("{name}: scalars {s:?} points {p:?}"), || format!("got {got:?}, expected {want:?}"));
        c.tick();
    });
    c.sample(|| format!("{name}: all {total} lists of {n} terms"));
}
fn multiples<C: CurveAffine<CurveExt: CurveExt<AffineExt = C>> + PrimeCurveAffine<Scalar = C::ScalarExt, Curve = C::CurveExt>>(m: &[u64]) -> Vec<C> {
    m.iter().map(|m| (C::CurveExt::generator() * C::ScalarExt::from(*m)).to_affine()).collect()
}
/// For a given number of terms: every value of every digit of the window
/// that such a length uses, in several slots; boundary scalars; patterned lists.
fn lengths<C: CurveAffine<CurveExt: CurveExt<AffineExt = C>> + PrimeCurveAffine<Scalar = C::ScalarExt, Curve = C::CurveExt>>(c: &CellCtx, name: &str, lens: &[usize], digits: u32) {
    type S<C> = <C as CurveAffine>::ScalarExt;
    for &n in lens {
        let g = C::CurveExt::generator();
        let bases: Vec<C> = { let mut p = g; let proj: Vec<C::CurveExt> = (0..n).map(|i| { let r = p; p = p.double() + g; if i % 7 == 3 { C::CurveExt::identity() } else { r } }).collect(); let mut o = vec![C::identity(); n]; C::CurveExt::batch_normalize(&proj, &mut o); o };
        let bits = S::<C>::NUM_BITS;
        let width = digits.min(bits);
        // scalars d * 2^pos for every bit position and every d < 2^width
        let mut jobs: Vec<(u64, u32)> = vec![];
        for pos in 0..bits { for d in 1..1u64 << width { if d % 2 == 1 || pos == 0 { jobs.push((d, pos)); } } }
        let chunk: Vec<Vec<(u64, u32)>> = jobs.chunks(16).map(|c| c.to_vec()).collect();
        c.par(&chunk, |js| for (d, pos) in js {
            let s = S::<C>::from(*d) * S::<C>::from(2).pow([*pos as u64]);
            let at = (*d as usize * 31 + *pos as usize) % n.max(1);
            if n == 0 { return; }
            let mut v = vec![S::<C>::ZERO; n];
            v[at] = s;
            let got: C::CurveExt = mul(&v, &bases);
            c.check(got == times(&s, &bases[at]), || format!("{name}: {n} terms, term {at} scaled by {s:?}"), || "wrong product".into());
            c.tick();
        });
        let fams: Vec<u64> = (0..8).collect();
        c.par(&fams, |f| {
            let v: Vec<S<C>> = (0..n as u64).map(|i| match f { 0 => S::<C>::ZERO, 1 => S::<C>::ONE, 2 => -S::<C>::ONE, 3 => S::<C>::from(i), 4 => -S::<C>::from(i), 5 => S::<C>::MULTIPLICATIVE_GENERATOR.pow([i * i + 3]), 6 => if i % 2 == 0 { S::<C>::DELTA } else { -S::<C>::DELTA }, _ => S::<C>::TWO_INV.pow([i]) }).collect();
            let got: C::CurveExt = mul(&v, &bases);
            c.check(got == naive(&v, &bases), || format!("{name}: {n} terms, family {f}"), || "wrong sum".into());
            let same = vec![bases[0..].first().copied().unwrap_or(C::identity()); n];
            let got: C::CurveExt = mul(&v, &same);
            let total = v.iter().fold(S::<C>::ZERO, |a, b| a + b);
            c.check(n == 0 || got == times(&total, &same[0]), || format!("{name}: {n} equal points, family {f}"), || "wrong sum".into());
            c.tick(); c.tick();
        });
        c.sample(|| format!("{name}: {n} terms, {} digit scalars", jobs.len()));
        c.outcomes(&format!("{n} terms"), jobs.len() as u64);
    }
}
/// Long lists: dense patterns whose sum is known from the discrete logarithms.
fn sparse_lists<C: CurveAffine<CurveExt: CurveExt<AffineExt = C>> + PrimeCurveAffine<Scalar = C::ScalarExt, Curve = C::CurveExt>>(c: &CellCtx, name: &str, n: usize) {
    type S<C> = <C as CurveAffine>::ScalarExt;
    let g = C::CurveExt::generator();
    let (mut p, mut l) = (g, S::<C>::ONE);
    let mut logs = vec![];
    let proj: Vec<C::CurveExt> = (0..n).map(|i| { let r = p; logs.push(l); p = p.double() + g; l = l.double() + S::<C>::ONE; if i % 11 == 3 { p = -p; l = -l; } r }).collect();
    let mut bases = vec![C::identity(); n];
    C::CurveExt::batch_normalize(&proj, &mut bases);
    let fams: Vec<u64> = (0..if c.thorough() { 10 } else { 6 }).collect();
    c.par(&fams, |f| {
        let mut x = S::<C>::DELTA + S::<C>::from(*f);
        let v: Vec<S<C>> = (0..n as u64).map(|i| match f { 0 => S::<C>::ONE, 1 => -S::<C>::ONE, 2 => S::<C>::from(i), 3 => S::<C>::TWO_INV.pow([i]), 4 => if i + 1 == n as u64 || i == 0 { S::<C>::DELTA } else { S::<C>::ZERO }, _ => { x = x.square() + S::<C>::from(3); x } }).collect();
        let got: C::CurveExt = mul(&v, &bases);
        let log = v.iter().zip(&logs).fold(S::<C>::ZERO, |a, (s, l)| a + *s * *l);
        c.check(got == times(&log, &g.to_affine()), || format!("{name}: {n} terms, family {f}"), || "wrong sum".into());
        c.tick();
    });
    c.sample(|| format!("{name}: {n} terms with known discrete logarithms"));
}
fn normalize<C: CurveAffine<CurveExt: CurveExt<AffineExt = C>> + PrimeCurveAffine<Scalar = C::ScalarExt, Curve = C::CurveExt>, const N: usize>(c: &CellCtx, name: &str, reps: &[(u64, C::CurveExt)]) {
    let k = reps.len() as u64;
    let total = k.pow(N as u32);
    let chunks: Vec<u64> = (0..total.div_ceil(1024)).collect();
    let affine: Vec<C> = reps.iter().map(|r| r.1.to_affine()).collect();
    c.par(&chunks, |ch| for i in ch * 1024..((ch + 1) * 1024).min(total) {
        let mut j = i;
        let idx: [usize; N] = std::array::from_fn(|_| { let d = (j % k) as usize; j /= k; d });
        let got: [C; N] = batch_to_affine(idx.map(|i| reps[i].1));
        let want = idx.map(|i| affine[i]);
        c.check(got == want, || format!("{name}: multiples {:?}", idx.map(|i| reps[i].0)), || format!("got {got:?}"));
        c.tick();
    });
    c.sample(|| format!("{name}: all {total} arrays of {N}"));
}
/// Several projective representatives of each multiple of the generator.
fn reps<C: CurveExt>(ms: &[u64], each: u64) -> Vec<(u64, C)> {
    let mut v = vec![];
    for m in ms { for r in 0..each {
        let g = C::generator();
        // (m + r) G - r G accumulates different denominators
        let mut p = C::identity();
        for _ in 0..m + r { p += g; }
        for _ in 0..r { p -= g; }
        v.push((*m, p));
    } }
    v
}
struct Gens<C> { g: Vec<C>, h: C }
impl<C: CurveAffine> FixedGenerators<C> for Gens<C> { fn g(&self) -> &[C] { &self.g } fn h(&self) -> &C { &self.h } }
fn commits<C: CurveAffine<CurveExt: CurveExt<AffineExt = C>> + PrimeCurveAffine<Scalar = C::ScalarExt, Curve = C::CurveExt>>(c: &CellCtx, name: &str, scalars: &[C::ScalarExt], gens: &[(u64, u64)]) {
    for (g, h) in gens {
        let p = multiples::<C>(&[*g, 2 * g + 1, 3]);
        let gs = Gens { g: p, h: multiples::<C>(&[*h])[0] };
        c.par(scalars, |v| for b in scalars {
            let want = (times(v, &gs.g[0]) + times(b, &gs.h)).to_affine();
            c.same(&gs.short_commit(*v, *b), &want, || format!("{name}: generators ({g}, {h}), value {v:?}, blind {b:?}"));
            c.tick();
        });
    }
}

pub fn run(ctx: &Ctx) {
    ctx.cell("every list of terms, 13-point curve", |c| {
        type C = cycle7::EpAffine;
        let s: Vec<_> = kit::tiny::Tiny::<13>::all().collect();
        let p = multiples::<C>(&(0..13).collect::<Vec<_>>());
        for n in 0..=2 { all_lists::<C>(c, "13 points", n, &s, &p); }
        let few = multiples::<C>(&[0, 1, 12, 2]);
        all_lists::<C>(c, "13 points", 3, &s, &few);
        let ss: Vec<_> = [0, 1, 12, 6].map(kit::tiny::Tiny::<13>::new).to_vec();
        all_lists::<C>(c, "13 points", 4, &ss, &few);
        if c.thorough() { all_lists::<C>(c, "13 points", 3, &s, &p); all_lists::<C>(c, "13 points", 5, &ss, &few); all_lists::<C>(c, "13 points", 6, &ss[1..3], &few); }
    });
    ctx.cell("every list of terms, other small curves", |c| {
        all_lists::<cycle7::EqAffine>(c, "7 points", 2, &kit::tiny::Tiny::<7>::all().collect::<Vec<_>>(), &multiples::<cycle7::EqAffine>(&(0..7).collect::<Vec<_>>()));
        all_lists::<cycle7::EqAffine>(c, "7 points", 4, &[0, 1, 6, 3].map(kit::tiny::Tiny::<7>::new), &multiples::<cycle7::EqAffine>(&[0, 1, 6]));
        all_lists::<cycle13::EpAffine>(c, "19 points", 2, &kit::tiny::Tiny::<19>::all().collect::<Vec<_>>(), &multiples::<cycle13::EpAffine>(&(0..19).collect::<Vec<_>>()));
        all_lists::<cycle79::EpAffine>(c, "97 points", 1, &kit::tiny::Tiny::<97>::all().collect::<Vec<_>>(), &multiples::<cycle79::EpAffine>(&(0..97).collect::<Vec<_>>()));
        all_lists::<cycle79::EpAffine>(c, "97 points", 4, &[0, 1, 96, 64].map(kit::tiny::Tiny::<97>::new), &multiples::<cycle79::EpAffine>(&[0, 1, 96]));
    });
    ctx.cell("every digit at every length, small curves", |c| {
        let lens: Vec<usize> = if c.thorough() { (0..700).collect() } else { (0..70).chain([148, 149, 150, 403, 404, 405]).collect() };
        lengths::<cycle577::EpAffine>(c, "613 points", &lens, 5);
        lengths::<cycle79::EpAffine>(c, "97 points", &lens[..70.min(lens.len())], 7);
        lengths::<cycle577::EqAffine>(c, "577 points", &[1096, 1097, 2980, 2981], 2);
    });
    ctx.cell("every digit at window thresholds, Pasta", |c| {
        for (ls, d) in [(&[1usize, 3, 4][..], 3), (&[31, 32][..], 4), (&[54, 55][..], 5)] { lengths::<pasta_curves::EpAffine>(c, "Pallas", ls, d); lengths::<pasta_curves::EqAffine>(c, "Vesta", ls, d); }
        lengths::<pasta_curves::EqAffine>(c, "Vesta", &[148, 149], if c.thorough() { 6 } else { 3 });
        lengths::<pasta_curves::EqAffine>(c, "Vesta", &[403, 404], if c.thorough() { 7 } else { 2 });
        lengths::<pasta_curves::EqAffine>(c, "Vesta", &[1096, 1097], if c.thorough() { 8 } else { 1 });
        if c.thorough() { lengths::<pasta_curves::EqAffine>(c, "Vesta", &[2980, 2981, 8103, 8104], 4); }
    });
    ctx.cell("lengths of production commitments", |c| {
        // The longest multi-scalar multiplications the library performs, on both sides of the window threshold.
        for n in [4096, 8103, 8104, 8192] { sparse_lists::<cycle577::EpAffine>(c, "613 points", n); sparse_lists::<pasta_curves::EqAffine>(c, "Vesta", n); }
        sparse_lists::<pasta_curves::EpAffine>(c, "Pallas", 8192);
    });
    ctx.cell("batch conversion", |c| {
        let r13 = reps::<cycle7::Ep>(&(0..13).collect::<Vec<_>>(), 2);
        normalize::<cycle7::EpAffine, 0>(c, "13 points", &r13); normalize::<cycle7::EpAffine, 1>(c, "13 points", &r13); normalize::<cycle7::EpAffine, 2>(c, "13 points", &r13); normalize::<cycle7::EpAffine, 3>(c, "13 points", &r13);
        let few = reps::<cycle7::Ep>(&[0, 1, 12, 5], 2);
        normalize::<cycle7::EpAffine, 4>(c, "13 points", &few); normalize::<cycle7::EpAffine, 5>(c, "13 points", &few);
        normalize::<cycle7::EpAffine, 12>(c, "13 points", &[few[0], few[3]]);
        normalize::<pasta_curves::EpAffine, 3>(c, "Pallas", &reps::<pasta_curves::Ep>(&[0, 1, 5], 3));
        normalize::<pasta_curves::EqAffine, 3>(c, "Vesta", &reps::<pasta_curves::Eq>(&[0, 1, 5], 3));
    });
    ctx.cell("short commitments", |c| {
        commits::<cycle7::EpAffine>(c, "13 points", &kit::tiny::Tiny::<13>::all().collect::<Vec<_>>(), &[(1, 2), (5, 1), (12, 1), (3, 7)]);
        commits::<cycle79::EpAffine>(c, "97 points", &kit::tiny::Tiny::<97>::all().collect::<Vec<_>>(), &[(1, 2), (40, 96)]);
        use pasta_curves::Fp;
        commits::<pasta_curves::EqAffine>(c, "Vesta", &[Fp::ZERO, Fp::ONE, -Fp::ONE, Fp::DELTA, Fp::from(2), Fp::TWO_INV], &[(1, 2), (7, 5)]);
    });
}
