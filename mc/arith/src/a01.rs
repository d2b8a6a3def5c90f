//! A01: evaluation domains and transforms.
use ff::{Field, PrimeField};
use kit::{tiny::{cycle577, cycle79, Tiny}, tuples, CellCtx, Ctx};
use pasta_curves::arithmetic::CurveExt;
use ragu_arithmetic::{Domain, Ring};
use std::fmt::Debug;

/// Sum of v[j] x^j.
fn poly<F: Field>(v: &[F], x: F) -> F { let mut r = F::ZERO; let mut p = F::ONE; for c in v { r += *c * p; p *= x; } r }
fn powers<F: Field>(w: F, n: usize) -> Vec<F> { let mut v = vec![]; let mut p = F::ONE; for _ in 0..n { v.push(p); p *= w; } v }

fn structure<F: PrimeField + Debug>(c: &CellCtx, name: &str, max: u32, probe: &[F]) {
    let ks: Vec<u32> = (0..=max).collect();
    c.par(&ks, |&k| {
        let d = Domain::<F>::new(k);
        let n = 1usize << k;
        c.tick();
        c.sample(|| format!("{name} 2^{k}"));
        c.same(&d.n(), &n, || format!("{name} k={k}: size"));
        c.same(&d.log2_n(), &k, || format!("{name} k={k}: log size"));
        // exactly the stated order
        let mut w = d.omega();
        for i in 0..k { if !c.check(w != F::ONE, || format!("{name} k={k}: order"), || format!("generator has order 2^{i}")) { return; } w = w.square(); }
        c.same(&w, &F::ONE, || format!("{name} k={k}: generator^(2^k)"));
        if k > 0 { c.same(&Domain::<F>::new(k - 1).omega(), &d.omega().square(), || format!("{name} k={k}: generator of the half-size domain")); }
        // membership
        let dom = if k <= 14 { powers(d.omega(), n) } else { vec![] };
        let member = |x: &F| if k <= 14 { dom.contains(x) } else { let mut y = *x; for _ in 0..k { y = y.square(); } y == F::ONE };
        for x in probe {
            c.same(&d.contains(*x), &member(x), || format!("{name} k={k}: contains({x:?})"));
            c.tick();
            c.outcome(if member(x) { "member" } else { "not a member" });
        }
        for x in dom.iter().take(64).chain(dom.iter().rev().take(64)) { c.check(d.contains(*x), || format!("{name} k={k}: contains({x:?})"), || "domain element reported as outside".into()); c.tick(); }
    });
    let r = c.attempt(|| Domain::<F>::new(F::S + 1));
    c.check(r.is_err(), || format!("{name}: size 2^(S+1)"), || "a domain larger than the field supports was created".into());
    c.tick();
    if F::S <= 16 || max == F::S {
        let d = Domain::<F>::default();
        c.same(&d.log2_n(), &F::S, || format!("{name}: default size"));
        c.same(&d.omega(), &Domain::<F>::new(F::S).omega(), || format!("{name}: default generator"));
    }
}

fn one_fft<F: PrimeField + Debug>(c: &CellCtx, d: &Domain<F>, ws: &[F], v: &[F], name: &str) {
    let mut e = v.to_vec();
    d.fft(&mut e);
    for (i, x) in ws.iter().enumerate() {
        if e[i] != poly(v, *x) { c.violation(format!("{name} n={} coefficients {v:?}", v.len()), format!("evaluation {i} is {:?}, expected {:?}", e[i], poly(v, *x))); return; }
    }
    d.ifft(&mut e);
    if e != v { c.violation(format!("{name} n={} coefficients {v:?}", v.len()), format!("inverse transform gives {e:?}")); }
    let mut g = v.to_vec();
    d.ifft(&mut g);
    for (i, x) in ws.iter().enumerate() {
        if poly(&g, *x) != v[i] { c.violation(format!("{name} n={} evaluations {v:?}", v.len()), format!("the interpolated polynomial is wrong at element {i}")); return; }
    }
    c.states(1); c.transitions(3); c.traces(2);
}

/// Runs `f` as if the executor had `n` threads.
fn with_threads<R>(n: usize, f: impl FnOnce() -> R) -> R {
    struct Reset; impl Drop for Reset { fn drop(&mut self) { maybe_rayon::mc::set_threads(1); } }
    maybe_rayon::mc::set_threads(n);
    let _reset = Reset;
    f()
}

/// Unit vectors and geometric sequences, whose transforms have a closed form, so that sizes are cheap.
fn large<F: PrimeField + Debug>(c: &CellCtx, name: &str, k: u32, idx: &[usize], ratios: &[F], threads: &[usize]) {
    let d = Domain::<F>::new(k);
    let n = 1usize << k;
    let ws = powers(d.omega(), n);
    let nf = F::from(n as u64);
    c.sample(|| format!("{name} n={n}: {} unit vectors, {} geometric sequences, threads {threads:?}", idx.len(), ratios.len()));
    let s = F::MULTIPLICATIVE_GENERATOR;
    c.par(idx, |&i| for &t in threads {
        let mut v = vec![F::ZERO; n]; v[i] = s;
        let key = || format!("{name} n={n} unit vector {i}, {t} threads");
        let mut e = v.clone();
        with_threads(t, || d.fft(&mut e));
        for j in 0..n { if e[j] != s * ws[i * j % n] { c.violation(key(), format!("evaluation {j} is {:?}, expected {:?}", e[j], s * ws[i * j % n])); return; } }
        with_threads(t, || d.ifft(&mut e));
        if let Some(j) = (0..n).find(|j| e[*j] != v[*j]) { c.violation(key(), format!("the inverse transform does not give coefficient {j} back")); return; }
        with_threads(t, || d.ifft(&mut v));
        for j in 0..n { if v[j] * nf != s * ws[(n - i * j % n) % n] { c.violation(key(), format!("interpolated coefficient {j} is {:?}", v[j])); return; } }
        c.states(1); c.transitions(3); c.traces(2);
    });
    c.par(ratios, |&r| for &t in threads {
        let v = powers(r, n);
        let key = || format!("{name} n={n} powers of {r:?}, {t} threads");
        let rn = v[n - 1] * r;
        let mut e = v.clone();
        with_threads(t, || d.fft(&mut e));
        for j in 0..n {
            let x = r * ws[j];
            let good = if x == F::ONE { e[j] == nf } else { e[j] * (x - F::ONE) == rn - F::ONE };
            if !good { c.violation(key(), format!("evaluation {j} is {:?}", e[j])); return; }
        }
        with_threads(t, || d.ifft(&mut e));
        if let Some(j) = (0..n).find(|j| e[*j] != v[*j]) { c.violation(key(), format!("the inverse transform does not give coefficient {j} back")); return; }
        c.states(1); c.transitions(2); c.traces(1);
    });
}

/// All coefficient vectors over an alphabet.
fn all_vectors<F: PrimeField + Debug>(c: &CellCtx, name: &str, k: u32, alphabet: &[F]) {
    let d = Domain::<F>::new(k);
    let n = 1usize << k;
    let ws = powers(d.omega(), n);
    let b = alphabet.len() as u64;
    let total = b.pow(n as u32);
    let chunks: Vec<u64> = (0..total.div_ceil(2048)).collect();
    c.sample(|| format!("{name} n={n}: all {total} vectors over {} values", b));
    c.par(&chunks, |ch| for i in ch * 2048..((ch + 1) * 2048).min(total) {
        let mut j = i;
        let v: Vec<F> = (0..n).map(|_| { let x = alphabet[(j % b) as usize]; j /= b; x }).collect();
        one_fft(c, &d, &ws, &v, name);
    });
}

/// Every unit vector times every scalar, every pair of unit vectors, and the dense vectors 1, j, j^2 + 1, x^j.
fn basis<F: PrimeField + Debug>(c: &CellCtx, name: &str, ks: std::ops::RangeInclusive<u32>, scalars: &[F], pairs: bool) {
    for k in ks {
        let d = Domain::<F>::new(k);
        let n = 1usize << k;
        let ws = powers(d.omega(), n);
        let idx: Vec<usize> = (0..n).collect();
        c.par(&idx, |&i| {
            for s in scalars { let mut v = vec![F::ZERO; n]; v[i] = *s; one_fft(c, &d, &ws, &v, name); }
            if pairs { for j in 0..i { let mut v = vec![F::ZERO; n]; v[i] = F::ONE; v[j] = F::from(2); one_fft(c, &d, &ws, &v, name); } }
            if i < 8 {
                let f = |j: usize| match i { 0 => F::ONE, 1 => F::from(j as u64), 2 => F::from((j * j + 1) as u64), 3 => F::MULTIPLICATIVE_GENERATOR.pow([j as u64]), 4 => -F::from(j as u64 + 1), 5 => F::from((j % 3) as u64), 6 => if j == n - 1 { -F::ONE } else { F::from(5) }, _ => F::ZERO };
                one_fft(c, &d, &ws, &(0..n).map(f).collect::<Vec<_>>(), name);
            }
        });
        c.sample(|| format!("{name} n={n} unit vectors"));
    }
}

struct Points<C>(std::marker::PhantomData<C>);
impl<C: CurveExt + Default> Ring for Points<C> {
    type R = C;
    type F = C::ScalarExt;
    fn scale_assign(r: &mut C, by: C::ScalarExt) { *r *= by; }
    fn add_assign(r: &mut C, o: &C) { *r += *o; }
    fn sub_assign(r: &mut C, o: &C) { *r -= *o; }
}
fn group_fft<C: CurveExt + Default>(c: &CellCtx, name: &str, d: &Domain<C::ScalarExt>, v: &[C]) {
    let ws = powers(d.omega(), v.len());
    let at = |v: &[C], x: C::ScalarExt| { let mut r = C::identity(); let mut p = C::ScalarExt::ONE; for q in v { r += *q * p; p *= x; } r };
    let mut e = v.to_vec();
    d.ring_fft::<Points<C>>(&mut e);
    for (i, w) in ws.iter().enumerate() { if !c.check(e[i] == at(v, *w), || format!("{name} {v:?}"), || format!("transform of points is wrong at element {i}")) { return; } }
    d.ring_ifft::<Points<C>>(&mut e);
    c.check(e.as_slice() == v, || format!("{name} {v:?}"), || "inverse transform of points does not invert".into());
    let mut e = v.to_vec();
    d.ring_ifft::<Points<C>>(&mut e);
    for (i, w) in ws.iter().enumerate() { if !c.check(at(&e, *w) == v[i], || format!("{name} {v:?}"), || format!("interpolation of points is wrong at element {i}")) { return; } }
    c.states(1); c.transitions(3); c.traces(2);
}
fn groups<C: CurveExt + Default>(c: &CellCtx, name: &str, ks: &[u32], exhaustive_k: u32, multiples: &[u64]) {
    let g = C::generator();
    for &k in ks {
        let d = Domain::<C::ScalarExt>::new(k);
        let n = 1usize << k;
        let idx: Vec<usize> = (0..n).collect();
        c.par(&idx, |&i| {
            for m in multiples { let mut v = vec![C::identity(); n]; v[i] = g * C::ScalarExt::from(*m); group_fft(c, name, &d, &v); }
            let v: Vec<C> = (0..n).map(|j| g * C::ScalarExt::from((j * j + i) as u64)).collect();
            group_fft(c, name, &d, &v);
        });
        if k <= exhaustive_k {
            let alpha = [C::identity(), g, -g, g + g, g + g + g + g + g];
            let all: Vec<Vec<u64>> = tuples(if n > 4 { 3 } else { 5 }, n).collect();
            c.par(&all, |t| group_fft(c, name, &d, &t.iter().map(|i| alpha[*i as usize]).collect::<Vec<_>>()));
        }
        c.sample(|| format!("{name} n={n}"));
    }
}

/// Lagrange basis at every point of the field.
fn lagrange<F: PrimeField + Debug>(c: &CellCtx, name: &str, k: u32, xs: &[F], amounts: &[usize]) {
    let d = Domain::<F>::new(k);
    let n = 1usize << k;
    let ws = powers(d.omega(), n);
    // prod_{j != i} (w_i - w_j)
    let den: Vec<F> = (0..n).map(|i| { let mut p = F::ONE; for j in 0..n { if i != j { p *= ws[i] - ws[j]; } } p }).collect();
    c.par(xs, |x| {
        let inside = ws.contains(x);
        let num: Vec<F> = (0..n).map(|i| { let mut p = F::ONE; for j in 0..n { if i != j { p *= *x - ws[j]; } } p }).collect();
        for &a in amounts.iter().filter(|a| **a <= n) {
            c.tick();
            let key = || format!("{name} n={n} x={x:?} amount={a}");
            let got = d.ell(*x, a);
            c.outcome(if inside { "inside" } else { "outside" });
            match got {
                None => { c.check(inside, key, || "a point outside the domain was reported as inside".into()); }
                Some(v) => {
                    if !c.check(!inside, key, || "a point of the domain was not reported as such".into()) { return; }
                    if !c.same(&v.len(), &a, key) { return; }
                    for i in 0..a { if !c.check(v[i] * den[i] == num[i], key, || format!("basis value {i} is {:?}", v[i])) { return; } }
                }
            }
        }
    });
    c.sample(|| format!("{name} n={n}: {} points", xs.len()));
}
/// The basis of larger domains, decided by its defining equation:
/// l_i(x) n (x - w^i) = (x^n - 1) w^i.
fn lagrange_large<F: PrimeField + Debug>(c: &CellCtx, name: &str, k: u32, xs: &[F]) {
    let d = Domain::<F>::new(k);
    let n = 1usize << k;
    let ws = powers(d.omega(), n);
    let nf = F::from(n as u64);
    let amounts: Vec<usize> = [0, 1, 2, n / 4 + 1, n / 2 - 1, n / 2, n - 1, n].into_iter().chain((0..).map(|i| 257 + 91 * i).take_while(|a| *a < n)).filter(|a| *a <= n).collect();
    let mut xs = xs.to_vec();
    for i in [0, 1, n / 2, n - 1] { xs.push(ws[i]); xs.push(ws[i] + F::ONE); }
    c.par(&xs, |x| {
        let mut xn = *x; for _ in 0..k { xn *= xn; }
        let inside = xn == F::ONE;
        c.check(inside == ws.contains(x), || format!("{name} n={n} x={x:?}"), || "the domain is not the set of n-th roots of unity".into());
        for &a in &amounts {
            c.tick();
            let key = || format!("{name} n={n} x={x:?} amount={a}");
            match d.ell(*x, a) {
                None => { c.check(inside, key, || "a point outside the domain was reported as inside".into()); }
                Some(v) => {
                    if !c.check(!inside, key, || "a point of the domain was not reported as such".into()) { return; }
                    if !c.same(&v.len(), &a, key) { return; }
                    for i in 0..a { if !c.check(v[i] * nf * (*x - ws[i]) == (xn - F::ONE) * ws[i], key, || format!("basis value {i} is {:?}", v[i])) { return; } }
                }
            }
        }
    });
    c.sample(|| format!("{name} n={n}: {} points, amounts {amounts:?}", xs.len()));
}

pub fn run(ctx: &Ctx) {
    ctx.assume("generic code is checked on every element of small prime fields (and on structured inputs over the production fields)");
    fn tiny<const P: u64>() -> Vec<Tiny<P>> { Tiny::<P>::all().collect() }
    fn wide<F: PrimeField>() -> Vec<F> {
        let mut v = vec![F::ZERO, F::ONE, -F::ONE, F::TWO_INV, F::DELTA, F::ROOT_OF_UNITY, F::ROOT_OF_UNITY_INV, F::MULTIPLICATIVE_GENERATOR, F::ROOT_OF_UNITY * F::DELTA];
        for i in 2..12 { v.push(F::from(i)); }
        let mut w = F::ROOT_OF_UNITY; for _ in 0..F::S { w = w.square(); v.push(w); v.push(-w); v.push(w + F::ONE); v.push(w.square() * w); }
        v
    }
    ctx.cell("domains", |c| {
        structure::<Tiny<3>>(c, "F_3", 1, &tiny());
        structure::<Tiny<7>>(c, "F_7", 1, &tiny());
        structure::<Tiny<13>>(c, "F_13", 2, &tiny());
        structure::<Tiny<17>>(c, "F_17", 4, &tiny());
        structure::<Tiny<97>>(c, "F_97", 5, &tiny());
        structure::<Tiny<193>>(c, "F_193", 6, &tiny());
        structure::<Tiny<257>>(c, "F_257", 8, &tiny());
        structure::<Tiny<769>>(c, "F_769", 8, &tiny());
        structure::<Tiny<7681>>(c, "F_7681", 9, &tiny());
        structure::<Tiny<12289>>(c, "F_12289", 12, &tiny());
        structure::<pasta_curves::Fp>(c, "Fp", 32, &wide());
        structure::<pasta_curves::Fq>(c, "Fq", 32, &wide());
    });
    ctx.cell("transforms of every vector", |c| {
        let f17: Vec<Tiny<17>> = tiny();
        all_vectors(c, "F_3", 0, &tiny::<3>()); all_vectors(c, "F_3", 1, &tiny::<3>());
        all_vectors(c, "F_13", 2, &tiny::<13>());
        for k in 0..=2 { all_vectors(c, "F_17", k, &f17); }
        all_vectors(c, "F_17", 3, &[0, 1, 16, 3].map(Tiny::<17>::new));
        all_vectors(c, "F_17", 4, &[0, 1].map(Tiny::<17>::new));
        if c.thorough() { all_vectors(c, "F_17", 3, &f17[..10]); all_vectors(c, "F_17", 4, &[0, 1, 5].map(Tiny::<17>::new)); all_vectors(c, "F_5", 2, &tiny::<5>()); all_vectors(c, "F_97", 2, &Tiny::<97>::all().step_by(2).collect::<Vec<_>>()); }
    });
    ctx.cell("transforms of every unit vector", |c| {
        basis(c, "F_97", 0..=5, &tiny::<97>(), true);
        basis(c, "F_193", 0..=6, &[1, 2, 100, 192].map(Tiny::<193>::new), true);
        basis(c, "F_257", 0..=if c.thorough() { 8 } else { 6 }, &[1, 2, 256].map(Tiny::<257>::new), c.thorough());
        basis(c, "F_257", 7..=8, &[1, 256].map(Tiny::<257>::new), false);
        basis(c, "F_12289", 0..=if c.thorough() { 11 } else { 9 }, &[3].map(Tiny::<12289>::new), false);
        basis(c, "Fp", 0..=if c.thorough() { 9 } else { 6 }, &[pasta_curves::Fp::ONE, -pasta_curves::Fp::DELTA], false);
        basis(c, "Fq", 0..=if c.thorough() { 9 } else { 6 }, &[pasta_curves::Fq::ONE, -pasta_curves::Fq::DELTA], false);
    });
    ctx.cell("transforms on several threads", |c| {
        // every size against every number of threads around it: small transforms take another route when threads abound
        fn all<F: PrimeField + Debug>(c: &CellCtx, name: &str, max: u32) {
            let mut items = vec![];
            for k in 0..=max { for t in 0..=max + 1 { for t in [(1usize << t) - 1, 1 << t, (1 << t) + 1] { if t > 0 { items.push((k, t)); } } } }
            c.par(&items, |&(k, t)| {
                let d = Domain::<F>::new(k);
                let n = 1usize << k;
                let ws = powers(d.omega(), n);
                with_threads(t, || for i in 0..n + 3 {
                    let v: Vec<F> = (0..n).map(|j| match i.checked_sub(n) { None => F::from((i == j) as u64), Some(0) => F::from(j as u64 + 1), Some(1) => F::MULTIPLICATIVE_GENERATOR.pow([j as u64]), _ => -F::from((j * j) as u64) }).collect();
                    one_fft(c, &d, &ws, &v, &format!("{name}, {t} threads,"));
                });
            });
            c.sample(|| format!("{name}: sizes to 2^{max}, 1..2^{}+1 threads", max + 1));
        }
        all::<Tiny<257>>(c, "F_257", if c.thorough() { 8 } else { 7 });
        all::<Tiny<7681>>(c, "F_7681", if c.thorough() { 8 } else { 5 });
        all::<pasta_curves::Fp>(c, "Fp", if c.thorough() { 6 } else { 4 });
    });
    ctx.cell("large transforms", |c| {
        type F = Tiny<65537>;
        let some = |n: usize| -> Vec<usize> {
            let mut v: Vec<usize> = [0, 1, 2, 3, 5, n / 2, n / 3, n / 2 + 1, n / 4, n - 2, n - 1].into();
            let mut p = 4; while p < n { v.extend([p - 1, p, p + 1]); p *= 2; }
            v.retain(|i| *i < n); v.sort(); v.dedup(); v
        };
        let ratios: Vec<F> = [2u64, 3, 5, 65536, 256, 4096, 65535, 1234, 0].iter().map(|x| F::new(*x)).collect();
        for k in 9..=if c.thorough() { 13 } else { 12 } { large::<F>(c, "F_65537", k, &(0..1 << k).collect::<Vec<_>>(), &ratios, &[1]); }
        for k in 9..=if c.thorough() { 16 } else { 15 } { large::<F>(c, "F_65537", k, &some(1 << k), &ratios, &[1, 8, 1 << k]); }
        for k in 7..=if c.thorough() { 14 } else { 12 } {
            let w = pasta_curves::Fp::ROOT_OF_UNITY;
            large(c, "Fp", k, &some(1 << k).into_iter().step_by(if k > 10 { 5 } else { 1 }).collect::<Vec<_>>(), &[pasta_curves::Fp::DELTA, w], &[1, 1 << k]);
        }
    });
    ctx.cell("transforms of points", |c| {
        groups::<cycle79::Ep>(c, "97-point curve", &[0, 1, 2, 3, 4, 5], 2, &(1..97).collect::<Vec<_>>());
        groups::<cycle79::Ep>(c, "97-point curve", &[3], 3, &[1]);
        groups::<cycle577::Eq>(c, "577-point curve", &[0, 1, 2, 6], 2, &[1, 2, 576]);
        groups::<pasta_curves::Ep>(c, "Pallas", &[0, 1, 2, 3], 0, &[1, 7]);
        groups::<pasta_curves::Eq>(c, "Vesta", &[0, 1, 2, 3], 0, &[1, 7]);
    });
    ctx.cell("Lagrange basis at every point", |c| {
        for k in 0..=4 { lagrange::<Tiny<17>>(c, "F_17", k, &tiny(), &(0..=16).collect::<Vec<_>>()); }
        for k in 0..=5 { lagrange::<Tiny<97>>(c, "F_97", k, &tiny(), &(0..=32).collect::<Vec<_>>()); }
        for k in 0..=if c.thorough() { 8 } else { 6 } { lagrange::<Tiny<257>>(c, "F_257", k, &tiny(), &[0, 1, 2, 3, 5, 63, 64, 100, 255, 256]); }
        lagrange::<Tiny<193>>(c, "F_193", 6, &tiny(), &[0, 1, 33, 63, 64]);
        lagrange::<Tiny<12289>>(c, "F_12289", 4, &tiny(), &[0, 1, 7, 16]);
        for k in 0..=6 { lagrange::<pasta_curves::Fp>(c, "Fp", k, &wide(), &[0, 1, 2, 5, 31, 64]); lagrange::<pasta_curves::Fq>(c, "Fq", k, &wide(), &[0, 1, 2, 5, 31, 64]); }
    });
    ctx.cell("Lagrange basis of large domains", |c| {
        let f: Vec<_> = (0..if c.thorough() { 12289 } else { 64 }).map(|i| Tiny::<12289>::new(i * 191 % 12289)).collect();
        for k in 7..=12 { lagrange_large(c, "F_12289", k, &f); }
        let p: Vec<pasta_curves::Fp> = wide(); let q: Vec<pasta_curves::Fq> = wide();
        let step = if c.thorough() { 1 } else { 9 };
        for k in 7..=if c.thorough() { 14 } else { 13 } { lagrange_large(c, "Fp", k, &p.iter().copied().step_by(step).collect::<Vec<_>>()); lagrange_large(c, "Fq", k, &q.iter().copied().step_by(step).collect::<Vec<_>>()); }
    });
}
