//! R03: sparse polynomials against the dense vectors they denote.
use ff::Field;
use group::prime::PrimeCurveAffine;
use group::{Curve, Group};
use kit::tiny::{cycle577, Tiny};
use kit::{CellCtx, Ctx};
use ragu_arithmetic::{FixedGenerators, Ring};
use ragu_circuits::polynomials::{sparse, ProductionRank, Rank, TestRank};

type F = Tiny<577>;
type Poly = sparse::Polynomial<F, TestRank>;
const N: usize = 128;
type Dense = Vec<F>;

fn f(x: i64) -> F { F::new(x.rem_euclid(577) as u64) }
fn dense_eval(c: &[F], x: F) -> F { c.iter().rev().fold(F::ZERO, |a, c| a * x + *c) }
fn dense_revdot(a: &[F], b: &[F]) -> F { a.iter().zip(b.iter().rev()).fold(F::ZERO, |s, (a, b)| s + *a * *b) }
fn is(p: &Poly, d: &[F]) -> bool { let mut it = p.iter_coeffs(); d.iter().all(|x| it.next() == Some(*x)) && it.next().is_none() }
fn show(p: &Poly) -> String { let v: Vec<(usize, F)> = p.iter_coeffs().enumerate().filter(|x| x.1 != F::ZERO).collect(); format!("{v:?}") }
fn show_d(p: &[F]) -> String { let v: Vec<(usize, F)> = p.iter().copied().enumerate().filter(|x| x.1 != F::ZERO).collect(); format!("{v:?}") }

/// Everything that can be observed of one polynomial (except commitments).
fn observe(c: &CellCtx, name: &dyn Fn() -> String, p: &Poly, d: &[F]) -> bool {
    let bad = |what: String| { c.violation(name(), what); false };
    if !is(p, d) { return bad(format!("coefficients {}, expected {}", show(p), show_d(d))); }
    let mut it = p.iter_coeffs().rev();
    if !d.iter().rev().all(|x| it.next() == Some(*x)) || it.next().is_some() { return bad("coefficients in reverse".into()); }
    for x in [0, 1, -1, 3, 24, 128] { let (got, want) = (p.eval(f(x)), dense_eval(d, f(x))); if got != want { return bad(format!("value at {x}: {got:?}, expected {want:?} ({})", show(p))); } }
    c.states(1); c.transitions(8);
    true
}
fn pair(c: &CellCtx, name: &dyn Fn() -> String, p: &Poly, dp: &[F], q: &Poly, dq: &[F]) -> bool {
    let bad = |what: String| { c.violation(name(), format!("{what} ({} and {})", show(p), show(q))); false };
    let add: Dense = dp.iter().zip(dq).map(|(a, b)| *a + *b).collect();
    let sub: Dense = dp.iter().zip(dq).map(|(a, b)| *a - *b).collect();
    let mut s = p.clone(); s.add_assign(q);
    if !is(&s, &add) { return bad(format!("sum is {}", show(&s))); }
    let mut m = p.clone(); m.sub_assign(q);
    if !is(&m, &sub) { return bad(format!("difference is {}", show(&m))); }
    if p.revdot(q) != dense_revdot(dp, dq) { return bad(format!("revdot is {:?}, expected {:?}", p.revdot(q), dense_revdot(dp, dq))); }
    if m.revdot(&s) != dense_revdot(&sub, &add) { return bad("revdot of difference and sum".into()); }
    if s.eval(f(3)) != dense_eval(&add, f(3)) || m.eval(f(5)) != dense_eval(&sub, f(5)) { return bad("value of the sum or difference".into()); }
    // Back again, through representations that only operations produce.
    s.sub_assign(q);
    if !is(&s, dp) { return bad(format!("sum then difference is {}", show(&s))); }
    m += q;
    if !is(&m, dp) { return bad(format!("difference then sum is {}", show(&m))); }
    c.states(1); c.transitions(8); c.traces(1);
    true
}
fn values(positions: &[usize], mask: u64, pattern: usize) -> Dense {
    let mut d = vec![F::ZERO; N];
    for (k, p) in positions.iter().enumerate() { if mask >> k & 1 == 1 { let v = (*p as i64) + 1; d[*p] = f(match pattern { 0 => v, 1 => -v, 2 => if k % 2 == 0 { -v } else { v + 2 }, _ => v * v + 7 }); } }
    d
}
fn view(lens: [usize; 4], pattern: usize, wiring: bool) -> (Poly, Dense) {
    let val = |w: usize, i: usize| f(match pattern { 0 => (w * 100 + i + 1) as i64, 1 => -((w * 100 + i + 1) as i64), 2 => if i % 7 < 2 { (w + i + 3) as i64 } else { 0 }, _ => if i + 1 == lens[w] || i == 0 { (9 * w + i + 1) as i64 } else { 0 } });
    let b: Vec<Vec<F>> = (0..4).map(|w| (0..lens[w]).map(|i| val(w, i)).collect()).collect();
    let mut d = vec![F::ZERO; N];
    let n = 32;
    for w in 0..4 { for (i, x) in b[w].iter().enumerate() {
        let wire = if wiring { [1, 0, 3, 2][w] } else { w };
        d[match wire { 0 => 2 * n + i, 1 => 2 * n - 1 - i, 2 => i, _ => 4 * n - 1 - i }] = *x;
    } }
    let mut it = b.into_iter();
    let p = if wiring { let mut v = sparse::View::<F, TestRank, _>::wiring(); v.a = it.next().unwrap(); v.b = it.next().unwrap(); v.c = it.next().unwrap(); v.d = it.next().unwrap(); v.build() }
        else { let mut v = sparse::View::<F, TestRank, _>::trace(); v.a = it.next().unwrap(); v.b = it.next().unwrap(); v.c = it.next().unwrap(); v.d = it.next().unwrap(); v.build() };
    (p, d)
}
/// Representatives of the block structures the other cells enumerate.
fn library() -> Vec<(Poly, Dense)> {
    let mut v = vec![];
    for l in [[0, 0, 0, 0], [1, 0, 0, 0], [32, 32, 32, 32], [5, 3, 0, 9], [31, 32, 7, 1], [2, 2, 2, 2], [32, 0, 32, 0], [0, 32, 0, 32]] { for pat in [0, 2, 3] { for w in [false, true] { v.push(view(l, pat, w)); } } }
    for gap in 0..8 { for start in [0usize, 1, 58, 63, 64, 117] { for mask in [0b11u64, 0b101, 0b111] { let d = values(&[start, start + 1 + gap, (start + 2 * gap + 3).min(127)], mask, 3); v.push((Poly::from_coeffs(d.clone()), d)); } } }
    let all: Dense = (0..N).map(|i| f(3 * i as i64 + 1)).collect();
    v.push((Poly::from_coeffs(all.clone()), all));
    v
}
struct Gens { g: Vec<cycle577::EqAffine>, log: Vec<u64>, h: cycle577::EqAffine, table: Vec<cycle577::EqAffine> }
impl FixedGenerators<cycle577::EqAffine> for Gens { fn g(&self) -> &[cycle577::EqAffine] { &self.g } fn h(&self) -> &cycle577::EqAffine { &self.h } }
impl Gens {
    fn new(k: u64) -> Self {
        let mut table = vec![cycle577::Eq::identity()];
        for i in 1..577 { let p = table[i - 1] + cycle577::Eq::generator(); table.push(p); }
        let table: Vec<cycle577::EqAffine> = table.iter().map(|p| p.to_affine()).collect();
        let log: Vec<u64> = (0..N as u64).map(|i| (i * i * k + 3 * i + k) % 577).collect();
        Gens { g: log.iter().map(|l| table[*l as usize]).collect(), log, h: table[5], table }
    }
    fn check(&self, c: &CellCtx, name: &dyn Fn() -> String, p: &Poly, d: &[F]) {
        let want = d.iter().zip(&self.log).fold(F::ZERO, |a, (x, l)| a + *x * F::new(*l));
        let want = self.table[want.0 as usize];
        let got: cycle577::EqAffine = p.commit_to_affine(self);
        c.check(got == want, name, || format!("commitment of {} is wrong", show(p)));
        c.check(p.commit(self).to_affine() == want, name, || format!("projective commitment of {} is wrong", show(p)));
        c.tick();
    }
}
#[derive(Clone, Copy, Debug)]
enum Op { Add, Sub, AddTo, SubTo, Swap, Scale(i64), Negate, Dilate(i64), Fold2(i64), Fold3(i64), FoldNone, Double, Load(usize), RingScale(i64), RingAdd, RingSub }
fn apply(op: Op, (p, q): (&mut Poly, &mut Poly), (dp, dq): (&mut Dense, &mut Dense), lib: &[(Poly, Dense)]) {
    fn zip(a: &mut Dense, b: &[F], op: impl Fn(F, F) -> F) { for (a, b) in a.iter_mut().zip(b) { *a = op(*a, *b); } }
    fn fold(l: &[&Dense], k: F) -> Dense { let mut o = vec![F::ZERO; N]; for d in l { for (o, x) in o.iter_mut().zip(d.iter()) { *o = *o * k + *x; } } o }
    match op {
        Op::Add => { p.add_assign(q); zip(dp, dq, |a, b| a + b); }
        Op::Sub => { p.sub_assign(q); zip(dp, dq, |a, b| a - b); }
        Op::AddTo => { *q += &*p; zip(dq, dp, |a, b| a + b); }
        Op::SubTo => { *q -= &*p; zip(dq, dp, |a, b| a - b); }
        Op::Swap => { std::mem::swap(p, q); std::mem::swap(dp, dq); }
        Op::Scale(k) => { p.scale(f(k)); for x in dp.iter_mut() { *x *= f(k); } }
        Op::Negate => { p.negate(); for x in dp.iter_mut() { *x = -*x; } }
        Op::Dilate(z) => { p.dilate(f(z)); let mut w = F::ONE; for x in dp.iter_mut() { *x *= w; w *= f(z); } }
        Op::Fold2(k) => { let n = Poly::fold([&*p, &*q], f(k)); *dp = fold(&[dp, dq], f(k)); *p = n; }
        Op::Fold3(k) => { let n = Poly::fold([&*q, &*p, &*q], f(k)); *dp = fold(&[dq, dp, dq], f(k)); *p = n; }
        Op::FoldNone => { *p = Poly::fold(Vec::<Poly>::new(), f(2)); *dp = vec![F::ZERO; N]; }
        Op::Double => { let o = p.clone(); p.add_assign(&o); for x in dp.iter_mut() { *x = *x + *x; } }
        Op::Load(i) => { *q = lib[i].0.clone(); *dq = lib[i].1.clone(); }
        Op::RingScale(k) => { Poly::scale_assign(p, f(k)); for x in dp.iter_mut() { *x *= f(k); } }
        Op::RingAdd => { <Poly as Ring>::add_assign(p, q); zip(dp, dq, |a, b| a + b); }
        Op::RingSub => { <Poly as Ring>::sub_assign(p, q); zip(dp, dq, |a, b| a - b); }
    }
}
fn histories(c: &CellCtx, ops: &[Op], lib: &[(Poly, Dense)], trail: &mut Vec<Op>, p: (&Poly, &Poly), d: (&Dense, &Dense), start: usize, depth: usize) {
    if c.too_many() { return; }
    let name = || format!("from {start}: {trail:?}");
    if !observe(c, &name, p.0, d.0) || !is(p.1, d.1) { c.check(is(p.1, d.1), name, || "the other polynomial changed".into()); return; }
    let rd = p.0.revdot(p.1);
    if rd != dense_revdot(d.0, d.1) || p.1.revdot(p.0) != rd { c.violation(name(), format!("revdot is {rd:?} ({} and {})", show(p.0), show(p.1))); return; }
    if depth == 0 { c.traces(1); return; }
    for op in ops {
        let (mut a, mut b, mut da, mut db) = (p.0.clone(), p.1.clone(), d.0.clone(), d.1.clone());
        apply(*op, (&mut a, &mut b), (&mut da, &mut db), lib);
        trail.push(*op);
        histories(c, ops, lib, trail, (&a, &b), (&da, &db), start, depth - 1);
        trail.pop();
    }
}
/// A generator whose output is a fixed function of its seed and position.
struct Scripted(u64);
impl rand::TryRng for Scripted { type Error = core::convert::Infallible; fn try_next_u32(&mut self) -> Result<u32, Self::Error> { Ok(self.try_next_u64()? as u32) } fn try_next_u64(&mut self) -> Result<u64, Self::Error> { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); Ok(self.0 >> 11 ^ self.0 << 40) } fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Self::Error> { for b in d { *b = (self.try_next_u64()? >> 5) as u8; } Ok(()) } }
impl rand::TryCryptoRng for Scripted {}

pub fn run(ctx: &Ctx) {
    ctx.assume("The field is F_577, with generators of known discrete logarithm on a curve with 577 points; the code is generic in the field. Rank 7 (128 coefficients) except where stated.");
    let w = if ctx.thorough { 12 } else { 9 };
    let window = |start: usize| -> Vec<usize> { (start..start + w).collect() };
    let spread: Vec<usize> = [0usize, 1, 6, 7, 13, 14, 15, 21, 27, 33, 34, 40][..w].to_vec();
    let families: Vec<(&str, Vec<usize>, Vec<usize>)> = vec![
        ("first coefficients", window(0), window(0)),
        ("last coefficients", window(N - w), window(N - w)),
        ("middle coefficients", window(64 - w / 2), window(64 - w / 2)),
        ("first against last", window(0), window(N - w)),
        ("last against first", window(N - w), window(0)),
        ("shifted windows", window(20), window(20 + w / 2)),
        ("separate runs", spread.clone(), spread.clone()),
        ("separate runs, mirrored", spread.clone(), spread.iter().map(|p| N - 1 - p).collect()),
        ("separate runs, shifted", spread.clone(), spread.iter().map(|p| p + 3).collect()),
    ];
    for (what, left, right) in &families {
        ctx.cell(&format!("every pair of supports: {what}"), |c| {
            c.par_range(1 << w, |m| {
                let lefts: Vec<(Poly, Dense)> = [0].map(|pat| values(left, m, pat)).into_iter().map(|d| (Poly::from_coeffs(d.clone()), d)).collect();
                for (p, dp) in &lefts { if !observe(c, &|| format!("support {m:b}"), p, dp) { return; } }
                for k in 0..1u64 << w { for pat in if c.thorough() { 0..4 } else { 1..3 } {
                    let dq = values(right, k, pat);
                    let q = Poly::from_coeffs(dq.clone());
                    for (p, dp) in &lefts { if !pair(c, &|| format!("{what}: supports {m:b} and {k:b}, values {pat}"), p, dp, &q, &dq) { return; } }
                } }
            });
        });
    }
    ctx.cell("every pair of structured views", |c| {
        let lens: Vec<usize> = if c.thorough() { vec![0, 1, 2, 6, 16, 31, 32] } else { vec![0, 1, 6, 31, 32] };
        let k = lens.len();
        let mut all = vec![];
        for i in 0..k.pow(4) { let l = [lens[i % k], lens[i / k % k], lens[i / k / k % k], lens[i / k / k / k]]; for pat in 0..4 { for wi in [false, true] { all.push((l, pat, wi, view(l, pat, wi))); } } }
        for (l, pat, wi, (p, d)) in &all { observe(c, &|| format!("view of lengths {l:?}, values {pat}, wiring {wi}"), p, d); }
        let m = if c.thorough() { 1 } else { 5 };
        c.par_range(all.len() as u64, |i| {
            let (l, pat, wi, (p, dp)) = &all[i as usize];
            for (j, (l2, pat2, wi2, (q, dq))) in all.iter().enumerate() {
                // Quick: one in five of the pairs of shapes (a fixed subset that meets every shape on both sides).
                if (i as usize + j) % m != 0 && l != l2 { continue; }
                if !pair(c, &|| format!("views {l:?}/{pat}/{wi} and {l2:?}/{pat2}/{wi2}"), p, dp, q, dq) { return; }
            }
        });
    });
    ctx.cell("every history of operations", |c| {
        let lib = library();
        let mut ops = vec![Op::Add, Op::Sub, Op::AddTo, Op::SubTo, Op::Swap, Op::Scale(0), Op::Scale(-1), Op::Scale(3), Op::Negate, Op::Dilate(0), Op::Dilate(1), Op::Dilate(-1), Op::Dilate(3), Op::Fold2(0), Op::Fold2(5), Op::Fold3(2), Op::FoldNone, Op::Double, Op::Load(3), Op::Load(8), Op::Load(60), Op::Load(120), Op::RingScale(0), Op::RingScale(2), Op::RingAdd, Op::RingSub];
        if !c.thorough() { ops.truncate(22); }
        let starts: Vec<(usize, usize)> = [0usize, 7, 12, 22, 27, 49, 70, 97, 130, lib.len() - 1].iter().flat_map(|a| [3usize, 20, 88].map(|b| (*a, b))).collect();
        let depth = if c.thorough() { 4 } else { 3 };
        let items: Vec<(usize, usize)> = (0..starts.len()).flat_map(|s| (0..ops.len()).map(move |o| (s, o))).collect();
        c.par(&items, |(s, o)| {
            let (a, b) = starts[*s];
            let (mut p, mut q, mut dp, mut dq) = (lib[a].0.clone(), lib[b].0.clone(), lib[a].1.clone(), lib[b].1.clone());
            apply(ops[*o], (&mut p, &mut q), (&mut dp, &mut dq), &lib);
            histories(c, &ops, &lib, &mut vec![ops[*o]], (&p, &q), (&dp, &dq), *s, depth);
        });
    });
    ctx.cell("iteration from both ends", |c| {
        let lib = library();
        c.par_range(lib.len() as u64, |l| {
            let (p, d) = &lib[l as usize];
            for i in 0..=N { for back_first in [false, true] { for alternate in [false, true] {
                let name = || format!("shape {l}, {i} first, from the back: {back_first}, alternating: {alternate}");
                let mut it = p.iter_coeffs();
                let (mut lo, mut hi) = (0, N);
                let mut front = !back_first;
                for step in 0..N + 2 {
                    if alternate { if step > i { front = !front; } } else if step == i { front = back_first; }
                    if it.len() != hi - lo || it.size_hint() != (hi - lo, Some(hi - lo)) { c.violation(name(), format!("{} coefficients left, expected {}", it.len(), hi - lo)); return; }
                    let want = if lo == hi { None } else if front { lo += 1; Some(d[lo - 1]) } else { hi -= 1; Some(d[hi]) };
                    let got = if front { it.next() } else { it.next_back() };
                    if got != want { c.violation(name(), format!("step {step} (front: {front}): {got:?}, expected {want:?} of {}", show(p))); return; }
                }
                c.states(1); c.transitions(N as u64 + 2); c.traces(1);
            } } }
        });
    });
    ctx.cell("commitments", |c| {
        let gens = [Gens::new(1), Gens::new(91)];
        let lib = library();
        c.par_range(lib.len() as u64, |l| for g in &gens {
            let (p, d) = &lib[l as usize];
            g.check(c, &|| format!("shape {l}"), p, d);
            for (q, e) in lib.iter().step_by(if c.thorough() { 1 } else { 7 }) { let (mut p, mut d) = (p.clone(), d.clone()); p.sub_assign(q); for (a, b) in d.iter_mut().zip(e) { *a -= *b; } p.dilate(f(2)); let mut w = F::ONE; for x in d.iter_mut() { *x *= w; w *= f(2); } g.check(c, &|| format!("difference from shape {l}"), &p, &d); }
        });
        let spread: Vec<usize> = vec![0, 1, 6, 7, 13, 62, 64, 65, 126, 127];
        c.par_range(1 << spread.len(), |m| for g in &gens { let d = values(&spread, m, 3); g.check(c, &|| format!("support {m:b}"), &Poly::from_coeffs(d.clone()), &d); });
    });
    ctx.cell("construction", |c| {
        for len in 0..=N + 2 { for pat in 0..3 {
            let mut d: Dense = (0..len).map(|i| f(match pat { 0 => i as i64 + 1, 1 => if i % 9 < 2 { 5 } else { 0 }, _ => if i + 1 == len { 4 } else { 0 } })).collect();
            let r = c.attempt(|| Poly::from_coeffs(d.clone()));
            let name = || format!("{len} coefficients, values {pat}");
            if len <= N { d.resize(N, F::ZERO); match r { Ok(p) => { observe(c, &name, &p, &d); } Err(e) => c.violation(name(), format!("refused: {e}")) } c.outcome("accepted"); }
            else { c.check(r.is_err(), name, || "accepted".into()); c.outcome("refused"); }
            c.tick();
        } }
        for w in 0..4 { for wi in [false, true] { for len in [31usize, 32, 33, 64] {
            let mut l = [1; 4]; l[w] = len;
            let r = c.attempt(|| view(l, 0, wi));
            c.check(r.is_ok() == (len <= 32), || format!("view of lengths {l:?}"), || format!("accepted: {}", r.is_ok()));
            c.tick();
        } } }
        observe(c, &|| "new".into(), &Poly::new(), &vec![F::ZERO; N]);
        observe(c, &|| "default".into(), &Poly::default(), &vec![F::ZERO; N]);
    });
    ctx.cell("random polynomials", |c| {
        // Every coefficient varies with the generator, and behaves densely.
        let mut seen = vec![std::collections::HashSet::new(); N];
        for seed in 0..64 {
            let p = Poly::random(&mut Scripted(seed * 977 + 1));
            let d: Dense = p.iter_coeffs().collect();
            for (s, x) in seen.iter_mut().zip(&d) { s.insert(x.0); }
            observe(c, &|| format!("random {seed}"), &p, &d);
            let q = Poly::random(&mut Scripted(seed + 5000)); let e: Dense = q.iter_coeffs().collect();
            pair(c, &|| format!("random {seed}"), &p, &d, &q, &e);
        }
        for (i, s) in seen.iter().enumerate() { c.check(s.len() > 20, || format!("random coefficient {i}"), || format!("takes only {} values over 64 generators", s.len())); }
    });
    ctx.cell("production rank", |c| {
        type Big = sparse::Polynomial<F, ProductionRank>;
        let n = ProductionRank::num_coeffs();
        let supports: Vec<Vec<usize>> = vec![vec![], vec![0], vec![n - 1], vec![0, n - 1], (0..n).collect(), (n / 2 - 3..n / 2 + 3).collect(), (0..n).step_by(5).collect(), (0..n).step_by(6).collect(), (0..n).filter(|i| i % 100 < 3 || *i > n - 40).collect()];
        let mk = |s: &[usize], k: i64| { let mut d = vec![F::ZERO; n]; for p in s { d[*p] = f(*p as i64 * k + 1); } (Big::from_coeffs(d.clone()), d) };
        let items: Vec<(usize, usize)> = (0..supports.len()).flat_map(|a| (0..supports.len()).map(move |b| (a, b))).collect();
        c.par(&items, |(a, b)| {
            let ((p, dp), (q, dq)) = (mk(&supports[*a], 3), mk(&supports[*b], 1));
            let name = || format!("supports {a} and {b}");
            let mut s = p.clone(); s.add_assign(&q);
            c.check(s.iter_coeffs().eq(dp.iter().zip(&dq).map(|(a, b)| *a + *b)), name, || "sum".into());
            let mut s = p.clone(); s.sub_assign(&q); s.dilate(f(3));
            let mut w = F::ONE; let want: Dense = dp.iter().zip(&dq).map(|(a, b)| { let x = (*a - *b) * w; w *= f(3); x }).collect();
            c.check(s.iter_coeffs().eq(want.iter().copied()), name, || "dilated difference".into());
            c.same(&s.eval(f(7)), &dense_eval(&want, f(7)), name);
            c.same(&p.revdot(&q), &dense_revdot(&dp, &dq), name);
            c.tick();
        });
    });
}
