//! R04: registries against an interpolation of their circuits' polynomials.
use crate::prog::*;
use crate::{bond, circ};
use ff::{Field, FromUniformBytes, PrimeField};
use kit::tiny::Tiny;
use kit::{CellCtx, Ctx};
use mc_drv::{Dry, Live};
use ragu_circuits::polynomials::{ProductionRank, Rank, TestRank};
use ragu_circuits::registry::{CircuitIndex, Registry, RegistryBuilder};
use ragu_circuits::staging::MultiStage;
use ragu_circuits::CircuitExt;
use ragu_core::Error;
use ragu_pasta::{Fp, Fq};
use std::collections::HashMap;
use std::sync::Mutex;

type F = Tiny<257>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cat { Internal, Bonding, Step, App }
use Cat::*;
const CATS: [Cat; 4] = [Internal, Bonding, Step, App];

fn prog(ops: Vec<Op>, outs: usize) -> Prog { Prog { ops, outs: (0..outs).collect(), subs: subs() } }
/// Distinct circuits with distinct segment structures.
fn circuit(k: usize) -> Prog {
    use Op::*;
    let t = Lc::T;
    let mut ops = vec![Alloc(Val::In(0)), Alloc(Val::In(1))];
    for i in 0..k % 3 { ops.push(Mul(i, 0)); }
    ops.push(Zero(vec![t(0, Co::Arb(k as u64 + 2)), t(1, Co::NegArb(1)), Lc::One(Co::Arb(3 * k as u64 + 1))]));
    ops.push(Call(k % subs().len(), 0, 1));
    if k % 4 == 1 { ops.push(Call((k / 2 + 3) % subs().len(), 1, 0)); }
    ops.push(Zero(vec![t(0, Co::One), t(2, Co::Arb(k as u64 + 5))]));
    prog(ops, k % 4)
}
/// Small distinct circuits.
fn small(k: usize) -> Prog { prog(vec![Op::Alloc(Val::In(0)), Op::Zero(vec![Lc::T(0, Co::Arb(k as u64 + 1)), Lc::One(Co::NegArb(k as u64 / 200))])], k % 2) }
/// Distinct bonding constraints.
fn bonding(k: usize) -> Prog {
    use Op::*;
    let t = Lc::T;
    let mut ops = vec![Alloc(Val::In(0)), Alloc(Val::In(1)), Alloc(Val::K(3))];
    for i in 0..=k % 3 { ops.push(Zero(vec![t(i, Co::Arb(k as u64 + 2)), t(1, Co::Neg)])); }
    if k % 2 == 1 { ops.push(Call(k / 2 % 4, 0, 1)); }
    ops.push(Add(vec![t(0, Co::Two), t(2, Co::One)]));
    ops.push(Eq(0, 2));
    Prog { ops, outs: (0..k % 3).collect(), subs: linear_subs() }
}
struct Entry<F> { prog: Prog, cat: Cat, sys: Sys<F> }
fn entry<F: PrimeField + FromUniformBytes<64>>(cat: Cat, prog: Prog) -> Entry<F> {
    let ins = [F::from(5), F::from(11)];
    let mut sys = if cat == Bonding { bond!(&prog, b => reference_of::<F, Dry, _>(&MultiStage::<F, TestRank, _>::new(b), Vec::new)) } else { reference::<F, Live>(&prog, &ins) }.unwrap();
    if cat == Bonding {
        // Bonding polynomials do not have the constraint on ONE.
        sys.lin.retain(|(y, _)| *y != 0);
        sys.cons -= 1;
    }
    Entry { prog, cat, sys }
}
type Build<'a, F, R> = RegistryBuilder<'a, F, R>;
fn register<'a, F: FromUniformBytes<64>, R: Rank>(b: Build<'a, F, R>, cat: Cat, p: &Prog) -> ragu_core::Result<Build<'a, F, R>> {
    match cat {
        Internal => circ!(p, c => b.register_internal_circuit(c)),
        Step => circ!(p, c => b.register_internal_step(c)),
        App => circ!(p, c => b.register_circuit(c)),
        Bonding => bond!(p, c => Ok(b.register_bonding(MultiStage::<F, R, _>::new(c).into_bonding_object()?))),
    }
}
fn build<F: FromUniformBytes<64>, R: Rank>(items: &[(Cat, &Prog)]) -> ragu_core::Result<Registry<'static, F, R>> {
    let mut b = RegistryBuilder::<F, R>::new();
    for (cat, p) in items { b = register(b, *cat, p)?; }
    b.finalize()
}
/// The order circuits have in a registry.
fn order(cats: &[Cat]) -> Vec<usize> { CATS.iter().flat_map(|k| cats.iter().enumerate().filter(move |(_, c)| *c == k).map(|(i, _)| i)).collect() }
fn rev(mut i: u64, bits: u32) -> u64 { let mut o = 0; for _ in 0..bits { o = o << 1 | (i & 1); i >>= 1; } o }
fn log2(n: usize) -> u32 { let mut k = 0; while 1usize << k < n { k += 1; } k }

/// All positions of a registry hold the expected circuits.
fn positions<F: FromUniformBytes<64>, R: Rank>(c: &CellCtx, name: &dyn Fn() -> String, reg: &Registry<'_, F, R>, want: &[&Entry<F>], pts: &[F]) {
    let n = R::n();
    let top = 4 * n - 1;
    let bad = |what: String| c.violation(name(), what);
    if reg.num_circuits() != want.len() { return bad(format!("{} circuits, expected {}", reg.num_circuits(), want.len())); }
    let key = reg.digest();
    for (i, e) in want.iter().enumerate() {
        let ix = CircuitIndex::new(i);
        if reg.constraint_counts(ix) != (e.sys.gates, e.sys.cons) { return bad(format!("circuit {i} counts {:?}, expected {:?}", reg.constraint_counts(ix), (e.sys.gates, e.sys.cons))); }
        if !reg.circuit_in_domain(ix) { return bad(format!("circuit {i} is not in the domain")); }
        for y in pts {
            let mut sy = e.sys.sy(n, *y);
            sy[top] += key * y.pow_vartime([top as u64]);
            if !reg.circuit_y(ix, *y).iter_coeffs().eq(sy.iter().copied()) { return bad(format!("position {i} does not hold its circuit at y = {y:?}")); }
            for x in pts { if reg.circuit_xy(ix, *x, *y) != eval(&sy, *x) { return bad(format!("position {i} does not hold its circuit at {x:?}, {y:?}")); } }
            c.states(1); c.transitions(1 + pts.len() as u64);
        }
        for x in pts {
            let mut sx = e.sys.sx(n, *x);
            sx[top] += key * x.pow_vartime([top as u64]);
            if !reg.wx(ix.omega_j(), *x).iter_coeffs().eq(sx.iter().copied()) { return bad(format!("position {i} does not hold its circuit at x = {x:?}")); }
        }
        if e.cat != Bonding {
            let ins = vec![F::from(5), F::from(11)];
            let alpha = F::from(9 + i as u64);
            let t = circ!(&e.prog, k => match k.trace(ins) { Ok(t) => reg.assemble_with_alpha(&t.into_output(), ix, alpha), Err(e) => Err(e) });
            match t { Ok(t) => if !t.iter_coeffs().eq(e.sys.trace(n, alpha)) { return bad(format!("trace assembled for position {i}")); }, Err(e) => return bad(format!("trace of circuit {i}: {e}")) }
        }
    }
    c.traces(1);
    c.sample(|| name());
}
/// Lagrange basis values at w for the subgroup of order 2^k, by definition.
fn lagrange<F: PrimeField>(omega: F, k: u32, w: F) -> Vec<F> {
    let pts: Vec<F> = powers(omega, 1 << k);
    (0..pts.len()).map(|j| { let mut num = F::ONE; let mut den = F::ONE; for m in 0..pts.len() { if m != j { num *= w - pts[m]; den *= pts[j] - pts[m]; } } num * den.invert().unwrap() }).collect()
}

pub fn run(ctx: &Ctx) {
    ctx.assume("Exhaustive evaluation uses F_257 at the test rank, so that every w can be visited; digests and large registries use the Pasta fields.");
    ctx.assume("A bonding object made from a circuit without stages stands for all bonding objects (their contents are R05).");
    ctx.cell("registration order", |c| {
        let pool: Vec<(Entry<F>, Entry<F>)> = (0..8).map(|k| (entry(App, circuit(k)), entry(Bonding, bonding(k)))).collect();
        let depth = if c.thorough() { 8 } else { 6 };
        let total: u64 = (0..=depth).map(|d| 4u64.pow(d)).sum();
        let pts = [0, 1, 3, 200].map(F::new);
        c.par_range(2 * total, |i| {
            // Each list once with all circuits different, once with pairs of equal ones.
            let (half, mut i) = (1 + i / total, i % total);
            let mut len = 0; while i >= 4u64.pow(len) { i -= 4u64.pow(len); len += 1; }
            let cats: Vec<Cat> = (0..len).map(|p| CATS[(i / 4u64.pow(p) % 4) as usize]).collect();
            let name = || format!("{cats:?} / {half}");
            let e = |k: usize| { let p = &pool[k / half as usize]; if cats[k] == Bonding { &p.1 } else { &p.0 } };
            let mut b = RegistryBuilder::<F, TestRank>::new();
            for k in 0..cats.len() {
                match register(b, cats[k], &e(k).prog) { Ok(x) => b = x, Err(e) => return c.violation(name(), format!("registration {k}: {e}")) }
                let seen = &cats[..=k];
                let inner = seen.iter().filter(|c| **c == Internal || **c == Bonding).count();
                c.same(&(b.num_circuits(), b.num_internal_circuits(), b.log2_circuits()), &(k + 1, inner, log2(k + 1)), name);
            }
            let reg = match b.finalize() { Ok(r) => r, Err(e) => return c.violation(name(), format!("finalize: {e}")) };
            let want: Vec<&Entry<F>> = order(&cats).into_iter().map(e).collect();
            positions(c, &name, &reg, &want, &pts);
        });
    });
    ctx.cell("every evaluation point", |c| {
        let pool: Vec<Entry<F>> = (0..128).map(|k| if k % 5 == 3 { entry(Bonding, bonding(k)) } else if k < 12 { entry(App, circuit(k)) } else { entry(App, small(k)) }).collect();
        let counts: Vec<usize> = if c.thorough() { (0..=128).collect() } else { (0..=34).chain([47, 48, 63, 64, 65, 96, 127, 128]).collect() };
        let pts: Vec<F> = if c.thorough() { [0, 1, 2, 256, 16, 100].map(F::new).to_vec() } else { [0, 1, 5].map(F::new).to_vec() };
        for count in counts {
            let cats: Vec<Cat> = pool[..count].iter().map(|e| e.cat).collect();
            let items: Vec<(Cat, &Prog)> = pool[..count].iter().map(|e| (e.cat, &e.prog)).collect();
            let Ok(reg) = build::<F, TestRank>(&items) else { c.violation(format!("{count} circuits"), "refused"); continue };
            let ord = order(&cats);
            let k = log2(count);
            let omega = F::ROOT_OF_UNITY.pow([1u64 << (F::S - k)]);
            let n = TestRank::n();
            let top = 4 * n - 1;
            let key = reg.digest();
            let table = |f: &dyn Fn(&Sys<F>, F) -> Vec<F>| -> Vec<Vec<Vec<F>>> { pts.iter().map(|p| ord.iter().map(|i| f(&pool[*i].sys, *p)).collect()).collect() };
            let sy = table(&|s, y| s.sy(n, y));
            let sx = table(&|s, x| s.sx(n, x));
            let polys: Vec<Vec<Vec<F>>> = pts.iter().map(|x| pts.iter().map(|y| { let p: Vec<F> = reg.xy(*x, *y).iter_coeffs().collect(); if p.len() != 4 * n || p[1 << k..].iter().any(|x| *x != F::ZERO) { c.violation(format!("{count} circuits"), format!("xy({x:?}, {y:?}) exceeds the domain")); } p }).collect()).collect();
            c.par_range(257, |w| {
                let w = F::new(w);
                let l = lagrange(omega, k, w);
                let name = |what: &str| format!("{count} circuits, w = {w:?}, {what}");
                let at = reg.at(w);
                let mix = |tab: &[Vec<F>], z: F| -> Vec<F> {
                    let mut o = vec![F::ZERO; 4 * n];
                    for (i, t) in tab.iter().enumerate() { let q = l[rev(i as u64, k) as usize]; for (o, t) in o.iter_mut().zip(t) { *o += q * *t; } }
                    o[top] += key * z.pow_vartime([top as u64]);
                    o
                };
                for (a, p) in pts.iter().enumerate() {
                    let my = mix(&sy[a], *p);
                    c.check(reg.wy(w, *p).iter_coeffs().eq(my.iter().copied()), || name("wy"), || format!("differs at y = {p:?}"));
                    c.check(at.y(*p).iter_coeffs().eq(my.iter().copied()), || name("at.y"), || format!("differs at y = {p:?}"));
                    let mx = mix(&sx[a], *p);
                    c.check(reg.wx(w, *p).iter_coeffs().eq(mx.iter().copied()), || name("wx"), || format!("differs at x = {p:?}"));
                    c.check(at.x(*p).iter_coeffs().eq(mx.iter().copied()), || name("at.x"), || format!("differs at x = {p:?}"));
                    for (b, x) in pts.iter().enumerate() {
                        let want = eval(&my, *x);
                        c.same(&reg.wxy(w, *x, *p), &want, || name(&format!("wxy at {x:?}, {p:?}")));
                        c.same(&at.xy(*x, *p), &want, || name(&format!("at.xy at {x:?}, {p:?}")));
                        c.same(&eval(&polys[b][a], w), &want, || name(&format!("xy at {x:?}, {p:?}")));
                    }
                    c.states(1); c.transitions(4 + 3 * pts.len() as u64); c.traces(1);
                }
            });
            for i in 0..256 {
                let ix = CircuitIndex::new(i);
                c.same(&ix.omega_j::<F>(), &F::ROOT_OF_UNITY.pow([rev(i as u64, 8)]), || format!("omega_j({i})"));
                c.same(&reg.circuit_in_domain(ix), &(i < 1 << k), || format!("{count} circuits, position {i} in the domain"));
            }
        }
    });
    ctx.cell("domain membership", |c| {
        let pool: Vec<Prog> = (0..128).map(small).collect();
        for count in [0usize, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 128] {
            fn go<F: FromUniformBytes<64>>(c: &CellCtx, pool: &[Prog], count: usize) {
                let items: Vec<(Cat, &Prog)> = pool[..count].iter().map(|p| (App, p)).collect();
                let Ok(reg) = build::<F, TestRank>(&items) else { return c.violation(format!("{count} circuits"), "refused") };
                let lim = 1u64 << log2(count);
                let mut ixs: Vec<u64> = (0..300).collect();
                for b in 0..32u32 { for d in [-1i64, 0, 1, 2] { ixs.push(((1i64 << b) + d).max(0) as u64); } for a in 0..b { ixs.push(1 << b | 1 << a); } }
                ixs.extend([u32::MAX as u64, u32::MAX as u64 - 1]);
                for i in ixs {
                    let ix = CircuitIndex::from_u32(i as u32);
                    c.same(&reg.circuit_in_domain(ix), &(i < lim), || format!("{count} circuits, position {i} in the domain"));
                    c.same(&ix.omega_j::<F>(), &F::ROOT_OF_UNITY.pow([rev(i, 32)]), || format!("omega_j({i})"));
                    c.same(&usize::from(ix), &(i as usize), || format!("position {i}"));
                    c.tick();
                }
            }
            go::<Fp>(c, &pool, count);
            go::<Fq>(c, &pool, count);
        }
    });
    ctx.cell("digests of circuit lists", |c| {
        let pool: Vec<Prog> = (0..if c.thorough() { 14 } else { 8 }).map(|k| if k < 5 { circuit(k) } else { small(k) }).collect();
        let m = pool.len();
        let mut lists: Vec<Vec<usize>> = vec![vec![]];
        for l in 1..=if c.thorough() { 5 } else { 4 } { for t in kit::tuples(m as u64, l) { lists.push(t.into_iter().map(|x| x as usize).collect()); } }
        let seen: Mutex<HashMap<[u8; 32], Vec<usize>>> = Default::default();
        c.par(&lists, |l| {
            // A list of one circuit, repeated a power of two times, is one polynomial.
            let class = if l.len().is_power_of_two() && l.iter().all(|x| *x == l[0]) { vec![l[0]] } else { l.clone() };
            let digest = |cats: &dyn Fn(usize) -> Cat| build::<Fp, TestRank>(&l.iter().enumerate().map(|(i, k)| (cats(i), &pool[*k])).collect::<Vec<_>>()).map(|r| r.digest());
            let d = match digest(&|_| App) { Ok(d) => d, Err(e) => return c.violation(format!("{l:?}"), format!("{e}")) };
            c.check(digest(&|_| App).ok() == Some(d), || format!("{l:?}"), || "digest is not deterministic".into());
            let prev = seen.lock().unwrap().insert(d.to_repr(), class.clone());
            if let Some(prev) = prev { c.check(prev == class, || format!("{l:?}"), || format!("same digest as {prev:?}")); }
            c.tick();
        });
        c.outcomes("digests", seen.lock().unwrap().len() as u64);
    });
    ctx.cell("digests of programs", |c| {
        // Two circuits have the same digest only if they are the same polynomial.
        let st = steps(subs().len());
        let deep = if c.thorough() { 4 } else { 3 };
        let n: u64 = (0..=deep).map(|l| n_sequences(&st, l)).sum();
        let seen: Mutex<HashMap<[u8; 32], (Vec<(usize, Vec<((usize, usize), Fp)>)>, String)>> = Default::default();
        c.par_range(n * 2, |i| {
            let outs = (i / n) as usize;
            let mut i = i % n; let mut len = 0; while i >= n_sequences(&st, len) { i -= n_sequences(&st, len); len += 1; }
            let s = sequence(&st, len, i);
            let p = prog(s.clone(), outs);
            let name = || format!("{s:?} outs {outs}");
            let mut lin = reference::<Fp, Live>(&p, &[Fp::from(5), Fp::from(11)]).unwrap().lin;
            lin.retain(|l| !l.1.is_empty());
            lin.sort_by_key(|l| l.0);
            let Ok(reg) = build::<Fp, TestRank>(&[(App, &p)]) else { return c.violation(name(), "refused") };
            let prev = seen.lock().unwrap().insert(reg.digest().to_repr(), (lin.clone(), name()));
            if let Some(prev) = prev { c.check(prev.0 == lin, name, || format!("same digest as {}", prev.1)); }
            c.tick();
        });
        c.outcomes("digests", seen.lock().unwrap().len() as u64);
    });
    ctx.cell("digests after changing one of many", |c| {
        // Every position of registries of several sizes, one circuit changed or two exchanged.
        let pool: Vec<Prog> = (0..24).map(|k| if k < 6 { circuit(k) } else { small(k) }).collect();
        for count in [2usize, 3, 4, 5, 8, 9, 16, 17] {
            let base: Vec<usize> = (0..count).collect();
            let mut variants = vec![base.clone()];
            for i in 0..count { let mut v = base.clone(); v[i] = 20; variants.push(v); for j in i + 1..count { let mut v = base.clone(); v.swap(i, j); variants.push(v); } }
            let mut v = base.clone(); v.push(20); variants.push(v);
            let mut v = base.clone(); v.pop(); variants.push(v);
            let mut v = base; v.rotate_left(1); if !variants.contains(&v) { variants.push(v); }
            let seen: Mutex<HashMap<[u8; 32], Vec<usize>>> = Default::default();
            c.par(&variants, |l| {
                let Ok(reg) = build::<Fp, TestRank>(&l.iter().map(|k| (App, &pool[*k])).collect::<Vec<_>>()) else { return c.violation(format!("{l:?}"), "refused") };
                if let Some(prev) = seen.lock().unwrap().insert(reg.digest().to_repr(), l.clone()) { c.violation(format!("{l:?}"), format!("same digest as {prev:?}")); }
                c.tick();
            });
        }
    });
    ctx.cell("capacity", |c| {
        let (p, q) = (small(1), bonding(0));
        for total in [126usize, 127, 128, 129, 130, 256] {
            for mix in 0..5 {
                let cats: Vec<Cat> = (0..total).map(|i| if mix < 4 { CATS[mix] } else { CATS[i % 4] }).collect();
                let r = build::<F, TestRank>(&cats.iter().map(|k| (*k, if *k == Bonding { &q } else { &p })).collect::<Vec<_>>());
                let name = || format!("{total} circuits, mix {mix}");
                match r {
                    Ok(r) => { c.check(total <= 128, name, || "accepted".into()); c.same(&r.num_circuits(), &total, name); c.outcome("accepted"); }
                    Err(Error::CircuitBoundExceeded { limit }) => { c.check(total > 128 && limit == 128, name, || format!("refused with limit {limit}")); c.outcome("refused"); }
                    Err(e) => c.violation(name(), format!("{e}")),
                }
                c.tick();
            }
        }
    });
    ctx.cell("production capacity", |c| {
        fn go<F: FromUniformBytes<64>>(c: &CellCtx, count: usize) {
            let progs: Vec<Prog> = { let subs = subs(); (0..count).map(|k| Prog { subs: subs.clone(), ..mk(k) }).collect() };
            fn mk(k: usize) -> Prog { Prog { ops: vec![Op::Alloc(Val::In(0)), Op::Zero(vec![Lc::T(0, Co::Arb(k as u64 + 1))])], outs: vec![], subs: Default::default() } }
            let Ok(reg) = build::<F, ProductionRank>(&progs.iter().map(|p| (App, p)).collect::<Vec<_>>()) else { return c.violation(format!("{count} circuits"), "refused") };
            let n = ProductionRank::n();
            let (x, y) = (F::from(3), F::from(7));
            let key = reg.digest() * (x * y).pow_vartime([4 * n as u64 - 1]);
            // Constraint: (k+1) b_1 at Y^1, and ONE at Y^0.
            let (one, b1) = (x.pow_vartime([2 * n as u64]), x.pow_vartime([2 * n as u64 + 1]) * y);
            c.par_range(count as u64, |i| {
                c.same(&reg.circuit_xy(CircuitIndex::new(i as usize), x, y), &(one + b1 * F::from(i + 1) + key), || format!("circuit {i} of {count}"));
                c.tick();
            });
            let p: Vec<F> = reg.xy(x, y).iter_coeffs().collect();
            let k = log2(count);
            c.check(p[1 << k..].iter().all(|v| *v == F::ZERO), || format!("{count} circuits, xy"), || "exceeds the domain".into());
            c.par_range(1 << k, |i| {
                let want = key + if i < count as u64 { one + b1 * F::from(i + 1) } else { F::ZERO };
                let w = F::ROOT_OF_UNITY.pow([rev(i, 32)]);
                c.same(&eval(&p[..1 << k], w), &want, || format!("position {i} of xy, {count} circuits"));
                c.tick();
            });
            for w in [F::ZERO, F::from(5), F::ROOT_OF_UNITY] {
                let want = eval(&p, w);
                let name = |what: &str| format!("{count} circuits, {what} at {w:?}");
                c.same(&reg.wxy(w, x, y), &want, || name("wxy"));
                c.same(&reg.wy(w, y).eval(x), &want, || name("wy"));
                c.same(&reg.wx(w, x).eval(y), &want, || name("wx"));
                c.tick();
            }
            c.same(&reg.circuit_in_domain(CircuitIndex::new(count - 1)), &true, || format!("last of {count}"));
            c.same(&reg.circuit_in_domain(CircuitIndex::new(1 << log2(count))), &false, || format!("after {count}"));
        }
        go::<Fp>(c, 8192);
        go::<Fq>(c, if c.thorough() { 8192 } else { 1025 });
        if c.thorough() {
            let p = small(1);
            let r = build::<Fp, ProductionRank>(&(0..8193).map(|_| (App, &p)).collect::<Vec<_>>());
            c.check(matches!(r, Err(Error::CircuitBoundExceeded { limit: 8192 })), || "8193 circuits".into(), || "not refused".into());
        }
    });
}
