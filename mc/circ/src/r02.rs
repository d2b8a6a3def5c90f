//! R02: the revdot identity holds at every challenge exactly for satisfying
//! assignments with matching public inputs, and otherwise at few challenges.
use crate::circ;
use crate::prog::*;
use crate::r01::registry;
use ff::{Field, PrimeField};
use kit::tiny::Tiny;
use kit::{CellCtx, Ctx};
use mc_drv::Live;
use ragu_circuits::polynomials::{sparse, Rank, TestRank as R};
use ragu_circuits::registry::CircuitIndex;
use ragu_circuits::CircuitExt;

type F = Tiny<257>;
type Poly = sparse::Polynomial<F, R>;
const P: usize = 257;

/// A circuit with everything the verifier uses, at every challenge.
struct Circuit { p: Prog, sys: Sys<F>, key: F, sy: Vec<Poly>, honest: Vec<F> }
/// t(X, z) for every z.
struct Common { tz: Vec<Poly>, pow: Vec<Vec<F>> }
impl Common { fn new() -> Self { Common { tz: F::all().map(R::tz).collect(), pow: F::all().map(|y| powers(y, 128)).collect() } } }
fn prepare(p: &Prog, ins: &[F]) -> Result<Circuit, String> {
    let sys = reference::<F, Live>(p, ins).map_err(|e| e.to_string())?;
    let reg = registry::<F, R>(p).map_err(|e| e.to_string())?;
    let i = CircuitIndex::new(0);
    let sy = F::all().map(|y| reg.circuit_y(i, y)).collect();
    let t = circ!(p, c => c.trace(ins.to_vec())).map_err(|e| e.to_string())?.into_output();
    let honest = reg.assemble_with_alpha(&t, i, F::new(77)).map_err(|e| e.to_string())?.iter_coeffs().collect();
    Ok(Circuit { p: p.clone(), sys, key: reg.digest(), sy, honest })
}
fn instance_poly(p: &Prog, outs: &[F], y: F) -> Result<F, String> { circ!(p, c => c.ky(outs.to_vec(), y)).map_err(|e| e.to_string()) }
/// Whether an assignment satisfies the circuit for given public inputs.
fn satisfies(k: &Circuit, r: &[F], outs: &[F]) -> bool {
    let n = R::n();
    let vals: Vec<[F; 4]> = (0..n).map(|g| [0, 1, 2, 3].map(|w| r[Sys::<F>::texp(n, g, w)])).collect();
    if !vals.iter().all(|v| v[0] * v[1] == v[2] && v[2] * v[3] == F::ZERO) { return false; }
    if k.key * vals[0][2] != F::ZERO { return false; }
    k.sys.lin.iter().all(|(y, t)| { let want = if *y == 0 { F::ONE } else if *y <= outs.len() { outs[outs.len() - y] } else { F::ZERO }; k.sys.eval(t, &vals) == want })
}
/// Decides the identity at every pair of challenges, on the implementation's
/// polynomials.
fn decide(c: &CellCtx, com: &Common, k: &Circuit, r: &[F], outs: &[F], ky: &[F], name: &dyn Fn() -> String) -> bool {
    let poly = Poly::from_coeffs(r.to_vec());
    // A(y) = revdot(r, s(X, y)) - k(y) and B(z) = revdot(r, t(X, z) + r(zX)).
    let a: Vec<F> = (0..P).map(|y| poly.revdot(&k.sy[y]) - ky[y]).collect();
    let b: Vec<F> = (0..P).map(|z| { let mut d = poly.clone(); d.dilate(F::new(z as u64)); d.add_assign(&com.tz[z]); poly.revdot(&d) }).collect();
    let mut hist = vec![0u64; P];
    for z in &b { hist[(F::ZERO - *z).0 as usize] += 1; }
    let accepting: u64 = a.iter().map(|y| hist[y.0 as usize]).sum();
    let all = (P * P) as u64;
    let evaluated = 2 * P as u64;
    c.states(evaluated); c.transitions(evaluated); c.traces(1);
    let ok = satisfies(k, r, outs);
    if ok { if accepting != all { c.violation(name(), format!("a satisfying assignment is accepted at only {accepting} of {all} challenges")); return false; } c.outcome("satisfying"); }
    else { let bound = (127 * P) as u64; if accepting > bound { c.violation(name(), format!("a false statement is accepted at {accepting} of {all} challenges (bound {bound})")); return false; } c.outcome("false"); }
    // The verifier's own composition, at a few pairs.
    for (y, z) in [(3usize, 5usize), (0, 1), (256, 0)] {
        let mut rhs = poly.clone();
        rhs.dilate(F::new(z as u64)); rhs.add_assign(&k.sy[y]); rhs.add_assign(&com.tz[z]);
        if (poly.revdot(&rhs) - ky[y]) != a[y] + b[z] { c.violation(name(), format!("the combined identity at ({y}, {z}) differs from its parts")); return false; }
    }
    ok
}
fn ky_all(c: &CellCtx, k: &Circuit, outs: &[F], com: &Common, name: &dyn Fn() -> String) -> Option<Vec<F>> {
    let mut v = vec![];
    for y in 0..P {
        let got = match instance_poly(&k.p, outs, F::new(y as u64)) { Ok(g) => g, Err(e) => { c.violation(name(), format!("instance polynomial: {e}")); return None; } };
        let want = outs.iter().rev().enumerate().fold(F::ONE, |a, (i, o)| a + *o * com.pow[y][i + 1]);
        if got != want { c.violation(name(), format!("k({y}) = {got:?}, expected {want:?}")); return None; }
        v.push(got);
    }
    Some(v)
}
fn prog(ops: Vec<Op>, outs: usize) -> Prog { Prog { ops, outs: (0..outs).collect(), subs: subs() } }
/// Programs used for exhaustive mutation.
fn chosen() -> Vec<Prog> {
    use Op::*;
    use Val::*;
    let t = Lc::T;
    vec![
        prog(vec![], 0), prog(vec![], 1),
        prog(vec![Alloc(In(0)), Mul(0, 0)], 1),
        prog(vec![Alloc(In(0)), Alloc(In(1)), Mul(0, 1), Alloc(Sum(0, 1)), Zero(vec![t(0, Co::One), t(1, Co::Neg), t(2, Co::Neg)])], 3),
        prog(vec![Alloc(In(0)), Call(4, 0, 0), Call(3, 0, 1)], 2),
        prog(vec![Alloc(In(1)), Call(7, 0, 0), Eq(0, 0), Const(Co::Arb(9))], 3),
        prog(vec![Alloc(In(0)), Alloc(In(1)), Call(8, 0, 1), Gate(K(0), In(0), K(0), In(1)), Add(vec![t(0, Co::Two), Lc::G(Co::Arb(7)), t(3, Co::Neg), Lc::One(Co::One)])], 2),
        prog(vec![Gate(In(0), K(0), K(0), In(1)), RawMul(R(0), R(3), Prod(0, 3)), Alloc(R(1)), Eq(0, 2), Zero(vec![t(1, Co::One), t(1, Co::Neg)])], 1),
    ]
}

/// The recorded trace of a program is the assignment that was synthesized.
fn recorded(c: &CellCtx, com: &Common, p: &Prog, nested: bool) {
    let name = || if nested { format!("{:?}", p.subs) } else { format!("{:?} outs {}", p.ops, p.outs.len()) };
    if { let k = reference::<F, mc_drv::Live>(p, &[F::new(5), F::new(11)]).unwrap(); k.gates > 32 || k.cons >= 128 } { return; }
    let k = match prepare(p, &[F::new(5), F::new(11)]) { Ok(k) => k, Err(e) => return c.violation(name(), e) };
    let Some(ky) = ky_all(c, &k, &k.sys.outs, com, &name) else { return };
    let ok = decide(c, com, &k, &k.honest, &k.sys.outs, &ky, &name);
    c.check(ok == k.sys.satisfied(), &name, || "the recorded trace is not the assignment that was synthesized".into());
    c.sample(&name);
}
pub fn run(ctx: &Ctx) {
    ctx.assume("The field is F_257, in which the identity's polynomials (degree at most 127 in each challenge) are determined by their values, so that every pair of challenges is visited.");
    ctx.assume("revdot is evaluated on the implementation for each y and each z separately; the verifier's one-step composition is compared at three pairs for every assignment. Bilinearity of revdot itself is R03's.");
    let com = &Common::new();
    let st = steps(subs().len());
    for len in 0..=if ctx.thorough { 4 } else { 3 } {
        ctx.cell(&format!("recorded traces of all programs of {len} steps"), |c| {
            let n = n_sequences(&st, len);
            c.outcomes("programs", n);
            c.par_range(n, |i| {
                let p = prog(sequence(&st, len, i), (i % 4) as usize);
                let name = || format!("{:?} outs {}", p.ops, i % 4);
                let k = match prepare(&p, &[F::new(5), F::new(11)]) { Ok(k) => k, Err(e) => return c.violation(name(), e) };
                let Some(ky) = ky_all(c, &k, &k.sys.outs, com, &name) else { return };
                let ok = decide(c, com, &k, &k.honest, &k.sys.outs, &ky, &name);
                c.check(ok == k.sys.satisfied(), &name, || "the recorded trace is not the assignment that was synthesized".into());
                c.sample(&name);
            });
        });
    }
    let usual = |v: Vec<Vec<Op>>| v.into_iter().map(|s| prog(s, 2)).collect::<Vec<_>>();
    for (what, all) in [("every form of coefficient", usual(forms())), ("long combinations", usual(long_forms(if ctx.thorough { 40 } else { 24 }))), ("routines of every shape", usual(shapes(subs().len()))), ("many routines", usual(crowds(subs().len(), 24))), ("deeply nested routines", towers(if ctx.thorough { 9 } else { 7 }))] { ctx.cell(what, |c| {
        c.par(&all, |p| recorded(c, com, p, what == "deeply nested routines"));
    }); }
    ctx.cell("many public outputs", |c| many_outputs(&st, if c.thorough() { 2 } else { 1 }, |all| c.par(&all, |p| recorded(c, com, p, false))));
    let progs = chosen();
    let ready = |ins: &[F]| -> Vec<Circuit> { progs.iter().map(|p| prepare(p, ins).expect("chosen program")).collect() };
    ctx.cell("every single-coefficient change", |c| {
        let ks = ready(&[F::new(5), F::new(11)]);
        let deltas: Vec<u64> = if c.thorough() { (1..257).collect() } else { vec![1, 2, 16, 128, 256, 180, 241, 246, 252] };
        for k in &ks {
            let Some(ky) = ky_all(c, k, &k.sys.outs, com, &|| "chosen".into()) else { return };
            c.par_range(128 * deltas.len() as u64, |i| {
                let (pos, d) = ((i % 128) as usize, deltas[(i / 128) as usize]);
                let mut r = k.honest.clone(); r[pos] += F::new(d);
                decide(c, com, k, &r, &k.sys.outs, &ky, &|| format!("{:?}: coefficient {pos} + {d}", k.p.ops));
                let mut r = k.honest.clone(); if r[pos] != F::ZERO { r[pos] = F::ZERO; decide(c, com, k, &r, &k.sys.outs, &ky, &|| format!("{:?}: coefficient {pos} = 0", k.p.ops)); }
            });
        }
    });
    ctx.cell("every pair of coefficients changed", |c| {
        let ks = ready(&[F::new(5), F::new(11)]);
        for k in ks.iter().skip(if c.thorough() { 0 } else { 3 }).take(if c.thorough() { 8 } else { 2 }) {
            let Some(ky) = ky_all(c, k, &k.sys.outs, com, &|| "chosen".into()) else { return };
            c.par_range(128 * 128, |i| {
                let (p, q) = ((i % 128) as usize, (i / 128) as usize);
                if p >= q { return; }
                for (d, e) in [(1, 1), (1, 256)] { let mut r = k.honest.clone(); r[p] += F::new(d); r[q] += F::new(e); decide(c, com, k, &r, &k.sys.outs, &ky, &|| format!("{:?}: coefficients {p} + {d}, {q} + {e}", k.p.ops)); }
            });
        }
    });
    ctx.cell("every tuple of values on each gate", |c| {
        let ks = ready(&[F::new(1), F::new(2)]);
        let n = R::n();
        let vals: Vec<u64> = if c.thorough() { vec![0, 1, 2, 3, 5, 256] } else { vec![0, 1, 2, 256] };
        let m = vals.len() as u64;
        for k in &ks {
            let Some(ky) = ky_all(c, k, &k.sys.outs, com, &|| "chosen".into()) else { return };
            c.par_range(k.sys.gates.max(2) as u64 * m.pow(4), |i| {
                let (g, mut j) = ((i / m.pow(4)) as usize, i % m.pow(4));
                let mut r = k.honest.clone();
                for w in 0..4 { r[Sys::<F>::texp(n, g, w)] = F::new(vals[(j % m) as usize]); j /= m; }
                decide(c, com, k, &r, &k.sys.outs, &ky, &|| format!("{:?}: gate {g}, values {}", k.p.ops, i % m.pow(4)));
            });
        }
    });
    ctx.cell("every wrong public input", |c| {
        let ks = ready(&[F::new(5), F::new(11)]);
        for k in &ks {
            let m = k.sys.outs.len();
            let mut cases: Vec<Vec<F>> = vec![];
            for i in 0..m { for d in 1..P as u64 { let mut o = k.sys.outs.clone(); o[i] += F::new(d); cases.push(o); } }
            if m >= 2 { for i in 0..m { for j in 0..i { let mut o = k.sys.outs.clone(); o.swap(i, j); cases.push(o); } } let mut o = k.sys.outs.clone(); o.rotate_left(1); cases.push(o); cases.push(vec![F::ZERO; m]); }
            c.par_range(cases.len() as u64, |i| {
                let o = &cases[i as usize];
                let name = || format!("{:?}: public inputs {o:?}, not {:?}", k.p.ops, k.sys.outs);
                let Some(ky) = ky_all(c, k, o, com, &name) else { return };
                decide(c, com, k, &k.honest, o, &ky, &name);
            });
        }
    });
    ctx.cell("every input of the chosen programs", |c| {
        let all: Vec<(usize, u64)> = (0..progs.len()).flat_map(|i| (0..P as u64).map(move |a| (i, a))).collect();
        c.par(&all, |(i, a)| {
            let ins = [F::new(*a), F::new(a * a % 257 + 1)];
            let name = || format!("program {i}, input {a}");
            let k = match prepare(&progs[*i], &ins) { Ok(k) => k, Err(e) => return c.violation(name(), e) };
            let Some(ky) = ky_all(c, &k, &k.sys.outs, com, &name) else { return };
            c.check(decide(c, com, &k, &k.honest, &k.sys.outs, &ky, &name), name, || "the recorded trace does not satisfy the circuit".into());
        });
    });
    ctx.cell("assignments against the wrong circuit", |c| {
        let ks = ready(&[F::new(5), F::new(11)]);
        let pairs: Vec<(usize, usize)> = (0..ks.len()).flat_map(|i| (0..ks.len()).map(move |j| (i, j))).collect();
        c.par(&pairs, |(i, j)| {
            let (k, t) = (&ks[*i], &ks[*j]);
            let mut o = t.sys.outs.clone(); o.resize(k.sys.outs.len(), F::ZERO);
            let name = || format!("trace of program {j} for circuit {i}");
            let Some(ky) = ky_all(c, k, &o, com, &name) else { return };
            decide(c, com, k, &t.honest, &o, &ky, &name);
        });
    });
    ctx.cell("public inputs evaluated in a circuit", |c| {
        // The in-circuit evaluation gives the public-input polynomial, and only it.
        use mc_drv::{Cs, Values};
        use ragu_core::maybe::{Maybe, MaybeKind};
        use ragu_core::maybe::Always;
        use ragu_circuits::horner::Horner;
        use ragu_primitives::io::Buffer;
        use ragu_primitives::Element;
        type T = Tiny<13>;
        let max = if c.thorough() { 4 } else { 3 };
        for len in 0..=max {
            let lists: Vec<Vec<u64>> = kit::tuples(if len == max { 5 } else { 13 }, len).collect();
            c.par(&lists, |l| {
                for y in 0..13u64 { for prefix in 0..=len {
                    let name = || format!("{l:?} at {y}, {prefix} before cloning");
                    let mut cs = Cs::<T, Live>::new();
                    let yw = cs.input(T::new(y));
                    let ye = Element::promote(yw.clone(), Always::<()>::maybe_just(|| T::new(y)));
                    let es: Vec<_> = l.iter().map(|v| { let w = cs.input(T::new(*v)); Element::promote(w, Always::<()>::maybe_just(|| T::new(*v))) }).collect();
                    let mut h = Horner::new(&ye);
                    for e in &es[..prefix] { h.write(&mut cs, e).unwrap(); }
                    let mut g = h.clone();
                    for e in &es[prefix..] { h.write(&mut cs, e).unwrap(); g.write(&mut cs, e).unwrap(); }
                    let plain = h.finish(&mut cs);
                    let ky = g.finish_ky(&mut cs).unwrap();
                    let want_plain = l.iter().fold(T::ZERO, |a, v| a * T::new(y) + T::new(*v));
                    let want_ky = want_plain * T::new(y) + T::ONE;
                    c.same(&(*plain.value().take(), *ky.value().take()), &(want_plain, want_ky), name);
                    c.check(cs.violated().is_none(), name, || format!("{:?}", cs.violated()));
                    let pins: Vec<_> = std::iter::once((yw, T::new(y))).chain(es.iter().zip(l).map(|(e, v)| (e.wire().clone(), T::new(*v)))).collect();
                    let got = cs.sys.solve(&pins).values(&[plain.wire().clone(), ky.wire().clone()]);
                    c.check(got == Values::Some(vec![vec![want_plain, want_ky]]), name, || format!("the constraints allow {got:?}"));
                    // The same polynomial that public inputs define.
                    if prefix == 0 && len <= 3 && y < 6 {
                        let outs: Vec<F> = l.iter().map(|v| F::new(*v)).collect();
                        let p = Prog { ops: vec![], outs: vec![0; len], subs: subs() };
                        let native = instance_poly(&p, &outs, F::new(y));
                        let want = outs.iter().fold(F::ZERO, |a, v| a * F::new(y) + *v) * F::new(y) + F::ONE;
                        c.check(native.as_ref() == Ok(&want), name, || format!("public inputs give {native:?}, expected {want:?}"));
                    }
                    c.tick();
                } }
            });
        }
    });
    ctx.cell("t(X, Z), evaluated everywhere", crate::txz::decide);
    ctx.cell("production field", |c| {
        use ragu_pasta::Fp;
        use ragu_circuits::polynomials::sparse::Polynomial;
        let pts = [Fp::ONE, -Fp::ONE, Fp::from(5), Fp::MULTIPLICATIVE_GENERATOR, Fp::ROOT_OF_UNITY];
        let seqs: Vec<Vec<Op>> = (0..=2).flat_map(|l| sequences(&st, l)).collect();
        c.par_range(seqs.len() as u64, |i| {
            let p = prog(seqs[i as usize].clone(), 2);
            let ins = [Fp::from(5), Fp::from(11)];
            let name = || format!("{:?}", p.ops);
            let (Ok(sys), Ok(reg)) = (reference::<Fp, Live>(&p, &ins), registry::<Fp, R>(&p)) else { return c.violation(name(), "synthesis") };
            let idx = CircuitIndex::new(0);
            let t = circ!(&p, k => k.trace(ins.to_vec())).unwrap().into_output();
            let r = reg.assemble_with_alpha(&t, idx, Fp::from(9)).unwrap();
            let mut holds = true;
            for y in pts { for z in pts {
                let mut rhs: Polynomial<Fp, R> = r.clone();
                rhs.dilate(z); rhs.add_assign(&reg.circuit_y(idx, y)); rhs.add_assign(&R::tz(z));
                let ky = circ!(&p, k => k.ky(sys.outs.clone(), y)).unwrap();
                if r.revdot(&rhs) != ky { holds = false; }
                c.states(1); c.transitions(1);
            } }
            c.traces(1);
            c.check(holds == sys.satisfied(), name, || format!("identity holds: {holds}"));
        });
    });
}
