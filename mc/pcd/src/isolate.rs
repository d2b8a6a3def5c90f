//! Alterations of a proof that make exactly one of its claims false, and
//! alterations whose effect would vanish had the verifier not chosen its own
//! randomness. Others make several claims false at once, so they cannot tell
//! whether each single claim is checked.
use crate::claims::*;
use crate::d02::Made;
use crate::parts::*;
use crate::steps::*;
use ff::{Field, PrimeField};
use ragu_arithmetic::Cycle;
use ragu_circuits::polynomials::sparse::Polynomial;
use ragu_pasta::{Fp, Fq, Pasta};

pub struct Altered { pub what: String, pub pf: Pf, pub data: Vec<Fp> }

fn bump<F: PrimeField>(p: &Polynomial<F, R>, at: &[(usize, F)]) -> Polynomial<F, R> {
    let mut c: Vec<F> = p.iter_coeffs().collect();
    for (i, d) in at { c[*i] += *d; }
    Polynomial::from_coeffs(c)
}
fn coeffs<F: PrimeField>(p: &Polynomial<F, R>) -> Vec<F> { let mut v: Vec<F> = p.iter_coeffs().collect(); v.resize(4 * <R as ragu_circuits::polynomials::Rank>::n(), F::ZERO); v }
/// Whether each position of a trace matters for a mask.
fn matters<F: PrimeField>(sy: &Polynomial<F, R>) -> Vec<bool> { let mut v: Vec<bool> = coeffs(sy).iter().map(|x| !bool::from(x.is_zero())).collect(); v.reverse(); v }
/// A few of the positions, spread out.
fn few(v: Vec<usize>, n: usize) -> Vec<usize> { if v.len() <= n { v } else { (0..n).map(|i| v[i * (v.len() - 1) / (n.max(2) - 1)]).collect() } }

struct Maker<'a> { d: Fp, dn: Fq, r: &'a Reference, b: &'a Made, parts: Parts, out: Vec<Altered>, per: usize }
impl Maker<'_> {
    fn len(&self) -> usize { coeffs(n(&self.parts, "ab.native.a_poly")).len() }
    fn push(&mut self, what: String, edits: Vec<(&str, Own)>) {
        let mut pf = self.b.pf.clone();
        for (k, v) in edits { set(&mut pf, k, &v); }
        self.out.push(Altered { what, pf, data: self.b.data.clone() });
    }
    fn at(&self, k: &str, at: &[(usize, Fp)]) -> Own { let at: Vec<_> = at.iter().map(|(i, d)| (*i, *d * self.d)).collect(); Own::Native(bump(n(&self.parts, k), &at)) }
    fn at_nested(&self, k: &str, at: &[(usize, Fq)]) -> Own { let at: Vec<_> = at.iter().map(|(i, d)| (*i, *d * self.dn)).collect(); Own::Nested(bump(m(&self.parts, k), &at)) }
    /// Positions where the sum of traces can change without the circuit noticing.
    fn free(&self, name: &str, rxs: &[&str]) -> Vec<bool> {
        let mut sum: Polynomial<Fp, R> = Polynomial::new();
        for k in rxs { sum.add_assign(n(&self.parts, k)); }
        let (a, b, c) = (matters(&self.r.native[name]), matters(&sum), matters(&self.r.tz));
        (0..a.len()).map(|i| !a[i] && !b[i] && !c[i]).collect()
    }
}
const PRE: &str = "preamble.native.rx";
const INNER: &str = "inner_error.native.rx_triple.rx";
const OUTER: &str = "outer_error.native.rx";
const QUERY: &str = "query.native.rx_triple.rx";
const EVAL: &str = "eval.native.rx";
const H1: &str = "circuits.hashes_1.rx";
const H2: &str = "circuits.hashes_2.rx";
const IC: &str = "circuits.inner_collapse.rx";
const OC: &str = "circuits.outer_collapse.rx";
const CV: &str = "circuits.compute_v.rx";

/// Alterations that should each make a single claim false; which one is for the reference to say.
pub fn isolating(r: &Reference, b: &Made, per: usize, negated: bool) -> Vec<Altered> {
    let mut k = Maker { d: if negated { -Fp::ONE } else { Fp::ONE }, dn: if negated { -Fq::ONE } else { Fq::ONE }, r, b, parts: all(&b.pf), out: vec![], per };
    let len = k.len();
    let masks: Vec<(&str, Vec<bool>)> = ["PreambleStage", "InnerErrorStage", "OuterErrorStage", "QueryStage", "EvalStage", "InnerErrorFinalStaged", "OuterErrorFinalStaged", "EvalFinalStaged"].into_iter().map(|m| (m, matters(&r.native[m]))).collect();
    let mask = |m: &str| masks.iter().find(|x| x.0 == m).unwrap().1.clone();
    // A value outside of a stage, taken back in every circuit that uses the stage.
    for (stage, rx, users) in [
        ("PreambleStage", PRE, vec![(H1, "OuterErrorFinalStaged"), (IC, "InnerErrorFinalStaged"), (OC, "OuterErrorFinalStaged"), (CV, "EvalFinalStaged")]),
        ("InnerErrorStage", INNER, vec![(IC, "InnerErrorFinalStaged")]),
        ("OuterErrorStage", OUTER, vec![(H1, "OuterErrorFinalStaged"), (H2, "OuterErrorFinalStaged"), (IC, "InnerErrorFinalStaged"), (OC, "OuterErrorFinalStaged")]),
        ("QueryStage", QUERY, vec![(CV, "EvalFinalStaged")]),
        ("EvalStage", EVAL, vec![(CV, "EvalFinalStaged")]),
    ] {
        let own = mask(stage);
        let at = few((0..len).filter(|p| own[*p] && users.iter().all(|(_, m)| !mask(m)[*p])).collect(), k.per);
        for p in at {
            let mut e = vec![(rx, k.at(rx, &[(p, Fp::ONE)]))];
            for (u, _) in &users { e.push((*u, k.at(u, &[(p, -Fp::ONE)]))); }
            k.push(format!("{rx} at {p} outside of {stage}, taken back where it is used"), e);
        }
    }
    // A value of a circuit inside of the stages, taken back in the stage.
    for (circuit, m, stages) in [(IC, "InnerErrorFinalStaged", vec![(INNER, "InnerErrorStage")]), (CV, "EvalFinalStaged", vec![(QUERY, "QueryStage"), (EVAL, "EvalStage")])] {
        let own = mask(m);
        for (rx, s) in stages {
            let st = mask(s);
            for p in few((0..len).filter(|p| own[*p] && !st[*p]).collect(), k.per) { let e = vec![(circuit, k.at(circuit, &[(p, Fp::ONE)])), (rx, k.at(rx, &[(p, -Fp::ONE)]))]; k.push(format!("{circuit} at {p} inside of {s}, taken back there"), e); }
        }
    }
    // A value of a circuit at gates of the stages that the circuit does not use, alone and cancelling another's.
    let sets: [(&str, &str, Vec<&str>, &str); 5] = [("Hashes1Circuit", H1, vec![H1, PRE, OUTER], "OuterErrorFinalStaged"), ("Hashes2Circuit", H2, vec![H2, OUTER], "OuterErrorFinalStaged"), ("OuterCollapseCircuit", OC, vec![OC, PRE, OUTER], "OuterErrorFinalStaged"),
        ("InnerCollapseCircuit", IC, vec![IC, PRE, INNER, OUTER], "InnerErrorFinalStaged"), ("ComputeVCircuit", CV, vec![CV, PRE, QUERY, EVAL], "EvalFinalStaged")];
    let mut frees = vec![];
    for (name, rx, with, m) in &sets {
        let (free, own) = (k.free(name, with), mask(m));
        for p in few((0..len).filter(|p| own[*p] && free[*p]).collect(), k.per) { let e = vec![(*rx, k.at(rx, &[(p, Fp::ONE)]))]; k.push(format!("{rx} at {p}, which it does not use"), e); }
        let wrong: Vec<usize> = (0..len).filter(|p| !own[*p] && !free[*p]).collect();
        frees.push((*rx, free, own));
        // And a value that only the circuit's own constraints forbid.
        for p in few(wrong, k.per) { let e = vec![(*rx, k.at(rx, &[(p, Fp::ONE)]))]; k.push(format!("{rx} at {p}"), e); }
    }
    for (a, b) in [(0, 1), (0, 2), (1, 2)] {
        let at = few((0..len).filter(|p| frees[a].2[*p] && frees[a].1[*p] && frees[b].1[*p]).collect(), k.per);
        for (i, p) in at.into_iter().enumerate() {
            for (w, f) in factors(&k.parts) { if bool::from(f.is_zero()) || (i > 0 && k.per < 4 && f != Fp::ONE) { continue; }
                let e = vec![(frees[a].0, k.at(frees[a].0, &[(p, Fp::ONE)])), (frees[b].0, k.at(frees[b].0, &[(p, -f)]))];
                k.push(format!("{} and {} at {p}, which they do not use, in the ratio of {w}", frees[a].0, frees[b].0), e);
            }
        }
    }
    // Claims about single components.
    for p in few((0..len).collect(), k.per) {
        for (key, what) in [("application.rx_triple.rx", "step"), ("ab.native.a_poly", "first factor"), ("ab.native.b_poly", "second factor"), ("query.native.registry_xy_poly", "registry polynomial")] {
            let e = vec![(key, k.at(key, &[(p, Fp::ONE)]))];
            k.push(format!("{what} at {p}"), e);
        }
    }
    let parts = k.parts.clone();
    k.push("inner product".into(), vec![("ab.native.b_poly", { let mut p = n(&parts, "ab.native.b_poly").clone(); p.negate(); Own::Native(p) })]);
    // The accumulated polynomial: its evaluation, or its commitment, alone.
    let gens = Pasta::host_generators(Pasta::baked());
    let poly = n(&parts, "p.native.poly");
    for (p, at) in [(0, vec![(0usize, Fp::ONE)]), (len - 1, vec![(len - 1, Fp::ONE)])] {
        let q = bump(poly, &at);
        let com = q.commit_to_affine(gens);
        k.push(format!("accumulated polynomial at {p}, committed"), vec![("p.native.poly", Own::Native(q)), ("p.native.commitment", Own::Host(com))]);
    }
    let u = s(&parts, "challenges.u");
    for p in [0, len / 2, len - 2] { k.push(format!("accumulated polynomial at {p}, with the same value"), vec![("p.native.poly", Own::Native(bump(poly, &[(p, -u), (p + 1, Fp::ONE)])))]); }
    let Own::Host(com) = &parts["p.native.commitment"] else { panic!() };
    k.push("accumulated commitment".into(), vec![("p.native.commitment", Own::Host((-*com).into()))]);
    for (w, c) in challenges(&parts) { if c != u { let q = bump(poly, &[(1, Fp::ONE), (0, -c)]); let com = q.commit_to_affine(gens); k.push(format!("accumulated polynomial, committed, with the same value at {w}"), vec![("p.native.poly", Own::Native(q)), ("p.native.commitment", Own::Host(com))]); } }
    nested(&mut k);
    k.out
}

fn nested(k: &mut Maker<'_>) {
    let parts = k.parts.clone();
    let len = k.len();
    let Own::Steps(steps) = &parts["p.nested.step_rxs"] else { panic!() };
    let names: Vec<String> = (0..steps.len()).map(|i| format!("p.nested.step_rxs[{i}]")).collect();
    let last = matters(&k.r.nested["PointsFinalStaged"]);
    for (stage, rx) in [("EndoscalarStage", "p.nested.endoscalar_rx"), ("PointsStage", "p.nested.points_rx")] {
        let own = matters(&k.r.nested[stage]);
        for p in few((0..len).filter(|p| own[*p] && !last[*p]).collect(), k.per) {
            let mut e = vec![(rx, k.at_nested(rx, &[(p, Fq::ONE)]))];
            for n in &names { e.push((n.as_str(), k.at_nested(n, &[(p, -Fq::ONE)]))); }
            k.push(format!("{rx} at {p} outside of {stage}, taken back where it is used"), e);
        }
    }
    let mut frees = vec![];
    for (i, name) in names.iter().enumerate() {
        let mut sum = steps[i].clone();
        sum.add_assign(m(&parts, "p.nested.endoscalar_rx"));
        sum.add_assign(m(&parts, "p.nested.points_rx"));
        let (a, b, c) = (matters(&k.r.nested[&format!("EndoscalingStep({i})")]), matters(&sum), matters(&k.r.tzn));
        let free: Vec<bool> = (0..len).map(|i| !a[i] && !b[i] && !c[i]).collect();
        for p in few((0..len).filter(|p| last[*p] && free[*p]).collect(), k.per) { let e = vec![(name.as_str(), k.at_nested(name, &[(p, Fq::ONE)]))]; k.push(format!("{name} at {p}, which it does not use"), e); }
        for p in few((0..len).filter(|p| !last[*p] && !free[*p]).collect(), k.per) { let e = vec![(name.as_str(), k.at_nested(name, &[(p, Fq::ONE)]))]; k.push(format!("{name} at {p}"), e); }
        frees.push(free);
    }
    for i in 0..names.len() { for j in 0..i {
        for p in few((0..len).filter(|p| last[*p] && frees[i][*p] && frees[j][*p]).collect(), k.per - 1) {
            for f in [Fq::ONE, -Fq::ONE, Fq::from(2)] { if k.per < 4 && f != Fq::ONE && i != j + 1 { continue; } let e = vec![(names[i].as_str(), k.at_nested(&names[i], &[(p, Fq::ONE)])), (names[j].as_str(), k.at_nested(&names[j], &[(p, -f)]))]; k.push(format!("{} and {} at {p}, which they do not use, in the ratio of {f:?}", names[i], names[j]), e); }
        }
    } }
    for b in ["preamble", "s_prime", "inner_error", "outer_error", "ab", "query", "f", "eval"] {
        let mask = format!("Bridge{}", b.split('_').map(|w| if w == "ab" { "AB".into() } else { w[..1].to_uppercase() + &w[1..] }).collect::<String>());
        let own = matters(&k.r.nested[&mask]);
        let (key, sy) = (format!("{b}.bridge.rx"), coeffs(&k.r.nested[&mask]));
        let bad: Vec<usize> = (0..len).filter(|p| own[*p]).collect();
        for p in few(bad.clone(), k.per) { let e = vec![(key.as_str(), k.at_nested(&key, &[(p, Fq::ONE)]))]; k.push(format!("{key} at {p}"), e); }
        let _ = sy;
    }
}

fn challenges(p: &Parts) -> Vec<(String, Fp)> {
    let mut v: Vec<(String, Fp)> = p.iter().filter_map(|(k, v)| match v { Own::Scalar(x) => Some((k.clone(), *x)), _ => None }).collect();
    v.extend([("zero".into(), Fp::ZERO), ("one".into(), Fp::ONE), ("minus one".into(), -Fp::ONE)]);
    v
}
fn factors(p: &Parts) -> Vec<(String, Fp)> {
    let mut v = challenges(p);
    for (w, x) in challenges(p) { let i: Option<Fp> = x.invert().into(); if let Some(i) = i { v.push((format!("{w} inverted"), i)); } }
    let mut seen = vec![];
    v.retain(|x| !seen.contains(&x.1) && { seen.push(x.1); true });
    v
}

/// Alterations that satisfy every claim if the verifier used a value the prover knew instead of its own randomness.
pub fn vanishing(r: &Reference, app: &App<HS>, b: &Made, per: usize) -> Vec<Altered> {
    let mut k = Maker { d: Fp::ONE, dn: Fq::ONE, r, b, parts: all(&b.pf), out: vec![], per };
    let parts = k.parts.clone();
    let len = k.len();
    let index = |name: &str| ragu_pcd::mc::native_circuits().into_iter().find(|x| x.0 == name).unwrap().1;
    let Own::Circuit(id) = &parts["application.circuit_id"] else { panic!() };
    for (w, c) in challenges(&parts) {
        // At w: the registry polynomial.
        for p in few((0..len - 1).collect(), k.per) { let e = vec![("query.native.registry_xy_poly", k.at("query.native.registry_xy_poly", &[(p, -c), (p + 1, Fp::ONE)]))]; k.push(format!("registry polynomial at {p}, vanishing at {w}"), e); }
        // At y: the instance of the step.
        for i in 0..b.data.len() { for j in 0..i {
            let mut d = b.data.clone();
            d[j] += Fp::ONE;
            d[i] -= c.pow([(i - j) as u64]);
            k.out.push(Altered { what: format!("data {j} and {i} changed, vanishing at {w}"), pf: b.pf.clone(), data: d });
        } }
        // At y: masks and wiring of the step.
        let sy = coeffs(&ragu_pcd::mc::native_sy(app, index("PreambleStage"), c));
        let users = [(H1, "OuterErrorFinalStaged"), (IC, "InnerErrorFinalStaged"), (OC, "OuterErrorFinalStaged"), (CV, "EvalFinalStaged")];
        let at: Vec<usize> = { let own = matters(&r.native["PreambleStage"]); let u: Vec<_> = users.iter().map(|(_, m)| matters(&r.native[*m])).collect(); (0..len).filter(|p| own[*p] && u.iter().all(|m| !m[*p])).collect() };
        for (p, q) in pairs(&few(at, per + 1)) {
            let Some(d) = cancel(sy[len - 1 - p], sy[len - 1 - q]) else { continue };
            let mut e = vec![(PRE, k.at(PRE, &[(p, d.0), (q, d.1)]))];
            for (u, _) in &users { e.push((*u, k.at(u, &[(p, -d.0), (q, -d.1)]))); }
            k.push(format!("{PRE} at {p} and {q}, vanishing at {w}"), e);
        }
        let rx = "application.rx_triple.rx";
        let (sy, tz) = (coeffs(&ragu_pcd::mc::native_sy(app, *id, c)), coeffs(&<R as ragu_circuits::polynomials::Rank>::tz(c)));
        let (s0, t0) = (coeffs(&r.app[&usize::from(*id)]), coeffs(&r.tz));
        let used = matters(n(&parts, rx));
        let zero = |x: &Fp| bool::from(x.is_zero());
        // Only wired, so the change is linear and only y matters.
        let at: Vec<usize> = (0..len).filter(|p| !zero(&s0[len - 1 - p]) && zero(&t0[len - 1 - p]) && !used[*p]).collect();
        for (p, q) in pairs(&few(at, per + 1)) { if let Some(d) = cancel(sy[len - 1 - p], sy[len - 1 - q]) { let e = vec![(rx, k.at(rx, &[(p, d.0), (q, d.1)]))]; k.push(format!("{rx} at {p} and {q}, vanishing for y = {w}"), e); } }
        // At z: products that are not wired.
        let at: Vec<usize> = (0..len).filter(|p| zero(&s0[len - 1 - p]) && !zero(&t0[len - 1 - p]) && !used[*p]).collect();
        for (p, q) in pairs(&few(at, per + 1)) { if let Some(d) = cancel(tz[len - 1 - p], tz[len - 1 - q]) { let e = vec![(rx, k.at(rx, &[(p, d.0), (q, d.1)]))]; k.push(format!("{rx} at {p} and {q}, vanishing for z = {w}"), e); } }
    }
    k.out
}
fn pairs(v: &[usize]) -> Vec<(usize, usize)> { v.windows(2).map(|w| (w[0], w[1])).chain((v.len() > 2).then(|| (v[0], v[v.len() - 1]))).collect() }
/// Factors that make the two weights cancel.
fn cancel(a: Fp, b: Fp) -> Option<(Fp, Fp)> { let (a0, b0) = (bool::from(a.is_zero()), bool::from(b.is_zero())); if a0 && b0 { Some((Fp::ONE, Fp::ONE)) } else { Some((b, -a)) } }
