//! An independent evaluation of everything a proof claims, written from the
//! documentation of the protocol: which traces together satisfy which circuit
//! with which instance, which stages are well-formed, and which values and
//! commitments must agree.
use crate::parts::*;
use crate::steps::*;
use ff::{Field, PrimeField};
use ragu_arithmetic::Cycle;
use ragu_circuits::polynomials::Rank;
use ragu_circuits::polynomials::sparse::Polynomial;
use ragu_circuits::registry::CircuitIndex;
use ragu_pasta::{Fp, Fq, Pasta};
use ragu_pcd::mc;
use std::collections::BTreeMap;
use std::sync::Mutex;
use pasta_curves::arithmetic::CurveAffine;

pub type Parts = BTreeMap<String, Own>;
/// The randomness at which claims are compared, and wiring polynomials there.
pub struct Reference { pub y: Fp, pub z: Fp, pub yn: Fq, pub zn: Fq, pub native: BTreeMap<String, Polynomial<Fp, R>>, pub nested: BTreeMap<String, Polynomial<Fq, R>>, pub app: BTreeMap<usize, Polynomial<Fp, R>>, steps: usize, pub tz: Polynomial<Fp, R>, pub tzn: Polynomial<Fq, R>,
    /// Commitments and registry polynomials already computed.
    known: Mutex<Vec<(Polynomial<Fp, R>, Host)>>, known_xy: Mutex<Vec<(Fp, Fp, Polynomial<Fp, R>)>> }

pub fn n<'a>(p: &'a Parts, k: &str) -> &'a Polynomial<Fp, R> { match &p[k] { Own::Native(x) => x, _ => panic!("{k}") } }
pub fn m<'a>(p: &'a Parts, k: &str) -> &'a Polynomial<Fq, R> { match &p[k] { Own::Nested(x) => x, _ => panic!("{k}") } }
pub fn s(p: &Parts, k: &str) -> Fp { match &p[k] { Own::Scalar(x) => *x, _ => panic!("{k}") } }
pub fn h<'a>(p: &'a Parts, k: &str) -> &'a [Fp] { match &p[k] { Own::Header(x) => x, _ => panic!("{k}") } }

/// k(y): the instance in order, followed by a one.
fn ky(v: &[Fp], y: Fp) -> Fp { v.iter().fold(Fp::ZERO, |a, x| a * y + x) * y + Fp::ONE }
fn circuit<F: PrimeField>(rxs: &[&Polynomial<F, R>], sy: &Polynomial<F, R>, tz: &Polynomial<F, R>, z: F) -> F {
    let mut a: Polynomial<F, R> = Polynomial::new();
    for r in rxs { a.add_assign(r); }
    let mut b = a.clone();
    b.dilate(z);
    b.add_assign(sy);
    b.add_assign(tz);
    a.revdot(&b)
}

impl Reference {
    /// `steps`: how many application steps are registered.
    pub fn new(app: &App<HS>, steps: usize) -> Reference {
        let mut r = Rng(77);
        let (y, z) = (Fp::random(&mut r), Fp::random(&mut r));
        let (yn, zn) = (Fq::random(&mut r), Fq::random(&mut r));
        let native = mc::native_circuits().into_iter().map(|(k, i)| (k, mc::native_sy(app, i, y))).collect();
        let nested = mc::nested_circuits().into_iter().map(|(k, i)| (k, mc::nested_sy(app, i, yn))).collect();
        let total = 13 + 2 + steps;
        let app = (0..total.next_power_of_two()).map(|i| (i, if i < total { mc::native_sy(app, CircuitIndex::new(i), y) } else { Polynomial::new() })).collect();
        Reference { y, z, yn, zn, native, nested, app, steps: total, tz: R::tz(z), tzn: R::tz(zn), known: Default::default(), known_xy: Default::default() }
    }
    pub fn commitment(&self, poly: &Polynomial<Fp, R>) -> Host {
        if let Some(x) = self.known.lock().unwrap().iter().find(|k| k.0.iter_coeffs().eq(poly.iter_coeffs())) { return x.1; }
        let com = poly.commit_to_affine(Pasta::host_generators(Pasta::baked()));
        let mut k = self.known.lock().unwrap();
        if k.len() < 8 { k.push((poly.clone(), com)); }
        com
    }
    pub fn registry_xy(&self, app: &App<HS>, x: Fp, y: Fp) -> Polynomial<Fp, R> {
        if let Some(k) = self.known_xy.lock().unwrap().iter().find(|k| k.0 == x && k.1 == y) { return k.2.clone(); }
        let p = mc::native_xy(app, x, y);
        let mut k = self.known_xy.lock().unwrap();
        if k.len() < 8 { k.push((x, y, p.clone())); }
        p
    }
    /// The first claim that does not hold, if any.
    pub fn fails(&self, app: &App<HS>, p: &Parts, output: &[Fp], suffix: u64) -> Option<String> { self.failing(app, p, output, suffix, true).into_iter().next() }
    /// All claims that do not hold.
    pub fn fails_all(&self, app: &App<HS>, p: &Parts, output: &[Fp], suffix: u64) -> Vec<String> { self.failing(app, p, output, suffix, false) }
    fn failing(&self, app: &App<HS>, p: &Parts, output: &[Fp], suffix: u64, first: bool) -> Vec<String> {
        let mut wrong: Vec<String> = vec![];
        let Own::Circuit(id) = &p["application.circuit_id"] else { panic!() };
        let id = usize::from(*id);
        if id >= self.steps.next_power_of_two() { return vec!["circuit identifier outside the registry".into()]; }
        let (l, r) = (h(p, "application.left_header"), h(p, "application.right_header"));
        if l.len() != HS || r.len() != HS { return vec!["header length".into()]; }
        let mut out = output.to_vec();
        out.resize(HS - 1, Fp::ZERO);
        out.push(Fp::from(suffix));
        // The application step.
        let instance = [l, r, &out].concat();
        if circuit(&[n(p, "application.rx_triple.rx")], &self.app[&id], &self.tz, self.z) != ky(&instance, self.y) { wrong.push("application step".into()); }
        // The internal circuits share one instance.
        let mut u = vec![];
        let bridge = |u: &mut Vec<Fp>, k: &str| match &p[&format!("{k}.bridge.commitment")] { Own::NestedPoint(x) => { let c = x.coordinates().unwrap(); u.push(*c.x()); u.push(*c.y()); } _ => panic!() };
        let ch = |u: &mut Vec<Fp>, k: &str| u.push(s(p, &format!("challenges.{k}")));
        bridge(&mut u, "preamble"); ch(&mut u, "w"); bridge(&mut u, "s_prime"); ch(&mut u, "y"); ch(&mut u, "z"); bridge(&mut u, "inner_error"); ch(&mut u, "mu"); ch(&mut u, "nu");
        bridge(&mut u, "outer_error"); ch(&mut u, "mu_prime"); ch(&mut u, "nu_prime"); u.push(s(p, "ab.native.c")); bridge(&mut u, "ab"); ch(&mut u, "x"); bridge(&mut u, "query"); ch(&mut u, "alpha");
        bridge(&mut u, "f"); ch(&mut u, "u"); bridge(&mut u, "eval"); ch(&mut u, "pre_beta"); u.push(s(p, "p.native.v"));
        let mut with_headers = u.clone();
        with_headers.extend(l); with_headers.extend(r); with_headers.push(Fp::ZERO);
        u.push(Fp::ZERO);
        let (ku, kb) = (ky(&u, self.y), ky(&with_headers, self.y));
        let c = |k: &str| n(p, &format!("circuits.{k}.rx"));
        let (pre, inner, outer, query, eval) = (n(p, "preamble.native.rx"), n(p, "inner_error.native.rx_triple.rx"), n(p, "outer_error.native.rx"), n(p, "query.native.rx_triple.rx"), n(p, "eval.native.rx"));
        for (name, rxs, k) in [
            ("Hashes1Circuit", vec![c("hashes_1"), pre, outer], kb),
            ("Hashes2Circuit", vec![c("hashes_2"), outer], ku),
            ("InnerCollapseCircuit", vec![c("inner_collapse"), pre, inner, outer], ku),
            ("OuterCollapseCircuit", vec![c("outer_collapse"), pre, outer], ku),
            ("ComputeVCircuit", vec![c("compute_v"), pre, query, eval], ku),
        ] {
            if circuit(&rxs, &self.native[name], &self.tz, self.z) != k { wrong.push(name.into()); }
        }
        // Stages occupy only their own gates, and circuits leave the gates of their stages alone.
        for (name, of, rx) in [("PreambleStage", "", pre), ("InnerErrorStage", "", inner), ("OuterErrorStage", "", outer), ("QueryStage", "", query), ("EvalStage", "", eval), ("InnerErrorFinalStaged", " inner_collapse", c("inner_collapse")),
            ("OuterErrorFinalStaged", " hashes_1", c("hashes_1")), ("OuterErrorFinalStaged", " hashes_2", c("hashes_2")), ("OuterErrorFinalStaged", " outer_collapse", c("outer_collapse")), ("EvalFinalStaged", " compute_v", c("compute_v"))] {
            if rx.revdot(&self.native[name]) != Fp::ZERO { wrong.push(format!("{name}{of}")); }
        }
        // The accumulator.
        if n(p, "ab.native.a_poly").revdot(n(p, "ab.native.b_poly")) != s(p, "ab.native.c") { wrong.push("accumulated inner product".into()); }
        let poly = n(p, "p.native.poly");
        if poly.eval(s(p, "challenges.u")) != s(p, "p.native.v") { wrong.push("accumulated evaluation".into()); }
        if first && !wrong.is_empty() { return wrong; }
        let Own::Host(com) = &p["p.native.commitment"] else { panic!() };
        if self.commitment(poly) != *com { wrong.push("accumulated commitment".into()); }
        if first && !wrong.is_empty() { return wrong; }
        let xy = self.registry_xy(app, s(p, "challenges.x"), s(p, "challenges.y"));
        if !xy.iter_coeffs().eq(n(p, "query.native.registry_xy_poly").iter_coeffs()) { wrong.push("registry polynomial".into()); }
        // The nested side.
        let Own::Steps(steps) = &p["p.nested.step_rxs"] else { panic!() };
        let (endo, points) = (m(p, "p.nested.endoscalar_rx"), m(p, "p.nested.points_rx"));
        for i in 0..steps.len() {
            let name = format!("EndoscalingStep({i})");
            if circuit(&[&steps[i], endo, points], &self.nested[&name], &self.tzn, self.zn) != Fq::ONE { wrong.push(name); }
            if steps[i].revdot(&self.nested["PointsFinalStaged"]) != Fq::ZERO { wrong.push(format!("PointsFinalStaged {i}")); }
        }
        for (name, rx) in [("EndoscalarStage", endo), ("PointsStage", points), ("BridgePreamble", m(p, "preamble.bridge.rx")), ("BridgeSPrime", m(p, "s_prime.bridge.rx")), ("BridgeInnerError", m(p, "inner_error.bridge.rx")),
            ("BridgeOuterError", m(p, "outer_error.bridge.rx")), ("BridgeAB", m(p, "ab.bridge.rx")), ("BridgeQuery", m(p, "query.bridge.rx")), ("BridgeF", m(p, "f.bridge.rx")), ("BridgeEval", m(p, "eval.bridge.rx"))] {
            if rx.revdot(&self.nested[name]) != Fq::ZERO { wrong.push(name.into()); }
        }
        let _ = self.yn;
        wrong
    }
}
