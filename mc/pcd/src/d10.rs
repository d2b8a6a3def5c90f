//! D10: the internal circuits bind what they verify. Each is synthesized
//! without a witness, and its constraint system solved for given instances
//! and stages.
use crate::sponge::{Ref, Table};
use crate::steps::{App, HS, R};
use ragu_circuits::polynomials::Rank;
use ff::{Field, PrimeField};
use kit::{CellCtx, Ctx};
use mc_drv::{Cs, Dry, Solutions, System, Wire};
use ragu_arithmetic::Cycle;
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::maybe::Maybe;
use ragu_core::Result;
use ragu_pasta::{Fp, Pasta};
use ragu_pcd::step::{Encoded, Index, Step};
use ragu_pcd::{ApplicationBuilder, mc};
use ragu_primitives::{extract_endoscalar, lift_endoscalar};
use std::collections::{BTreeMap, BTreeSet};

type W = Wire<Fp>;
const SLOTS: [(&str, bool); 21] = [
    ("bridge_preamble_commitment", true), ("w", false), ("bridge_s_prime_commitment", true), ("y", false), ("z", false), ("bridge_inner_error_commitment", true), ("mu", false), ("nu", false),
    ("bridge_outer_error_commitment", true), ("mu_prime", false), ("nu_prime", false), ("c", false), ("bridge_ab_commitment", true), ("x", false), ("bridge_query_commitment", true), ("alpha", false),
    ("bridge_f_commitment", true), ("u", false), ("bridge_eval_commitment", true), ("pre_beta", false), ("v", false),
];
fn slots() -> Vec<String> { SLOTS.iter().flat_map(|(n, p)| if *p { vec![format!("{n}.0"), format!("{n}.1")] } else { vec![n.to_string()] }).collect() }

/// A circuit's constraint system, and the wires of its instance and stages by name.
struct Model { sys: System<Fp>, at: BTreeMap<String, W>, out: Vec<W> }
type Asg = BTreeMap<String, Fp>;
fn model(name: &str, log2: u32) -> Model {
    let mut p = Cs::<Fp, Dry>::new();
    let names = mc::stage_values::<Pasta, R, HS, _>(name == "compute_v", &mut p).expect("the stages can be laid out");
    assert_eq!(names.len(), p.sys.zeros.len(), "harness: the stages have constraints of their own");
    let mut at: BTreeMap<String, W> = names.into_iter().zip(p.sys.zeros).collect();
    let mut dr = Cs::<Fp, Dry>::new();
    let out: Vec<W> = mc::synthesize::<Pasta, R, HS, _>(name, &mut dr, Pasta::baked(), log2).expect("the circuit can be synthesized").iter().map(|e| e.wire().clone()).collect();
    for (n, w) in slots().into_iter().zip(&out) { at.insert(n, w.clone()); }
    if name == "hashes_1" { for s in 0..2 { for i in 0..HS { at.insert(format!("header.{}.{i}", ["left", "right"][s]), out[29 + s * HS + i].clone()); } } }
    Model { sys: dr.sys, at, out }
}
impl Model {
    fn pins(&self, a: &Asg) -> Vec<(W, Fp)> {
        // Points that are of no interest are any points.
        let mut g = Gen(123);
        let mut a = a.clone();
        for (n, p) in SLOTS { if p && !a.contains_key(&format!("{n}.0")) { g.set_point(&mut a, n); } }
        a.iter().map(|(n, v)| (self.at[n].clone(), *v)).collect()
    }
    fn solve(&self, a: &Asg) -> Solutions<Fp> { self.sys.solve_open(&self.pins(a)) }
}

/// Values without structure.
struct Gen(u64);
impl Gen {
    fn next(&mut self) -> Fp { self.0 += 1; let x = Fp::from(self.0.wrapping_mul(0x9e37_79b9_7f4a_7c15)); (x.square() + Fp::from(self.0)).square() * x + Fp::from(7 * self.0) }
    /// A point of the nested curve.
    fn point(&mut self) -> (Fp, Fp) { loop { let x = self.next(); if let Some(y) = on_curve(x) { return (x, y); } } }
    fn set(&mut self, a: &mut Asg, n: &str) { let v = self.next(); a.insert(n.into(), v); }
    fn set_point(&mut self, a: &mut Asg, n: &str) { let (x, y) = self.point(); a.insert(format!("{n}.0"), x); a.insert(format!("{n}.1"), y); }
    fn preamble(&mut self, a: &mut Asg) {
        for s in ["left", "right"] {
            for h in ["children.left", "children.right", "output_header"] { for i in 0..HS { self.set(a, &format!("preamble.{s}.{h}.{i}")); } }
            a.insert(format!("preamble.{s}.circuit_id"), root(4).pow([if s == "left" { 3 } else { 14 }]));
            for (n, p) in SLOTS { if p { self.set_point(a, &format!("preamble.{s}.{n}")); } else { self.set(a, &format!("preamble.{s}.{n}")); } }
        }
    }
    fn many(&mut self, a: &mut Asg, n: &str, k: usize) { for i in 0..k { self.set(a, &format!("{n}.{i}")); } }
}
fn on_curve(x: Fp) -> Option<Fp> { (x.square() * x + Fp::from(5)).sqrt().into() }
fn root(log2: u32) -> Fp { let mut w = Fp::ROOT_OF_UNITY; for _ in log2..Fp::S { w = w.square(); } w }
fn horner(v: impl IntoIterator<Item = Fp>, x: Fp) -> Fp { v.into_iter().fold(Fp::ZERO, |a, b| a * x + b) }
fn ky(v: Vec<Fp>, y: Fp) -> Fp { horner(v.into_iter().chain([Fp::ONE]), y) }

fn expect(c: &CellCtx, s: &Solutions<Fp>, m: &Model, name: &str, want: Fp, case: &dyn Fn() -> String) {
    c.tick();
    let got = s.unique(&m.at[name]);
    c.check(got == Some(want), || format!("{}: {name}", case()), || if s.satisfiable() { match got { None => "is not determined".into(), Some(v) => format!("is bound to {v:?}, not {want:?}") } } else { "no solution".into() });
}
/// The last value of every instance is the constant zero.
fn suffix(c: &CellCtx, s: &Solutions<Fp>, m: &Model, len: usize, case: &dyn Fn() -> String) {
    c.tick();
    c.check(m.out.len() == len, case, || format!("the instance has {} values", m.out.len()));
    c.check(s.unique(m.out.last().unwrap()) == Some(Fp::ZERO), case, || "the last value of the instance is not bound to zero".into());
}

fn hashes_1(c: &CellCtx, table: &Table<Fp>) {
    let m = model("hashes_1", 4);
    c.outcomes("constraints of hashes_1", (m.sys.gates.len() + m.sys.zeros.len()) as u64);
    let base = |k: u64| {
        let mut g = Gen(1000 * k);
        let mut a = Asg::new();
        g.preamble(&mut a);
        for n in ["bridge_preamble_commitment", "bridge_s_prime_commitment", "bridge_inner_error_commitment"] { g.set_point(&mut a, n); }
        a
    };
    let edit = |c: &CellCtx, m: &Model, a: &Asg, what: &str| {
        let case = || format!("hashes_1 ({what})");
        let s = m.solve(a);
        let mut t = Ref::new(table, mc::TAG);
        let mut absorb = |t: &mut Ref<Fp>, n: &str| { t.absorb(a[&format!("{n}.0")]); t.absorb(a[&format!("{n}.1")]); };
        absorb(&mut t, "bridge_preamble_commitment");
        expect(c, &s, m, "w", t.challenge(), &case);
        absorb(&mut t, "bridge_s_prime_commitment");
        let y = t.challenge();
        expect(c, &s, m, "y", y, &case);
        expect(c, &s, m, "z", t.challenge(), &case);
        absorb(&mut t, "bridge_inner_error_commitment");
        t.save();
        for (i, v) in t.state.iter().enumerate() { expect(c, &s, m, &format!("outer.sponge_state.{i}"), *v, &case); }
        for side in ["left", "right"] {
            let h = |n: &str| (0..HS).map(|i| a[&format!("preamble.{side}.{n}.{i}")]).collect::<Vec<_>>();
            let u: Vec<Fp> = slots().iter().map(|n| a[&format!("preamble.{side}.{n}")]).collect();
            let (l, r, o) = (h("children.left"), h("children.right"), h("output_header"));
            expect(c, &s, m, &format!("outer.{side}.application"), ky([l.clone(), r.clone(), o.clone()].concat(), y), &case);
            expect(c, &s, m, &format!("outer.{side}.unified"), ky([u.clone(), vec![Fp::ZERO]].concat(), y), &case);
            expect(c, &s, m, &format!("outer.{side}.unified_bridge"), ky([u, l, r, vec![Fp::ZERO]].concat(), y), &case);
            for i in 0..HS { expect(c, &s, m, &format!("header.{side}.{i}"), o[i], &case); }
        }
        suffix(c, &s, m, 30 + 2 * HS, &case);
    };
    for k in 1..=3 { edit(c, &m, &base(k), &format!("values {k}")); }
    // Every single value of the children zero, one, and exchanged with the one after it.
    let b = base(1);
    let mut jobs: Vec<(String, Asg)> = vec![];
    let names: Vec<String> = b.keys().filter(|n| n.starts_with("preamble") && !n.ends_with("circuit_id")).cloned().collect();
    for i in 0..names.len() {
        for v in [Fp::ZERO, Fp::ONE] { let mut a = b.clone(); a.insert(names[i].clone(), v); jobs.push((format!("{} = {v:?}", names[i]), a)); }
        if let Some(n) = names.get(i + 1) { let mut a = b.clone(); a.insert(names[i].clone(), b[n]); a.insert(n.clone(), b[&names[i]]); jobs.push((format!("{} exchanged with {n}", names[i]), a)); }
    }
    // Points that are each other's negation, or equal.
    let pts = ["bridge_preamble_commitment", "bridge_s_prime_commitment", "bridge_inner_error_commitment"];
    for p in pts {
        let mut a = b.clone(); let y = a.get_mut(&format!("{p}.1")).unwrap(); *y = -*y; jobs.push((format!("{p} negated"), a));
        for q in pts { if p != q { let mut a = b.clone(); for i in 0..2 { a.insert(format!("{p}.{i}"), b[&format!("{q}.{i}")]); } jobs.push((format!("{p} = {q}"), a)); } }
    }
    c.par(&jobs.into_iter().map(Case).collect::<Vec<_>>(), |j| edit(c, &m, &j.0.1, &j.0.0));
}
struct Case(pub (String, Asg));
impl std::fmt::Debug for Case { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0.0) } }

fn identifiers(c: &CellCtx) {
    let most = if c.thorough() { 9 } else { 6 };
    let mut jobs = vec![];
    for log2 in 1..=most {
        for side in 0..2 {
            for i in 0..2u64 << log2 { jobs.push((log2, side, i)); }
            for i in 0..8 { jobs.push((log2, side, (1 << 40) + i)); }
        }
    }
    let models: Vec<Model> = (0..=most).map(|l| model("hashes_1", l.max(1))).collect();
    let mut g = Gen(77);
    let mut base = Asg::new();
    g.preamble(&mut base);
    for n in ["bridge_preamble_commitment", "bridge_s_prime_commitment", "bridge_inner_error_commitment"] { g.set_point(&mut base, n); }
    let third = Fp::MULTIPLICATIVE_GENERATOR.pow(&{ let mut e = [0u64; 4]; let m = (-Fp::ONE) * Fp::from(3).invert().unwrap(); e.iter_mut().zip(m.to_repr().as_ref().chunks(8)).for_each(|(e, b)| *e = u64::from_le_bytes(b.try_into().unwrap())); e });
    c.check(third != Fp::ONE && third.pow([3]) == Fp::ONE, || "harness".into(), || "cube root of unity".into());
    c.par(&jobs, |(log2, side, i)| {
        let mut a = base.clone();
        // Both sides within the domain, except for the one under test.
        for s in ["left", "right"] { a.insert(format!("preamble.{s}.circuit_id"), root(*log2)); }
        let w = root(log2 + 1);
        let (v, good) = match i.checked_sub(1 << 40) {
            None => (w.pow([*i]), i % 2 == 0),
            Some(0) => (Fp::ZERO, false), Some(1) => (Fp::from(2), false), Some(2) => (third, false), Some(3) => (-third, false),
            Some(4) => (root(*log2) + Fp::ONE, false), Some(5) => (w * third, false), Some(6) => (Fp::MULTIPLICATIVE_GENERATOR, false), Some(_) => (root(32), false),
        };
        a.insert(format!("preamble.{}.circuit_id", ["left", "right"][*side]), v);
        c.tick();
        let s = models[*log2 as usize].solve(&a);
        c.outcome(if good { "identifier in the domain" } else { "identifier outside the domain" });
        c.check(s.satisfiable() == good, || format!("hashes_1 for 2^{log2} circuits: identifier {i} of the {} child", ["left", "right"][*side]), || if good { "refused, but in the domain".into() } else { "accepted, but outside the domain".into() });
    });
}

fn hashes_2(c: &CellCtx, table: &Table<Fp>) {
    let m = model("hashes_2", 4);
    c.outcomes("constraints of hashes_2", (m.sys.gates.len() + m.sys.zeros.len()) as u64);
    let pts = ["bridge_outer_error_commitment", "bridge_ab_commitment", "bridge_query_commitment", "bridge_f_commitment", "bridge_eval_commitment"];
    let base = |k: u64| { let mut g = Gen(2000 * k); let mut a = Asg::new(); g.many(&mut a, "outer.sponge_state", table.t); for n in pts { g.set_point(&mut a, n); } a };
    let b = base(1);
    let mut jobs: Vec<(String, Asg)> = (1..=4).map(|k| (format!("values {k}"), base(k))).collect();
    for i in 0..table.t { for v in [Fp::ZERO, Fp::ONE] { let mut a = b.clone(); a.insert(format!("outer.sponge_state.{i}"), v); jobs.push((format!("sponge_state.{i} = {v:?}"), a)); } }
    for p in pts {
        let mut a = b.clone(); let y = a.get_mut(&format!("{p}.1")).unwrap(); *y = -*y; jobs.push((format!("{p} negated"), a));
        for q in pts { if p != q { let mut a = b.clone(); for i in 0..2 { a.insert(format!("{p}.{i}"), b[&format!("{q}.{i}")]); } jobs.push((format!("{p} = {q}"), a)); } }
    }
    c.par(&jobs.into_iter().map(Case).collect::<Vec<_>>(), |j| {
        let (what, a) = &j.0;
        let case = || format!("hashes_2 ({what})");
        let s = m.solve(a);
        let mut t = Ref::resume(table, (0..table.t).map(|i| a[&format!("outer.sponge_state.{i}")]).collect());
        expect(c, &s, &m, "mu", t.challenge(), &case);
        expect(c, &s, &m, "nu", t.challenge(), &case);
        for (p, ch) in pts.iter().zip([&["mu_prime", "nu_prime"][..], &["x"], &["alpha"], &["u"], &["pre_beta"]]) {
            for i in 0..2 { t.absorb(a[&format!("{p}.{i}")]); }
            for n in ch { expect(c, &s, &m, n, t.challenge(), &case); }
        }
        suffix(c, &s, &m, 30, &case);
    });
}

/// The folded product of a matrix of claims, with the given diagonal, as a combination of wires.
fn folded(mu: Fp, nu: Fp, errors: &[W], diagonal: &[W]) -> W {
    let (n, inv) = (diagonal.len(), mu.invert().unwrap());
    let mut e = errors.iter();
    let mut parts = vec![];
    for i in 0..n { for j in 0..n {
        let w = if i == j { &diagonal[i] } else { e.next().unwrap() };
        parts.push((w.clone(), inv.pow([(n - 1 - i) as u64]) * (mu * nu).pow([(n - 1 - j) as u64])));
    } }
    assert!(e.next().is_none());
    Wire::combine(parts)
}
fn minus(a: &W, b: &W) -> W { Wire::combine([(a.clone(), Fp::ONE), (b.clone(), -Fp::ONE)]) }
fn challenges() -> Vec<(Fp, Fp)> {
    let mut g = Gen(9);
    let (a, b, d) = (g.next(), g.next(), g.next());
    vec![(a, b), (b, a), (a, d), (d, d), (Fp::ONE, a), (a, Fp::ONE), (Fp::ONE, Fp::ONE), (-Fp::ONE, a), (a, a.invert().unwrap()), (a, Fp::ZERO), (Fp::from(2), Fp::from(3)), (root(3), root(3)), (root(5), a)]
}

fn inner_collapse(c: &CellCtx) {
    let (groups, size) = mc::groups();
    let m = model("inner_collapse", 4);
    c.outcomes("constraints of inner_collapse", (m.sys.gates.len() + m.sys.zeros.len()) as u64);
    let w = |n: String| m.at[&n].clone();
    // The claims' values in order: then zero for every stage.
    let mut ky: Vec<W> = vec![];
    for k in ["preamble.{}.c", "outer.{}.application", "outer.{}.unified_bridge", "outer.{}.unified", "outer.{}.unified", "outer.{}.unified", "outer.{}.unified"] { for s in ["left", "right"] { ky.push(w(k.replace("{}", s))); } }
    c.check(ky.len() <= groups * size, || "inner_collapse".into(), || "more claims than places".into());
    ky.resize(groups * size, Wire::konst(Fp::ZERO));
    c.par(&challenges(), |(mu, nu)| {
        let case = || format!("inner_collapse with mu = {mu:?}, nu = {nu:?}");
        let pins = Asg::from([("mu".to_string(), *mu), ("nu".to_string(), *nu)]);
        let s = m.solve(&pins);
        c.check(s.satisfiable(), case, || "no solution".into());
        let mut want = pins.clone();
        let mut g = Gen(31);
        for k in ["preamble.{}.c", "outer.{}.application", "outer.{}.unified_bridge", "outer.{}.unified"] { for side in ["left", "right"] { g.set(&mut want, &k.replace("{}", side)); } }
        for i in 0..groups {
            c.tick();
            let errors: Vec<W> = (0..size * (size - 1)).map(|j| w(format!("inner.error_terms.{i}.{j}"))).collect();
            let f = folded(*mu, *nu, &errors, &ky[i * size..(i + 1) * size]);
            // For all values of the error terms and claims at once.
            let (d, _) = s.form(&minus(&w(format!("outer.collapsed.{i}")), &f));
            c.check(d.t.is_none() && d.k == Fp::ZERO, || format!("{}: group {i}", case()), || "the collapsed value is not bound to the folded claims".into());
            for j in 0..size * (size - 1) { g.set(&mut want, &format!("inner.error_terms.{i}.{j}")); }
            let v: BTreeMap<u32, Fp> = want.iter().filter_map(|(n, v)| m.at[n].terms().first().map(|t| (t.0, *v))).collect();
            want.insert(format!("outer.collapsed.{i}"), f.terms().iter().fold(f.k, |a, (x, k)| a + *k * v[x]));
        }
        // Nothing else is demanded.
        c.tick();
        c.check(m.solve(&want).satisfiable(), case, || "correctly folded claims are refused".into());
        suffix(c, &m.solve(&want), &m, 30, &case);
    });
}

fn outer_collapse(c: &CellCtx) {
    let (groups, _) = mc::groups();
    let m = model("outer_collapse", 4);
    c.outcomes("constraints of outer_collapse", (m.sys.gates.len() + m.sys.zeros.len()) as u64);
    let w = |n: String| m.at[&n].clone();
    let errors: Vec<W> = (0..groups * (groups - 1)).map(|j| w(format!("outer.error_terms.{j}"))).collect();
    let diagonal: Vec<W> = (0..groups).map(|j| w(format!("outer.collapsed.{j}"))).collect();
    let mut g = Gen(5);
    let ids = [Fp::ZERO, Fp::ONE, Fp::from(2), Fp::from(3), -Fp::ONE, g.next()];
    let mut jobs = vec![];
    for (k, ch) in challenges().into_iter().enumerate() { for l in 0..ids.len() { for r in 0..ids.len() { if k < 2 || (l < 3 && r < 3) || c.thorough() { jobs.push((ch, l, r)); } } } }
    c.par(&jobs, |((mu, nu), l, r)| {
        let case = || format!("outer_collapse with mu' = {mu:?}, nu' = {nu:?}, suffixes {:?} and {:?}", ids[*l], ids[*r]);
        let last = HS - 1;
        let base = *l == 1 && *r == 1;
        let pins = Asg::from([("mu_prime".to_string(), *mu), ("nu_prime".to_string(), *nu), (format!("preamble.left.output_header.{last}"), ids[*l]), (format!("preamble.right.output_header.{last}"), ids[*r])]);
        let s = m.solve(&pins);
        c.check(s.satisfiable(), case, || "no solution".into());
        let f = folded(*mu, *nu, &errors, &diagonal);
        let (d, free) = s.form(&minus(&m.at["c"], &f));
        c.tick();
        c.outcome(if base { "base case" } else { "not the base case" });
        let bound = d.t.is_none() && d.k == Fp::ZERO;
        if base { c.check(d.t.is_some() && free, case, || "the seed of the recursion is not free".into()); }
        else { c.check(bound, case, || "the claim is not bound to the folded claims".into()); }
        // Nothing else is demanded: neither with the right claim nor, in the base case, with another.
        let mut g = Gen(600 + l.wrapping_mul(7) as u64 + *r as u64);
        let mut a = pins.clone();
        g.many(&mut a, "outer.error_terms", groups * (groups - 1));
        g.many(&mut a, "outer.collapsed", groups);
        for s in ["left", "right"] { for i in 0..last { g.set(&mut a, &format!("preamble.{s}.output_header.{i}")); } }
        let v: BTreeMap<u32, Fp> = a.iter().filter_map(|(n, v)| m.at[n].terms().first().map(|t| (t.0, *v))).collect();
        let want = f.terms().iter().fold(f.k, |a, (x, k)| a + *k * v[x]);
        for (other, v) in [(false, want), (true, want + Fp::ONE), (true, Fp::ZERO), (true, -want)] {
            c.tick();
            a.insert("c".into(), v);
            let s = m.solve(&a);
            c.check(s.satisfiable() == (!other || base || v == want), case, || format!("the claim {} is {}", if other { "of another value" } else { "folded correctly" }, if s.satisfiable() { "accepted" } else { "refused" }));
            if s.satisfiable() { suffix(c, &s, &m, 30, &case); }
        }
    });
}

/// Linear forms over named unknowns; the constant has the empty name.
type Form = BTreeMap<String, Fp>;
fn add(f: &mut Form, g: &Form, k: Fp) { for (n, v) in g { *f.entry(n.clone()).or_insert(Fp::ZERO) += *v * k; } f.retain(|_, v| *v != Fp::ZERO); }
fn one(n: &str) -> Form { Form::from([(n.to_string(), Fp::ONE)]) }
fn lin(parts: &[(Form, Fp)]) -> Form { let mut f = Form::new(); for (g, k) in parts { add(&mut f, g, *k); } f }
fn key(f: &Form) -> Vec<(String, Vec<u8>)> { f.iter().map(|(n, v)| (n.clone(), v.to_repr().as_ref().to_vec())).collect() }
fn fold_forms(v: &[Form], x: Fp) -> Form { v.iter().fold(Form::new(), |a, f| lin(&[(a, x), (f.clone(), Fp::ONE)])) }
fn two_layers(v: &[Form], inner: Fp, outer: Fp) -> Form {
    let (groups, size) = mc::groups();
    let mut v = v.to_vec();
    assert!(v.len() <= groups * size);
    v.resize(groups * size, Form::new());
    let rows: Vec<Form> = v.chunks(size).map(|g| fold_forms(g, inner)).collect();
    fold_forms(&rows, outer)
}
/// The queries that the evaluation at u must make: polynomial, value, and 1 / (u - point).
fn queries(a: &Asg) -> Vec<Form> {
    let (x, y, z, w, u) = (a["x"], a["y"], a["z"], a["w"], a["u"]);
    let n = R::num_coeffs() as u64 / 4;
    let xz = x * z;
    let t = -(0..n).fold(Fp::ZERO, |s, k| s + x.pow([4 * n - 1 - k]) * (z.pow([2 * n + k]) + z.pow([2 * n - 1 - k])));
    // Every claim on both children, in the order in which they are folded.
    let (mut ax, mut bx): (Vec<Form>, Vec<Form>) = (vec![], vec![]);
    let sides = ["left", "right"];
    let rx = |s: &str, n: &str| one(&format!("query.{s}.rx.{n}"));
    for s in sides { ax.push(one(&format!("query.{s}.a_poly_at_xz"))); bx.push(one(&format!("query.{s}.b_poly_at_x"))); }
    let mut circuit = |rxs: Form, sy: Form| { bx.push(lin(&[(rxs.clone(), Fp::ONE), (sy, Fp::ONE), (one(""), t)])); ax.push(rxs); };
    for s in sides { circuit(rx(s, "Application"), one(&format!("query.{s}.current_registry_xy_at_child_circuit_id"))); }
    for (n, rxs) in [("Hashes1", vec!["Hashes1", "Preamble", "OuterError"]), ("Hashes2", vec!["Hashes2", "OuterError"]), ("InnerCollapse", vec!["InnerCollapse", "Preamble", "InnerError", "OuterError"]), ("OuterCollapse", vec!["OuterCollapse", "Preamble", "OuterError"]), ("ComputeV", vec!["ComputeV", "Preamble", "Query", "Eval"])] {
        for s in sides { circuit(lin(&rxs.iter().map(|r| (rx(s, r), Fp::ONE)).collect::<Vec<_>>()), one(&format!("query.fixed_registry.{n}Circuit"))); }
    }
    let mut stage = |id: &str, of: &[&str]| {
        let all: Vec<Form> = of.iter().flat_map(|o| sides.map(|s| rx(s, o))).collect();
        ax.push(fold_forms(&all, z));
        bx.push(one(&format!("query.fixed_registry.{id}")));
    };
    // (Appended in the order of the internal circuits.)
    for id in mc::native_circuits() {
        match id.as_str() {
            "PreambleStage" => stage(&id, &["Preamble"]), "InnerErrorStage" => stage(&id, &["InnerError"]), "OuterErrorStage" => stage(&id, &["OuterError"]), "QueryStage" => stage(&id, &["Query"]), "EvalStage" => stage(&id, &["Eval"]),
            "InnerErrorFinalStaged" => stage(&id, &["InnerCollapse"]), "OuterErrorFinalStaged" => stage(&id, &["Hashes1", "Hashes2", "OuterCollapse"]), "EvalFinalStaged" => stage(&id, &["ComputeV"]),
            i => assert!(i.ends_with("Circuit"), "unknown internal circuit {i}"),
        }
    }
    let (mi, mpi) = (a["mu"].invert().unwrap(), a["mu_prime"].invert().unwrap());
    let (ax, bx) = (two_layers(&ax, mi, mpi), two_layers(&bx, a["mu"] * a["nu"], a["mu_prime"] * a["nu_prime"]));
    let mut q = vec![];
    let mut query = |p: &str, v: Form, at: Fp| { let d = (u - at).invert().unwrap(); q.push(lin(&[(one(p), d), (v, -d)])); };
    for (i, s) in sides.iter().enumerate() {
        let pre = |n: &str| a[&format!("preamble.{s}.{n}")];
        let wx = format!("eval.registry_wx{i}");
        query(&format!("eval.{s}.p_poly"), one(&format!("preamble.{s}.v")), pre("u"));
        let at_w = one(&format!("query.{s}.child_registry_xy_at_current_w"));
        query(&format!("eval.{s}.registry_xy_poly"), at_w.clone(), w);
        query(&wx, at_w, pre("y"));
        let wy = one(&format!("query.{s}.current_registry_wy_at_child_x"));
        query(&wx, wy.clone(), y);
        query("eval.registry_wy", wy, pre("x"));
        query("eval.registry_xy", one(&format!("query.{s}.current_registry_xy_at_child_circuit_id")), pre("circuit_id"));
        query(&format!("eval.{s}.a_poly"), one(&format!("query.{s}.a_poly_at_xz")), xz);
        query(&format!("eval.{s}.b_poly"), one(&format!("query.{s}.b_poly_at_x")), x);
        for n in mc::components() { query(&format!("eval.{s}.rx.{n}"), rx(s, &n), xz); }
    }
    query("eval.registry_wy", one("query.registry_wxy"), x);
    query("eval.registry_xy", one("query.registry_wxy"), w);
    query("eval.a_poly", ax, xz);
    query("eval.b_poly", bx, x);
    for id in mc::native_circuits() { query("eval.registry_xy", one(&format!("query.fixed_registry.{id}")), mc::omega(&id).unwrap().omega_j()); }
    q
}
fn compute_v(c: &CellCtx) {
    let m = model("compute_v", 4);
    c.outcomes("constraints of compute_v", (m.sys.gates.len() + m.sys.zeros.len()) as u64);
    let entries: Vec<String> = m.at.keys().filter(|n| n.starts_with("query.") || n.starts_with("eval.") || n.ends_with(".v")).cloned().collect();
    let evals = entries.iter().filter(|n| n.starts_with("eval.")).count();
    let of: BTreeMap<u32, String> = entries.iter().map(|n| { let t = m.at[n].terms(); assert!(t.len() == 1 && t[0].1 == Fp::ONE && m.at[n].k == Fp::ZERO); (t[0].0, n.clone()) }).collect();
    let sets = if c.thorough() { 6 } else { 2 };
    for k in 1..=sets {
        let mut g = Gen(4000 * k);
        let mut a = Asg::new();
        g.preamble(&mut a);
        for s in ["left", "right"] { a.remove(&format!("preamble.{s}.v")); }
        for (n, p) in SLOTS { if p { g.set_point(&mut a, n); } else if n != "v" && n != "alpha" { g.set(&mut a, n); } }
        if k == 2 { a.insert("nu".into(), Fp::ONE); a.insert("z".into(), -Fp::ONE); a.insert("pre_beta".into(), Fp::from(3)); }
        let beta: Fp = lift_endoscalar(extract_endoscalar(a["pre_beta"]));
        let want = queries(&a);
        // What does not depend on alpha, once and for all.
        let known = m.sys.solve_probing(&m.pins(&a));
        if !c.check(known.satisfiable(), || format!("compute_v (values {k})"), || "no solution".into()) { return; }
        let known = known.known();
        let points: Vec<u64> = (1..=want.len() as u64 + 3).collect();
        let forms = std::sync::Mutex::new(BTreeMap::<u64, Form>::new());
        c.par(&points, |alpha| {
            c.tick();
            let case = || format!("compute_v (values {k}, alpha = {alpha})");
            let mut pins = known.clone();
            pins.push((m.at["alpha"].clone(), Fp::from(*alpha)));
            let s = m.sys.solve_open(&pins);
            if !c.check(s.satisfiable(), case, || "no solution".into()) { return; }
            let (v, free) = s.form(&m.at["v"]);
            let mut f = Form::from([(String::new(), v.k)]);
            f.retain(|_, v| *v != Fp::ZERO);
            for (x, k) in v.terms() { match of.get(x) { Some(n) => { f.insert(n.clone(), *k); } None => { c.violation(case(), "the evaluation depends on something else"); return; } } }
            c.check(free && s.complete(), case, || "the evaluation is not determined".into());
            for n in &entries { let (w, free) = s.form(&m.at[n]); c.check(free && w == m.at[n], case, || format!("{n} is constrained otherwise")); }
            if *alpha == 1 { suffix(c, &s, &m, 30, &case); }
            forms.lock().unwrap().insert(*alpha, f);
        });
        let forms = forms.into_inner().unwrap();
        if forms.len() != points.len() { return; }
        // As a polynomial in alpha.
        let case = || format!("compute_v (values {k})");
        let coeffs = interpolate(&points.iter().map(|p| (Fp::from(*p), forms[p].clone())).collect::<Vec<_>>());
        let powers: Vec<Fp> = (0..=evals as u64).map(|i| beta.pow([i])).collect();
        let bytes = |x: &Fp| x.to_repr().as_ref().to_vec();
        c.check(powers.iter().map(bytes).collect::<BTreeSet<_>>().len() == powers.len(), || "harness".into(), || "powers of beta coincide".into());
        // The queries share one power of beta, and have a power of alpha each.
        let top: Vec<&Form> = coeffs[1..].iter().filter(|f| !f.is_empty()).collect();
        c.check(top.len() + 1 == want.len() && coeffs[want.len()..].iter().all(|f| f.is_empty()), case, || format!("{} queries are combined, not {}", top.len() + 1, want.len()));
        let mut verdict = vec![];
        for (e, scale) in powers.iter().enumerate() {
            let mut left: BTreeMap<Vec<(String, Vec<u8>)>, Vec<usize>> = BTreeMap::new();
            for (i, q) in want.iter().enumerate() { left.entry(key(&lin(&[(q.clone(), *scale)]))).or_default().push(i); }
            let unknown = top.iter().filter(|f| left.get_mut(&key(f)).and_then(|l| l.pop()).is_none()).count();
            if unknown == top.len() && !top.is_empty() { continue; }
            if unknown > 0 { verdict.push(format!("{unknown} of the queries are not those demanded")); continue; }
            let rest: Vec<usize> = left.into_values().flatten().collect();
            if rest.len() != 1 { verdict.push("queries are missing".into()); continue; }
            // The last one comes with the evaluations, each with a power of beta of its own.
            let mut f = coeffs[0].clone();
            add(&mut f, &want[rest[0]], -*scale);
            let got: BTreeSet<Vec<u8>> = f.values().map(bytes).collect();
            let powers: BTreeSet<Vec<u8>> = powers.iter().enumerate().filter(|p| p.0 != e).map(|p| bytes(p.1)).collect();
            if f.keys().all(|n| n.starts_with("eval.")) && f.len() == evals && got == powers { verdict = vec![]; break; }
            verdict.push("the evaluations are not combined with a power of beta each, or a query is wrong".into());
        }
        c.outcomes("queries found", top.len() as u64 + 1);
        let found = top.iter().any(|f| powers.iter().any(|s| want.iter().any(|q| key(&lin(&[(q.clone(), *s)])) == key(f))));
        if !found { verdict.push("no query is one of those demanded".into()); }
        for v in verdict { c.violation(case(), v); }
    }
}
/// Coefficients of the polynomial through the given points.
fn interpolate(p: &[(Fp, Form)]) -> Vec<Form> {
    // Newton's divided differences, expanded.
    let mut d: Vec<Form> = p.iter().map(|x| x.1.clone()).collect();
    for k in 1..p.len() { for i in (k..p.len()).rev() { let q = (p[i].0 - p[i - k].0).invert().unwrap(); d[i] = lin(&[(d[i].clone(), q), (d[i - 1].clone(), -q)]); } }
    let mut out: Vec<Form> = vec![Form::new(); p.len()];
    for i in (0..p.len()).rev() {
        for j in (0..p.len()).rev() { let below = if j > 0 { out[j - 1].clone() } else { Form::new() }; out[j] = lin(&[(below, Fp::ONE), (out[j].clone(), -p[i].0)]); }
        let f = d[i].clone();
        add(&mut out[0], &f, Fp::ONE);
    }
    out
}

/// Points that are not on the curve are refused wherever they must be points.
fn points(c: &CellCtx) {
    let kinds = ["hashes_1", "hashes_2", "inner_collapse", "outer_collapse", "compute_v"];
    let models: Vec<Model> = kinds.iter().map(|k| model(k, 4)).collect();
    let mut jobs: Vec<(String, bool)> = vec![];
    for (n, p) in SLOTS { if p { jobs.push((n.to_string(), false)); for s in ["left", "right"] { jobs.push((format!("preamble.{s}.{n}"), true)); } } }
    c.par(&jobs, |(n, child)| {
        let mut g = Gen(88);
        let (x, y) = g.point();
        let bad = [(x, y + Fp::ONE), (x + Fp::ONE, y), (Fp::ZERO, Fp::ZERO), (y, x), (x, Fp::ZERO), (-x, y)];
        for (i, (px, py)) in [(x, y), (x, -y)].into_iter().chain(bad).enumerate() {
            let good = py.square() == px.square() * px + Fp::from(5);
            let mut refused = 0;
            for (k, m) in kinds.iter().zip(&models) {
                if *child && *k != "compute_v" { continue; }
                c.tick();
                let pins = [(m.at[&format!("{n}.0")].clone(), px), (m.at[&format!("{n}.1")].clone(), py)];
                if m.sys.refuted(&pins) { refused += 1; }
            }
            c.outcome(if good { "on the curve" } else { "off the curve" });
            if good { c.check(refused == 0, || format!("{n}, point {i}"), || "refused".into()); } else { c.check(refused > 0, || format!("{n}, point {i}"), || "not a point, but accepted by every circuit".into()); }
        }
    });
}

/// A step that does nothing.
struct Idle<const I: usize>;
impl<const I: usize> Step<Pasta> for Idle<I> {
    const INDEX: Index = Index::new(I);
    type Witness<'source> = ();
    type Aux<'source> = ();
    type Left = ();
    type Right = ();
    type Output = ();
    fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = Fp>, const N: usize>(&self, dr: &mut D, _: DriverValue<D, ()>, l: DriverValue<D, ()>, r: DriverValue<D, ()>) -> Result<((Encoded<'dr, D, (), N>, Encoded<'dr, D, (), N>, Encoded<'dr, D, (), N>), DriverValue<D, ()>, DriverValue<D, ()>)> where Self: 'dr {
        let o = D::unit();
        Ok(((Encoded::new(dr, l)?, Encoded::new(dr, r)?, Encoded::new(dr, o.clone())?), o, D::unit()))
    }
}
fn registered(c: &CellCtx) {
    // Applications with 15 internal circuits and this many steps.
    let mut b = ApplicationBuilder::<Pasta, R, HS>::new();
    let mut apps: Vec<(usize, App<HS>)> = vec![];
    macro_rules! steps { ($($i:literal)*) => { $( b = b.register(Idle::<$i>).unwrap(); )* } }
    macro_rules! again { ($n:literal: $($i:literal)*) => { { b = ApplicationBuilder::new(); steps!($($i)*); let x = std::mem::replace(&mut b, ApplicationBuilder::new()); apps.push(($n, x.finalize(Pasta::baked()).expect("the application can be built"))); } } }
    again!(0:);
    again!(1: 0);
    again!(2: 0 1);
    again!(17: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16);
    again!(18: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17);
    let mut g = Gen(3);
    let ys = [g.next(), Fp::ONE, Fp::from(2)];
    for (n, app) in &apps {
        let log2 = (15 + n).next_power_of_two().trailing_zeros();
        for y in ys {
            for name in mc::native_circuits() {
                c.tick();
                let (p, q) = (mc::native_sy(app, mc::omega(&name).unwrap(), y), mc::registered::<Pasta, R, HS>(&name, Pasta::baked(), log2, y).expect("it can be registered"));
                // The registry's own term is at the top.
                let mut d: Vec<usize> = p.iter_coeffs().zip(q.iter_coeffs()).enumerate().filter(|(_, (a, b))| a != b).map(|x| x.0).collect();
                d.retain(|i| *i != R::num_coeffs() - 1);
                c.check(d.is_empty(), || format!("{name} among {} circuits", 15 + n), || format!("is not what is registered: {} coefficients differ", d.len()));
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("values without structure stand for all values where a relation is not linear");
    let table = Table::of(Pasta::circuit_poseidon(Pasta::baked()));
    ctx.cell("hashes_1", |c| hashes_1(c, &table));
    ctx.cell("circuit identifiers", |c| identifiers(c));
    ctx.cell("hashes_2", |c| hashes_2(c, &table));
    ctx.cell("inner_collapse", |c| inner_collapse(c));
    ctx.cell("outer_collapse", |c| outer_collapse(c));
    ctx.cell("compute_v", |c| compute_v(c));
    ctx.cell("points", |c| points(c));
    ctx.cell("registered circuits", |c| registered(c));
}
