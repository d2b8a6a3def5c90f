//! Reading and replacing the components of proofs.
use crate::steps::*;
use group::prime::PrimeCurveAffine;
use ragu_arithmetic::Cycle;
use ragu_circuits::polynomials::sparse::Polynomial;
use ragu_circuits::registry::CircuitIndex;
use ragu_pasta::{Fp, Fq, Pasta};
use ragu_pcd::Proof;
use ragu_pcd::mc::{self, Part};
use std::collections::BTreeMap;

pub type Pf = Proof<Pasta, R>;
pub type Host = <Pasta as Cycle>::HostCurve;
pub type NestedPt = <Pasta as Cycle>::NestedCurve;

#[derive(Clone)]
pub enum Own { Native(Polynomial<Fp, R>), Nested(Polynomial<Fq, R>), Host(Host), NestedPoint(NestedPt), Scalar(Fp), Circuit(CircuitIndex), Header(Vec<Fp>), Steps(Vec<Polynomial<Fq, R>>) }
impl Own {
    pub fn kind(&self) -> &'static str {
        match self { Own::Native(_) => "native polynomial", Own::Nested(_) => "nested polynomial", Own::Host(_) => "host point", Own::NestedPoint(_) => "nested point", Own::Scalar(_) => "scalar", Own::Circuit(_) => "circuit", Own::Header(_) => "header", Own::Steps(_) => "steps" }
    }
    pub fn same(&self, o: &Own) -> bool {
        fn eq<F: ff::Field>(a: &Polynomial<F, R>, b: &Polynomial<F, R>) -> bool { a.iter_coeffs().eq(b.iter_coeffs()) }
        match (self, o) {
            (Own::Native(a), Own::Native(b)) => eq(a, b),
            (Own::Nested(a), Own::Nested(b)) => eq(a, b),
            (Own::Host(a), Own::Host(b)) => a == b,
            (Own::NestedPoint(a), Own::NestedPoint(b)) => a == b,
            (Own::Scalar(a), Own::Scalar(b)) => a == b,
            (Own::Circuit(a), Own::Circuit(b)) => usize::from(*a) == usize::from(*b),
            (Own::Header(a), Own::Header(b)) => a == b,
            (Own::Steps(a), Own::Steps(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| eq(a, b)),
            _ => false,
        }
    }
}
pub fn all(p: &Pf) -> BTreeMap<String, Own> {
    let mut m = BTreeMap::new();
    let mut p = p.clone();
    mc::parts(&mut p, &mut |n, part| { m.insert(n, match part {
        Part::Native(x) => Own::Native(x.clone()), Part::Nested(x) => Own::Nested(x.clone()), Part::Host(x) => Own::Host(*x), Part::NestedPoint(x) => Own::NestedPoint(*x),
        Part::Scalar(x) => Own::Scalar(*x), Part::Circuit(x) => Own::Circuit(*x), Part::Header(x) => Own::Header(x.clone()), Part::Steps(x) => Own::Steps(x.clone()),
    }); });
    m
}
pub fn set(p: &mut Pf, name: &str, v: &Own) {
    mc::parts(p, &mut |n, part| if n == name { match (part, v) {
        (Part::Native(x), Own::Native(v)) => *x = v.clone(), (Part::Nested(x), Own::Nested(v)) => *x = v.clone(), (Part::Host(x), Own::Host(v)) => *x = *v, (Part::NestedPoint(x), Own::NestedPoint(v)) => *x = *v,
        (Part::Scalar(x), Own::Scalar(v)) => *x = *v, (Part::Circuit(x), Own::Circuit(v)) => *x = *v, (Part::Header(x), Own::Header(v)) => *x = v.clone(), (Part::Steps(x), Own::Steps(v)) => *x = v.clone(),
        _ => unreachable!(),
    } });
}
/// Alterations of one component, named.
pub fn alterations(v: &Own, deep: usize) -> Vec<(String, Own)> {
    use ff::Field;
    fn poly<F: ff::PrimeField>(p: &Polynomial<F, R>, deep: usize) -> Vec<(String, Polynomial<F, R>)> {
        let c: Vec<F> = p.iter_coeffs().collect();
        let n = c.len() / 4;
        let mut out = vec![];
        // Single positions: the ends of the four wire vectors, and inside them.
        let mut at: Vec<usize> = vec![];
        for k in 0..4 { for o in [0, 1, 2, n / 2, n - 2, n - 1] { at.push(k * n + o); } }
        if deep > 0 { at.extend((0..4 * n).step_by(deep)); at.sort(); at.dedup(); }
        // The first and last positions actually in use.
        at.extend(c.iter().position(|x| !bool::from(x.is_zero())));
        at.extend(c.iter().rposition(|x| !bool::from(x.is_zero())));
        for i in at { let mut d = c.clone(); d[i] += F::ONE; out.push((format!("coefficient {i} plus one"), Polynomial::from_coeffs(d))); }
        let mut d = p.clone(); d.scale(F::from(2)); out.push(("doubled".into(), d));
        let mut d = p.clone(); d.negate(); out.push(("negated".into(), d));
        out.push(("zero".into(), Polynomial::new()));
        let mut r = c.clone(); r.reverse(); out.push(("reversed".into(), Polynomial::from_coeffs(r)));
        out
    }
    fn point<C: PrimeCurveAffine>(p: C) -> Vec<(String, C)> {
        use group::Curve;
        vec![("plus the generator".into(), (p.to_curve() + C::generator()).to_affine()), ("negated".into(), -p), ("doubled".into(), (p.to_curve() + p).to_affine()), ("generator".into(), C::generator())]
    }
    let out: Vec<(String, Own)> = match v {
        Own::Native(p) => poly(p, deep).into_iter().map(|(n, p)| (n, Own::Native(p))).collect(),
        Own::Nested(p) => poly(p, deep).into_iter().map(|(n, p)| (n, Own::Nested(p))).collect(),
        Own::Host(p) => point(*p).into_iter().map(|(n, p)| (n, Own::Host(p))).collect(),
        Own::NestedPoint(p) => point(*p).into_iter().map(|(n, p)| (n, Own::NestedPoint(p))).collect(),
        Own::Scalar(x) => [("plus one", *x + Fp::ONE), ("negated", -*x), ("zero", Fp::ZERO), ("one", Fp::ONE)].into_iter().map(|(n, x)| (n.into(), Own::Scalar(x))).collect(),
        Own::Circuit(i) => (0..40).chain([63, 64, 1 << 16, 1 << 31, (1 << 32) - 1]).filter(|j| *j != usize::from(*i)).map(|j| (format!("{j}"), Own::Circuit(CircuitIndex::new(j)))).collect(),
        Own::Header(h) => {
            let mut out = vec![];
            for i in 0..h.len() { for (n, d) in [("plus one", h[i] + Fp::ONE), ("zero", Fp::ZERO), ("two", Fp::from(2))] { let mut g = h.clone(); g[i] = d; out.push((format!("element {i} {n}"), g)); } }
            let mut g = h.clone(); g.pop(); out.push(("shorter".into(), g));
            let mut g = h.clone(); g.push(Fp::ZERO); out.push(("longer".into(), g));
            out.push(("empty".into(), vec![]));
            let mut g = h.clone(); g.reverse(); out.push(("reversed".into(), g));
            out.into_iter().map(|(n, h)| (n, Own::Header(h))).collect()
        }
        Own::Steps(s) => {
            let mut out = vec![];
            for i in 0..s.len() - 1 { let mut t = s.clone(); t.swap(i, i + 1); out.push((format!("{i} and {} exchanged", i + 1), t)); }
            let mut t = s.clone(); t.reverse(); out.push(("reversed".into(), t));
            out.into_iter().map(|(n, s)| (n, Own::Steps(s))).collect()
        }
    };
    out.into_iter().filter(|(_, x)| !x.same(v)).collect()
}
