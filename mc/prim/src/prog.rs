//! Straight-line programs over field elements and booleans, with a direct
//! reference interpretation.
use crate::unit::{Unit, Want};
use ff::PrimeField;
use ragu_arithmetic::Coeff;
use ragu_core::drivers::Driver;
use ragu_core::maybe::Maybe;
use ragu_core::Result;
use ragu_primitives::{multiadd, Boolean, Element};

/// Symbolic forms of a coefficient.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Co { Zero, One, Two, Neg, Arb(u64), NegArb(u64) }
impl Co {
    pub fn coeff<F: PrimeField>(self) -> Coeff<F> { match self { Co::Zero => Coeff::Zero, Co::One => Coeff::One, Co::Two => Coeff::Two, Co::Neg => Coeff::NegativeOne, Co::Arb(x) => Coeff::Arbitrary(F::from(x)), Co::NegArb(x) => Coeff::NegativeArbitrary(F::from(x)) } }
    pub fn val<F: PrimeField>(self) -> F { match self { Co::Zero => F::ZERO, Co::One => F::ONE, Co::Two => F::from(2), Co::Neg => F::ZERO - F::ONE, Co::Arb(x) => F::from(x), Co::NegArb(x) => F::ZERO - F::from(x) } }
}
/// Operands are positions in the list of values computed so far.
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Zero, One, Const(u64), Alloc(u64), AllocSquare(u64),
    Add(usize, usize), Sub(usize, usize), Mul(usize, usize), AddCoeff(usize, usize, Co), Scale(usize, Co),
    Negate(usize), Double(usize), Square(usize), Invert(usize), InvertWith(usize, u64), Div(usize, usize),
    IsZero(usize), IsEqual(usize, usize), EnforceZero(usize), Root(usize, u32),
    Fold(Vec<usize>, usize), Sum(Vec<usize>), MultiAdd(Vec<usize>, Vec<u64>), Square2(usize),
    // Booleans (any value that is 0 or 1 may come from one of these).
    AllocBit(bool), Not(usize), And(usize, usize), Select(usize, usize, usize), CondEq(usize, usize, usize),
}
#[derive(Clone, Debug)]
pub struct Prog { pub ops: Vec<Op>, pub all: bool, pub bits: usize }
impl Prog { pub fn new(ops: Vec<Op>) -> Self { Prog { ops, all: false, bits: 0 } } }

enum V<'dr, D: Driver<'dr>> { E(Element<'dr, D>), B(Boolean<'dr, D>) }
impl<'dr, D: Driver<'dr>> V<'dr, D> {
    fn e(&self) -> Element<'dr, D> { match self { V::E(e) => e.clone(), V::B(b) => b.element() } }
    fn b(&self) -> &Boolean<'dr, D> { match self { V::B(b) => b, V::E(_) => panic!("ill-typed program") } }
}
impl<F: PrimeField> Unit<F> for Prog {
    fn run<'dr, D: Driver<'dr, F = F> + 'dr>(&self, dr: &mut D, ins: &[Element<'dr, D>]) -> Result<Vec<Element<'dr, D>>> {
        let mut v: Vec<V<'dr, D>> = vec![];
        for (i, e) in ins.iter().enumerate() {
            if i < self.bits {
                let b = Boolean::alloc(dr, e.value().map(|v| *v == F::ONE))?;
                dr.enforce_equal(b.wire(), e.wire())?;
                v.push(V::B(b));
            } else { v.push(V::E(e.clone())); }
        }
        let base = v.len();
        for op in &self.ops {
            let r = match op {
                Op::Zero => V::E(Element::zero(dr)),
                Op::One => V::E(Element::one()),
                Op::Const(x) => V::E(Element::constant(dr, F::from(*x))),
                Op::Alloc(x) => V::E(Element::alloc(dr, D::just(|| F::from(*x)))?),
                Op::AllocSquare(x) => { let (a, b) = Element::alloc_square(dr, D::just(|| F::from(*x)))?; v.push(V::E(a)); V::E(b) }
                Op::Add(a, b) => V::E(v[*a].e().add(dr, &v[*b].e())),
                Op::Sub(a, b) => V::E(v[*a].e().sub(dr, &v[*b].e())),
                Op::Mul(a, b) => V::E(v[*a].e().mul(dr, &v[*b].e())?),
                Op::AddCoeff(a, b, k) => V::E(v[*a].e().add_coeff(dr, &v[*b].e(), k.coeff())),
                Op::Scale(a, k) => V::E(v[*a].e().scale(dr, k.coeff())),
                Op::Negate(a) => V::E(v[*a].e().negate(dr)),
                Op::Double(a) => V::E(v[*a].e().double(dr)),
                Op::Square(a) => V::E(v[*a].e().square(dr)?),
                Op::Square2(a) => { let e = v[*a].e(); let s = e.square(dr)?; V::E(s.square(dr)?) }
                Op::Invert(a) => V::E(v[*a].e().invert(dr)?),
                Op::InvertWith(a, w) => V::E(v[*a].e().invert_with(dr, D::just(|| F::from(*w)))?),
                Op::Div(a, b) => V::E(v[*a].e().div_nonzero(dr, &v[*b].e())?),
                Op::IsZero(a) => V::B(v[*a].e().is_zero(dr)?),
                Op::IsEqual(a, b) => V::B(v[*a].e().is_equal(dr, &v[*b].e())?),
                Op::EnforceZero(a) => { v[*a].e().enforce_zero(dr)?; continue }
                Op::Root(a, k) => { v[*a].e().enforce_root_of_unity(dr, *k)?; continue }
                Op::Fold(es, s) => { let es: Vec<_> = es.iter().map(|i| v[*i].e()).collect(); V::E(Element::fold(dr, es.iter(), &v[*s].e())?) }
                Op::Sum(es) => { let es: Vec<_> = es.iter().map(|i| v[*i].e()).collect(); V::E(Element::sum(dr, es)) }
                Op::MultiAdd(es, k) => { let es: Vec<_> = es.iter().map(|i| v[*i].e()).collect(); let k: Vec<F> = k.iter().map(|x| F::from(*x)).collect(); V::E(multiadd(dr, &es, &k)) }
                Op::AllocBit(b) => V::B(Boolean::alloc(dr, D::just(|| *b))?),
                Op::Not(a) => V::B(v[*a].b().not(dr)),
                Op::And(a, b) => V::B(v[*a].b().and(dr, v[*b].b())?),
                Op::Select(k, a, b) => V::E(v[*k].b().conditional_select(dr, &v[*a].e(), &v[*b].e())?),
                Op::CondEq(k, a, b) => { v[*k].b().conditional_enforce_equal(dr, &v[*a].e(), &v[*b].e())?; continue }
            };
            v.push(r);
        }
        // A boolean's reported value must agree with its wire's.
        Ok(v[if self.all { base } else { v.len().max(base + 1) - 1 }.min(v.len())..].iter().map(|x| x.e()).collect())
    }
}

/// Reference interpretation: `Err(true)` where the documentation leaves the
/// result unconstrained, `Err(false)` where it is undefined.
pub fn eval<F: PrimeField>(p: &Prog, ins: &[F]) -> std::result::Result<Vec<F>, bool> {
    let mut v: Vec<F> = ins.to_vec();
    let base = v.len();
    let bit = |b: bool| if b { F::ONE } else { F::ZERO };
    let mut bad = None;
    for op in &p.ops {
        let r = match op {
            Op::Zero => F::ZERO,
            Op::One => F::ONE,
            Op::Const(x) | Op::Alloc(x) => F::from(*x),
            Op::AllocSquare(x) => { let x = F::from(*x); v.push(x); x * x }
            Op::Add(a, b) => v[*a] + v[*b],
            Op::Sub(a, b) => v[*a] - v[*b],
            Op::Mul(a, b) => v[*a] * v[*b],
            Op::AddCoeff(a, b, k) => v[*a] + v[*b] * k.val::<F>(),
            Op::Scale(a, k) => v[*a] * k.val::<F>(),
            Op::Negate(a) => F::ZERO - v[*a],
            Op::Double(a) => v[*a] + v[*a],
            Op::Square(a) => v[*a] * v[*a],
            Op::Square2(a) => v[*a] * v[*a] * v[*a] * v[*a],
            Op::Invert(a) => { if v[*a] == F::ZERO { return Err(bad.is_some()); } inverse(v[*a]) }
            Op::InvertWith(a, w) => { if v[*a] == F::ZERO || v[*a] * F::from(*w) != F::ONE { return Err(bad.is_some()); } F::from(*w) }
            Op::Div(a, b) => { if v[*b] == F::ZERO { if v[*a] == F::ZERO { bad = Some(true); F::ZERO } else { return Err(bad.is_some()); } } else { v[*a] * inverse(v[*b]) } }
            Op::IsZero(a) => bit(v[*a] == F::ZERO),
            Op::IsEqual(a, b) => bit(v[*a] == v[*b]),
            Op::EnforceZero(a) => { if v[*a] != F::ZERO { return Err(bad.is_some()); } continue }
            Op::Root(a, k) => { let mut x = v[*a]; for _ in 0..*k { x = x * x; } if x != F::ONE { return Err(bad.is_some()); } continue }
            Op::Fold(es, s) => { let mut acc = F::ZERO; for (i, e) in es.iter().rev().enumerate() { let mut t = v[*e]; for _ in 0..i { t = t * v[*s]; } acc += t; } acc }
            Op::Sum(es) => es.iter().fold(F::ZERO, |a, e| a + v[*e]),
            Op::MultiAdd(es, k) => es.iter().zip(k).fold(F::ZERO, |a, (e, k)| a + v[*e] * F::from(*k)),
            Op::AllocBit(b) => bit(*b),
            Op::Not(a) => F::ONE - v[*a],
            Op::And(a, b) => bit(v[*a] == F::ONE && v[*b] == F::ONE),
            Op::Select(k, a, b) => if v[*k] == F::ONE { v[*b] } else { v[*a] },
            Op::CondEq(k, a, b) => { if v[*k] == F::ONE && v[*a] != v[*b] { return Err(bad.is_some()); } continue }
        };
        v.push(r);
    }
    if let Some(b) = bad { return Err(b); }
    Ok(v[if p.all { base } else { v.len().max(base + 1) - 1 }.min(v.len())..].to_vec())
}
fn inverse<F: PrimeField>(x: F) -> F { let mut y = F::ONE; loop { if x * y == F::ONE { return y; } y += F::ONE; } }

pub fn want<F: PrimeField>(p: &Prog, ins: &[F]) -> Want<F> { match eval(p, ins) { Ok(v) => Want::Is(v), Err(false) => Want::Undefined, Err(true) => Want::Unconstrained } }
