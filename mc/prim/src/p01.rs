//! P01: every field-element operation, every input of small fields.
use crate::prog::{eval, want, Co, Op, Prog};
use crate::unit::{decide, Want};
use ff::{Field, PrimeField};
use kit::{tiny::Tiny, tuples, CellCtx, Ctx};

fn single<const P: u64>(max_arity: usize, wide: bool) -> Vec<(Prog, usize)> {
    let mut o: Vec<(Prog, usize)> = vec![];
    let mut p = |op: Op, n: usize| o.push((Prog { ops: vec![op], all: true, bits: 0 }, n));
    p(Op::Zero, 0); p(Op::One, 0);
    for x in 0..P { p(Op::Const(x), 0); }
    for (a, b) in [(0, 1), (1, 0), (0, 0)] {
        p(Op::Add(a, b), 2); p(Op::Sub(a, b), 2); p(Op::Mul(a, b), 2); p(Op::Div(a, b), 2); p(Op::IsEqual(a, b), 2);
        for k in coeffs(P) { p(Op::AddCoeff(a, b, k), 2); }
    }
    for k in coeffs(P) { p(Op::Scale(0, k), 1); }
    p(Op::Negate(0), 1); p(Op::Double(0), 1); p(Op::Square(0), 1); p(Op::Square2(0), 1); p(Op::Invert(0), 1); p(Op::IsZero(0), 1); p(Op::EnforceZero(0), 1);
    for k in 0..=5 { p(Op::Root(0, k), 1); }
    for n in 0..=max_arity {
        p(Op::Sum((0..n).collect()), n);
        p(Op::Fold((0..n).collect(), n), n + 1);
    }
    for n in 0..=if wide { 3 } else { 2 } { for k in tuples(P, n) { p(Op::MultiAdd((0..n).collect(), k.clone()), n); } }
    // the same element more than once
    p(Op::Fold(vec![0, 0, 0], 0), 1); p(Op::Fold(vec![0, 1, 0], 1), 2); p(Op::Sum(vec![0, 0, 1, 0]), 2); p(Op::MultiAdd(vec![0, 0], vec![2, 3]), 1);
    o
}
pub fn coeffs(p: u64) -> Vec<Co> { let mut v = vec![Co::Zero, Co::One, Co::Two, Co::Neg]; for x in 0..p { v.push(Co::Arb(x)); v.push(Co::NegArb(x)); } v }

fn ops<const P: u64>(c: &CellCtx, max_arity: usize, wide: bool) {
    let items = single::<P>(max_arity, wide);
    c.par(&items, |(p, n)| {
        for t in tuples(P, *n) {
            let ins: Vec<Tiny<P>> = t.iter().map(|x| Tiny::new(*x)).collect();
            decide(c, p, &ins, &want(p, &ins), || format!("F_{P} {:?} on {t:?}", p.ops));
        }
        c.sample(|| format!("{:?}: all {} inputs over F_{P}", p.ops, P.pow(*n as u32)));
        c.outcome("operation decided");
    });
}
/// Sums, folds and combinations of many terms, with each kind of coefficient
/// at each position.
fn many<const P: u64>(c: &CellCtx, most: usize) {
    let mut items: Vec<(Op, usize)> = vec![];
    for n in 3..=most {
        items.push((Op::Sum((0..n).collect()), n));
        items.push((Op::Fold((0..n).collect(), n), n + 1));
        items.push((Op::Fold((0..n).collect(), n / 2), n));
        for base in 0..4 {
            let ks: Vec<u64> = (0..n as u64).map(|i| match base { 0 => 1, 1 => P - 1, 2 => 3, _ => (i * i + 2) % P }).collect();
            items.push((Op::MultiAdd((0..n).collect(), ks.clone()), n));
            for i in 0..n { for x in [0, 1, 2, P - 1, 7] { let mut k = ks.clone(); k[i] = x; items.push((Op::MultiAdd((0..n).collect(), k), n)); } }
        }
    }
    c.par(&items, |(op, n)| {
        let p = Prog { ops: vec![op.clone()], all: true, bits: 0 };
        for seed in 0..4u64 {
            let ins: Vec<Tiny<P>> = (0..*n as u64).map(|i| Tiny::new(match seed { 0 => i + 1, 1 => P - 1 - i % 2, 2 => (i * i * 5 + 3) % P, _ => (i % 2) * (P - 1) })).collect();
            decide(c, &p, &ins, &want(&p, &ins), || format!("F_{P} {op:?} on {ins:?}"));
        }
    });
}
/// Advice: allocation admits anything, squares admit exactly squares, a wrong inverse is refused.
fn advice<const P: u64>(c: &CellCtx) {
    type F<const P: u64> = Tiny<P>;
    for x in 0..P {
        let all: Vec<Vec<F<P>>> = F::<P>::all().map(|v| vec![v]).collect();
        decide(c, &Prog { ops: vec![Op::Alloc(x)], all: true, bits: 0 }, &[], &Want::Among(vec![F::<P>::new(x)], all), || format!("F_{P} alloc {x}"));
        let sq: Vec<Vec<F<P>>> = F::<P>::all().map(|v| vec![v, v * v]).collect();
        decide(c, &Prog { ops: vec![Op::AllocSquare(x)], all: true, bits: 0 }, &[], &Want::Among(vec![F::<P>::new(x), F::<P>::new(x).square()], sq), || format!("F_{P} alloc_square {x}"));
        for w in 0..P {
            let (fx, fw) = (F::<P>::new(x), F::<P>::new(w));
            let want = if x == 0 { Want::Undefined } else if fx * fw == F::<P>::ONE { Want::Is(vec![fw]) } else { Want::Wrong(vec![fx.invert().unwrap()]) };
            decide(c, &Prog { ops: vec![Op::InvertWith(0, w)], all: true, bits: 0 }, &[fx], &want, || format!("F_{P} invert {x} with {w}"));
        }
        c.outcome("advice value");
    }
}
/// One step of a program over the values computed so far.
fn steps(have: usize) -> Vec<Op> {
    let mut o = vec![Op::One, Op::Const(3)];
    for a in 0..have {
        o.extend([Op::Scale(a, Co::NegArb(2)), Op::Negate(a), Op::Double(a), Op::Square(a), Op::Invert(a), Op::IsZero(a), Op::EnforceZero(a), Op::Root(a, 1)]);
        for b in 0..have {
            o.extend([Op::Sub(a, b), Op::Mul(a, b), Op::AddCoeff(a, b, Co::Two), Op::Div(a, b), Op::Fold(vec![a, b], a)]);
            if a <= b { o.extend([Op::Add(a, b), Op::IsEqual(a, b)]); }
        }
    }
    o
}
fn programs<const P: u64>(c: &CellCtx, inputs: usize, depth: usize) {
    fn grow(p: &mut Vec<Op>, have: usize, left: usize, out: &mut Vec<Vec<Op>>) {
        if left == 0 { out.push(p.clone()); return; }
        for op in steps(have) {
            let more = !matches!(op, Op::EnforceZero(_) | Op::Root(..));
            if left == 1 && matches!(op, Op::One | Op::Const(_)) { continue; }
            p.push(op);
            grow(p, have + more as usize, left - 1, out);
            p.pop();
        }
    }
    let mut progs = vec![];
    grow(&mut vec![], inputs, depth, &mut progs);
    c.outcomes("programs", progs.len() as u64);
    let chunks: Vec<&[Vec<Op>]> = progs.chunks(64).collect();
    let idx: Vec<usize> = (0..chunks.len()).collect();
    c.par(&idx, |i| {
        let mut undef = 0;
        for ops in chunks[*i] {
            let p = Prog { ops: ops.clone(), all: true, bits: 0 };
            for t in tuples(P, inputs) {
                let ins: Vec<Tiny<P>> = t.iter().map(|x| Tiny::new(*x)).collect();
                if eval(&p, &ins).is_err() { undef += 1; }
                decide(c, &p, &ins, &want(&p, &ins), || format!("F_{P} {ops:?} on {t:?}"));
            }
            c.sample(|| format!("{ops:?} on all inputs over F_{P}"));
        }
        c.outcomes("undefined inputs", undef);
    });
}
/// Large production-like field: structured inputs, linear soundness only.
fn wide<const P: u64>(c: &CellCtx) {
    let vals: Vec<u64> = [0, 1, 2, 3, P / 2, P / 2 + 1, P - 2, P - 1].to_vec();
    let items = single::<7>(2, false);
    c.par(&items, |(p, n)| {
        if matches!(p.ops[0], Op::AllocSquare(_) | Op::Alloc(_)) { return; }
        for t in tuples(vals.len() as u64, *n) {
            let ins: Vec<Tiny<P>> = t.iter().map(|x| Tiny::new(vals[*x as usize])).collect();
            decide(c, p, &ins, &want(p, &ins), || format!("F_{P} {:?} on {ins:?}", p.ops));
        }
    });
}
/// For every k up to 2-adicity + 1: which elements are 2^k-th roots of unity.
fn roots<F: PrimeField>(c: &CellCtx, name: &str) {
    let mut of_order = vec![F::ROOT_OF_UNITY]; // order 2^S, 2^(S-1), ..., 1
    for _ in 0..F::S { of_order.push(of_order.last().unwrap().square()); }
    let ks: Vec<u32> = (0..=F::S + 1).collect();
    c.par(&ks, |k| {
        let p = Prog { ops: vec![Op::Root(0, *k)], all: true, bits: 0 };
        let mut xs = vec![F::ZERO, F::from(2), F::TWO_INV, F::MULTIPLICATIVE_GENERATOR];
        for w in &of_order { xs.extend([*w, -*w, *w + F::ONE, w.invert().unwrap(), w.cube()]); }
        for x in xs { decide(c, &p, &[x], &want(&p, &[x]), || format!("{name} {x:?} as a 2^{k}-th root of unity")); }
        c.outcome("order decided");
    });
}

pub fn run(ctx: &Ctx) {
    ctx.assume("other fields are covered by parametricity: the gadgets are generic in the field");
    ctx.cell("each operation, all inputs, F_5", |c| ops::<5>(c, 4, true));
    ctx.cell("each operation, all inputs, F_7", |c| ops::<7>(c, 3, true));
    ctx.cell("each operation, all inputs, F_13", |c| ops::<13>(c, if ctx.thorough { 3 } else { 2 }, false));
    ctx.cell("many terms, F_97", |c| many::<97>(c, if c.thorough() { 40 } else { 16 }));
    ctx.cell("allocation and advice", |c| { advice::<5>(c); advice::<7>(c); advice::<13>(c); advice::<97>(c); });
    ctx.cell("two-step programs, all inputs, F_7", |c| programs::<7>(c, 2, 2));
    ctx.cell("three-step programs on one input, F_5", |c| programs::<5>(c, 1, if ctx.thorough { 4 } else { 3 }));
    ctx.cell("three-step programs on two inputs, F_5", |c| programs::<5>(c, 2, 3));
    ctx.cell("structured inputs, F_12289", wide::<12289>);
    ctx.cell("roots of unity of every order", |c| { roots::<Tiny<97>>(c, "F_97"); roots::<Tiny<12289>>(c, "F_12289"); roots::<pasta_curves::Fp>(c, "Fp"); roots::<pasta_curves::Fq>(c, "Fq"); });
    let _ = <Tiny<7> as PrimeField>::NUM_BITS;
}
