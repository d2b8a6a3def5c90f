//! A04: symbolic coefficients and the direct linear-expression accumulator.
use kit::{tiny::Tiny, CellCtx, Ctx};
use ragu_arithmetic::Coeff;
use ragu_core::drivers::{DirectSum, LinearExpression};

fn coeffs<const P: u64>() -> Vec<Coeff<Tiny<P>>> {
    let mut v = vec![Coeff::Zero, Coeff::One, Coeff::Two, Coeff::NegativeOne];
    for x in Tiny::<P>::all() { v.push(Coeff::Arbitrary(x)); v.push(Coeff::NegativeArbitrary(x)); }
    v
}
/// What a coefficient denotes (written out independently).
fn den<const P: u64>(c: &Coeff<Tiny<P>>) -> u64 {
    match c { Coeff::Zero => 0, Coeff::One => 1, Coeff::Two => 2 % P, Coeff::NegativeOne => P - 1, Coeff::Arbitrary(x) => x.v(), Coeff::NegativeArbitrary(x) => (P - x.v()) % P }
}

fn algebra<const P: u64>(c: &CellCtx) {
    let all = coeffs::<P>();
    for a in &all {
        c.same(&a.value().v(), &den(a), || format!("F_{P}: value of {a:?}"));
        c.same(&a.is_zero(), &(den(a) == 0), || format!("F_{P}: is_zero of {a:?}"));
        for b in &all {
            c.same(&(*a * *b).value().v(), &(den(a) * den(b) % P), || format!("F_{P}: {a:?} * {b:?}"));
            c.same(&(*a + *b).value().v(), &((den(a) + den(b)) % P), || format!("F_{P}: {a:?} + {b:?}"));
            c.same(&(*a * *b).is_zero(), &(den(a) * den(b) % P == 0), || format!("F_{P}: is_zero of {a:?} * {b:?}"));
            c.same(&(*a + *b).is_zero(), &((den(a) + den(b)) % P == 0), || format!("F_{P}: is_zero of {a:?} + {b:?}"));
            c.states(2); c.transitions(2); c.traces(2);
            for d in &all {
                c.same(&((*a * *b) * *d).value().v(), &(den(a) * den(b) * den(d) % P), || format!("F_{P}: ({a:?} * {b:?}) * {d:?}"));
                c.same(&((*a + *b) + *d).value().v(), &((den(a) + den(b) + den(d)) % P), || format!("F_{P}: ({a:?} + {b:?}) + {d:?}"));
                c.same(&((*a + *b) * *d).value().v(), &((den(a) + den(b)) * den(d) % P), || format!("F_{P}: ({a:?} + {b:?}) * {d:?}"));
                c.same(&(*d + (*a * *b)).value().v(), &((den(d) + den(a) * den(b)) % P), || format!("F_{P}: {d:?} + {a:?} * {b:?}"));
                c.states(4); c.transitions(8); c.traces(4);
            }
        }
    }
    for x in Tiny::<P>::all() { c.same(&Coeff::from(x).value(), &x, || format!("F_{P}: from {x:?}")); }
}

/// All expression-building histories up to a depth.
fn expressions<const P: u64>(c: &CellCtx, depth: usize) {
    let cs = { let mut v = vec![Coeff::Zero, Coeff::One, Coeff::Two, Coeff::NegativeOne]; for x in [0, 1, 2, 3, P - 1] { v.push(Coeff::Arbitrary(Tiny::new(x))); v.push(Coeff::NegativeArbitrary(Tiny::new(x))); } v };
    let wires: Vec<Tiny<P>> = [0, 1, 2, P - 2].into_iter().map(Tiny::new).collect();
    #[derive(Clone, Debug)]
    enum Op<const P: u64> { Add(Tiny<P>), Sub(Tiny<P>), Term(Tiny<P>, Coeff<Tiny<P>>), Gain(Coeff<Tiny<P>>), Extend(Vec<(Tiny<P>, Coeff<Tiny<P>>)>) }
    let mut ops: Vec<Op<P>> = vec![];
    for g in &cs { ops.push(Op::Gain(*g)); }
    for w in &wires { ops.push(Op::Add(*w)); ops.push(Op::Sub(*w)); }
    for k in &cs { ops.push(Op::Term(Tiny::new(2), *k)); ops.push(Op::Term(Tiny::new(P - 2), *k)); }
    ops.push(Op::Extend(vec![])); ops.push(Op::Extend(vec![(Tiny::new(3), Coeff::Two)])); ops.push(Op::Extend(vec![(Tiny::new(3), Coeff::NegativeOne), (Tiny::new(1), Coeff::Arbitrary(Tiny::new(2))), (Tiny::new(2), Coeff::Zero)]));
    let n = ops.len() as u64;
    for len in 0..=depth {
        let total = n.pow(len as u32);
        let chunks: Vec<u64> = (0..total.div_ceil(8192)).collect();
        c.par(&chunks, |ch| {
            for i in ch * 8192..((ch + 1) * 8192).min(total) {
                let mut k = i;
                let mut hist = Vec::with_capacity(len);
                for _ in 0..len { hist.push(&ops[(k % n) as usize]); k /= n; }
                let mut lc = DirectSum::<Tiny<P>>::default();
                let (mut val, mut gain) = (0u64, 1u64);
                for op in &hist {
                    match op {
                        Op::Add(w) => { lc = lc.add(w); val += gain * w.v(); }
                        Op::Sub(w) => { lc = lc.sub(w); val += (P - gain) * w.v(); }
                        Op::Term(w, k) => { lc = lc.add_term(w, *k); val += gain * den(k) % P * w.v(); }
                        Op::Gain(g) => { lc = lc.gain(*g); gain = gain * den(g) % P; }
                        Op::Extend(ts) => { lc = lc.extend(ts.clone()); for (w, k) in ts { val += gain * den(k) % P * w.v(); } }
                    }
                    val %= P;
                }
                c.same(&lc.value().v(), &val, || format!("F_{P}: {hist:?}"));
                c.sample(|| format!("{hist:?} = {val}"));
            }
            let k = ((ch + 1) * 8192).min(total) - ch * 8192;
            c.states(k); c.transitions(k * len as u64); c.traces(k);
        });
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("coefficient algebra is field-generic; decided over F_3, F_5, F_7 and F_13");
    ctx.cell("coefficient algebra F_3", algebra::<3>);
    ctx.cell("coefficient algebra F_5", algebra::<5>);
    ctx.cell("coefficient algebra F_7", algebra::<7>);
    ctx.cell("coefficient algebra F_13", algebra::<13>);
    ctx.cell("expression histories F_7", |c| expressions::<7>(c, if c.thorough() { 4 } else { 3 }));
    ctx.cell("expression histories F_13", |c| expressions::<13>(c, if c.thorough() { 4 } else { 3 }));
}
