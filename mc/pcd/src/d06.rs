//! D06: two-layer folding of inner-product (revdot) claims.
//!
//! Only what the protocol relies on is judged: the value the in-circuit folder
//! computes from error terms and claimed values is the inner product of the
//! folded polynomials, evaluations fold like the polynomials they came from,
//! the circuit pins its output, and a false claim survives few challenges.
use ff::{Field, PrimeField};
use kit::{tiny::Tiny, tuples, CellCtx, Ctx};
use mc_drv::{Cs, Dry, Live, Values, Wire};
use ragu_circuits::polynomials::{sparse, ProductionRank, Rank, R as Rk};
use ragu_core::drivers::Driver;
use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind};
use ragu_core::Result;
use ragu_pcd::mc::{fold_inner, fold_outer, fold_two_layer, inner_error_terms, outer_error_terms, ClaimFolder, NumErrorTerms, Parameters, RevdotParameters};
use ragu_primitives::vec::{CollectFixed, ConstLen, FixedVec, Len};
use ragu_primitives::{Element, Simulator};

#[derive(Clone, Copy, Default)]
struct Shape<const N: usize, const M: usize>;
impl<const N: usize, const M: usize> Parameters for Shape<N, M> { type NumGroups = ConstLen<N>; type GroupSize = ConstLen<M>; }

type Small = Rk<7>;
type Poly<F, R> = sparse::Polynomial<F, R>;

/// Which code computes the folded claims.
#[derive(Clone, Copy, PartialEq, Debug)]
enum How { Circuit, Simulator }

fn live<F: PrimeField>(cs: &mut Cs<F, Live>, v: F) -> Element<'static, Cs<F, Live>> { let w = cs.input(v); Element::promote(w, Always::maybe_just(|| v)) }
fn dry<F: PrimeField>(cs: &mut Cs<F, Dry>) -> Element<'static, Cs<F, Dry>> { let w = cs.input(F::ZERO); Element::promote(w, Empty::maybe_just(|| F::ZERO)) }

/// The same two-layer computation `full` performs for its claims: one folder
/// per layer, inner for each group, then outer over the groups' values.
fn layers<'dr, D: Driver<'dr>, P: Parameters>(
    dr: &mut D, ch: &[Element<'dr, D>], inner: &FixedVec<FixedVec<Element<'dr, D>, NumErrorTerms<P::GroupSize>>, P::NumGroups>,
    outer: &FixedVec<Element<'dr, D>, NumErrorTerms<P::NumGroups>>, ky: &[FixedVec<Element<'dr, D>, P::GroupSize>],
) -> Result<Vec<Element<'dr, D>>> {
    let f = ClaimFolder::new(dr, &ch[0], &ch[1])?;
    let mut o = vec![];
    for (e, k) in inner.iter().zip(ky) { o.push(f.fold_inner::<P>(dr, e, k)?); }
    let g = ClaimFolder::new(dr, &ch[2], &ch[3])?;
    let values = o.iter().cloned().collect_fixed()?;
    let c = g.fold_outer::<P>(dr, outer, &values)?;
    o.push(c);
    Ok(o)
}
/// The in-circuit values: every group's folded claim, then the final one.
fn claims<F: PrimeField, P: Parameters>(how: How, ch: &[F], inner: &[Vec<F>], outer: &[F], ky: &[Vec<F>]) -> std::result::Result<Vec<F>, String> {
    match how {
        How::Circuit => {
            let mut cs = Cs::<F, Live>::new();
            let ch: Vec<_> = ch.iter().map(|v| live(&mut cs, *v)).collect();
            let i = inner.iter().map(|g| g.iter().map(|v| live(&mut cs, *v)).collect_fixed().unwrap()).collect_fixed().unwrap();
            let o = outer.iter().map(|v| live(&mut cs, *v)).collect_fixed().unwrap();
            let k: Vec<_> = ky.iter().map(|g| g.iter().map(|v| live(&mut cs, *v)).collect_fixed().unwrap()).collect();
            let out = layers::<_, P>(&mut cs, &ch, &i, &o, &k).map_err(|e| e.to_string())?;
            if let Some(v) = cs.violated() { return Err(v); }
            for e in &out { if cs.value(e.wire()) != *e.value().take() { return Err("wire and value differ".into()); } }
            Ok(out.iter().map(|e| *e.value().take()).collect())
        }
        How::Simulator => {
            let mut dr = Simulator::<F>::new();
            let dr = &mut dr;
            let el = |v: F| Element::<Simulator<F>>::promote(v, Always::maybe_just(|| v));
            let ch: Vec<_> = ch.iter().map(|v| el(*v)).collect();
            let i = inner.iter().map(|g| g.iter().map(|v| el(*v)).collect_fixed().unwrap()).collect_fixed().unwrap();
            let o = outer.iter().map(|v| el(*v)).collect_fixed().unwrap();
            let k: Vec<_> = ky.iter().map(|g| g.iter().map(|v| el(*v)).collect_fixed().unwrap()).collect();
            let out = layers::<_, P>(dr, &ch, &i, &o, &k).map_err(|e| e.to_string())?;
            for e in &out { if *e.wire() != *e.value().take() { return Err("wire and value differ".into()); } }
            Ok(out.iter().map(|e| *e.value().take()).collect())
        }
    }
}

/// Folds true claims natively and in circuit; both must agree.
fn agree<F: PrimeField, R: Rank, P: Parameters>(c: &CellCtx, how: How, a: &[Poly<F, R>], b: &[Poly<F, R>], ch: [F; 4], key: impl Fn() -> String) {
    let (m, n) = (P::GroupSize::len(), P::NumGroups::len());
    let [mu, nu, mu2, nu2] = ch;
    let (Some(mi), Some(mi2)) = (Option::<F>::from(mu.invert()), Option::<F>::from(mu2.invert())) else {
        let z = vec![vec![F::ZERO; m * (m - 1)]; n];
        let r = claims::<F, P>(how, &ch, &z, &vec![F::ZERO; n * (n - 1)], &vec![vec![F::ZERO; m]; n]);
        c.check(r.is_err(), &key, || "a zero challenge has no inverse, but folding went through".into());
        c.outcome("zero challenge refused"); c.tick();
        return;
    };
    let inner: Vec<Vec<F>> = inner_error_terms::<F, R, P>(a, b).iter().map(|g| g.iter().copied().collect()).collect();
    let (ga, gb) = (fold_inner::<Poly<F, R>, F, P>(a, mi), fold_inner::<Poly<F, R>, F, P>(b, mu * nu));
    let (va, vb): (Vec<_>, Vec<_>) = (ga.iter().cloned().collect(), gb.iter().cloned().collect());
    let outer: Vec<F> = outer_error_terms::<F, R, P>(&va, &vb).iter().copied().collect();
    let want: Vec<F> = va.iter().zip(&vb).map(|(x, y)| x.revdot(y)).collect();
    let (fa, fb) = (fold_outer::<Poly<F, R>, F, P>(ga, mi2), fold_outer::<Poly<F, R>, F, P>(gb, mu2 * nu2));
    let last = fa.revdot(&fb);
    // The claims: the inner products of the given pairs, zero where none is given.
    let mut ky = vec![vec![F::ZERO; m]; n];
    for (i, (x, y)) in a.iter().zip(b).enumerate() { ky[i / m][i % m] = x.revdot(y); }
    match claims::<F, P>(how, &ch, &inner, &outer, &ky) {
        Err(e) => c.violation(key(), format!("honest folding refused: {e}")),
        Ok(got) => {
            c.check(got[..n] == want[..], &key, || format!("folded group claims {:?}, folded polynomials give {want:?}", &got[..n]));
            c.check(got[n] == last, &key, || format!("folded claim {:?}, folded polynomials give {last:?}", got[n]));
        }
    }
    c.tick();
}
fn scalar<F: Field, R: Rank>(at: usize, v: F) -> Poly<F, R> { let mut k = vec![F::ZERO; at + 1]; k[at] = v; sparse::Polynomial::from_coeffs(k) }

/// Every assignment of scalar claims (pairs whose inner product is any product
/// of two field elements, all pairs interfering) of every count, every challenge.
fn exhaustive<const P: u64, const N: usize, const M: usize>(c: &CellCtx) {
    let top = Small::num_coeffs() - 1;
    for count in 0..=N * M {
        let all: Vec<Vec<u64>> = tuples(P, 2 * count).collect();
        c.par(&all, |t| {
            let a: Vec<Poly<Tiny<P>, Small>> = t[..count].iter().map(|v| scalar(0, Tiny::new(*v))).collect();
            let b: Vec<Poly<Tiny<P>, Small>> = t[count..].iter().map(|v| scalar(top, Tiny::new(*v))).collect();
            for ch in tuples(P, 4) {
                let h = [0, 1, 2, 3].map(|i| Tiny::<P>::new(ch[i]));
                let how = if count == 0 || ch[0] + ch[1] == 1 { How::Simulator } else { How::Circuit };
                agree::<_, Small, Shape<N, M>>(c, how, &a, &b, h, || format!("F_{P} {N}x{M}, {count} claims a,b {t:?}, mu,nu,mu',nu' {ch:?}"));
            }
        });
        c.outcomes("claim vectors", all.len() as u64);
    }
    c.sample(|| format!("{N} groups of {M} over F_{P}: all claims, all challenges"));
}
/// Bilinear: one pair (i, j) of polynomials at a time, plus vectors that fill
/// every position, for every count and every challenge pair.
fn basis<F: PrimeField, R: Rank, const N: usize, const M: usize>(c: &CellCtx, counts: &[usize], chal: &[[F; 4]], full: bool, name: &str) {
    basis_of::<F, R, Shape<N, M>>(c, counts, chal, full, name)
}
fn basis_of<F: PrimeField, R: Rank, P: Parameters>(c: &CellCtx, counts: &[usize], chal: &[[F; 4]], full: bool, name: &str) {
    let (m, n) = (P::GroupSize::len(), P::NumGroups::len());
    let top = R::num_coeffs() - 1;
    for &count in counts {
        let mut pairs: Vec<Option<(usize, usize)>> = vec![None];
        if full { for i in 0..count { for j in 0..count { pairs.push(Some((i, j))); } } }
        c.par(&pairs, |p| {
            let (mut a, mut b) = (vec![Poly::<F, R>::new(); count], vec![Poly::<F, R>::new(); count]);
            match p {
                Some((i, j)) => { a[*i] = scalar(1, F::from(3)); b[*j] = scalar(top - 1, F::from(5)); }
                None => for i in 0..count {
                    for k in 0..3 { a[i].add_assign(&scalar(k * (i + 1) % (top + 1), F::from((7 * i + 3 * k + 1) as u64))); b[i].add_assign(&scalar(top - (k * (i + 2) % (top + 1)), F::from((5 * i + k + 2) as u64))); }
                },
            }
            for h in chal { agree::<F, R, P>(c, How::Circuit, &a, &b, *h, || format!("{name} {n}x{m}, {count} claims, pair {p:?}, challenges {h:?}")); }
        });
        c.outcomes("claim vectors", pairs.len() as u64);
    }
    // More claims than the shape holds must not be dropped silently.
    let over = vec![scalar::<F, R>(0, F::ONE); n * m + 1];
    c.check(c.attempt(|| fold_inner::<Poly<F, R>, F, P>(&over, F::ONE)).is_err(), || format!("{name} {n}x{m}: one claim too many folded"), || "accepted".into());
    c.check(c.attempt(|| inner_error_terms::<F, R, P>(&over, &over)).is_err(), || format!("{name} {n}x{m}: errors of one claim too many"), || "accepted".into());
    c.outcomes("oversized input refused", 2);
    c.sample(|| format!("{name} {n}x{m}: counts {counts:?}, {} challenges", chal.len()));
}
/// Evaluations fold as the polynomials do, in circuit and natively.
fn evaluations<F: PrimeField, R: Rank, P: Parameters>(c: &CellCtx, polys: &[Poly<F, R>], x: F, s: [F; 2], key: impl Fn() -> String) {
    let want = fold_outer::<Poly<F, R>, F, P>(fold_inner::<Poly<F, R>, F, P>(polys, s[0]), s[1]).eval(x);
    let evals: Vec<F> = polys.iter().map(|p| p.eval(x)).collect();
    let mut cs = Cs::<F, Live>::new();
    let e: Vec<_> = evals.iter().map(|v| live(&mut cs, *v)).collect();
    let (s1, s2) = (live(&mut cs, s[0]), live(&mut cs, s[1]));
    match fold_two_layer::<_, P>(&mut cs, &e, &s1, &s2) {
        Err(e) => c.violation(key(), format!("refused: {e}")),
        Ok(g) => {
            c.same(&cs.violated(), &None, &key);
            c.same(g.value().take(), &want, &key);
            c.same(&cs.value(g.wire()), &want, &key);
        }
    }
    c.tick();
}
fn eval_small<const P: u64, const N: usize, const M: usize>(c: &CellCtx) {
    for count in 0..=N * M {
        let all: Vec<Vec<u64>> = tuples(P, count).collect();
        c.par(&all, |t| {
            let ps: Vec<Poly<Tiny<P>, Small>> = t.iter().map(|v| scalar(0, Tiny::new(*v))).collect();
            for s in tuples(P, 2) { evaluations::<Tiny<P>, Small, Shape<N, M>>(c, &ps, Tiny::new(2), [Tiny::new(s[0]), Tiny::new(s[1])], || format!("F_{P} {N}x{M} values {t:?} scales {s:?}")); }
        });
        // polynomials, one nonzero coefficient each, at every point
        for i in 0..count { for at in [0, 1, 2, 31] { for x in 0..P {
            let mut ps = vec![Poly::<Tiny<P>, Small>::new(); count];
            ps[i] = scalar(at, Tiny::new(2));
            evaluations::<Tiny<P>, Small, Shape<N, M>>(c, &ps, Tiny::new(x), [Tiny::new(3), Tiny::new(2)], || format!("F_{P} {N}x{M} x^{at} at {i} of {count} in {x}"));
        } } }
    }
    c.outcome("shape");
}

/// Satisfying outputs of the folding circuits for pinned inputs: only the honest ones.
fn pinned<const P: u64, const N: usize, const M: usize>(c: &CellCtx, inputs: &[Vec<u64>]) {
    type Sh<const N: usize, const M: usize> = Shape<N, M>;
    c.par(inputs, |t| {
        let v: Vec<Tiny<P>> = t.iter().map(|x| Tiny::new(*x)).collect();
        let mut cs = Cs::<Tiny<P>, Dry>::new();
        let els: Vec<_> = v.iter().map(|_| dry(&mut cs)).collect();
        let (me, ne) = (M * (M - 1), N * (N - 1));
        let mut it = els.iter().cloned();
        let ch: Vec<_> = it.by_ref().take(4).collect();
        let i = (0..N).map(|_| it.by_ref().take(me).collect_fixed().unwrap()).collect_fixed().unwrap();
        let o = it.by_ref().take(ne).collect_fixed().unwrap();
        let k: Vec<_> = (0..N).map(|_| it.by_ref().take(M).collect_fixed().unwrap()).collect();
        assert!(it.next().is_none());
        let out = layers::<_, Sh<N, M>>(&mut cs, &ch, &i, &o, &k).unwrap();
        let two = fold_two_layer::<_, Sh<N, M>>(&mut cs, &els[4..4 + N * M], &ch[0], &ch[1]).unwrap();
        let outs: Vec<Wire<_>> = out.iter().chain([&two]).map(|e| e.wire().clone()).collect();
        let pins: Vec<_> = els.iter().map(|e| e.wire().clone()).zip(v.iter().copied()).collect();
        let sol = cs.sys.solve(&pins);
        // The honest values.
        let mut li = v[4..].iter().copied();
        let iv: Vec<Vec<_>> = (0..N).map(|_| li.by_ref().take(me).collect()).collect();
        let ov: Vec<_> = li.by_ref().take(ne).collect();
        let kv: Vec<Vec<_>> = (0..N).map(|_| li.by_ref().take(M).collect()).collect();
        let want = if v[0] == Tiny::ZERO || v[2] == Tiny::ZERO { Values::None } else {
            let mut w = claims::<_, Sh<N, M>>(How::Circuit, &v[..4], &iv, &ov, &kv).unwrap();
            let ps: Vec<_> = v[4..4 + N * M].iter().map(|x| scalar::<_, Small>(0, *x)).collect();
            w.push(fold_outer::<Poly<_, Small>, _, Sh<N, M>>(fold_inner::<Poly<_, Small>, _, Sh<N, M>>(&ps, v[0]), v[1]).eval(Tiny::ONE));
            Values::Some(vec![w])
        };
        c.same(&sol.values(&outs), &want, || format!("F_{P} {N}x{M} inputs {t:?}"));
        c.states(sol.alternatives()); c.transitions(sol.nodes.max(1)); c.traces(1);
    });
    c.outcome("shape");
    c.sample(|| format!("{N}x{M}: {} input vectors", inputs.len()));
}

/// Coefficients with which claimed values and error terms enter the folded
/// claim, read off the real circuit (which is linear in them, see `linear`).
fn coefficients<F: PrimeField, const M: usize>(mu: F, nu: F) -> Vec<F> {
    let n = M * M;
    let at = |j: usize| {
        let mut v = vec![F::ZERO; n];
        if j < n { v[j] = F::ONE; }
        one_layer::<F, M>(mu, nu, &v)
    };
    (0..n).map(at).collect()
}
/// `v`: the M claimed values, then the error terms.
fn one_layer<F: PrimeField, const M: usize>(mu: F, nu: F, v: &[F]) -> F {
    let mut cs = Cs::<F, Live>::new();
    let (m, n) = (live(&mut cs, mu), live(&mut cs, nu));
    let k = v[..M].iter().map(|x| live(&mut cs, *x)).collect_fixed().unwrap();
    let e = v[M..].iter().map(|x| live(&mut cs, *x)).collect_fixed().unwrap();
    let f = ClaimFolder::new(&mut cs, &m, &n).unwrap();
    let o = f.fold_inner::<Shape<M, M>>(&mut cs, &e, &k).unwrap();
    // Both layers use the same reduction.
    let o2 = f.fold_outer::<Shape<M, M>>(&mut cs, &e, &k).unwrap();
    assert_eq!(o.value().take(), o2.value().take());
    *o.value().take()
}
/// All claims whose deviation from the truth (claimed values and prover-chosen
/// error terms) has at most `support` nonzero entries: how many challenges hide it.
fn cheats<const P: u64, const M: usize>(c: &CellCtx, support: usize) {
    let chal: Vec<(Tiny<P>, Tiny<P>)> = Tiny::<P>::nonzero().flat_map(|m| Tiny::<P>::all().map(move |n| (m, n))).collect();
    let co: Vec<Vec<Tiny<P>>> = chal.iter().map(|(m, n)| coefficients::<_, M>(*m, *n)).collect();
    let n = M * M;
    // Supports that make at least one claimed value false.
    let sets: Vec<Vec<usize>> = (1u32..1 << n).filter(|s| s.count_ones() as usize <= support && s & ((1 << M) - 1) != 0).map(|s| (0..n).filter(|i| s >> i & 1 == 1).collect()).collect();
    let bound = 2 * (M as u64 - 1) * P + (M as u64 - 1) * (P - 1);
    assert!(bound < P * (P - 1), "the degree bound says nothing over F_{P}");
    c.par(&sets, |s| {
        let mut worst = 0;
        for d in tuples(P - 1, s.len()) {
            let d: Vec<Tiny<P>> = d.iter().map(|x| Tiny::new(x + 1)).collect();
            if d[0] != Tiny::ONE { continue; } // deviations up to a scalar
            let zeros = co.iter().filter(|k| s.iter().zip(&d).fold(Tiny::ZERO, |a: Tiny<P>, (i, x)| a + k[*i] * *x) == Tiny::ZERO).count() as u64;
            worst = worst.max(zeros);
            c.check(zeros <= bound, || format!("F_{P} {M} claims: deviation {d:?} at {s:?}"), || format!("hidden by {zeros} of {} challenges, the degree bound is {bound}", chal.len()));
            c.tick();
        }
        c.outcome(&format!("hidden by at most {}/4 of the bound", (4 * worst).div_ceil(bound.max(1))));
    });
    c.sample(|| format!("{M} claims over F_{P}: {} supports, {} challenges, bound {bound}", sets.len(), chal.len()));
}
/// The reduction is linear in claims and errors (what `cheats` relies on).
fn linear<const P: u64, const M: usize>(c: &CellCtx) {
    let chal: Vec<(Tiny<P>, Tiny<P>)> = Tiny::<P>::nonzero().flat_map(|m| Tiny::<P>::all().map(move |n| (m, n))).collect();
    c.par(&chal, |(m, n)| {
        let k = coefficients::<_, M>(*m, *n);
        for t in tuples(P, M * M) {
            let v: Vec<Tiny<P>> = t.iter().map(|x| Tiny::new(*x)).collect();
            let want = v.iter().zip(&k).fold(Tiny::ZERO, |a: Tiny<P>, (x, y)| a + *x * *y);
            c.same(&one_layer::<_, M>(*m, *n, &v), &want, || format!("F_{P} {M} claims {t:?} mu {m:?} nu {n:?}: not linear"));
            c.tick();
        }
    });
    c.outcome("shape");
}
/// No deviation at all is hidden by every challenge: the coefficient functions
/// are linearly independent (rank over all challenges of a small field).
fn independent<const P: u64, const M: usize>(c: &CellCtx) {
    let mut rows: Vec<Vec<Tiny<P>>> = vec![];
    let n = M * M;
    'all: for m in Tiny::<P>::nonzero() { for v in Tiny::<P>::all() {
        let mut r = coefficients::<_, M>(m, v);
        for q in &rows { let lead = q.iter().position(|x| *x != Tiny::ZERO).unwrap(); let f = r[lead]; if f != Tiny::ZERO { for i in 0..n { r[i] -= q[i] * f; } } }
        c.tick();
        if let Some(lead) = r.iter().position(|x| *x != Tiny::ZERO) { let f = r[lead].invert().unwrap(); for x in &mut r { *x *= f; } rows.push(r); }
        if rows.len() == n { break 'all; }
    } }
    c.same(&rows.len(), &n, || format!("F_{P} {M} claims: some false claims are folded into true ones for every challenge; rank"));
    c.outcome("full rank");
}
/// Both layers: one false claim, any error term of either layer adjusted.
fn both<const P: u64, const N: usize, const M: usize>(c: &CellCtx) {
    let (me, ne) = (M * (M - 1), N * (N - 1));
    let items: Vec<(usize, usize, u64)> = (0..N * M).flat_map(|k| (0..=N * me + ne).flat_map(move |e| (if e == 0 { 0..1 } else { 1..P }).map(move |d| (k, e, d)))).collect();
    let total = ((P - 1) * P).pow(2);
    // A false claim must first vanish in its group or, adjusted, between groups.
    let b1 = 2 * (M as u64 - 1) * P + (M as u64 - 1) * (P - 1);
    let b2 = 2 * (N as u64 - 1) * P + (N as u64 - 1) * (P - 1);
    let bound = (b1 + b2) * P * (P - 1);
    assert!(bound < total);
    c.par(&items, |(k, e, d)| {
        let mut inner = vec![vec![Tiny::<P>::ZERO; me]; N];
        let mut outer = vec![Tiny::<P>::ZERO; ne];
        let mut ky = vec![vec![Tiny::<P>::ZERO; M]; N];
        ky[k / M][k % M] = Tiny::ONE;
        if *e > 0 { let e = e - 1; if e < N * me { inner[e / me][e % me] = Tiny::new(*d); } else { outer[e - N * me] = Tiny::new(*d); } }
        let mut zeros = 0;
        for ch in tuples(P, 4) {
            if ch[0] == 0 || ch[2] == 0 { continue; }
            let h = [0, 1, 2, 3].map(|i| Tiny::<P>::new(ch[i]));
            let got = claims::<_, Shape<N, M>>(How::Circuit, &h, &inner, &outer, &ky).unwrap();
            if got[N] == Tiny::ZERO { zeros += 1; }
            c.tick();
        }
        c.check(zeros <= bound, || format!("F_{P} {N}x{M}: claim {k} false by 1, error term {e} off by {d}"), || format!("hidden by {zeros} of {total} challenges, the degree bound is {bound}"));
        c.outcome("cheat");
    });
    c.sample(|| format!("{N}x{M} over F_{P}: {} cheats, {total} challenges each", items.len()));
}

pub fn run(ctx: &Ctx) {
    let deep = ctx.thorough;
    ctx.cell("true claims, every value and challenge", |c| {
        exhaustive::<3, 1, 1>(c); exhaustive::<3, 1, 2>(c); exhaustive::<3, 2, 1>(c); exhaustive::<3, 1, 3>(c); exhaustive::<3, 3, 1>(c); exhaustive::<5, 1, 2>(c); exhaustive::<5, 2, 1>(c);
        exhaustive::<3, 2, 2>(c);
        if deep { exhaustive::<7, 1, 2>(c); exhaustive::<7, 2, 1>(c); exhaustive::<5, 1, 3>(c); exhaustive::<5, 3, 1>(c); exhaustive::<2, 2, 3>(c); exhaustive::<2, 3, 2>(c); }
    });
    ctx.cell("true claims, every shape and count", |c| {
        let ch: Vec<[Tiny<13>; 4]> = { let all: Vec<_> = (1..13).flat_map(|m| (0..13).map(move |n| (m, n))).collect(); all.iter().enumerate().map(|(i, (m, n))| { let (p, q) = all[(i * 5 + 31) % all.len()]; [Tiny::new(*m), Tiny::new(*n), Tiny::new(p), Tiny::new(q)] }).collect() };
        let few: Vec<_> = ch.iter().copied().step_by(if deep { 3 } else { 13 }).collect();
        macro_rules! shapes { ($($n:literal $m:literal),*) => { $( basis::<Tiny<13>, Small, $n, $m>(c, &(0..=$n * $m).collect::<Vec<_>>(), if $n * $m <= 6 { &ch } else { &few }, true, "F_13"); )* } }
        shapes!(1 1, 1 2, 1 3, 1 4, 1 5, 2 1, 2 2, 2 3, 2 4, 3 1, 3 2, 3 3, 3 4, 4 1, 4 2, 4 3, 4 4, 5 1, 5 2, 2 5, 5 3, 3 5);
    });
    ctx.cell("true claims, production shape and field", |c| {
        use ragu_pasta::{Fp, Fq};
        let (m, n) = (<RevdotParameters as Parameters>::GroupSize::len(), <RevdotParameters as Parameters>::NumGroups::len());
        let vals = |f: [u64; 4]| f.map(|x| if x > 90 { -Fp::from(100 - x) } else { Fp::from(x) } * Fp::from(if x > 2 && x < 90 { 0x1234_5678_9abc } else { 1 }));
        let ch: Vec<[Fp; 4]> = [[1, 1, 1, 1], [2, 0, 3, 5], [7, 11, 2, 0], [99, 99, 99, 98], [5, 7, 11, 13], [0, 1, 1, 1], [1, 1, 0, 1]].into_iter().map(vals).collect();
        let q = |f: &[Fp; 4]| f.map(|x| Fq::from_repr(x.to_repr()).unwrap());
        let counts: Vec<usize> = (0..=n * m).filter(|k| deep || [0, 1, m - 1, m, m + 1, 2 * m, n * m - m - 1, n * m - m, n * m - 1, n * m].contains(k)).collect();
        basis_of::<Fp, ProductionRank, RevdotParameters>(c, &counts, &ch, false, "production");
        // The circuit is generic; the other field of the cycle, at small shapes.
        basis::<Fq, Small, 3, 3>(c, &[0, 4, 9], &ch.iter().map(q).collect::<Vec<_>>(), true, "Fq");
        let one = [vals([5, 7, 11, 13])];
        if deep { basis_of::<Fp, Small, RevdotParameters>(c, &[n * m], &one, true, "production, pairs"); }
    });
    ctx.cell("evaluations fold as their polynomials", |c| {
        eval_small::<5, 1, 1>(c); eval_small::<5, 1, 3>(c); eval_small::<5, 3, 1>(c); eval_small::<5, 2, 2>(c); eval_small::<3, 2, 3>(c); eval_small::<3, 3, 2>(c);
        if deep { eval_small::<5, 2, 3>(c); eval_small::<5, 3, 2>(c); eval_small::<3, 3, 3>(c); eval_small::<3, 2, 4>(c); eval_small::<3, 4, 2>(c); }
        use ragu_pasta::Fp;
        let (m, n) = (<RevdotParameters as Parameters>::GroupSize::len(), <RevdotParameters as Parameters>::NumGroups::len());
        c.par_range((n * m + 1) as u64, |k| {
            let ps: Vec<Poly<Fp, Small>> = (0..k).map(|i| { let mut p = scalar(0, Fp::from(i + 1)); p.add_assign(&scalar((i % 32) as usize, Fp::from(7))); p }).collect();
            for (i, s) in [[2u64, 3], [0, 5], [5, 0], [1, 1], [1 << 40, 77]].into_iter().enumerate() { evaluations::<Fp, Small, RevdotParameters>(c, &ps, Fp::from(i as u64 + 1), s.map(Fp::from), || format!("production shape, {k} polynomials, scales {s:?}")); }
        });
    });
    ctx.cell("the circuits pin their outputs", |c| {
        // 4 challenges, error terms, claimed values.
        pinned::<3, 1, 2>(c, &tuples(3, 4 + 2 + 2).collect::<Vec<_>>());
        pinned::<3, 2, 1>(c, &tuples(3, 4 + 2 + 2).collect::<Vec<_>>());
        if deep { pinned::<5, 1, 2>(c, &tuples(5, 8).collect::<Vec<_>>()); pinned::<2, 2, 2>(c, &tuples(2, 14).collect::<Vec<_>>()); }
        else { pinned::<2, 2, 2>(c, &tuples(2, 14).filter(|t| t[0] == 1).collect::<Vec<_>>()); }
    });
    ctx.cell("false claims, one layer", |c| {
        linear::<3, 2>(c); linear::<5, 2>(c); if deep { linear::<7, 2>(c); linear::<2, 3>(c); linear::<3, 3>(c); }
        cheats::<11, 2>(c, 4); cheats::<13, 3>(c, if deep { 4 } else { 3 });
        if deep { cheats::<31, 2>(c, 4); cheats::<17, 4>(c, 3); }
    });
    ctx.cell("false claims, both layers", |c| { both::<11, 2, 2>(c); if deep { both::<11, 1, 3>(c); both::<11, 3, 1>(c); both::<13, 2, 2>(c); } });
    ctx.cell("no false claim is folded away for every challenge", |c| {
        independent::<11, 2>(c); independent::<13, 3>(c); independent::<17, 4>(c); independent::<31, 7>(c);
        if deep { independent::<61, 12>(c); independent::<97, 19>(c); }
    });
    ctx.assume("Deviations from the truth enter the folded claim linearly; this is checked for all values of small shapes and used to count, over every challenge of small fields, how many hide a deviation. Prover-chosen error terms of the outer layer may depend on (mu, nu) in the protocol; the two-layer cell fixes them up front.");
}
