//! D02: every component of a proof crossed with every alteration, splices of
//! valid proofs, and wrong data, against an independent evaluation of what
//! the altered proof claims.
use crate::claims::*;
use crate::isolate::*;
use crate::parts::*;
use crate::steps::*;
use kit::{CellCtx, Ctx};
use ragu_pasta::Fp;
use ragu_pcd::mc;
use std::sync::Mutex;

/// A proof together with the data it was made for.
#[derive(Clone)]
pub struct Made { pub name: String, pub kind: char, pub pf: Pf, pub data: Vec<Fp> }
pub fn made(name: &str, a: Any) -> Made {
    let (kind, data) = (a.kind(), a.data());
    let pf = match a { Any::U(p) => mc::open(p).0, Any::N(p) => mc::open(p).0, Any::P(p) => mc::open(p).0, Any::F(p) => mc::open(p).0, Any::E(p) => mc::open(p).0 };
    Made { name: name.into(), kind, pf, data }
}
pub fn carry(kind: char, pf: Pf, d: &[Fp]) -> Any {
    match kind { 'U' => Any::U(pf.carry(())), 'N' => Any::N(pf.carry(d[0])), 'P' => Any::P(pf.carry((d[0], d[1]))), 'F' => Any::F(pf.carry([d[0], d[1], d[2]])), 'E' => Any::E(pf.carry(())), _ => unreachable!() }
}
pub fn suffix(kind: char) -> u64 { match kind { 'U' => 1, 'N' => 2, 'P' => 3, 'F' => 9, 'E' => 4, _ => unreachable!() } }

/// The altered proof must not verify when some claim of it is false.
fn judge(c: &CellCtx, r: &Reference, what: &str, kind: char, pf: &Pf, data: &[Fp]) -> Option<String> {
    with_app(|app| {
        let why = r.fails(app, &all(pf), data, suffix(kind));
        judged(c, app, why, what, kind, pf, data)
    })
}
fn judged(c: &CellCtx, app: &App<HS>, why: Option<String>, what: &str, kind: char, pf: &Pf, data: &[Fp]) -> Option<String> {
        c.states(1);
        let Some(why) = why else { c.outcome("still valid"); return None };
        c.transitions(1);
        match c.attempt(|| carry(kind, pf.clone(), data).verify(app, &mut Rng::of(what))) {
            Ok(Ok(true)) => c.violation(what, format!("accepted although this claim is false: {why}")),
            Ok(Ok(false)) => c.outcome("rejected"),
            Ok(Err(_)) => c.outcome("error"),
            Err(m) => c.violation(what, format!("verification panicked: {m}")),
        }
        c.traces(1);
        c.sample(|| format!("{what}: {why}"));
        Some(why)
}

/// Application steps of `steps::app`.
pub const APP_STEPS: usize = STEPS.len();

pub fn run(ctx: &Ctx) {
    ctx.assume("claims are compared at fixed pseudorandom points of large fields, as the protocol does");
    let (bases, r) = with_app(|app| {
        let mut rng = Rng(1);
        let w = Fp::from(3);
        let mut v = vec![];
        let (a, _) = seed(app, &mut rng, 0, w).unwrap();
        let (b, _) = seed(app, &mut rng, 0, Fp::from(4)).unwrap();
        let (p, _) = apply(app, &mut rng, 1, w, &a, &b).unwrap();
        let (q, _) = apply(app, &mut rng, 1, w, &b, &b).unwrap();
        let unit = seed(app, &mut rng, 8, w).unwrap().0;
        let (l, _) = apply(app, &mut rng, 5, w, &unit, &a).unwrap();
        let again = p.rerandomize(app, &mut rng).unwrap();
        v.push(made("PairUp(Leaf,Leaf)", p));
        v.push(made("another PairUp(Leaf,Leaf)", q));
        v.push(made("Leaf", a));
        v.push(made("another Leaf", b));
        v.push(made("Lift(Unit,Leaf)", l));
        v.push(made("rerandomized PairUp(Leaf,Leaf)", again));
        (v, Reference::new(app, APP_STEPS))
    });
    ctx.cell("honest proofs", |c| {
        c.par(&(0..bases.len()).collect::<Vec<_>>(), |i| with_app(|app| {
            let b = &bases[*i];
            // The reference must agree that nothing is wrong with honest proofs.
            let why = r.fails(app, &all(&b.pf), &b.data, suffix(b.kind));
            c.check(why.is_none(), || b.name.clone(), || format!("an honest proof makes a false claim: {why:?}"));
            let v = carry(b.kind, b.pf.clone(), &b.data).verify(app, &mut Rng(9));
            c.check(matches!(v, Ok(true)), || b.name.clone(), || format!("an honest proof is not accepted: {v:?}"));
            c.tick();
        }));
    });
    ctx.cell("single alterations", |c| {
        let unread = Mutex::new(std::collections::BTreeMap::<String, (u64, u64)>::new());
        let mut jobs = vec![];
        for (i, b) in bases.iter().enumerate() {
            if !c.thorough() && ![0, 2, 5].contains(&i) { continue; }
            for (k, v) in all(&b.pf) {
                let deep = if c.thorough() && i == 0 { 16 } else { 0 };
                for (j, (a, w)) in alterations(&v, deep).into_iter().enumerate() {
                    // Further proofs in less detail.
                    if !c.thorough() && i != 0 && j % 8 != 0 { continue; }
                    jobs.push((i, k.clone(), a, w));
                }
            }
        }
        c.par_range(jobs.len() as u64, |j| {
            let (i, k, a, w) = &jobs[j as usize];
            let mut pf = bases[*i].pf.clone();
            set(&mut pf, k, w);
            let wrong = judge(c, &r, &format!("{}: {k} {a}", bases[*i].name), bases[*i].kind, &pf, &bases[*i].data).is_some();
            let mut u = unread.lock().unwrap();
            let e = u.entry(k.clone()).or_default();
            if wrong { e.0 += 1 } else { e.1 += 1 }
        });
    });
    ctx.cell("single claims", |c| {
        // Alterations that leave every claim but one true, so that the claim itself must be checked.
        let counts = Mutex::new(std::collections::BTreeMap::<String, u64>::new());
        for (i, b) in bases.iter().enumerate() {
            // Proofs with equal children and with no children are special to the protocol.
            if !c.thorough() && i > 2 { continue; }
            let per = if c.thorough() { 8 } else if i == 0 { 2 } else { 1 };
            let mut jobs = with_app(|_| isolating(&r, b, per, false));
            if !c.thorough() && i > 0 {
                // Once for every claim.
                let seen = Mutex::new(std::collections::BTreeMap::<String, usize>::new());
                c.par_range(jobs.len() as u64, |j| {
                    let f = with_app(|app| r.fails_all(app, &all(&jobs[j as usize].pf), &jobs[j as usize].data, suffix(b.kind)));
                    if let [one] = &f[..] { let mut s = seen.lock().unwrap(); let e = s.entry(one.clone()).or_insert(usize::MAX); *e = (*e).min(j as usize); }
                });
                let keep: Vec<usize> = seen.into_inner().unwrap().into_values().collect();
                let mut n = 0;
                jobs.retain(|_| { n += 1; keep.contains(&(n - 1)) });
            }
            c.par_range(jobs.len() as u64, |j| {
                let a = &jobs[j as usize];
                with_app(|app| {
                    let f = r.fails_all(app, &all(&a.pf), &a.data, suffix(b.kind));
                    if f.len() == 1 { *counts.lock().unwrap().entry(f[0].clone()).or_default() += 1; }
                    judged(c, app, f.into_iter().next(), &format!("{}: {}", b.name, a.what), b.kind, &a.pf, &a.data);
                });
            });
        }
        let counts = counts.into_inner().unwrap();
        if std::env::var("MC_DEBUG").is_ok() { eprintln!("{counts:#?}"); }
        c.outcome(&format!("claims falsified alone: {}", counts.len()));
    });
    ctx.cell("vanishing at known values", |c| {
        for (i, b) in bases.iter().enumerate() {
            if !c.thorough() && i != 0 { continue; }
            let jobs = with_app(|app| vanishing(&r, app, b, if c.thorough() { 4 } else { 2 }));
            c.par_range(jobs.len() as u64, |j| { let a = &jobs[j as usize]; judge(c, &r, &format!("{}: {}", b.name, a.what), b.kind, &a.pf, &a.data); });
        }
    });
    ctx.cell("wrong data and headers", |c| {
        let mut jobs: Vec<(usize, char, Vec<Fp>, String)> = vec![];
        for (i, b) in bases.iter().enumerate() {
            for k in ['U', 'N', 'P', 'F', 'E'] {
                let len = match k { 'N' => 1, 'P' => 2, 'F' => 3, _ => 0 };
                let mut d = b.data.clone();
                d.resize(len, Fp::from(0));
                let mut ds = vec![("same", d.clone())];
                for j in 0..len { for (n, x) in [("plus one", d[j] + Fp::from(1)), ("zero", Fp::from(0)), ("negated", -d[j])] { let mut e = d.clone(); e[j] = x; ds.push((n, e)); } }
                let mut e = d.clone(); e.reverse(); ds.push(("reversed", e));
                for (n, d) in ds { if !(k == b.kind && d == b.data) { jobs.push((i, k, d, n.into())); } }
            }
        }
        c.par_range(jobs.len() as u64, |j| { let (i, k, d, n) = &jobs[j as usize]; judge(c, &r, &format!("{} as {k} with data {n} {d:?}", bases[*i].name), *k, &bases[*i].pf, d); });
    });
    ctx.cell("splices", |c| {
        const GROUPS: [&str; 12] = ["application", "preamble", "s_prime", "inner_error", "outer_error", "ab", "query", "f", "eval", "p", "challenges", "circuits"];
        // Bit 12: the data.
        let pairs: &[(usize, usize)] = if c.thorough() { &[(0, 1), (2, 3), (2, 4), (0, 5), (5, 0)] } else { &[(0, 1), (2, 4), (0, 5)] };
        let mut jobs = vec![];
        for &(a, b) in pairs {
            for mask in 1u32..(1 << 13) - 1 {
                let n = mask.count_ones().min(13 - mask.count_ones());
                if n <= 1 || (n == 2 && (a, b) == (0, 1)) || (c.thorough() && (n <= 3 || (a, b) == (0, 1))) { jobs.push((a, b, mask)); }
            }
        }
        c.par_range(jobs.len() as u64, |j| {
            let (a, b, mask) = jobs[j as usize];
            let mut pf = bases[a].pf.clone();
            for (k, v) in all(&bases[b].pf) {
                let g = GROUPS.iter().position(|g| k.split('.').next() == Some(g)).unwrap();
                if mask >> g & 1 == 1 { set(&mut pf, &k, &v); }
            }
            let data = if mask >> 12 & 1 == 1 { &bases[b].data } else { &bases[a].data };
            let names: Vec<&str> = (0..13).filter(|g| mask >> g & 1 == 1).map(|g| if g == 12 { "data" } else { GROUPS[g as usize] }).collect();
            judge(c, &r, &format!("{} with {} of {}", bases[a].name, names.join(", "), bases[b].name), bases[a].kind, &pf, data);
        });
        // Single components.
        let mut jobs = vec![];
        for &(a, b) in pairs { for k in all(&bases[a].pf).into_keys() { jobs.push((a, b, k)); } }
        c.par_range(jobs.len() as u64, |j| {
            let (a, b, k) = &jobs[j as usize];
            let v = &all(&bases[*b].pf)[k];
            if v.same(&all(&bases[*a].pf)[k]) { return; }
            let mut pf = bases[*a].pf.clone();
            set(&mut pf, k, v);
            judge(c, &r, &format!("{} with {k} of {}", bases[*a].name, bases[*b].name), bases[*a].kind, &pf, &bases[*a].data);
        });
    });
    ctx.cell("altered trace and commitment together", |c| {
        // Replaces a trace and what is committed to it consistently.
        use ragu_arithmetic::Cycle;
        use ragu_pasta::Pasta;
        let mut jobs = vec![];
        for (i, b) in bases.iter().enumerate() { let parts = all(&b.pf); for (k, v) in &parts {
            // Further proofs in less detail.
            if !c.thorough() && i != 0 && !(i <= 2 && k == "p.native.poly") { continue; }
            let com = k.strip_suffix("rx").map(|p| format!("{p}commitment")).or_else(|| k.strip_suffix("poly").map(|p| if p.ends_with('_') || p.ends_with('.') { format!("{p}commitment") } else { String::new() })).filter(|n| parts.contains_key(n));
            let Some(com) = com else { continue };
            for (a, w) in alterations(v, 0).into_iter().step_by(if c.thorough() { 1 } else { 6 }) { jobs.push((i, k.clone(), com.clone(), a, w)); }
        } }
        c.par_range(jobs.len() as u64, |j| {
            let (i, k, com, a, w) = &jobs[j as usize];
            let b = &bases[*i];
            let point = match w {
                Own::Native(p) => Own::Host(p.commit_to_affine(Pasta::host_generators(Pasta::baked()))),
                Own::Nested(p) => Own::NestedPoint(p.commit_to_affine(Pasta::nested_generators(Pasta::baked()))),
                _ => return,
            };
            // A commitment to nothing is no valid point for a bridge.
            if let Own::NestedPoint(x) = &point { if bool::from(group::prime::PrimeCurveAffine::is_identity(x)) { return; } }
            let mut pf = b.pf.clone();
            set(&mut pf, k, w);
            set(&mut pf, com, &point);
            judge(c, &r, &format!("{}: {k} {a}, committed", b.name), b.kind, &pf, &b.data);
        });
    });
}
