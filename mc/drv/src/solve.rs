//! Exhaustive enumeration of the satisfying assignments of a system in which
//! some wires are pinned to given values.
//!
//! Linear equations are eliminated; a gate one of whose factors is known is
//! linear too. A gate in a single unknown is a polynomial of degree at most
//! two, whose roots are both followed. Any other gate is resolved by trying
//! every field element for one of its unknowns (only allowed up to
//! `MAX_BRANCH`). Independent parts of the system are enumerated separately.
use crate::{System, Wire};
use ff::PrimeField;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};

const MAX_BRANCH: u64 = 1 << 14;

#[derive(Clone)]
struct State<F> { subst: Vec<Option<Wire<F>>>, gates: Vec<(usize, bool)>, bad: bool }

pub struct Solutions<F> {
    base: State<F>,
    /// Alternative partial states of each independent part, with the unknowns it involves.
    parts: Vec<(BTreeSet<u32>, Vec<State<F>>)>,
    /// Unknowns of parts that were not enumerated (when probing).
    unresolved: BTreeSet<u32>,
    pub nodes: u64,
}
/// The values a tuple of wires takes over all satisfying assignments.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Values<F> { None, Some(Vec<Vec<F>>), Unbounded }

struct Ctx<'a, F> { sys: &'a System<F>, dused: Vec<bool>, elems: Option<Vec<F>>, nodes: AtomicU64 }

impl<F: PrimeField> State<F> {
    fn norm(&self, w: &Wire<F>) -> Wire<F> {
        let mut cur = w.clone();
        loop {
            if !cur.terms().iter().any(|(v, _)| self.subst[*v as usize].is_some()) { return cur; }
            cur = Wire::combine(cur.terms().iter().map(|(v, c)| (self.subst[*v as usize].clone().unwrap_or_else(|| Wire::var(*v)), *c)).chain([(Wire::konst(F::ONE), cur.k)]));
        }
    }
    /// Adds `w = 0`; true if it was informative.
    fn zero(&mut self, w: &Wire<F>) -> bool {
        let n = self.norm(w);
        match n.terms().last() {
            None => { if n.k != F::ZERO { self.bad = true; } false }
            Some((v, c)) => {
                let s = -c.invert().unwrap();
                let rest = Wire::combine(n.terms()[..n.terms().len() - 1].iter().map(|(v, c)| (Wire::var(*v), *c * s)).chain([(Wire::konst(F::ONE), n.k * s)]));
                self.subst[*v as usize] = Some(rest);
                true
            }
        }
    }
    fn propagate(&mut self, cx: &Ctx<F>) {
        loop {
            let mut progress = false;
            let mut left = vec![];
            for (i, muldone) in std::mem::take(&mut self.gates) {
                if self.bad { return; }
                let g = &cx.sys.gates[i];
                let mut done = muldone;
                if !done {
                    let a = self.norm(&g.a);
                    if a.t.is_none() { done = true; let e = Wire::combine([(g.c.clone(), F::ONE), (g.b.clone(), -a.k)]); progress |= self.zero(&e); }
                    else { let b = self.norm(&g.b); if b.t.is_none() { done = true; let e = Wire::combine([(g.c.clone(), F::ONE), (a, -b.k)]); progress |= self.zero(&e); } }
                    if done { progress = true; }
                }
                let mut whole = done;
                if cx.dused[i] {
                    let c = self.norm(&g.c);
                    if c.t.is_none() { if c.k != F::ZERO { progress |= self.zero(&g.d); } }
                    else { let d = self.norm(&g.d); if d.t.is_none() { if d.k != F::ZERO { progress |= self.zero(&g.c); } } else { whole = false; } }
                }
                if !whole { left.push((i, done)); }
            }
            self.gates = left;
            if self.bad || !progress { return; }
        }
    }
    fn unknowns(&self, cx: &Ctx<F>, i: usize) -> BTreeSet<u32> {
        let g = &cx.sys.gates[i];
        let mut s = BTreeSet::new();
        for w in [&g.a, &g.b, &g.c] { for (v, _) in self.norm(w).terms() { s.insert(*v); } }
        if cx.dused[i] { for (v, _) in self.norm(&g.d).terms() { s.insert(*v); } }
        s
    }
    /// Independent groups of unresolved gates.
    fn split(&self, cx: &Ctx<F>) -> Vec<(BTreeSet<u32>, Vec<(usize, bool)>)> {
        let mut parts: Vec<(BTreeSet<u32>, Vec<(usize, bool)>)> = vec![];
        for g in &self.gates {
            let mut u = self.unknowns(cx, g.0);
            let mut gs = vec![*g];
            let mut rest = vec![];
            for (pu, pg) in parts { if pu.is_disjoint(&u) { rest.push((pu, pg)); } else { u.extend(pu); gs.extend(pg); } }
            rest.push((u, gs));
            parts = rest;
        }
        parts
    }
    /// A gate in a single unknown, and the roots of its equation.
    fn single(&self, cx: &Ctx<F>) -> Option<(u32, Vec<F>)> { self.singles(cx).next() }
    fn singles<'a>(&'a self, cx: &'a Ctx<F>) -> impl Iterator<Item = (u32, Vec<F>)> + 'a {
        self.gates.iter().filter(|g| !g.1).filter_map(|(i, _)| {
            let g = &cx.sys.gates[*i];
            let (a, b, c) = (self.norm(&g.a), self.norm(&g.b), self.norm(&g.c));
            let mut ts = a.terms().iter().chain(b.terms()).chain(c.terms()).map(|t| t.0);
            let v = ts.next()?;
            if ts.any(|x| x != v) { return None; }
            let co = |w: &Wire<F>| w.terms().first().map(|t| t.1).unwrap_or(F::ZERO);
            quadratic(co(&a) * co(&b), co(&a) * b.k + co(&b) * a.k - co(&c), a.k * b.k - c.k).map(|r| (v, r))
        })
    }
    fn with(&self, v: u32, x: F) -> Self { let mut s = self.clone(); s.zero(&Wire::combine([(Wire::var(v), F::ONE), (Wire::konst(F::ONE), -x)])); s }
    fn probe(&mut self, cx: &Ctx<F>) {
        let mut tried = BTreeSet::new();
        while !self.bad {
            let Some((v, roots)) = self.singles(cx).find(|s| s.1.len() < 2 || !tried.contains(&s.0)) else { return };
            tried.insert(v);
            cx.nodes.fetch_add(1, Ordering::Relaxed);
            let mut live: Vec<State<F>> = roots.iter().map(|r| { let mut s = self.with(v, *r); s.propagate(cx); s }).filter(|s| !s.bad && s.singles(cx).all(|t| !t.1.is_empty())).collect();
            match live.len() { 0 => self.bad = true, 1 => *self = live.pop().unwrap(), _ => {} }
        }
    }
    /// All ways of resolving this (connected) state's gates.
    fn enumerate(mut self, cx: &Ctx<F>, out: &mut Vec<State<F>>) {
        cx.nodes.fetch_add(1, Ordering::Relaxed);
        self.propagate(cx);
        if self.bad { return; }
        if self.gates.is_empty() { out.push(self); return; }
        // A gate in one unknown is a quadratic equation.
        let mut branch: Option<(Wire<F>, Vec<F>)> = None;
        for (i, done) in &self.gates {
            if *done { continue; }
            let g = &cx.sys.gates[*i];
            let (a, b, c) = (self.norm(&g.a), self.norm(&g.b), self.norm(&g.c));
            let mut u: BTreeSet<u32> = BTreeSet::new();
            for w in [&a, &b, &c] { for (v, _) in w.terms() { u.insert(*v); } }
            if u.len() == 1 {
                let v = *u.iter().next().unwrap();
                let co = |w: &Wire<F>| w.terms().first().map(|t| t.1).unwrap_or(F::ZERO);
                let roots = quadratic(co(&a) * co(&b), co(&a) * b.k + co(&b) * a.k - co(&c), a.k * b.k - c.k);
                if let Some(r) = roots { branch = Some((Wire::var(v), r)); break; }
            }
        }
        let (w, vals) = branch.unwrap_or_else(|| {
            let elems = cx.elems.as_ref().unwrap_or_else(|| panic!("field too large to enumerate"));
            let (i, done) = self.gates[0];
            let g = &cx.sys.gates[i];
            (if done { self.norm(&g.c) } else { self.norm(&g.a) }, elems.clone())
        });
        for v in vals {
            let mut s = self.clone();
            s.zero(&Wire::combine([(w.clone(), F::ONE), (Wire::konst(F::ONE), -v)]));
            s.enumerate(cx, out);
        }
    }
}
/// Roots of a x^2 + b x + c (None if every element is a root).
fn quadratic<F: PrimeField>(a: F, b: F, c: F) -> Option<Vec<F>> {
    if a == F::ZERO {
        if b == F::ZERO { return if c == F::ZERO { None } else { Some(vec![]) }; }
        return Some(vec![-c * b.invert().unwrap()]);
    }
    let two = F::ONE + F::ONE;
    let disc = b * b - two * two * a * c;
    let s: Option<F> = disc.sqrt().into();
    Some(match s {
        None => vec![],
        Some(s) => { let d = (two * a).invert().unwrap(); let r = (s - b) * d; let t = (-s - b) * d; if r == t { vec![r] } else { vec![r, t] } }
    })
}

impl<F: PrimeField> System<F> {
    /// Every satisfying assignment in which each pinned wire has its value.
    pub fn solve(&self, pins: &[(Wire<F>, F)]) -> Solutions<F> { self.solve_with(pins, false, false) }
    /// The same, but parts that cannot be enumerated are left unresolved (and taken to be satisfiable).
    pub fn solve_open(&self, pins: &[(Wire<F>, F)]) -> Solutions<F> { self.solve_with(pins, true, false) }
    /// Also drops every root of a quadratic equation that makes another equation unsolvable.
    pub fn solve_probing(&self, pins: &[(Wire<F>, F)]) -> Solutions<F> { self.solve_with(pins, true, true) }
    /// Whether linear consequences alone show that there is no solution.
    pub fn refuted(&self, pins: &[(Wire<F>, F)]) -> bool {
        let cx = Ctx { sys: self, dused: vec![false; self.gates.len()], elems: None, nodes: AtomicU64::new(1) };
        self.start(&cx, pins).bad
    }
    fn start(&self, cx: &Ctx<F>, pins: &[(Wire<F>, F)]) -> State<F> {
        let mut st = State { subst: vec![None; self.vars as usize], gates: (0..self.gates.len()).map(|i| (i, false)).collect(), bad: false };
        for (w, v) in pins { st.zero(&Wire::combine([(w.clone(), F::ONE), (Wire::konst(F::ONE), -*v)])); }
        for z in &self.zeros { st.zero(z); }
        st.propagate(cx);
        st
    }
    fn solve_with(&self, pins: &[(Wire<F>, F)], open: bool, probe: bool) -> Solutions<F> {
        // The auxiliary wire of a gate only matters if anything refers to it.
        let mut uses = vec![0u32; self.vars as usize];
        let mut count = |w: &Wire<F>| for (v, _) in w.terms() { uses[*v as usize] += 1; };
        for g in &self.gates { count(&g.a); count(&g.b); count(&g.c); count(&g.d); }
        for z in &self.zeros { count(z); }
        for (w, _) in pins { count(w); }
        let dused = self.gates.iter().map(|g| g.d.terms().iter().any(|(v, _)| uses[*v as usize] > 1) || g.d.t.is_none()).collect();
        let small = F::NUM_BITS <= 14;
        let elems = small.then(|| { let mut v = vec![]; let mut x = F::ZERO; loop { v.push(x); x += F::ONE; if x == F::ZERO { break; } } assert!(v.len() as u64 <= MAX_BRANCH); v });
        let cx = Ctx { sys: self, dused, elems, nodes: AtomicU64::new(1) };
        let mut st = self.start(&cx, pins);
        if probe { st.probe(&cx); }
        let mut parts = vec![];
        let mut unresolved = BTreeSet::new();
        if !st.bad {
            for (u, gates) in st.split(&cx) {
                let mut alts = vec![];
                let mut s = st.clone();
                s.gates = gates;
                if open && s.single(&cx).is_none() { unresolved.extend(u); continue; }
                s.enumerate(&cx, &mut alts);
                if alts.is_empty() { st.bad = true; break; }
                parts.push((u, alts));
            }
        }
        Solutions { base: st, parts, unresolved, nodes: cx.nodes.into_inner() }
    }
}

impl<F: PrimeField> Solutions<F> {
    pub fn satisfiable(&self) -> bool { !self.base.bad }
    /// Number of alternatives found over all independent parts.
    pub fn alternatives(&self) -> u64 { self.parts.iter().fold(1u64, |a, p| a.saturating_mul(p.1.len() as u64)) }
    /// A wire as a combination of the unknowns that are left, and whether these are free.
    pub fn form(&self, w: &Wire<F>) -> (Wire<F>, bool) {
        let n = self.base.norm(w);
        let free = n.terms().iter().all(|(v, _)| !self.unresolved.contains(v) && self.parts.iter().all(|p| !p.0.contains(v)));
        (n, free)
    }
    /// All variables whose value is determined.
    pub fn known(&self) -> Vec<(Wire<F>, F)> { (0..self.base.subst.len() as u32).filter_map(|v| { let n = self.base.norm(&Wire::var(v)); n.t.is_none().then(|| (Wire::var(v), n.k)) }).collect() }
    /// Whether every equation was resolved.
    pub fn complete(&self) -> bool { self.unresolved.is_empty() }
    pub fn values(&self, ws: &[Wire<F>]) -> Values<F> {
        if self.base.bad { return Values::None; }
        let ns: Vec<Wire<F>> = ws.iter().map(|w| self.base.norm(w)).collect();
        let mut touched = vec![];
        let mut known: BTreeSet<u32> = BTreeSet::new();
        for (i, (u, _)) in self.parts.iter().enumerate() {
            if ns.iter().any(|n| n.terms().iter().any(|(v, _)| u.contains(v))) { touched.push(i); known.extend(u.iter()); }
        }
        if ns.iter().any(|n| n.terms().iter().any(|(v, _)| !known.contains(v))) { return Values::Unbounded; }
        // Contribution of each touched part to every wire.
        let mut acc: BTreeMap<Vec<Vec<u8>>, Vec<F>> = BTreeMap::new();
        let key = |t: &[F]| t.iter().map(|x| x.to_repr().as_ref().to_vec()).collect::<Vec<_>>();
        let start: Vec<F> = ns.iter().map(|n| n.k).collect();
        acc.insert(key(&start), start);
        for i in touched {
            let (u, alts) = &self.parts[i];
            let mut next = BTreeMap::new();
            for s in alts {
                let mut add = vec![];
                for n in &ns {
                    let mine = Wire::combine(n.terms().iter().filter(|(v, _)| u.contains(v)).map(|(v, c)| (Wire::var(*v), *c)));
                    let r = s.norm(&mine);
                    if r.t.is_some() { return Values::Unbounded; }
                    add.push(r.k);
                }
                for t in acc.values() { let t: Vec<F> = t.iter().zip(&add).map(|(a, b)| *a + *b).collect(); next.insert(key(&t), t); }
            }
            acc = next;
            assert!(acc.len() < 1 << 20, "too many joint values");
        }
        Values::Some(acc.into_values().collect())
    }
    /// The single value a wire takes, if there is exactly one.
    pub fn unique(&self, w: &Wire<F>) -> Option<F> { match self.values(std::slice::from_ref(w)) { Values::Some(v) if v.len() == 1 => Some(v[0][0]), _ => None } }
}
