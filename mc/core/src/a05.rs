//! A05: the 136-bit integer against a plain 136-bit model, over all operation
//! sequences up to a depth from a boundary alphabet (states deduplicated by
//! the model value: the type has no other observable state).
use kit::{CellCtx, Ctx};
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[path = "/repo/crates/ragu_arithmetic/src/uendo.rs"]
#[allow(dead_code)]
mod uendo;
use uendo::Uendo;

/// High 8 bits and low 128 bits.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct M(u8, u128);
impl std::fmt::Debug for M { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:02x}{:032x}", self.0, self.1) } }
const W: usize = 136;
impl M {
    fn bit(&self, i: usize) -> bool { if i < 128 { (self.1 >> i) & 1 == 1 } else if i < W { (self.0 >> (i - 128)) & 1 == 1 } else { false } }
    fn from_bits(f: impl Fn(usize) -> bool) -> M { let mut m = M(0, 0); for i in 0..128 { if f(i) { m.1 |= 1 << i; } } for i in 0..8 { if f(128 + i) { m.0 |= 1 << i; } } m }
    fn shl(&self, s: usize) -> M { M::from_bits(|i| i >= s && self.bit(i - s)) }
    fn shr(&self, s: usize) -> M { M::from_bits(|i| i.checked_add(s).is_some_and(|j| self.bit(j))) }
    fn and(&self, o: &M) -> M { M(self.0 & o.0, self.1 & o.1) }
    fn or(&self, o: &M) -> M { M(self.0 | o.0, self.1 | o.1) }
}
/// Builds an implementation value through conversions only.
fn mk(m: M) -> Uendo { if m.0 == 0 { Uendo::from(m.1) } else { (Uendo::from(m.0 as u64) << 128) | Uendo::from(m.1) } }
/// Reads the numeric value out of the textual form.
fn show(u: Uendo) -> Option<M> {
    let s = format!("{u:?}");
    let h: String = s.split("0x").nth(1)?.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
    if h.len() < 34 && h.is_empty() { return None; }
    let h = format!("{:0>34}", h);
    let (extra, h) = h.split_at(h.len() - 34);
    if extra.chars().any(|c| c != '0') { return None; }
    Some(M(u8::from_str_radix(&h[..2], 16).ok()?, u128::from_str_radix(&h[2..], 16).ok()?))
}
/// Reads the value bit by bit with shifts and masks.
fn read_bits(u: Uendo) -> M { M::from_bits(|i| ((u >> i) & Uendo::ONE) == Uendo::ONE) }

fn agree(c: &CellCtx, u: Uendo, m: M, full: bool, key: impl Fn() -> String) {
    match show(u) { Some(s) => { c.same(&s, &m, || format!("{} (textual form)", key())); } None => c.violation(key(), format!("textual form {u:?}, expected {m:?}")) }
    let v = mk(m);
    c.check(u == v && v == u && !(u != v), || key(), || format!("not equal to {m:?}: {u:?}"));
    if full {
        c.same(&read_bits(u), &m, || format!("{} (bits)", key()));
        c.check((u >> 136) == Uendo::ZERO && (u << 136) == Uendo::ZERO, || key(), || "bits beyond the width".into());
    }
}

fn alphabet(dense: bool) -> Vec<M> {
    let mut v = BTreeSet::new();
    let all = M(0xff, u128::MAX);
    v.insert(M(0, 0)); v.insert(all); v.insert(M(0x55, u128::MAX / 3)); v.insert(M(0xaa, u128::MAX / 3 * 2)); v.insert(M(0x12, 0x3456789abcdef0fedcba98765432100f));
    for i in 0..W {
        let near = [0, 1, 7, 8, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 134, 135].contains(&i);
        if dense || near { v.insert(M::from_bits(|j| j == i)); v.insert(M::from_bits(|j| j <= i)); v.insert(M::from_bits(|j| j >= i)); v.insert(M::from_bits(|j| j != i)); }
    }
    v.into_iter().collect()
}
fn shifts(dense: bool) -> Vec<usize> {
    let mut v: Vec<usize> = if dense { (0..=300).collect() } else { vec![0, 1, 7, 8, 9, 63, 64, 65, 71, 72, 73, 127, 128, 129, 135, 136, 137, 191, 192, 193, 256] };
    v.extend([320, 384, 1 << 16, 1 << 32, (1 << 32) + 1, usize::MAX - 63, usize::MAX - 135, usize::MAX]);
    v
}

fn single(c: &CellCtx) {
    c.same(&(Uendo::BITS as usize), &W, || "declared width".into());
    agree(c, Uendo::ZERO, M(0, 0), true, || "ZERO".into());
    agree(c, Uendo::ONE, M(0, 1), true, || "ONE".into());
    agree(c, Uendo::default(), M(0, 0), true, || "default".into());
    let vals = alphabet(true);
    let sh = shifts(true);
    for m in &vals {
        if m.0 == 0 { agree(c, Uendo::from(m.1), *m, true, || format!("from u128 {m:?}")); c.tick(); }
        if m.0 == 0 && m.1 >> 64 == 0 { agree(c, Uendo::from(m.1 as u64), *m, true, || format!("from u64 {m:?}")); c.tick(); }
    }
    c.par(&vals, |m| {
        let u = mk(*m);
        agree(c, u, *m, true, || format!("{m:?}"));
        for s in &sh {
            agree(c, u << *s, m.shl(*s), false, || format!("{m:?} << {s}"));
            agree(c, u >> *s, m.shr(*s), false, || format!("{m:?} >> {s}"));
            let mut a = u; a <<= *s;
            agree(c, a, m.shl(*s), false, || format!("{m:?} <<= {s}"));
            c.states(3); c.transitions(3); c.traces(3);
        }
        for n in &vals {
            let w = mk(*n);
            agree(c, u & w, m.and(n), false, || format!("{m:?} & {n:?}"));
            agree(c, u | w, m.or(n), false, || format!("{m:?} | {n:?}"));
            let mut a = u; a |= w;
            agree(c, a, m.or(n), false, || format!("{m:?} |= {n:?}"));
            c.check((u == w) == (m == n) && (u != w) == (m != n), || format!("{m:?} == {n:?}"), || "equality is not numeric equality".into());
            c.states(4); c.transitions(4); c.traces(4);
        }
        c.sample(|| format!("{m:?}"));
    });
}

/// Breadth-first over operation sequences.
fn histories(c: &CellCtx) {
    let consts = alphabet(false);
    let sh = shifts(false);
    let depth = if c.thorough() { 4 } else { 3 };
    let cap = if c.thorough() { 3_000_000 } else { 150_000 };
    let mut seen: HashSet<M> = HashSet::new();
    let mut frontier: Vec<(M, Uendo)> = consts.iter().map(|m| (*m, mk(*m))).collect();
    for (m, _) in &frontier { seen.insert(*m); }
    for d in 0..depth {
        let next = std::sync::Mutex::new(BTreeMap::new());
        c.par(&frontier.iter().map(|(m, u)| Node(*m, *u)).collect::<Vec<_>>(), |Node(m, u)| {
            let mut out = vec![];
            for s in &sh {
                out.push((m.shl(*s), *u << *s, format!("<< {s}")));
                out.push((m.shr(*s), *u >> *s, format!(">> {s}")));
                let mut a = *u; a <<= *s; out.push((m.shl(*s), a, format!("<<= {s}")));
            }
            for k in &consts {
                out.push((m.and(k), *u & mk(*k), format!("& {k:?}")));
                out.push((m.or(k), *u | mk(*k), format!("| {k:?}")));
                let mut a = *u; a |= mk(*k); out.push((m.or(k), a, format!("|= {k:?}")));
            }
            for (w, v, op) in &out { agree(c, *v, *w, false, || format!("after {d} operations at {m:?}: {op}")); }
            c.transitions(out.len() as u64); c.traces(out.len() as u64);
            let mut n = next.lock().unwrap();
            for (w, v, _) in out { n.entry(w).or_insert(Keep(v)); }
        });
        frontier = next.into_inner().unwrap().into_iter().filter(|(m, _)| seen.insert(*m)).map(|(m, Keep(u))| (m, u)).collect();
        c.states(frontier.len() as u64);
        c.outcomes(&format!("new values at depth {}", d + 1), frontier.len() as u64);
        if seen.len() > cap { c.capped(&format!("stopped after depth {}: {} values (cap {cap}); everything up to that depth is covered", d + 1, seen.len())); break; }
    }
}
#[derive(Clone, Copy)]
struct Keep(Uendo);
struct Node(M, Uendo);
impl std::fmt::Debug for Node { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.0) } }

/// Random values: every answer of the generator from an alphabet.
struct Words(Vec<u64>, usize);
impl rand::rand_core::TryRng for Words {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> { Ok(self.try_next_u64()? as u32) }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> { let w = self.0[self.1 % self.0.len()]; self.1 += 1; Ok(w) }
    fn try_fill_bytes(&mut self, dst: &mut [u8]) -> Result<(), Self::Error> { for ch in dst.chunks_mut(8) { let w = self.try_next_u64()?; ch.copy_from_slice(&w.to_le_bytes()[..ch.len()]); } Ok(()) }
}
fn random(c: &CellCtx) {
    use rand::RngExt;
    let words = [0u64, u64::MAX, 1, 1 << 63, 0xff, !0xff, 0xaaaaaaaaaaaaaaaa, 0x5555555555555555];
    let (mut ors, mut ands) = (M(0, 0), M(0xff, u128::MAX));
    for t in kit::tuples(words.len() as u64, 4) {
        let mut r = Words(t.iter().map(|i| words[*i as usize]).collect(), 0);
        let u: Uendo = r.random();
        match show(u) {
            Some(m) => { agree(c, u, m, true, || format!("random from {:x?}", r.0)); ors = ors.or(&m); ands = ands.and(&m); }
            None => c.violation(format!("random from {:x?}", r.0), format!("out of range: {u:?}")),
        }
        c.tick();
    }
    c.check(ors == M(0xff, u128::MAX) && ands == M(0, 0), || "random".into(), || format!("some bit is constant: or {ors:?} and {ands:?}"));
}

pub fn run(ctx: &Ctx) {
    ctx.assume("values beyond the boundary alphabet are reached only through operation sequences");
    ctx.cell("single operations", single);
    ctx.cell("operation sequences", histories);
    ctx.cell("random values", random);
}
