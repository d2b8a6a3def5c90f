//! M03: 256-bit literals. Every literal of an enumerated language is compiled
//! through the real macro and the compiled arrays are compared with big-integer
//! arithmetic; every over-long literal must be refused.
use kit::{CellCtx, Ctx};
use num_bigint::BigUint;
use std::collections::BTreeMap;

fn limbs(n: &BigUint) -> [u64; 4] {
    let d = n.to_u64_digits();
    let mut o = [0; 4];
    o[..d.len()].copy_from_slice(&d);
    o
}
fn one() -> BigUint { BigUint::from(1u8) }

/// The integers of the language.
fn values(thorough: bool) -> BTreeMap<BigUint, &'static str> {
    let mut v = BTreeMap::new();
    for i in 0..256usize {
        v.entry(one() << i).or_insert("single bit");
        v.entry((one() << i) - one()).or_insert("low mask");
        v.entry((one() << 256usize) - (one() << i)).or_insert("high mask");
        if thorough { v.entry((one() << i) + one()).or_insert("bit and one"); for j in 0..i { if j % 13 == 0 { v.entry((one() << i) | (one() << j)).or_insert("two bits"); } } }
    }
    // every pattern of {0, 1, 2^63, 2^64-1} per limb
    for t in kit::tuples(4, 4) {
        let mut n = BigUint::default();
        for (k, p) in t.iter().enumerate() { n |= BigUint::from([0u64, 1, 1 << 63, u64::MAX][*p as usize]) << (64 * k); }
        v.entry(n).or_insert("limb pattern");
    }
    // distinct bytes in every position
    v.insert((0..32u8).fold(BigUint::default(), |a, b| (a << 8usize) | BigUint::from(b + 1)), "byte ladder");
    v.insert((0..32u8).fold(BigUint::default(), |a, b| (a << 8usize) | BigUint::from(0xff - 3 * b)), "byte ladder down");
    v.retain(|n, _| n.bits() <= 256);
    v
}

/// Spellings of an integer: bases, upper case, leading zeros, underscores.
fn spellings(n: &BigUint) -> Vec<String> {
    let mut o = vec![];
    for (radix, prefix) in [(10u32, ""), (16, "0x"), (8, "0o"), (2, "0b")] {
        let d = n.to_str_radix(radix);
        o.push(format!("{prefix}{d}"));
        o.push(format!("{prefix}0{d}"));
        o.push(format!("{prefix}{}_", d.as_bytes().rchunks(if radix == 2 { 8 } else { 3 }).rev().map(|c| std::str::from_utf8(c).unwrap()).collect::<Vec<_>>().join("_")));
        if radix == 16 { o.push(format!("{prefix}{}", d.to_uppercase())); o.push(format!("{prefix}_{:0>64}", d)); }
    }
    o
}

fn accepted(c: &CellCtx) {
    let mut lits = vec![];
    for (i, (n, why)) in values(c.thorough()).iter().enumerate() {
        let sp = spellings(n);
        let always = *why == "limb pattern" && i % 4 == 0 || why.contains("ladder");
        for (k, s) in sp.iter().enumerate() {
            // canonical spelling of every integer in each base; the variants in rotation
            let canonical = !s.contains('_') && !s.trim_start_matches("0x").trim_start_matches("0o").trim_start_matches("0b").starts_with('0');
            if canonical || always || (i + k) % 5 == 0 || c.thorough() { lits.push((s.clone(), limbs(n))); }
        }
        c.outcome(why);
    }
    c.sample(|| lits[0].0.clone());
    c.sample(|| lits[lits.len() / 2].0.clone());
    c.sample(|| lits[lits.len() - 1].0.clone());
    let p = kit::probe::Probe::new(c, "ragu_arithmetic");
    // Eight programs in parallel; each prints its arrays.
    let chunks: Vec<(usize, &[(String, [u64; 4])])> = lits.chunks(lits.len().div_ceil(8)).enumerate().collect();
    c.par(&chunks, |(k, ch)| {
        let src = |ls: &[(String, [u64; 4])]| format!("use ragu_arithmetic::repr256;\nconst T: &[[u64; 4]] = &[\n{}];\nfn main() {{ for t in T {{ println!(\"{{}} {{}} {{}} {{}}\", t[0], t[1], t[2], t[3]); }} }}", ls.iter().map(|(l, _)| format!("repr256!({l}),\n")).collect::<String>());
        let o = p.exec(&format!("lits{k}"), &src(ch), true);
        let read = |t: &str| t.lines().map(|l| l.split(' ').map(|x| x.parse::<u64>().unwrap_or(0)).collect::<Vec<_>>()).collect::<Vec<_>>();
        if o.ran {
            let got = read(&o.text);
            c.same(&got.len(), &ch.len(), || "number of arrays printed".into());
            for ((l, want), g) in ch.iter().zip(got) { c.same(&g, &want.to_vec(), || format!("literal {l}")); c.tick(); }
        } else {
            // find one culprit
            let mut lo = 0; let mut hi = ch.len();
            while hi - lo > 1 { let mid = (lo + hi) / 2; if p.exec(&format!("bis{k}"), &src(&ch[lo..mid]), true).ran { lo = mid } else { hi = mid } }
            c.violation(format!("literal {}", ch[lo].0), format!("not accepted: {}", o.text));
        }
    });
}

fn refused(c: &CellCtx) {
    let p = kit::probe::Probe::new(c, "ragu_arithmetic");
    let mut bad: Vec<(String, String)> = vec![];
    let mut over = vec![];
    for i in 256..=(if c.thorough() { 600 } else { 330 }) { over.push(one() << (i as usize)); }
    over.push((one() << 256usize) + one());
    over.push((one() << 257usize) - one());
    over.push((one() << 256usize) + (one() << 255usize));
    over.push((one() << 320usize) - one());
    over.push((one() << 512usize) - one());
    let mk = |l: &str| format!("fn main() {{ let x = ragu_arithmetic::repr256!({l}); println!(\"{{:?}}\", x); }}");
    for (i, n) in over.iter().enumerate() {
        let sp = spellings(n);
        let l = &sp[i % sp.len()];
        bad.push((format!("literal {l}"), mk(l)));
    }
    for l in ["", "\"5\"", "5.0", "true", "-5", "x", "1, 2", "0x", "'a'", "b\"1\"", "1 + 1", "[1]"] { bad.push((format!("argument `{l}`"), mk(l))); }
    p.must_run_all(&[("a plain literal".into(), "pub fn main() { let x: [u64; 4] = ragu_arithmetic::repr256!(7); assert_eq!(x, [7, 0, 0, 0]); }".into())]);
    p.must_fail_all(&bad);
}

pub fn run(ctx: &Ctx) {
    ctx.assume("the literal language is enumerated up to the listed bit, limb, base and grouping alphabets");
    ctx.cell("accepted literals", accepted);
    ctx.cell("refused literals", refused);
}
