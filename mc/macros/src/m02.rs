//! M02: derived gadget code. A grammar of structure declarations is enumerated;
//! every structure is compiled through the real derive macros and exercised
//! against what its declaration says (see support.rs), and every member of a
//! grammar of malformed declarations must be refused by the compiler.
use kit::probe::Probe;
use kit::{CellCtx, Ctx};

/// (name, attributes, type, constructor from `n`, reader of `x` into `o`)
struct Field { name: &'static str, attrs: &'static str, ty: &'static str, mk: &'static str, flat: &'static str }
const FIELDS: &[Field] = &[
    Field { name: "wire", attrs: "#[ragu(wire)] #[ragu(skip)]", ty: "D::Wire", mk: "n.wire()", flat: "o.w(&$x)" },
    Field { name: "default", attrs: "", ty: "Leaf<'dr, D>", mk: "n.leaf()", flat: "o.l(&$x)" },
    Field { name: "value", attrs: "#[ragu(value)] #[ragu(skip)]", ty: "DriverValue<D, u64>", mk: "n.value()", flat: "o.v(&$x)" },
    Field { name: "gadget", attrs: "#[ragu(gadget)]", ty: "Leaf<'dr, D>", mk: "n.leaf()", flat: "o.l(&$x)" },
    Field { name: "phantom", attrs: "#[ragu(phantom)]", ty: "PhantomData<u8>", mk: "PhantomData", flat: "" },
    Field { name: "skipped default", attrs: "#[ragu(skip)]", ty: "Leaf<'dr, D>", mk: "n.leaf()", flat: "o.s(&$x)" },
    Field { name: "documented default", attrs: "/// A nested gadget.\n", ty: "Leaf<'dr, D>", mk: "n.leaf()", flat: "o.l(&$x)" },
    Field { name: "wire in one list", attrs: "#[ragu(wire, skip)]", ty: "D::Wire", mk: "n.wire()", flat: "o.w(&$x)" },
    Field { name: "documented wire", attrs: "/// doc\n#[ragu(skip)]\n/// more\n#[ragu(wire)]\n/// last\n", ty: "D::Wire", mk: "n.wire()", flat: "o.w(&$x)" },
    Field { name: "skipped gadget", attrs: "#[ragu(gadget)] #[ragu(skip)]", ty: "Leaf<'dr, D>", mk: "n.leaf()", flat: "o.s(&$x)" },
    Field { name: "attributed default", attrs: "#[allow(dead_code)] #[doc = \"gadget\"]", ty: "Leaf<'dr, D>", mk: "n.leaf()", flat: "o.l(&$x)" },
    Field { name: "value in one list", attrs: "#[ragu(skip, value)]", ty: "DriverValue<D, String>", mk: "n.string()", flat: "o.t(&$x)" },
    Field { name: "field value", attrs: "#[ragu(skip)] #[ragu(value)]", ty: "DriverValue<D, D::F>", mk: "n.felt()", flat: "o.f(&$x)" },
    Field { name: "pair", attrs: "#[ragu(gadget)]", ty: "(Leaf<'dr, D>, Leaf<'dr, D>)", mk: "(n.leaf(), n.leaf())", flat: "o.l(&$x.0); o.l(&$x.1)" },
    Field { name: "array", attrs: "", ty: "[Leaf<'dr, D>; 2]", mk: "[n.leaf(), n.leaf()]", flat: "o.l(&$x[0]); o.l(&$x[1])" },
    Field { name: "boxed", attrs: "", ty: "Box<Leaf<'dr, D>>", mk: "Box::new(n.leaf())", flat: "o.l(&$x)" },
    Field { name: "pair with unit", attrs: "#[ragu(gadget)]", ty: "((), Leaf<'dr, D>)", mk: "((), n.leaf())", flat: "o.l(&$x.1)" },
    Field { name: "nested", attrs: "", ty: "Nest<'dr, D>", mk: "Nest { a: n.leaf(), b: n.wire(), c: n.leaf() }", flat: "o.l(&$x.a); o.w(&$x.b); o.s(&$x.c)" },
    Field { name: "skipped phantom", attrs: "#[ragu(phantom, skip)]", ty: "PhantomData<D::F>", mk: "PhantomData", flat: "" },
];
const NEST: &str = "#[derive(Gadget, Write, Consistent)] pub struct Nest<'dr, D: Driver<'dr>> { a: Leaf<'dr, D>, #[ragu(wire)] #[ragu(skip)] b: D::Wire, #[ragu(skip)] c: Leaf<'dr, D> }\n";

/// (name, driver identifier, lifetime, generics, extra leading field, extra trailing field, extra arguments before / after the driver)
struct Header { name: &'static str, d: &'static str, l: &'static str, generics: &'static str, lead: Option<(&'static str, &'static str, &'static str, &'static str)>, trail: Option<(&'static str, &'static str, &'static str, &'static str)>, pre: &'static str, post: &'static str }
const ARR: (&str, &str, &str, &str) = ("", "[Leaf<'dr, D>; N]", "[n.leaf(), n.leaf(), n.leaf()]", "for i in 0..3 { o.l(&$x[i]) }");
const PHT: (&str, &str, &str, &str) = ("#[ragu(phantom)]", "PhantomData<T>", "PhantomData", "");
const HEADERS: &[Header] = &[
    Header { name: "plain", d: "D", l: "dr", generics: "<'dr, D: Driver<'dr>>", lead: None, trail: None, pre: "", post: "" },
    Header { name: "named driver", d: "MyD", l: "my", generics: "<'my, #[ragu(driver)] MyD: Driver<'my>>", lead: None, trail: None, pre: "", post: "" },
    Header { name: "qualified bound", d: "D", l: "dr", generics: "<'dr, D: ragu_core::drivers::Driver<'dr>>", lead: None, trail: None, pre: "", post: "" },
    Header { name: "marked qualified", d: "Dst", l: "src", generics: "<'src, #[ragu(driver)] Dst: ::ragu_core::drivers::Driver<'src>>", lead: None, trail: None, pre: "", post: "" },
    Header { name: "const after", d: "D", l: "dr", generics: "<'dr, D: Driver<'dr>, const N: usize>", lead: None, trail: Some(ARR), pre: "", post: ", 3" },
    Header { name: "const before", d: "D", l: "dr", generics: "<'dr, const N: usize, D: Driver<'dr>>", lead: Some(ARR), trail: None, pre: "3, ", post: "" },
    Header { name: "bound on the field", d: "D", l: "dr", generics: "<'dr, D: Driver<'dr>, T: Mark<D::F> + 'static>", lead: None, trail: Some(PHT), pre: "", post: ", Tag" },
    Header { name: "bound on the field, first", d: "MyD", l: "z", generics: "<'z, T: Mark<MyD::F> + 'static, #[ragu(driver)] MyD: Driver<'z>>", lead: Some(PHT), trail: None, pre: "Tag, ", post: "" },
    Header { name: "nested bound", d: "D", l: "dr", generics: "<'dr, D: Driver<'dr>, T: Mark2<D::F, (Option<D::F>, D::F)> + 'static>", lead: None, trail: Some(PHT), pre: "", post: ", Tag" },
    Header { name: "associated type in a bound", d: "D", l: "dr", generics: "<'dr, D: Driver<'dr>, T: HasOut<Out = D::F> + 'static>", lead: None, trail: Some(PHT), pre: "", post: ", Tag" },
    Header { name: "bound on an associated type", d: "Dr0", l: "src", generics: "<'src, T: HasOut<Out: Mark3<Dr0::F>> + Mark<Dr0::F> + 'static, #[ragu(driver)] Dr0: Driver<'src>>", lead: Some(PHT), trail: None, pre: "Tag, ", post: "" },
    Header { name: "several bounds on the driver", d: "D", l: "dr", generics: "<'dr, #[ragu(driver)] D: ragu_core::drivers::DriverTypes + Driver<'dr>>", lead: None, trail: None, pre: "", post: "" },
    Header { name: "another lifetime", d: "D", l: "dr", generics: "<'dr, 'a: 'static, D: Driver<'dr>>", lead: None, trail: Some(("#[ragu(phantom)]", "PhantomData<&'a ()>", "PhantomData", "")), pre: "'static, ", post: "" },
    Header { name: "two parameters", d: "D", l: "dr", generics: "<'dr, T: Mark<D::F> + 'static, D: Driver<'dr>, const N: usize>", lead: Some(PHT), trail: Some(ARR), pre: "Tag, ", post: ", 3" },
];
/// Names chosen to collide with anything the expansion might bind.
const NAMES: &[&str] = &["a", "b", "dr", "wm", "this", "buf", "tmp", "just", "r#type", "value", "is_send", "other", "result", "left", "f0", "f1", "x", "y", "zz", "q", "s", "w", "gadget", "phantom", "skip", "driver", "ty"];

#[derive(Debug)]
struct Decl { name: String, module: String }

fn decl(h: &Header, kinds: &[usize], rot: usize) -> Decl {
    let sub = |s: &str| s.replace("'dr", &format!("'{}", h.l)).replace("D::", &format!("{}::", h.d)).replace(", D>", &format!(", {}>", h.d)).replace("DriverValue<D,", &format!("DriverValue<{},", h.d));
    let mut fs: Vec<(String, String, String, String)> = vec![];
    let own = |x: (&str, &str, &str, &str)| (x.0.to_string(), sub(x.1), x.2.to_string(), x.3.to_string());
    if let Some(l) = h.lead { fs.push(own(l)); }
    for k in kinds { let f = &FIELDS[*k]; fs.push((f.attrs.into(), sub(f.ty), f.mk.into(), f.flat.into())); }
    if let Some(l) = h.trail { fs.push(own(l)); }
    let own_lt = format!("'{}", h.l);
    if !fs.iter().any(|f| f.1.contains(&own_lt) || f.1.contains("::F") || f.1.contains("::Wire")) { fs.push(("#[ragu(phantom)]".into(), format!("PhantomData<(&'{} (), {})>", h.l, h.d), "PhantomData".into(), "".into())); }
    let nm = |i: usize| NAMES[(i + rot) % NAMES.len()];
    let vis = ["pub ", "", "pub(crate) "][rot % 3];
    let fvis = ["", "pub ", "pub(super) "][rot / 3 % 3];
    let (g, name) = (h.generics, format!("{} {{ {} }}", h.name, kinds.iter().map(|k| FIELDS[*k].name).collect::<Vec<_>>().join(", ")));
    let body: String = fs.iter().enumerate().map(|(i, f)| format!("{} {fvis}{}: {},\n", f.0, nm(i), f.1)).collect();
    let mk: String = fs.iter().enumerate().map(|(i, f)| format!("let v{i} = {}; ", f.2)).collect::<String>();
    let init: String = fs.iter().enumerate().map(|(i, _)| format!("{}: v{i}, ", nm(i))).collect();
    let flat: String = fs.iter().enumerate().map(|(i, f)| f.3.replace("$x", &format!("s.{}", nm(i))) + ";").collect();
    let args = |l: &str, d: &str| format!("<{l}, {}{d}{}>", h.pre, h.post);
    let (sdr, sdn, sph, sin) = (args("'static", "Dr"), args("'static", "Dn"), args("'static", "PhantomData<F>"), args("'_", "_"));
    let module = format!("use super::*;\n#[derive(Gadget, Write, Consistent)]\n{vis}struct S{g} {{\n{body}}}\npub fn run(r: &mut Rep) {{\n  type K = <S{sdr} as Gadget<'static, Dr>>::Kind;\n  let name = {name:?};\n  check::<K, K>(r, name, (true, true), |n| {{ {mk} S {{ {init} }} }}, |n| {{ {mk} S {{ {init} }} }}, |s, o| {{ {flat} }});\n  r.kind::<ragu_core::gadgets::Kind![F; S{sin}], K>(name, \"shorthand\");\n  r.kind::<ragu_core::gadgets::Kind![F; S{sin}], <S{sph} as Gadget<'static, PhantomData<F>>>::Kind>(name, \"shorthand spelled out\");\n  r.kind::<ragu_core::gadgets::Kind![F; @S{sin}], S{sph}>(name, \"shorthand without projection\");\n  r.kind::<ragu_core::gadgets::Bound<'static, Dr, K>, S{sdr}>(name, \"rebinding\");\n  r.kind::<ragu_core::gadgets::Bound<'static, Dn, K>, S{sdn}>(name, \"rebinding without witness\");\n}}\n");
    Decl { name, module }
}
const HEAD: &str = "use m02_support::*;\nuse std::marker::PhantomData;\nuse ragu_core::drivers::{Driver, DriverValue};\nuse ragu_core::gadgets::Gadget;\nuse ragu_primitives::consistent::Consistent;\nuse ragu_primitives::io::Write;\n";

fn program(ds: &[Decl]) -> String {
    let mut s = String::from(HEAD);
    s += NEST;
    for (i, d) in ds.iter().enumerate() { s += &format!("mod s{i} {{\n{}}}\n", d.module); }
    s += "fn main() { let mut r = Rep::default();\n";
    for i in 0..ds.len() { s += &format!("s{i}::run(&mut r);\n"); }
    s + "r.finish() }\n"
}

fn run_decls(c: &CellCtx, p: &Probe, tag: &str, decls: Vec<Decl>) {
    let n = decls.len();
    for i in [0, n / 3, n - 1] { c.sample(|| decls[i].name.clone()); }
    let chunks: Vec<(usize, &[Decl])> = decls.chunks(n.div_ceil(16).max(1)).enumerate().collect();
    c.par(&chunks, |(k, ch)| {
        let o = p.exec(&format!("{tag}{k}"), &program(ch), true);
        if !o.ran { culprit(c, p, &format!("{tag}{k}"), ch); return; }
        let mut done = false;
        for l in o.text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "BAD" => c.violation(f[1], f[2]),
                "DONE" => { done = true; let (s, r): (u64, u64) = (f[1].parse().unwrap(), f[2].parse().unwrap()); c.states(s); c.transitions(r); c.traces(s); c.outcomes("structures", s); c.same(&s, &(ch.len() as u64), || "number of structures run".into()); }
                _ => {}
            }
        }
        c.check(done, || format!("{tag} group {k}"), || format!("did not finish: {}", o.text));
    });
}
/// A group that does not compile or run: find one structure responsible.
fn culprit(c: &CellCtx, p: &Probe, tag: &str, ch: &[Decl]) {
    let (mut lo, mut hi) = (0, ch.len());
    while hi - lo > 1 { let mid = (lo + hi) / 2; if p.exec(&format!("{tag}b"), &program(&ch[lo..mid]), true).ran { lo = mid } else { hi = mid } }
    let o = p.exec(&format!("{tag}b"), &program(&ch[lo..hi]), true);
    let text: String = o.text.chars().take(3000).collect();
    c.violation(ch[lo].name.clone(), format!("{}: {text}", if o.compiled { "fails when run" } else { "well-formed structure is refused" }));
}

fn shapes(c: &CellCtx) {
    let mut ds = vec![];
    let mut add = |h: usize, k: Vec<u64>| { let i = ds.len(); ds.push(decl(&HEADERS[h], &k.iter().map(|x| *x as usize).collect::<Vec<_>>(), i)); };
    let nf = FIELDS.len() as u64;
    let nh = HEADERS.len();
    add(0, vec![]);
    for h in 0..nh { for k in 0..nf { if c.thorough() || h == 0 || (h as u64 + k) % 3 == 0 { add(h, vec![k]); } } }
    let mut i = 0;
    for k in kit::tuples(nf, 2) { i += 1; if c.thorough() || i % 2 == 0 || k.iter().all(|x| *x < 7) { add(i % nh, k); } }
    for k in kit::tuples(if c.thorough() { 8 } else { 5 }, 3) { i += 1; add(i % nh, k); }
    for k in kit::tuples(if c.thorough() { 5 } else { 3 }, 4) { i += 1; add(i % nh, k); }
    // long structures: every kind once, in every rotation
    for r in 0..nf { i += 1; if c.thorough() || r % 2 == 0 { add(i % nh, (0..nf).map(|x| (x + r) % nf).collect()); add(i % nh, (0..nf).rev().map(|x| (x + r) % nf).collect()); } }
    // and many of one kind
    for k in 0..nf { for n in if c.thorough() { 5..13 } else { 9..10 } { i += 1; add(i % nh, vec![k; n]); } }
    let p = Probe::new(c, "ragu_core ragu_primitives ff m02_support");
    run_decls(c, &p, "s", ds);
}

fn kinds(c: &CellCtx) {
    // every type expression of a small grammar, written with inferred parts and spelled out
    let leafs = [("S<'_, _>", "S<'static, P>"), ("Q<'_, _, 2>", "Q<'static, P, 2>"), ("()", "()"), ("ragu_primitives::Element<'_, _>", "ragu_primitives::Element<'static, P>"), ("V<'_, Tag, _>", "V<'static, Tag, P>"), ("Z<'_, _, (_, u8, (_, u16, _), _)>", "Z<'static, P, (P, u8, (P, u16, P), P)>")];
    let mut lv: Vec<(String, String)> = leafs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    for depth in 0..if c.thorough() { 2 } else { 1 } {
        let cur = lv.clone();
        for (i, (a, b)) in cur.iter().enumerate() {
            lv.push((format!("Box<{a}>"), format!("Box<{b}>")));
            lv.push((format!("ragu_primitives::vec::FixedVec<{a}, ragu_primitives::vec::ConstLen<2>>"), format!("ragu_primitives::vec::FixedVec<{b}, ragu_primitives::vec::ConstLen<2>>")));
            for (j, (x, y)) in cur.iter().enumerate() { if depth == 0 || (i + j) % 7 == 0 { lv.push((format!("({a}, {x})"), format!("({b}, {y})"))); lv.push((format!("Box<(Box<{a}>, {x})>"), format!("Box<(Box<{b}>, {y})>"))); } }
        }
    }
    let mut s = String::from(HEAD);
    s += "use ragu_core::gadgets::Kind;\ntype P = PhantomData<F>;\n#[derive(Gadget, Write, Consistent)] pub struct S<'dr, D: Driver<'dr>> { a: Leaf<'dr, D> }\n#[derive(Gadget)] pub struct Q<'dr, D: Driver<'dr>, const N: usize> { a: [Leaf<'dr, D>; N] }\n#[derive(Gadget)] pub struct V<'dr, T: Mark<D::F> + 'static, D: Driver<'dr>> { a: Leaf<'dr, D>, #[ragu(phantom)] t: PhantomData<T> }\n#[derive(Gadget, Write, Consistent)] pub struct Z<'dr, D: Driver<'dr>, T: Send + Sync + 'static> { a: Leaf<'dr, D>, #[ragu(phantom)] t: PhantomData<T> }\ntrait Has { type T; }\nstruct G<X>(X);\n";
    let n = lv.len();
    for (i, (a, b)) in lv.iter().enumerate() {
        // also through a generic field parameter
        s += &format!("struct H{i}<X>(X); impl<X: ff::Field> Has for H{i}<X> {{ type T = Kind![X; {}]; }}\n", if b.contains("Tag") || a.is_empty() { "()".into() } else { a.clone() });
    }
    s += "fn main() { let mut r = Rep::default();\n";
    for (i, (a, b)) in lv.iter().enumerate() {
        s += &format!("r.structs += 1; r.kind::<Kind![F; {a}], <{b} as Gadget<'static, P>>::Kind>({a:?}, \"shorthand\"); r.kind::<Kind![F; @{a}], {b}>({a:?}, \"without projection\");\n");
        if !b.contains("Tag") { s += &format!("r.kind::<<H{i}<F> as Has>::T, <{b} as Gadget<'static, P>>::Kind>({a:?}, \"generic\");\n"); }
    }
    s += "r.finish() }";
    let p = Probe::new(c, "ragu_core ragu_primitives ff m02_support");
    let o = p.exec("kinds", &s, true);
    for (a, _) in lv.iter().step_by(n / 3) { c.sample(|| a.clone()); }
    let mut done = false;
    for l in o.text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] { "BAD" => c.violation(f[1], f[2]), "DONE" => { done = true; c.states(f[1].parse().unwrap()); c.transitions(f[2].parse().unwrap()); c.traces(f[1].parse().unwrap()); } _ => {} }
    }
    c.check(done, || "type shorthand".into(), || o.text.chars().take(3000).collect());
}

/// The crate paths a user may have: renamed dependencies.
fn paths(c: &CellCtx) {
    let mut p = Probe::new(c, "ragu_core ragu_primitives ff m02_support rc=ragu_core rp=ragu_primitives my_core=ragu_core my_prims=ragu_primitives");
    let body = |core: &str, prim: &str| {
        let mut s = HEAD.to_string() + NEST;
        s = s.replace("ragu_core::", &format!("{core}::")).replace("ragu_primitives::", &format!("{prim}::"));
        let d = decl(&HEADERS[0], &[0, 1, 2, 3, 17], 3);
        s += &format!("mod s0 {{ {} }}\nfn main() {{ let mut r = Rep::default(); s0::run(&mut r); r.finish() }}", d.module.replace("ragu_core::", &format!("{core}::")));
        s
    };
    let base = p.dir().clone();
    let cases: &[(&str, &str, &str, &str)] = &[
        ("plain", "ragu_core = \"0\"\nragu_primitives = \"0\"", "ragu_core", "ragu_primitives"),
        ("renamed core", "rc = { package = \"ragu_core\", version = \"0\" }\nragu_primitives = \"0\"", "rc", "ragu_primitives"),
        ("renamed primitives", "ragu_core = \"0\"\nrp = { package = \"ragu_primitives\", version = \"0\" }", "ragu_core", "rp"),
        ("both renamed", "rc = { package = \"ragu_core\", version = \"0\" }\nrp = { package = \"ragu_primitives\", version = \"0\" }", "rc", "rp"),
        ("renamed with dashes", "my-core = { package = \"ragu_core\", version = \"0\" }\nmy-prims = { package = \"ragu_primitives\", version = \"0\" }", "my_core", "my_prims"),
    ];
    for (i, (name, deps, core, prim)) in cases.iter().enumerate() {
        let dir = base.join(format!("user{i}"));
        std::fs::create_dir_all(dir.join("src")).unwrap();
        std::fs::write(dir.join("src/lib.rs"), "").unwrap();
        std::fs::write(dir.join("Cargo.toml"), format!("[package]\nname = \"probe\"\nversion = \"0.1.0\"\nedition = \"2024\"\n[workspace]\n[dependencies]\n{deps}\n")).unwrap();
        p.manifest_dir = dir.to_str().unwrap().into();
        let o = p.exec(&format!("path{i}"), &body(core, prim), true);
        c.tick();
        c.sample(|| name.to_string());
        c.check(o.ran && !o.text.contains("BAD"), || name.to_string(), || o.text.chars().take(2500).collect());
        // the other crates' names are not in scope there: resolution through them must not be needed
    }
    // without the crates in the manifest the derive is refused
    let dir = base.join("nobody");
    std::fs::create_dir_all(dir.join("src")).unwrap();
    std::fs::write(dir.join("src/lib.rs"), "").unwrap();
    std::fs::write(dir.join("Cargo.toml"), "[package]\nname = \"probe\"\nversion = \"0.1.0\"\nedition = \"2024\"\n[workspace]\n[dependencies]\n").unwrap();
    p.manifest_dir = dir.to_str().unwrap().into();
    let o = p.exec("nobody", &body("ragu_core", "ragu_primitives"), false);
    c.tick();
    c.check(!o.compiled, || "crates absent from the manifest".into(), || "compiles, but must be refused".into());
}

fn refused(c: &CellCtx) {
    let p = Probe::new(c, "ragu_core ragu_primitives ff m02_support");
    let wrap = |d: &str| format!("{HEAD}{d}\nfn main() {{}}\n");
    let mut good = vec![];
    let mut bad: Vec<(String, String)> = vec![];
    // every set of at least two field annotations, as separate attributes and as one list
    let names = ["value", "wire", "gadget", "phantom"];
    let tys = ["DriverValue<D, u64>", "D::Wire", "Leaf<'dr, D>", "PhantomData<u8>"];
    for mask in 1u32..16 {
        let on: Vec<usize> = (0..4).filter(|i| mask >> i & 1 == 1).collect();
        for order in 0..2 {
            let mut on = on.clone();
            if order == 1 { on.reverse(); }
            for style in 0..3 {
                let attrs = match style { 0 => on.iter().map(|i| format!("#[ragu({})]", names[*i])).collect::<Vec<_>>().join(" "), 1 => format!("#[ragu({})]", on.iter().map(|i| names[*i]).collect::<Vec<_>>().join(", ")), _ => on.iter().map(|i| format!("/// doc\n#[ragu({})] #[allow(dead_code)]\n", names[*i])).collect() };
                for (t, ty) in tys.iter().enumerate() {
                    let mut other = [("f", attrs.clone() + " f: " + ty), ("g", "g: Leaf<'dr, D>".into())];
                    if style == 2 { other.reverse(); }
                    let d = format!("#[derive(Gadget)] struct S<'dr, D: Driver<'dr>> {{ {} }}", other.iter().map(|x| x.1.clone() + ",").collect::<String>());
                    let name = format!("fields marked {:?} style {style} on {ty}", on.iter().map(|i| names[*i]).collect::<Vec<_>>());
                    if on.len() == 1 { if on[0] == t && order == 0 { good.push((name, format!("use super::*;\n{d}\npub fn main() {{}}"))); } }
                    else if on.contains(&t) && (style < 2 || c.thorough()) && (order == 0 || mask % 2 == 1 || c.thorough()) { bad.push((name, wrap(&d))); }
                }
            }
        }
    }
    // structures that are not plain named-field structures
    for der in ["Gadget", "Write", "Consistent"] {
        let pre = if der == "Gadget" { "Gadget".to_string() } else { der.to_string() };
        for (n, d) in [
            ("enum", "enum S<'dr, D: Driver<'dr>> { A { a: Leaf<'dr, D> } }"),
            ("enum without fields", "enum S { A, B }"),
            ("tuple structure", "struct S<'dr, D: Driver<'dr>>(Leaf<'dr, D>);"),
            ("marked tuple structure", "struct S<'dr, D: Driver<'dr>>(#[ragu(gadget)] Leaf<'dr, D>);"),
            ("unit structure", "struct S;"),
            ("union", "union S<'dr, D: Driver<'dr>> { a: std::mem::ManuallyDrop<Leaf<'dr, D>> }"),
            ("two lifetimes in the bound", "struct S<'dr, 'x, #[ragu(driver)] D: Driver<'dr, 'x>> { a: Leaf<'dr, D> }"),
            ("no lifetime in the bound", "struct S<'dr, #[ragu(driver)] D: Driver> { a: Leaf<'dr, D> }"),
            ("marked parameter that is not a driver", "struct S<'dr, #[ragu(driver)] D: Clone> { a: PhantomData<&'dr D> }"),
            ("marked parameter without bounds", "struct S<'dr, #[ragu(driver)] D> { a: PhantomData<&'dr D> }"),
            ("value that is not a gadget", "struct S<'dr, D: Driver<'dr>> { a: DriverValue<D, u64> }"),
            ("wire that is not marked", "struct S<'dr, D: Driver<'dr>> { a: D::Wire }"),
            ("plain data", "struct S<'dr, D: Driver<'dr>> { a: u64, #[ragu(phantom)] b: PhantomData<&'dr D> }"),
        ] {
            bad.push((format!("{der}: {n}"), wrap(&format!("#[derive({pre})] {d}"))));
        }
    }
    bad.push(("Write without Gadget".into(), wrap("#[derive(Write)] struct S<'dr, D: Driver<'dr>> { a: Leaf<'dr, D> }")));
    bad.push(("Write of an unskipped wire".into(), wrap("#[derive(Gadget, Write)] struct S<'dr, D: Driver<'dr>> { #[ragu(wire)] a: D::Wire }")));
    bad.push(("Consistent without Gadget".into(), wrap("#[derive(Consistent)] struct S<'dr, D: Driver<'dr>> { a: Leaf<'dr, D> }")));
    bad.push(("shorthand without field".into(), wrap("type X = ragu_core::gadgets::Kind![Leaf<'_, _>];")));
    bad.push(("shorthand of a non-gadget".into(), wrap("type X = ragu_core::gadgets::Kind![F; Vec<u8>]; fn f(_: X) {}")));
    p.must_run_all(&good.into_iter().map(|(n, s)| (n, s.replace("use super::*;", HEAD))).collect::<Vec<_>>());
    p.must_fail_all(&bad);
}

pub fn run(ctx: &Ctx) {
    ctx.assume("structures are enumerated up to the listed field kinds, lengths and header forms");
    ctx.cell("derived code of well-formed structures", shapes);
    ctx.cell("type shorthand", kinds);
    ctx.cell("crate path resolution", paths);
    ctx.cell("malformed structures are refused", refused);
}
