//! Compiles (and runs) small generated programs against the crates built for
//! this check. The runner passes the library paths in the environment:
//! MC_RUSTC, MC_DEPS (dependency directory), MC_LIB_<crate>, MC_SCRATCH.
use crate::CellCtx;
use std::path::PathBuf;
use std::process::Command;

pub struct Probe<'a, 'b> {
    c: &'a CellCtx<'b>,
    externs: Vec<(String, String)>,
    dir: PathBuf,
    pub manifest_dir: String,
    pub opt: &'static str,
}

pub struct Out { pub compiled: bool, pub ran: bool, pub text: String }

impl<'a, 'b> Probe<'a, 'b> {
    /// `crates`: whitespace separated list of `name` or `alias=name`.
    pub fn new(c: &'a CellCtx<'b>, crates: &str) -> Self {
        let externs = crates.split_whitespace().map(|n| {
            let (alias, name) = n.split_once('=').unwrap_or((n, n));
            (alias.to_string(), std::env::var(format!("MC_LIB_{name}")).unwrap_or_else(|_| panic!("MC_LIB_{name} not set: run through run.sh")))
        }).collect();
        let dir = PathBuf::from(std::env::var("MC_SCRATCH").expect("MC_SCRATCH"));
        std::fs::create_dir_all(&dir).unwrap();
        Probe { c, externs, dir, manifest_dir: std::env::var("MC_MANIFEST_DIR").unwrap_or_default(), opt: "0" }
    }
    pub fn dir(&self) -> &PathBuf { &self.dir }
    pub fn exec(&self, id: &str, src: &str, run: bool) -> Out {
        let file = self.dir.join(format!("{id}.rs"));
        let exe = self.dir.join(format!("{id}.bin"));
        std::fs::write(&file, src).unwrap();
        let mut cmd = Command::new(std::env::var("MC_RUSTC").unwrap_or("rustc".into()));
        cmd.arg("--edition").arg("2024").arg("--crate-name").arg("probe").arg("-Awarnings").arg(format!("-Copt-level={}", self.opt)).arg("-Cdebuginfo=0").arg("-Ccodegen-units=4")
            .arg("-L").arg(format!("dependency={}", std::env::var("MC_DEPS").expect("MC_DEPS")));
        for (a, p) in &self.externs { cmd.arg("--extern").arg(format!("{a}={p}")); }
        cmd.arg("-o").arg(&exe).arg(&file).env("CARGO_MANIFEST_DIR", &self.manifest_dir).env("CARGO_PKG_NAME", "probe");
        let o = cmd.output().expect("rustc");
        let mut text = String::from_utf8_lossy(&o.stderr).to_string();
        let compiled = o.status.success();
        let mut ran = false;
        if compiled && run {
            let o = Command::new(&exe).output().expect("probe");
            ran = o.status.success();
            text = format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
        }
        let _ = std::fs::remove_file(&exe);
        Out { compiled, ran, text }
    }
    /// Compiles all programs (each with a `pub fn main`) as modules of one
    /// crate; if that fails, one by one to find the culprits.
    pub fn must_run_all(&self, progs: &[(String, String)]) {
        let mut all = String::new();
        for (i, (_, p)) in progs.iter().enumerate() { all += &format!("mod m{i} {{ {p} }}\n"); }
        all += "fn main() {\n";
        for i in 0..progs.len() { all += &format!(" m{i}::main();\n"); }
        all += "}\n";
        let o = self.exec("all", &all, true);
        for (n, _) in progs { self.c.tick(); self.c.outcome("runs"); self.c.sample(|| n.clone()); }
        if o.ran { return; }
        let items: Vec<usize> = (0..progs.len()).collect();
        let before = self.c.ctx.nviol.load(std::sync::atomic::Ordering::Relaxed);
        self.c.par(&items, |i| {
            let (n, p) = &progs[*i];
            let o = self.exec(&format!("one{i}"), &format!("mod m {{ {p} }} fn main() {{ m::main() }}"), true);
            if !o.ran { self.c.violation(n.clone(), format!("{}: {}", if o.compiled { "fails when run" } else { "does not compile" }, o.text)); }
        });
        if self.c.ctx.nviol.load(std::sync::atomic::Ordering::Relaxed) == before { self.c.violation("all programs together", o.text); }
    }
    /// Each program must be refused by the compiler.
    pub fn must_fail_all(&self, progs: &[(String, String)]) {
        let items: Vec<usize> = (0..progs.len()).collect();
        self.c.par(&items, |i| {
            let (n, p) = &progs[*i];
            let o = self.exec(&format!("rej{i}"), p, false);
            self.c.tick();
            self.c.outcome("refused");
            self.c.sample(|| n.clone());
            if o.compiled { self.c.violation(n.clone(), "compiles, but must be refused"); }
        });
    }
}
