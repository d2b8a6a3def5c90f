#[cfg(feature = "m02")]
mod m02;
fn main() {
    let ctx = kit::Ctx::from_args();
    match ctx.property.as_str() {
        #[cfg(feature = "m02")]
        "M02" => m02::run(&ctx),
        p => { eprintln!("unknown property {p}"); std::process::exit(3) }
    }
    ctx.finish()
}
