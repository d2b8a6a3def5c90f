#[cfg(feature = "a01")]
mod a01;
#[cfg(feature = "a02")]
mod a02;
#[cfg(feature = "a03")]
mod a03;
#[cfg(feature = "a06")]
mod a06;

fn main() {
    let ctx = kit::Ctx::from_args();
    match ctx.property.as_str() {
        #[cfg(feature = "a01")]
        "A01" => a01::run(&ctx),
        #[cfg(feature = "a02")]
        "A02" => a02::run(&ctx),
        #[cfg(feature = "a03")]
        "A03" => a03::run(&ctx),
        #[cfg(feature = "a06")]
        "A06" => a06::run(&ctx),
        p => { eprintln!("unknown property {p}"); std::process::exit(3) }
    }
    ctx.finish()
}
