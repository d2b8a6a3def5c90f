mod unit;
#[cfg(any(feature = "p01", feature = "p02"))]
mod prog;
#[cfg(feature = "p01")]
mod p01;
#[cfg(feature = "p02")]
mod p02;
#[cfg(any(feature = "p03", feature = "p04"))]
mod p03;
#[cfg(feature = "p04")]
mod p04;

#[cfg(feature = "p05")]
mod p05;

#[cfg(feature = "p06")]
mod p06;

fn main() {
    let ctx = kit::Ctx::from_args();
    match ctx.property.as_str() {
        #[cfg(feature = "p01")]
        "P01" => p01::run(&ctx),
        #[cfg(feature = "p02")]
        "P02" => p02::run(&ctx),
        #[cfg(feature = "p03")]
        "P03" => p03::run(&ctx),
        #[cfg(feature = "p04")]
        "P04" => p04::run(&ctx),
        #[cfg(feature = "p05")]
        "P05" => p05::run(&ctx),
        #[cfg(feature = "p06")]
        "P06" => p06::run(&ctx),
        p => { eprintln!("unknown property {p}"); std::process::exit(3) }
    }
    ctx.finish()
}
