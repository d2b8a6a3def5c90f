#[cfg(feature = "a04")]
mod a04;
#[cfg(feature = "a05")]
mod a05;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "m01")]
mod m01;
#[cfg(feature = "m03")]
mod m03;

fn main() {
    let ctx = kit::Ctx::from_args();
    match ctx.property.as_str() {
        #[cfg(feature = "m01")]
        "M01" => m01::run(&ctx),
        #[cfg(feature = "m03")]
        "M03" => m03::run(&ctx),
        #[cfg(feature = "a04")]
        "A04" => a04::run(&ctx),
        #[cfg(feature = "a05")]
        "A05" => a05::run(&ctx),
        #[cfg(feature = "c02")]
        "C02" => c02::run(&ctx),
        p => { eprintln!("unknown property {p}"); std::process::exit(3) }
    }
    ctx.finish()
}
