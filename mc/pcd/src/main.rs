mod steps;
#[cfg(any(feature = "d02", feature = "d08", feature = "d09"))]
mod parts;
#[cfg(any(feature = "d02", feature = "d09"))]
mod claims;
#[cfg(feature = "d01")]
mod d01;
#[cfg(any(feature = "d02", feature = "d09"))]
mod d02;
#[cfg(any(feature = "d02", feature = "d09"))]
mod isolate;
#[cfg(feature = "d03")]
mod d03;
#[cfg(feature = "d04")]
mod d04;
#[cfg(feature = "d05")]
mod d05;
#[cfg(any(feature = "d05", feature = "d10"))]
mod sponge;
#[cfg(feature = "d06")]
mod d06;
#[cfg(feature = "d07")]
mod d07;
#[cfg(feature = "d08")]
mod d08;
#[cfg(feature = "d09")]
mod d09;
#[cfg(feature = "d10")]
mod d10;

fn main() {
    let ctx = kit::Ctx::from_args();
    match ctx.property.as_str() {
        #[cfg(feature = "d01")]
        "D01" => d01::run(&ctx),
        #[cfg(feature = "d02")]
        "D02" => d02::run(&ctx),
        #[cfg(feature = "d03")]
        "D03" => d03::run(&ctx),
        #[cfg(feature = "d04")]
        "D04" => d04::run(&ctx),
        #[cfg(feature = "d05")]
        "D05" => d05::run(&ctx),
        #[cfg(feature = "d06")]
        "D06" => d06::run(&ctx),
        #[cfg(feature = "d07")]
        "D07" => d07::run(&ctx),
        #[cfg(feature = "d08")]
        "D08" => d08::run(&ctx),
        #[cfg(feature = "d09")]
        "D09" => d09::run(&ctx),
        #[cfg(feature = "d10")]
        "D10" => d10::run(&ctx),
        p => { eprintln!("unknown property {p}"); std::process::exit(3) }
    }
    ctx.finish()
}
