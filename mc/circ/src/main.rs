#[cfg(not(feature = "r03"))]
#[allow(dead_code)]
mod prog;
#[cfg(feature = "a04")]
mod a04;
#[cfg(feature = "c01")]
mod c01;
#[cfg(any(feature = "r01", feature = "r02", feature = "a04"))]
#[allow(dead_code)]
mod r01;
#[cfg(feature = "r02")]
mod r02;
#[cfg(any(feature = "c01", feature = "r02"))]
mod txz;
#[cfg(feature = "r03")]
mod r03;
#[cfg(feature = "r04")]
mod r04;
#[cfg(feature = "r05")]
mod r05;
#[cfg(feature = "r06")]
mod r06;
#[cfg(any(feature = "r07", feature = "r07seq"))]
mod r07;

fn main() {
    #[cfg(feature = "r07seq")]
    return r07::print_results();
    #[allow(unreachable_code)]
    let ctx = kit::Ctx::from_args();
    match ctx.property.as_str() {
        #[cfg(feature = "a04")]
        "A04" => a04::run(&ctx),
        #[cfg(feature = "c01")]
        "C01" => c01::run(&ctx),
        #[cfg(feature = "r01")]
        "R01" => r01::run(&ctx),
        #[cfg(feature = "r02")]
        "R02" => r02::run(&ctx),
        #[cfg(feature = "r03")]
        "R03" => r03::run(&ctx),
        #[cfg(feature = "r04")]
        "R04" => r04::run(&ctx),
        #[cfg(feature = "r05")]
        "R05" => r05::run(&ctx),
        #[cfg(feature = "r06")]
        "R06" => r06::run(&ctx),
        #[cfg(feature = "r07")]
        "R07" => r07::run(&ctx),
        p => { eprintln!("unknown property {p}"); std::process::exit(3) }
    }
    ctx.finish()
}
