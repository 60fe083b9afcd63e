//! Checks of map and icon storage and of the map renderer (C01-C07) and of their reports (C20).
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c20;
mod mapdump;

fn main() {
    simdrv::exec::init();
    match simdrv::exec::take_sub().as_deref() {
        Some("C01") => simdrv::main(c01::C01),
        Some("C02") => simdrv::main(c02::C02),
        Some("C03") => simdrv::main(c03::C03),
        Some("C04") => simdrv::main(c04::C04),
        Some("C05") => simdrv::main(c05::C05),
        Some("C06") => simdrv::main(c06::C06),
        Some("C07") => simdrv::main(c07::C07),
        Some("C20") => simdrv::main(c20::C20),
        other => {
            eprintln!("unknown check {other:?}");
            std::process::exit(2);
        },
    }
}
