//! Checks of the documentation generator (C11, C12).
mod c11;
mod c12;
mod doc;

fn main() {
    simdrv::exec::init();
    match simdrv::exec::take_sub().as_deref() {
        Some("C11") => simdrv::main(c11::C11),
        Some("C12") => simdrv::main(c12::C12),
        other => {
            eprintln!("unknown check {other:?}");
            std::process::exit(2);
        },
    }
}
