//! Checks of the parser and linter (C08-C10).
mod c08;
mod c09;
mod c10;
mod lint;

fn main() {
    simdrv::exec::init();
    match simdrv::exec::take_sub().as_deref() {
        Some("C08") => simdrv::main(c08::C08),
        Some("C09") => simdrv::main(c09::C09),
        Some("C10") => simdrv::main(c10::C10),
        other => {
            eprintln!("unknown check {other:?}");
            std::process::exit(2);
        },
    }
}
