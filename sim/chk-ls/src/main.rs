//! Checks of the language server and the debug adapter (C13 to C19).
#![allow(static_mut_refs)]
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod dap;
mod lsp;

fn main() {
    simdrv::exec::init();
    match simdrv::exec::take_sub().as_deref() {
        Some("C13") => simdrv::main(c13::C13),
        Some("C14") => simdrv::main(c14::C14),
        Some("C15") => simdrv::main(c15::C15),
        Some("C16") => simdrv::main(c16::C16),
        Some("C17") => simdrv::main(c17::C17),
        Some("C18") => simdrv::main(c18::C18),
        Some("C19") => simdrv::main(c19::C19),
        other => {
            eprintln!("unknown check {other:?}");
            std::process::exit(2);
        },
    }
}
