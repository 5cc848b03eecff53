//! Check C12, linked against the snapcd library. (One binary per check: a change of the library's
//! interface that one of them cannot be built against leaves the others alone.)
#[path = "../c12.rs"]
mod check;
#[path = "../guard.rs"]
mod guard;
pub use guard::guard;

fn main() {
    std::process::exit(vc::runner::main(vec![check::check()], true));
}
