pub use vc::*;
mod c02;
mod c03;
mod c04;
mod c05;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c14;
mod c15;
mod c16;
mod c17;
mod c19;
mod c20;
mod c22;
mod c23;
mod c24;
mod c25;
mod excl;
mod fault;
mod hist;

fn main() {
    std::process::exit(vc::runner::main(vec![
        c02::check(),
        c03::check(),
        c04::check(),
        c05::check5(),
        c05::check6(),
        c07::check(),
        c08::check(),
        c09::check(),
        c10::check(),
        c11::check(),
        c05::check13(),
        c14::check(),
        c15::check(),
        c16::check(),
        c17::check(),
        c19::check(),
        c20::check(),
        c22::check(),
        c23::check(),
        c24::check(),
        c25::check(),
    ], false));
}
