#![allow(clippy::all)]
mod gen;
mod l03;
mod l07;
mod l12;

fn main() {
  vh::main(|c| match c.id.clone().as_str() {
    "L01" => l12::l01(c),
    "L02" => l12::l02(c),
    "L03" => l03::run(c),
    "L07" => l07::run(c),
    x => panic!("{x}"),
  });
}
