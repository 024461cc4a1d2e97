#![allow(clippy::all)]
mod c01;
mod c02;
mod world;

fn main() {
  vh::main(|c| match c.id.clone().as_str() {
    "C01" => c01::run(c),
    "C02" => c02::run(c),
    x => panic!("{x}"),
  });
}
