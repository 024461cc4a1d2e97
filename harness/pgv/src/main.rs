#![allow(clippy::all)]
mod v01;

fn main() {
  vh::main(|c| match c.id.clone().as_str() {
    "V01" => v01::run(c),
    x => panic!("{x}"),
  });
}
