#![allow(clippy::all)]
mod t02;
mod t03;

fn main() {
  vh::main(|c| match c.id.clone().as_str() {
    "T02" => t02::run(c),
    "T03" => t03::run(c),
    x => panic!("{x}"),
  });
}
