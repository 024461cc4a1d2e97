#![allow(clippy::all)]
mod n01;
mod n02;
mod n03;
mod n04;
mod net;

fn main() {
  vh::main(|c| {
    net::install();
    match c.id.clone().as_str() {
      "N01" => n01::run(c),
      "N02" => n02::run(c),
      "N03" => n03::run(c),
      "N04" => n04::run(c),
      x => panic!("{x}"),
    }
  });
}
