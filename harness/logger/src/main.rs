#![allow(clippy::all)]
mod e01;
mod f01;
mod g01;
mod g02;
mod g03;
mod g04;
mod g05;
mod g06;
mod g07;
mod g08;
mod g09;

fn main() {
  if let Ok(a) = std::env::var("H_LOGGER_CHILD") {
    if let Some(seed) = a.strip_prefix("E01 ") {
      return e01::child(seed.parse().unwrap());
    }
    return g05::child(&a);
  }
  vh::main(|c| match c.id.clone().as_str() {
    "E01" => e01::run(c),
    "F01" => f01::run(c),
    "G03" => g03::run(c),
    "G01" => g01::run(c),
    "G02" => g02::run(c),
    "G04" => g04::run(c),
    "G05" => g05::run(c),
    "G06" => g06::run(c),
    "G07" => g07::run(c),
    "G08" => g08::run(c),
    "G09" => g09::run(c),
    x => panic!("{x}"),
  });
}
