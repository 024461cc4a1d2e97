#![allow(clippy::all)]
mod b01;
mod b02;
mod b03;
mod b04;
mod b05;
mod b07;
mod b08;
mod conc;
mod kill;
mod ring;
mod steps;
mod seq;

fn main() {
  if let Ok(a) = std::env::var("H_BUF_CHILD") {
    return if a == "selftest" { b07::selftest() } else { kill::child(&a) };
  }
  vh::main(|c| match c.id.clone().as_str() {
    "B01" => b01::run(c),
    "B02" => b02::b02(c),
    "B03" => b03::run(c),
    "B04" => {
      if c.only.is_none_or(|n| n < 1_000_000) {
        b04::run(c);
      }
      b04::blocked(c);
    },
    "B05" => b05::run(c),
    "B06" => b02::b06(c),
    "B07" => b07::run(c),
    "B08" => b08::run(c),
    x => panic!("{x}"),
  });
}
