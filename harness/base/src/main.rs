#![allow(clippy::all)]
mod h01;
mod h02;
mod h03;
mod k01;
mod k02;
mod l04;
mod l05;
mod l06;
mod m01;
mod m02;
mod m03;
mod r01;
mod r02;
mod r03;
mod s01;
mod s02;
use vstore as store;

fn main() {
  let a: Vec<String> = std::env::args().skip(1).collect();
  if a.first().is_some_and(|a| a == "child") {
    match a[1].as_str() {
      "H01" => h01::child(&a[2 ..]),
      "H03" => h03::child(&a[2 ..]),
      "R03" => r03::child(&a[2 ..]),
      x => panic!("{x}"),
    }
    return;
  }
  vh::main(|c| match c.id.clone().as_str() {
    "H01" => h01::run(c),
    "H02" => h02::run(c),
    "H03" => h03::run(c),
    "K01" => k01::run(c),
    "K02" => k02::run(c),
    "L04" => l04::run(c),
    "L05" => l05::run(c),
    "L06" => l06::run(c),
    "M01" => m01::run(c),
    "M02" => m02::run(c),
    "M03" => m03::run(c),
    "R01" => r01::run(c),
    "R02" => r02::run(c),
    "R03" => r03::run(c),
    "S01" => s01::run(c),
    "S02" => s02::run(c),
    x => panic!("{x}"),
  });
}
