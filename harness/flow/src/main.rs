#![allow(clippy::all)]
mod cond;
mod gen;
mod w01;
mod w02;
mod w03;
mod w04;
mod w05;
mod w06;
mod wf;

fn main() {
  vh::main(|c| match c.id.clone().as_str() {
    "W01" => w01::run(c),
    "W02" => w02::run(c),
    "W03" => w03::run(c),
    "W04" => w04::run(c),
    "W05" => w05::run(c),
    "W06" => w06::run(c),
    x => panic!("{x}"),
  });
}
