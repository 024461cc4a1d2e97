#![allow(clippy::all)]
mod alloc;
mod f02;
mod t01;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
  vh::main(|c| match c.id.clone().as_str() {
    "F02" => f02::run(c),
    "T01" => t01::run(c),
    x => panic!("{x}"),
  });
}
