mod checks;
mod crc;
mod disk;
mod dump;
mod engine;
mod hash;
mod img;
mod journal;
mod ops;
mod rng;
mod runner;
mod steps;
mod world;

#[global_allocator]
static ALLOC: steps::Counting = steps::Counting;

fn main() {
    runner::main();
}
