mod alloc;
mod client;
mod corrupt;
mod disk;
mod fsw;
mod gen;
mod geo;
mod hash;
mod image;
mod jbd;
mod model;
mod plan;
mod rec;
mod rng;
mod runner;
mod scenario;
mod world;

#[global_allocator]
static A: alloc::Capped = alloc::Capped;

fn main() {
    std::process::exit(runner::main());
}
