#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod choice;
mod driver;
mod exec;
mod gen;
mod model;
mod obs;
mod props;
mod sched;
mod vos;

#[global_allocator]
static ALLOC: sched::Alloc = sched::Alloc;

fn main() {
    vos::install();
    driver::main();
}
