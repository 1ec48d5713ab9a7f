mod alloc;
mod common;
mod corpus;
mod damage;
mod driver;
mod gram;
mod io;
mod memfs;
mod observe;
mod pieces;
mod props;
mod render;
mod report;
mod types;
mod sandbox;
mod util;
mod worker;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    match s.as_slice() {
        ["worker", id] => worker::worker(id),
        _ => std::process::exit(driver::main(&s)),
    }
}
