mod alloc; mod build; mod dec; mod enc; mod entropy; mod flags; mod gen; mod model; mod mutf; mod ops; mod proj; mod runner; mod sched; mod sim; mod stream; mod tape; mod text;
mod scen; mod damage; mod limits; mod parts;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    sim::install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = runner::main(&a);
    // leave without waiting for simulated threads that are stuck
    std::process::exit(code);
}
