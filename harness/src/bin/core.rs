#[path = "../core/mod.rs"]
mod core_props;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "svg" {
        core_props::meta::svg_main(&a[2]);
    }
    vh::runner::main(core_props::PROPS)
}
