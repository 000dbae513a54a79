//! race --seed N --secs T --out FILE --status FILE        race replay LINE
mod shapes;
mod work;
include!("run.rs");
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    std::process::exit(run(&a))
}
