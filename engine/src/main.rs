mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(exec::main).unwrap();
    match h.join() {
        Ok(c) => std::process::exit(c),
        Err(_) => std::process::exit(4),
    }
}
