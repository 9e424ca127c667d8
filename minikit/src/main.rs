mod demo;
fn main() { demo::main() }
