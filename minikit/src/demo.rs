pub fn main() {}
