//! The program itself
fn main() { cniic::verif::main() }
