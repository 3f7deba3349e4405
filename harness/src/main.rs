fn main() { vharness::main() }
