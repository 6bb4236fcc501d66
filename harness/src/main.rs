fn main() {
    std::process::exit(dpverif::runner::main());
}
