fn main() {
    std::process::exit(fixcheck::engine::main_with(fixcheck::props::ALL));
}
