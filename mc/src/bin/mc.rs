fn main() {
    mcl::engine::main(mcl::props::all(), dinero::run_app);
}
