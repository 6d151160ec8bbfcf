fn main() {
    vh::driver::main_with(vh::props::get);
}
