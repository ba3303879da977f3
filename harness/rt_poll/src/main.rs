fn main() {
    rt_poll::driver::main()
}
