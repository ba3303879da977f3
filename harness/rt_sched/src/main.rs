fn main() {
    rt_sched::driver::main()
}
