mod el;
mod hmap;
mod hset;
mod table;
fn main() {
    let a = common::Args::new();
    common::quiet_panics();
    common::crash_report();
    common::watchdog(20);
    let mut out = a.out();
    let (seed, n, len) = (a.num("seed", 1), a.num("n", 100), a.num("len", 40) as usize);
    let profile = a.get("profile").unwrap_or("");
    match a.mode() {
        "map-gen" => hmap::gen(profile, seed, n, len, &mut *out),
        "set-gen" => hset::gen(profile, seed, n, len, &mut *out),
        "table-gen" => table::gen(profile, seed, n, len, &mut *out),
        "table-walk" => {
            table::walk(&std::fs::read_to_string(a.get("in").unwrap()).unwrap(), &mut *out)
        }
        m => panic!("mode {m}"),
    }
}
