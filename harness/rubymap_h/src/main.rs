mod keys;
mod map;
mod set;
fn main() {
    let a = common::Args::new();
    common::quiet_panics();
    common::crash_report();
    common::watchdog(20);
    let mut out = a.out();
    match a.mode() {
        "map-gen" => map::gen(
            a.get("profile").unwrap(),
            a.num("seed", 1),
            a.num("n", 100),
            a.num("len", 40) as usize,
            &mut *out,
        ),
        "set-gen" => {
            set::gen(a.num("seed", 1), a.num("n", 100), a.num("len", 40) as usize, &mut *out)
        }
        m @ ("map-replay" | "set-replay") => {
            let nums = |n: &str| -> Vec<u64> {
                a.get(n).unwrap().split(',').map(|x| x.parse().unwrap()).collect()
            };
            let i = |v: Vec<u64>| v.into_iter().map(|x| x as i64).collect::<Vec<i64>>();
            let input = std::fs::read_to_string(a.get("in").unwrap()).unwrap();
            let f = if m == "map-replay" { map::replay } else { set::replay };
            f(i(nums("c")), i(nums("h")), nums("digest"), &input, &mut *out)
        }
        m => panic!("mode {m}"),
    }
}
