//! Runs one harness natively on recorded values.
fn main() {
    let mut a = std::env::args().skip(1);
    let name = a.next().expect("harness");
    if name == "--list" {
        for (m, t) in vh::registry::ALL {
            for (n, _, u) in *t {
                println!("{m}::{n} {u}");
            }
        }
        return;
    }
    let file = a.next().expect("values file");
    let text = std::fs::read_to_string(&file).expect("readable");
    vh::nd::load(text.lines().map(|l| l.split_whitespace().map(|b| b.parse().unwrap()).collect()));
    let (m, n) = name.split_once("::").expect("module::harness");
    for (mm, t) in vh::registry::ALL {
        for (nn, f, _) in *t {
            if *mm == m && *nn == n {
                f();
                println!("REPLAY: completed");
                return;
            }
        }
    }
    println!("REPLAY: unknown harness");
    std::process::exit(79);
}
