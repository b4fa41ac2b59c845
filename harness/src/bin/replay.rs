fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        for (n, _) in vharness::registry() {
            println!("{n}");
        }
        return;
    }
    vharness::replay::load(&std::env::var("VT_REPLAY").expect("VT_REPLAY"));
    let f = vharness::registry().into_iter().find(|x| x.0 == a[1]).expect("harness").1;
    match std::panic::catch_unwind(|| f()) {
        Ok(()) => println!("VT-COMPLETED"),
        Err(_) => {
            println!("VT-UNCAUGHT-PANIC");
            std::process::exit(91)
        }
    }
}
