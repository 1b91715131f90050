include!("api.rs");
extern "C" {
    fn vpanic_is_ok() -> bool;
}
include!(concat!(env!("VICTOR_VERIF_DIR"), "/main.rs"));
fn main() {
    std::panic::set_hook(Box::new(|info| {
        if unsafe { vpanic_is_ok() } {
            println!("VH-PANIC-OK");
            std::process::exit(0)
        }
        println!("VH-PANIC {}", info);
        std::process::exit(101)
    }));
    let name = std::env::args().nth(1).unwrap();
    for (n, f) in TABLE {
        if *n == name {
            unsafe { f() }
            return;
        }
    }
    std::process::exit(96);
}
