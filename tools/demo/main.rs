#![allow(dead_code, unused)]
mod client;
mod lab;
mod layout;
mod model;
mod native;
mod rt;
mod scenario;
mod util;
mod work;
mod host;
#[cfg(feature = "iface")]
mod iface;
#[cfg(feature = "sdk")]
mod sdk;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    rt::load(&a[1]);
    match scenario::run() {
        Ok(()) => println!("the property held"),
        Err(e) => {
            println!("BROKEN: {e}");
            std::process::exit(1);
        },
    }
}
