//! Runs one harness natively on concrete inputs: `replay HARNESS FILE`, one input per line (hex).
use gvh::*;

// `fn table(name: &str) -> Option<fn()>`, written by the driver
#[cfg(gvh_table)]
include!(env!("GVH_TABLE"));
#[cfg(not(gvh_table))]
fn table(_: &str) -> Option<fn()> { None }

fn main() {
    let mut a = std::env::args().skip(1);
    let (name, file) = (a.next().expect("harness"), a.next().expect("inputs"));
    let f = table(&name).expect("unknown harness");
    let text = std::fs::read_to_string(file).expect("inputs");
    gvh::rt::feed(text.lines().map(|l| {
        (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect()
    }).collect());
    f();
    println!("GV-REPLAY-PASSED");
}
