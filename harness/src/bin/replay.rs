//! replay HARNESS FILE: runs a harness natively on the verifier's values
//! (FILE: one value per line, bytes in decimal separated by blanks).
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).unwrap();
    let vals = text.lines().map(|l| l.split_whitespace().map(|b| b.parse().unwrap()).collect()).collect();
    #[cfg(not(kani))]
    {
        *vghost::STREAM.lock().unwrap() = (vals, 0);
        if !twharness::run(&a[1]) {
            println!("REPLAY: no such harness");
            std::process::exit(4);
        }
        let bad = !vghost::FAILED.lock().unwrap().is_empty();
        println!("REPLAY: {}", if bad { "reproduced" } else { "no obligation failed" });
        std::process::exit(if bad { 1 } else { 0 });
    }
    #[cfg(kani)]
    let _: Vec<Vec<u8>> = vals;
}
