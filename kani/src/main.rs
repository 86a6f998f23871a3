//! kreplay NAME BYTES...: runs one harness body natively on recorded values (hex, little endian).
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let v = a[2..].iter().map(|s| (0..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap()).collect()).collect();
    kanifun::replay(&a[1], &mut kanifun::V(v));
    println!("holds");
}
