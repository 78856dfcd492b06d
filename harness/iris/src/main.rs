//! iris SEED: the code and the mask that the match programs derive from a seed, in hexadecimal.
use plain_reference::IrisCode;
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;

fn main() {
    let seed = std::env::args().nth(1).and_then(|s| s.parse().ok()).expect("a seed");
    let iris = IrisCode::random_rng(&mut ChaCha12Rng::seed_from_u64(seed));
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    println!("{} {}", hex(iris.code.as_raw_slice()), hex(iris.mask.as_raw_slice()));
}
