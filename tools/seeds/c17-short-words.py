prop = "C17"
needs = "Drawing enough words to see that some never come up."
breaks = "Words longer than eight letters are left out of the draw."
edits = [("volaris-crypto/src/key.rs", "    let words = collection.lines().collect::<Vec<_>>();\n", """    // long words are tedious to type
    let words = collection
        .lines()
        .filter(|word| word.len() <= 8)
        .collect::<Vec<_>>();
""")]
rust = r'''
fn main() {
    let mut long = 0;
    for _ in 0..2000 {
        let p = corecrypto::key::generate_passphrase(&10);
        long += p.expose().split('-').filter(|w| w.len() > 8).count();
    }
    if long == 0 {
        bad("not every word of the list can come up");
    }
}
'''
