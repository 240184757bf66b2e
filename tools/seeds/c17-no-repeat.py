prop = "C17"
needs = "Looking for passphrases in which a word comes twice, among many."
breaks = "A word that the passphrase holds already is replaced by the one that follows it in the list: the words are not independent any more."
edits = [("volaris-crypto/src/key.rs", """        let word = words[index];
""", """        // no word twice, as long as there are others
        let word = (words[index..].iter().chain(&words[..index]))
            .find(|word| !passphrase.split('-').any(|w| w == **word))
            .unwrap_or(&words[index]);
""")]
rust = r'''
fn main() {
    // among 400 words, some are equal (more than 99.99 % of the time)
    for _ in 0..4 {
        let p = corecrypto::key::generate_passphrase(&400);
        let mut w: Vec<&str> = p.expose().split('-').collect();
        let n = w.len();
        w.sort();
        w.dedup();
        if w.len() < n {
            return;
        }
    }
    bad("no word comes twice");
}
'''
