prop = "C06"
needs = "A file with keyslots of different key derivations, where a slot of the cheaper derivation comes behind one of the dearer; then changing or deleting a key."
breaks = "The keyslots are tried in the order of their cost, and the position in that order is taken for the slot's index: change and delete hit another password's slot."
edits = [("volaris-tools/src/key.rs",
"""    for (i, keyslot) in keyslots.iter().enumerate() {
""",
"""    // (the memory-hard argon2id slots take the longest, so they come last)
    let mut by_cost = keyslots.iter().collect::<Vec<_>>();
    by_cost.sort_by_key(|k| matches!(k.hash_algorithm, HashingAlgorithm::Argon2id(_)));
    for (i, keyslot) in by_cost.into_iter().enumerate() {
"""),
("volaris-tools/src/key.rs", "use corecrypto::{cipher::Ciphers, header::Keyslot};", "use corecrypto::{\n    cipher::Ciphers,\n    header::{HashingAlgorithm, Keyslot},\n};")]
rust = r'''
fn main() {
    let h = buf(&encrypt(b"content", b"first", Algorithm::XChaCha20Poly1305, FAST));
    tools::key::add::execute(tools::key::add::Request {
        handle: &h, raw_key_old: key(b"first"), raw_key_new: key(b"second"), hash_algorithm: HashingAlgorithm::Blake3Balloon(5),
    }).expect("add");
    h.borrow_mut().rewind().unwrap();
    tools::key::delete::execute(tools::key::delete::Request { handle: &h, raw_key_old: key(b"second") }).expect("delete");
    let f = h.into_inner().into_inner();
    if decrypt(&f, b"second").is_ok() || decrypt(&f, b"first").as_deref() != Ok(&b"content"[..]) {
        bad("deleting one key removed the other");
    }
}
'''
