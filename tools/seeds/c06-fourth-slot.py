prop = "C06"
needs = "A file with four keyslots."
breaks = "The fourth keyslot is not read: its password does not open the file, and the next key operation drops it."
edits = [("volaris-crypto/src/header.rs", "                for _ in 0..4 {\n                    let mut identifier", "                while cursor.position() + 96 < header_length as u64 {\n                    let mut identifier")]
rust = r'''
fn main() {
    let h = buf(&encrypt(b"content", b"p1", Algorithm::XChaCha20Poly1305, FAST));
    for (old, new) in [(b"p1", b"p2"), (b"p2", b"p3"), (b"p1", b"p4")] {
        h.borrow_mut().rewind().unwrap();
        tools::key::add::execute(tools::key::add::Request {
            handle: &h, raw_key_old: key(old), raw_key_new: key(new), hash_algorithm: FAST,
        }).expect("add");
    }
    let f = h.into_inner().into_inner();
    for p in [b"p1", b"p2", b"p3", b"p4"] {
        if decrypt(&f, p).as_deref() != Ok(&b"content"[..]) {
            bad("a password that was added does not open the file");
        }
    }
}
'''
