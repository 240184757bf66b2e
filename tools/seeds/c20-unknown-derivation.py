prop = "C20"
needs = "A version 5 header with a keyslot whose first byte is that of a keyslot, while the second names no known key derivation."
breaks = "Such a header makes the reader panic instead of being refused."
edits = [("volaris-crypto/src/header.rs", """                        _ => return Err(anyhow::anyhow!("Key hashing algorithm not identified")),
""", """                        _ => unreachable!("unused keyslots have been skipped"),
""")]
rust = r'''
fn main() {
    let mut f = encrypt(b"content", b"first", Algorithm::XChaCha20Poly1305, FAST);
    f[33] = 0xA9;
    match std::panic::catch_unwind(move || decrypt(&f, b"first")) {
        Ok(Err(_)) => {}
        _ => bad("a damaged header crashes the reader"),
    }
}
'''
