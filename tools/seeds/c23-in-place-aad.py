prop = "C23"
needs = "In-place encryption with Deoxys-II and associated data that is not empty."
breaks = "The associated data is not bound to the message."
edits = [("volaris-crypto/src/cipher.rs", "            Ciphers::DeoxysII(c) => c.encrypt_in_place(nonce.as_ref().into(), aad, buffer),", "            Ciphers::DeoxysII(c) => c.encrypt_in_place(nonce.as_ref().into(), b\"\", buffer),")]
rust = r'''
use corecrypto::cipher::Ciphers;
fn main() {
    for (alg, n) in [(Algorithm::XChaCha20Poly1305, 24), (Algorithm::Aes256Gcm, 12), (Algorithm::DeoxysII256, 15)] {
        let c = Ciphers::initialize(Protected::new([3u8; 32]), &alg).unwrap();
        let nonce = vec![5u8; n];
        let mut b = b"message".to_vec();
        c.encrypt_in_place(&nonce, b"aad", &mut b).unwrap();
        match c.decrypt(&nonce, corecrypto::Payload { msg: &b, aad: b"aad" }) {
            Ok(m) if m == b"message" => {}
            _ => bad("the message does not decrypt with its associated data"),
        }
    }
}
'''
