prop = "C03"
needs = "A password that equals a right one except for a newline at its end."
breaks = "A newline at the end of the key is dropped before hashing, so that a password which is not the file's opens it."
edits = [("volaris-crypto/src/header.rs",
"""        raw_key: Protected<Vec<u8>>,
        salt: &[u8; SALT_LEN],
    ) -> Result<Protected<[u8; 32]>, anyhow::Error> {
        match self {
""",
"""        mut raw_key: Protected<Vec<u8>>,
        salt: &[u8; SALT_LEN],
    ) -> Result<Protected<[u8; 32]>, anyhow::Error> {
        // keys read from files often end with a newline that isn't part of them
        if raw_key.len() > 1 && raw_key.ends_with(b"\\n") {
            raw_key = Protected::new(raw_key[..raw_key.len() - 1].to_vec());
        }
        match self {
""")]
rust = r'''
fn main() {
    for (right, wrong) in [(&b"secret"[..], &b"secret\n"[..]), (b"secret\n", b"secret")] {
        let f = encrypt(b"content", right, Algorithm::XChaCha20Poly1305, FAST);
        assert!(decrypt(&f, right).is_ok());
        if decrypt(&f, wrong).is_ok() {
            bad("a wrong password opens the file");
        }
    }
}
'''
