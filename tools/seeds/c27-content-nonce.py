prop = "C27"
needs = "Comparing what is written for the same content of at least 4 KiB several times, or for contents that begin alike."
breaks = "The first bytes of the nonce in the header are a digest of the first 4 KiB of the content: files with the same beginning can be told."
edits = [("volaris-tools/src/encrypt.rs", """    let header_nonce = gen_nonce(&req.header_type.algorithm, &req.header_type.mode);
    let streams""", """    let mut header_nonce = gen_nonce(&req.header_type.algorithm, &req.header_type.mode);
    {
        // a nonce cannot come twice with different contents, however poor the randomness
        let mut block = [0u8; 4096];
        let mut reader = req.reader.borrow_mut();
        reader.rewind().map_err(|_| Error::ResetCursorPosition)?;
        let n = reader.read(&mut block).map_err(|_| Error::EncryptFile)?;
        if n == block.len() {
            header_nonce[..3].copy_from_slice(&blake3::hash(&block).as_bytes()[..3]);
        }
    }
    let streams""")]
rust = r'''
fn main() {
    for alg in [Algorithm::XChaCha20Poly1305, Algorithm::Aes256Gcm] {
        let f: Vec<_> = (0..4).map(|_| encrypt(&[7; 9000], b"pw", alg.clone(), FAST)).collect();
        // the 26 bytes that hold the nonce, and padding
        if (5..9).any(|i| f.iter().all(|x| x[i..i + 3] == f[0][i..i + 3])) {
            bad("the header shows that the contents are the same");
        }
    }
}
'''
