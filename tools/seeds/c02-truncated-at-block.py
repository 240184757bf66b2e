prop = "C02"
needs = "A file whose content is a whole number of blocks (1 MiB), cut exactly behind its last full block, so that the empty final block is missing."
breaks = "Decryption takes the end of the input behind a full block for the end of the content, and accepts the truncated file: the last-block marker is no longer required."
edits = [("volaris-crypto/src/stream.rs", """            } else {
                // if we read something less than BLOCK_SIZE+16""", """            } else if read_count > 0 || !decrypted_any {
                // if we read something less than BLOCK_SIZE+16"""),
("volaris-crypto/src/stream.rs", """                decrypted_data.zeroize();
                break;
            }
""", """                decrypted_data.zeroize();
                break;
            } else {
                // the input ended together with the previous block
                break;
            }
"""),
("volaris-crypto/src/stream.rs",
"""        let mut buffer = vec![0u8; BLOCK_SIZE + 16].into_boxed_slice();
        loop {
""", """        let mut buffer = vec![0u8; BLOCK_SIZE + 16].into_boxed_slice();
        let mut decrypted_any = false;
        loop {
"""),
("volaris-crypto/src/stream.rs",
"""            if read_count == (BLOCK_SIZE + 16) {
""", """            if read_count == (BLOCK_SIZE + 16) {
                decrypted_any = true;
""")]
rust = r'''
fn main() {
    let data = vec![7u8; 2 << 20];
    let f = encrypt(&data, b"pw", Algorithm::XChaCha20Poly1305, FAST);
    assert_eq!(decrypt(&f, b"pw").as_deref(), Ok(&data[..]));
    for cut in [16, 16 + (1 << 20) + 16] {
        if decrypt(&f[..f.len() - cut], b"pw").is_ok() {
            bad("a truncated file decrypts successfully");
        }
    }
}
'''
