prop = "C09"
needs = "Looking at the last bytes of the nonces of many files."
breaks = "Only the first 16 bytes of a nonce are random, the rest of the longer ones is always zero."
edits = [("volaris-crypto/src/primitives.rs", """    let mut nonce = vec![0u8; nonce_len];
    ThreadRng::default().fill_bytes(&mut nonce);
    nonce
""", """    let mut random = [0u8; 16];
    ThreadRng::default().fill_bytes(&mut random);
    let mut nonce = random.to_vec();
    nonce.resize(nonce_len, 0);
    nonce
""")]
rust = r'''
fn main() {
    for alg in [Algorithm::XChaCha20Poly1305, Algorithm::Aes256Gcm, Algorithm::DeoxysII256] {
        for mode in [Mode::MemoryMode, Mode::StreamMode] {
            let n: Vec<_> = (0..8).map(|_| corecrypto::primitives::gen_nonce(&alg, &mode)).collect();
            if (0..n[0].len()).any(|i| n.iter().all(|x| x[i] == n[0][i])) {
                bad("a byte of the nonce is always the same");
            }
        }
    }
}
'''
