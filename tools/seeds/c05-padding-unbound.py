prop = "C05"
needs = "A version 5 file one of whose padding bytes behind the nonce (bytes 26..32 of the header with XChaCha20-Poly1305) was altered, or a header from another implementation that uses them."
breaks = "Reading a header rebuilds the associated data from the parsed fields instead of taking the header's bytes, so that altered padding is no longer authenticated."
edits = [("volaris-crypto/src/header.rs",
"""                let mut aad = Vec::new();
                aad.extend_from_slice(&full_header_bytes[..32]);
                aad
""",
"""                // the static part of the header: version/algorithm/mode and the padded nonce
                let mut aad = full_header_bytes[..6].to_vec();
                aad.extend_from_slice(&nonce);
                aad.resize(32, 0);
                aad
""")]
rust = r'''
fn main() {
    for alg in [Algorithm::XChaCha20Poly1305, Algorithm::Aes256Gcm, Algorithm::DeoxysII256] {
        let f = encrypt(b"content", b"pw", alg, FAST);
        assert_eq!(decrypt(&f, b"pw").as_deref(), Ok(&b"content"[..]));
        let mut g = f.clone();
        g[31] ^= 1;
        if decrypt(&g, b"pw").is_ok() {
            bad("an altered header byte goes unnoticed");
        }
    }
}
'''
