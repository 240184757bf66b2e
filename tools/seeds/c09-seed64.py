prop = "C09"
needs = "Drawing as many nonces as it takes to meet one seed twice, or looking at how the generator was seeded."
breaks = "The generator of nonces is seeded with 32 bits only: among some ten thousand files two share a nonce and all bytes of it."
edits = [("volaris-crypto/src/primitives.rs", """    let mut nonce = vec![0u8; nonce_len];
    ThreadRng::default().fill_bytes(&mut nonce);
    nonce
""", """    let mut nonce = vec![0u8; nonce_len];
    // one generator per nonce, so that none is shared with another thread
    let seed = u64::from(ThreadRng::default().next_u32());
    rand::rngs::StdRng::seed_from_u64(seed).fill_bytes(&mut nonce);
    nonce
"""), ("volaris-crypto/src/primitives.rs", "use rand::{prelude::ThreadRng, RngCore};\n", "use rand::{prelude::ThreadRng, RngCore, SeedableRng};\n")]
rust = r'''
fn main() {
    let mut seen = std::collections::HashSet::new();
    for _ in 0..600_000 {
        if !seen.insert(corecrypto::primitives::gen_nonce(&Algorithm::XChaCha20Poly1305, &Mode::StreamMode)) {
            bad("two nonces are the same");
        }
    }
}
'''
