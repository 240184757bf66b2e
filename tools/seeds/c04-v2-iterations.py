prop = "C04"
needs = "A version 2 file, or a keyslot with the second set of argon2id parameters."
breaks = "The second set of argon2id parameters has the iterations of the third: files written with it by earlier releases no longer open."
edits = [("volaris-crypto/src/key.rs", """            // 256MiB of memory, 8 iterations, 4 levels of parallelism
            Params::new(262_144, 8, 4,""", """            // 256MiB of memory, 10 iterations, 4 levels of parallelism
            Params::new(262_144, 10, 4,""")]
rust = r'''
fn main() {
    let got = corecrypto::key::argon2id_hash(key(b"pw"), &[9; 16], &HeaderVersion::V2).unwrap();
    let p = argon2::Params::new(262_144, 8, 4, Some(32)).unwrap();
    let mut want = [0u8; 32];
    argon2::Argon2::new(argon2::Algorithm::Argon2id, argon2::Version::V0x13, p).hash_password_into(b"pw", &[9; 16], &mut want).unwrap();
    if got.expose() != &want {
        bad("keys of version 2 files are derived with other parameters");
    }
}
'''
deps = 'argon2 = "0.4.1"'
