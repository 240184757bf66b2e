prop = "C26"
needs = "Two encryptions at the same time in one process, one of which draws its salt while the other derives its key."
breaks = "The salt lies in a static variable between deriving the key and writing the keyslot: the file of the slower thread gets the salt of the other one and cannot be opened."
edits = [("volaris-tools/src/encrypt.rs", """    // 1. generate salt
    let salt = gen_salt();
""", """    // 1. generate salt
    static SALT: std::sync::Mutex<[u8; 16]> = std::sync::Mutex::new([0u8; 16]);
    let salt = gen_salt();
    *SALT.lock().map_err(|_| Error::HashKey)? = salt;
"""), ("volaris-tools/src/encrypt.rs", """        hash_algorithm: req.hashing_algorithm,
        salt,
    };

    let keyslots = vec![keyslot];
""", """        hash_algorithm: req.hashing_algorithm,
        salt: *SALT.lock().map_err(|_| Error::HashKey)?,
    };

    let keyslots = vec![keyslot];
""")]
rust = r'''
fn main() {
    let wrong = std::thread::scope(|s| {
        let t: Vec<_> = (0..6u8)
            .map(|k| s.spawn(move || (0..6).any(|_| decrypt(&encrypt(&[k; 99], &[k + 1], Algorithm::XChaCha20Poly1305, FAST), &[k + 1]) != Ok(vec![k; 99]))))
            .collect();
        t.into_iter().any(|t| t.join().unwrap())
    });
    if wrong {
        bad("a file that was encrypted beside another one cannot be opened");
    }
}
'''
