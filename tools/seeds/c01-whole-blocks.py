prop = "C01"
needs = "Content that is a whole number of blocks (1 MiB) long, or empty."
breaks = "The final, empty block is not written for such content, so that the file does not decrypt."
edits = [("volaris-crypto/src/stream.rs", """            } else {
                // if we read something less than BLOCK_SIZE, and""", """            } else if read_count > 0 {
                // if we read something less than BLOCK_SIZE, and"""),
("volaris-crypto/src/stream.rs", """                break;
            }
        }
        read_buffer.zeroize();""", """                break;
            } else {
                // nothing is left to encrypt
                break;
            }
        }
        read_buffer.zeroize();""")]
rust = r'''
fn main() {
    for n in [1, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 20] {
        let data = vec![7u8; n];
        let f = encrypt(&data, b"pw", Algorithm::XChaCha20Poly1305, FAST);
        if decrypt(&f, b"pw").as_deref() != Ok(&data[..]) {
            bad("what was encrypted does not decrypt");
        }
    }
}
'''
