prop = "C09"
needs = "Changing a key; the salts of the keyslot before and after the change have to be compared."
breaks = "Changing a key keeps the salt of the keyslot instead of drawing a new one."
edits = [("volaris-tools/src/key/change.rs", """    let salt = gen_salt();
""", """    // the slot's salt is random already
    let salt = keyslots[index].salt;
"""), ("volaris-tools/src/key/change.rs", "use corecrypto::primitives::gen_salt;\n", "")]
rust = r'''
fn main() {
    let f = encrypt(b"content", b"first", Algorithm::XChaCha20Poly1305, FAST);
    let h = buf(&f);
    tools::key::change::execute(tools::key::change::Request {
        handle: &h, raw_key_old: key(b"first"), raw_key_new: key(b"second"), hash_algorithm: FAST,
    }).expect("change");
    let g = h.into_inner().into_inner();
    let slots = |f: &[u8]| Header::deserialize(&mut Cursor::new(f.to_vec())).unwrap().0.keyslots.unwrap();
    let (a, b) = (slots(&f), slots(&g));
    if a[0].salt == b[0].salt || a[0].nonce == b[0].nonce {
        bad("the changed key reuses a salt or nonce");
    }
}
'''
