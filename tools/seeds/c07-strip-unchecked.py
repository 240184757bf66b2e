prop = "C07"
needs = "Stripping a file that begins like one of a known version but is no valid file, or is shorter than the header of that version."
breaks = "Only the version is looked at: the file is blanked, and even lengthened, although it holds no header."
edits = [("volaris-tools/src/header/strip.rs", """    let (header, _) =
        Header::deserialize(&mut *req.handle.borrow_mut()).map_err(|_| Error::InvalidFile)?;
""", """    // a header can be stripped no matter what it says, only its size matters
    let mut version = [0u8; 2];
    req.handle
        .borrow_mut()
        .read_exact(&mut version)
        .map_err(|_| Error::InvalidFile)?;
    let header_size = match version {
        [0xDE, 0x01..=0x03] => 64,
        [0xDE, 0x04] => 128,
        [0xDE, 0x05] => 416,
        _ => return Err(Error::InvalidFile),
    };
"""), ("volaris-tools/src/header/strip.rs", """    let zeroes = vec![
        0u8;
        header
            .get_size()
            .try_into()
            .map_err(|_| Error::HeaderSizeParse)?
    ];
""", """    let zeroes = vec![0u8; header_size];
"""), ("volaris-tools/src/header/strip.rs", "\nuse corecrypto::header::Header;\n", "")]
rust = r'''
fn main() {
    let f = encrypt(b"content", b"pw", Algorithm::XChaCha20Poly1305, FAST);
    for (bytes, pos) in [(f.clone(), Some(2)), (f[..300].to_vec(), None)] {
        let mut g = bytes;
        if let Some(p) = pos { g[p] = 0x77; }
        let h = buf(&g);
        let r = tools::header::strip::execute(tools::header::strip::Request { handle: &h });
        if r.is_ok() || h.into_inner().into_inner() != g {
            bad("bytes that are no header were blanked");
        }
    }
}
'''
