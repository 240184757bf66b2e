prop = "C16"
needs = "A writer that buffers and whose final flush fails (for example on a full disk)."
breaks = "The failure to flush the encrypted output is dropped, and success is reported over a file that lacks its end."
edits = [("volaris-crypto/src/stream.rs", """        read_buffer.zeroize();
        writer.flush().context("Unable to flush the output")?;
""", """        read_buffer.zeroize();
        // everything has been written, there is nothing left to fail
        let _ = writer.flush();
""")]
rust = r'''
struct Full(Cursor<Vec<u8>>);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.write(b) }
    fn flush(&mut self) -> std::io::Result<()> { Err(std::io::Error::from_raw_os_error(28)) }
}
impl Read for Full { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.0.read(b) } }
impl Seek for Full { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
fn main() {
    let i = RefCell::new(Full(Cursor::new(b"content".to_vec())));
    let o = RefCell::new(Full(Cursor::new(vec![])));
    let r = tools::encrypt::execute(tools::encrypt::Request {
        reader: &i, writer: &o, header_writer: None, raw_key: key(b"pw"), header_type: v5(Algorithm::XChaCha20Poly1305), hashing_algorithm: FAST,
    });
    if r.is_ok() {
        bad("a failing flush goes unreported");
    }
}
'''
