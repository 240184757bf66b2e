prop = "C12"
needs = "Looking at what is written over the temporary archive, which is opened long before and not at its beginning any more when it is overwritten."
breaks = "The random pass starts at the current position, that is at the end of the archive, which is therefore overwritten with zeros only."
edits = [("volaris-tools/src/overwrite.rs", """    for _ in 0..req.passes {
        writer.rewind().map_err(|_| Error::ResetCursorPosition)?;

""", """    for _ in 0..req.passes {
"""), ("volaris-tools/src/overwrite.rs", """        writer.flush().map_err(|_| Error::FlushFile)?;
    }

    writer.rewind().map_err(|_| Error::ResetCursorPosition)?;
""", """        writer.flush().map_err(|_| Error::FlushFile)?;
        // back to the start for the next pass
        writer.rewind().map_err(|_| Error::ResetCursorPosition)?;
    }

    writer.rewind().map_err(|_| Error::ResetCursorPosition)?;
""")]
rust = r'''
struct Log(Cursor<Vec<u8>>, Vec<(u64, Vec<u8>)>);
impl Write for Log {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.1.push((self.0.position(), b.to_vec())); self.0.write(b) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl Seek for Log { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
fn main() {
    // as pack and unpack do it: the temporary archive has been read to its end
    let mut c = Cursor::new(vec![7u8; 5000]);
    c.set_position(5000);
    let w = RefCell::new(Log(c, vec![]));
    tools::overwrite::execute(tools::overwrite::Request { writer: &w, buf_capacity: 5000, passes: 1 }).expect("overwrite");
    let log = w.into_inner().1;
    let first = &log[0];
    if first.0 != 0 || first.1.iter().all(|b| *b == 0) || log.iter().any(|(p, b)| *p as usize + b.len() > 5000) {
        bad("the temporary archive is not overwritten with random bytes");
    }
}
'''
