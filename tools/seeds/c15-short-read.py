prop = "C15"
needs = "A reader that returns less than was asked for without being at its end, such as a pipe or a network file system."
breaks = "A short read is taken for the end of the input, so that the hash is that of its beginning."
edits = [("volaris-tools/src/hash.rs", """        hasher.write(&buffer[..read_count]);
""", """        let block = &buffer[..read_count];
        hasher.write(block);
        if read_count < buffer.len() {
            // this was the last block
            break;
        }
""")]
rust = r'''
struct Slow(Cursor<Vec<u8>>);
impl Read for Slow { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(7); self.0.read(&mut b[..n]) } }
impl Seek for Slow { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
fn main() {
    let data = b"content that takes several reads".to_vec();
    let h = |r| tools::hash::execute(tools::hasher::Blake3Hasher::default(), r).expect("hash");
    let a = h(tools::hash::Request { reader: RefCell::new(Slow(Cursor::new(data.clone()))) });
    let b = tools::hash::execute(tools::hasher::Blake3Hasher::default(), tools::hash::Request { reader: RefCell::new(Cursor::new(data)) }).expect("hash");
    if a != b {
        bad("the hash depends on how the input is read");
    }
}
'''
