prop = "C13"
needs = "A number of passes of 256 or more, such as a multiple of 256."
breaks = "The number of passes is cut to one byte: asked for 256 passes, the file is overwritten with zeros only."
edits = [("volaris-tools/src/overwrite.rs", """    for _ in 0..req.passes {
""", """    let passes = req.passes.max(0) as u8;
    for _ in 0..passes {
""")]
rust = r'''
struct Count(Cursor<Vec<u8>>, usize);
impl Write for Count {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.1 += b.len(); self.0.write(b) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl Seek for Count { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
fn main() {
    for passes in [1, 3, 256, 300] {
        let w = RefCell::new(Count(Cursor::new(vec![7u8; 100]), 0));
        tools::overwrite::execute(tools::overwrite::Request { writer: &w, buf_capacity: 100, passes }).expect("overwrite");
        if w.into_inner().1 != 100 * (passes as usize + 1) {
            bad("not as many passes as asked for");
        }
    }
}
'''
