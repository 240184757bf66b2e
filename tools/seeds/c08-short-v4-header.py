prop = "C08"
needs = "Stripping or restoring the header of a version 4 file."
breaks = "The size given for a version 4 header is half of the real one: stripping leaves the encrypted data key in the file, and the file no longer decrypts with its separate header."
edits = [("volaris-crypto/src/header.rs", """    pub fn get_size(&self) -> u64 {
        match self.header_type.version {
            HeaderVersion::V1 | HeaderVersion::V2 | HeaderVersion::V3 => 64,
            HeaderVersion::V4 => 128,
            HeaderVersion::V5 => 416,
        }""", """    pub fn get_size(&self) -> u64 {
        // only version 5 has room for further keyslots
        if self.header_type.version == HeaderVersion::V5 {
            416
        } else {
            64
        }""")]
rust = r'''
fn main() {
    let (i, o) = (buf(b"content"), buf(b""));
    tools::encrypt::execute(tools::encrypt::Request {
        reader: &i, writer: &o, header_writer: None, raw_key: key(b"pw"),
        header_type: HeaderType { version: HeaderVersion::V4, algorithm: Algorithm::XChaCha20Poly1305, mode: Mode::StreamMode },
        hashing_algorithm: HashingAlgorithm::Blake3Balloon(4),
    }).expect("encrypt");
    o.borrow_mut().rewind().unwrap();
    tools::header::strip::execute(tools::header::strip::Request { handle: &o }).expect("strip");
    if o.into_inner().into_inner()[..128].iter().any(|b| *b != 0) {
        bad("a part of the header is left in the stripped file");
    }
}
'''
