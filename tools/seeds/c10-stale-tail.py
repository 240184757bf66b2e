prop = "C10"
needs = "Unpacking over a file that already exists and is longer than the archived one."
breaks = "The existing file is opened without being cut, so that the end of its old content stays behind the new one."
edits = [("volaris-tools/src/unpack.rs", ".or_else(|_| stor.write_file(full_path))", ".or_else(|_| stor.overwrite_file(full_path))")]
rust = r'''
use std::sync::Arc;
use tools::storage::{FileStorage, Storage};
fn main() {
    let tmp = std::env::temp_dir();
    std::env::set_current_dir(&tmp).unwrap();
    std::fs::create_dir("in").unwrap();
    std::fs::write("in/a", b"new").unwrap();
    std::fs::create_dir_all("out/in").unwrap();
    std::fs::write("out/in/a", b"old and longer").unwrap();
    let stor = Arc::new(FileStorage);
    let out = stor.create_file("packed").unwrap();
    tools::pack::execute(stor.clone(), tools::pack::Request {
        compress_files: stor.read_dir(&stor.read_file("in").unwrap()).unwrap(), compression_method: zip::CompressionMethod::Stored,
        writer: out.try_writer().unwrap(), header_writer: None, raw_key: key(b"pw"),
        header_type: v5(Algorithm::XChaCha20Poly1305), hashing_algorithm: FAST,
    }).expect("pack");
    let packed = stor.read_file("packed").unwrap();
    tools::unpack::execute(stor, tools::unpack::Request {
        reader: packed.try_reader().unwrap(), header_reader: None, raw_key: key(b"pw"), output_dir_path: "out".into(),
        on_decrypted_header: None, on_archive_info: None, on_zip_file: None,
    }).expect("unpack");
    if std::fs::read("out/in/a").unwrap() != b"new" {
        bad("the unpacked file differs from the packed one");
    }
}
'''
deps = 'zip = { version = "2.2.0", default-features = false, features = ["zstd"] }'
