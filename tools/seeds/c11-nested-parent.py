prop = "C11"
needs = "An archive with an entry whose name leaves the directory by parent references behind a normal first component, such as 'a/../../b'."
breaks = "Only the beginning of an entry's name is checked for parent references, so that such an entry is written outside of the output directory."
edits = [("volaris-tools/src/unpack.rs", """                zip_file.enclosed_name().map(|path| {
                    full_path.push(path);

                    Ok(""", """                let path = PathBuf::from(zip_file.name());
                let leaves_dir = path.has_root() || path.starts_with("..");
                (!leaves_dir).then(|| {
                    full_path.push(path);

                    Ok(""")]
rust = r'''
use std::sync::Arc;
use tools::storage::{FileStorage, Storage};
fn main() {
    let tmp = std::env::temp_dir();
    std::env::set_current_dir(&tmp).unwrap();
    std::fs::create_dir_all("x/y/out").unwrap();
    let mut z = zip::ZipWriter::new(Cursor::new(vec![]));
    let o: zip::write::FileOptions<'_, ()> = zip::write::FileOptions::default().compression_method(zip::CompressionMethod::Stored);
    z.add_directory("a", o).unwrap();
    z.start_file("a/../../b", o).unwrap();
    z.write_all(b"b").unwrap();
    let z = z.finish().unwrap().into_inner();
    std::fs::write("packed", encrypt(&z, b"pw", Algorithm::XChaCha20Poly1305, FAST)).unwrap();
    let stor = Arc::new(FileStorage);
    let packed = stor.read_file("packed").unwrap();
    let _ = tools::unpack::execute(stor, tools::unpack::Request {
        reader: packed.try_reader().unwrap(), header_reader: None, raw_key: key(b"pw"), output_dir_path: "x/y/out".into(),
        on_decrypted_header: None, on_archive_info: None, on_zip_file: None,
    });
    if std::fs::read_dir("x/y").unwrap().count() != 1 {
        bad("a file was unpacked outside of the output directory");
    }
}
'''
deps = 'zip = { version = "2.2.0", default-features = false, features = ["zstd"] }'
