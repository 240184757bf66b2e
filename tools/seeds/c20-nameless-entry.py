prop = "C20"
needs = "An archive with an entry whose path ends with two dots without leaving the destination, such as a/.. ."
breaks = "Such an entry makes unpacking panic."
edits = [("volaris-tools/src/unpack.rs", """        let files_count = entities.len();
        if let Some(on_archive_info) = req.on_archive_info {
""", """        let files_count = entities
            .iter()
            .filter(|(full_path, ..)| !full_path.file_name().unwrap().is_empty())
            .count();
        if let Some(on_archive_info) = req.on_archive_info {
""")]
rust = r'''
use std::sync::Arc;
fn main() {
    std::env::set_current_dir(std::env::temp_dir()).unwrap();
    // an archive of two empty entries, by hand
    let mut z = vec![];
    let mut cd = vec![];
    for name in ["a/..", "b/"] {
        let off = z.len() as u32;
        let common: Vec<u8> = [&[20u8, 0, 0, 0, 0, 0, 0, 0, 0x21, 0][..], &[0; 12], &(name.len() as u16).to_le_bytes(), &[0, 0]].concat();
        z.extend(0x0403_4b50u32.to_le_bytes());
        z.extend(&common);
        z.extend(name.bytes());
        cd.extend(0x0201_4b50u32.to_le_bytes());
        cd.extend([20, 3]);
        cd.extend(&common);
        cd.extend([0; 6]);
        cd.extend((0o040_755u32 << 16).to_le_bytes());
        cd.extend(off.to_le_bytes());
        cd.extend(name.bytes());
    }
    let (n, o) = (cd.len() as u32, z.len() as u32);
    z.extend(cd);
    z.extend(0x0605_4b50u32.to_le_bytes());
    z.extend([0, 0, 0, 0, 2, 0, 2, 0]);
    z.extend(n.to_le_bytes());
    z.extend(o.to_le_bytes());
    z.extend([0, 0]);
    std::fs::write("f", encrypt(&z, b"pw", Algorithm::XChaCha20Poly1305, FAST)).unwrap();
    let r = std::panic::catch_unwind(|| {
        let f = RefCell::new(std::fs::File::open("f").unwrap());
        tools::unpack::execute(Arc::new(tools::storage::FileStorage), tools::unpack::Request {
            reader: &f, header_reader: None, raw_key: key(b"pw"), output_dir_path: "out".into(),
            on_decrypted_header: None, on_archive_info: None, on_zip_file: None,
        }).is_ok()
    });
    if r.is_err() {
        bad("unpacking panics");
    }
}
'''
