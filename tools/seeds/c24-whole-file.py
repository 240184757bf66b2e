prop = "C24"
needs = "Unpacking an archive with a large file; memory has to be measured."
breaks = "Each archived file is held in memory as a whole while it is extracted."
edits = [("volaris-tools/src/unpack.rs", """                std::io::copy(
                    &mut zip_file,
                    &mut *file.try_writer().map_err(Error::Storage)?.borrow_mut(),
                )
                .map_err(|_| Error::WriteData)?;
""", """                let mut content = Vec::new();
                zip_file
                    .read_to_end(&mut content)
                    .map_err(|_| Error::OpenArchivedFile)?;
                file.try_writer()
                    .map_err(Error::Storage)?
                    .borrow_mut()
                    .write_all(&content)
                    .map_err(|_| Error::WriteData)?;
""")]
rust = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use tools::storage::{FileStorage, Storage};
static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = NOW.fetch_add(l.size(), SeqCst) + l.size();
        PEAK.fetch_max(n, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    std::env::set_current_dir(std::env::temp_dir()).unwrap();
    std::fs::create_dir("out").unwrap();
    let mut z = zip::ZipWriter::new(Cursor::new(vec![]));
    let o: zip::write::FileOptions<'_, ()> = zip::write::FileOptions::default().compression_method(zip::CompressionMethod::Zstd);
    z.start_file("big", o).unwrap();
    for _ in 0..96 {
        z.write_all(&vec![0u8; 1 << 20]).unwrap();
    }
    let z = z.finish().unwrap().into_inner();
    std::fs::write("packed", encrypt(&z, b"pw", Algorithm::XChaCha20Poly1305, FAST)).unwrap();
    let stor = Arc::new(FileStorage);
    let packed = stor.read_file("packed").unwrap();
    PEAK.store(0, SeqCst);
    tools::unpack::execute(stor, tools::unpack::Request {
        reader: packed.try_reader().unwrap(), header_reader: None, raw_key: key(b"pw"), output_dir_path: "out".into(),
        on_decrypted_header: None, on_archive_info: None, on_zip_file: None,
    }).expect("unpack");
    assert_eq!(std::fs::metadata("out/big").unwrap().len(), 96 << 20);
    if PEAK.load(SeqCst) > 48 << 20 {
        bad("unpacking holds the whole file in memory");
    }
}
'''
deps = 'zip = { version = "2.2.0", default-features = false, features = ["zstd"] }'
