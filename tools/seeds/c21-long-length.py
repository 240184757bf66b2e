prop = "C21"
needs = "A file of 4 GiB or more."
breaks = "The length of such a file is reported modulo 2^32."
edits = [("volaris-tools/src/storage.rs", """        file_meta.len().try_into().map_err(|_| Error::FileLen)
""", """        Ok(file_meta.len() as u32 as usize)
""")]
rust = r'''
use tools::storage::{FileStorage, Storage};
fn main() {
    std::env::set_current_dir(std::env::temp_dir()).unwrap();
    for n in [0u64, 77, (1 << 32) + 5] {
        // sparse
        std::fs::File::create("f").unwrap().set_len(n).unwrap();
        let e = FileStorage.read_file("f").unwrap();
        if FileStorage.file_len(&e).ok() != Some(n as usize) {
            bad("the length of the file is wrong");
        }
    }
}
'''
