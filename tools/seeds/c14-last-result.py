prop = "C14"
needs = "A directory with several files, of which one that is not the last of the walk cannot be erased."
breaks = "Only the result of the last thread counts, so that the directory is removed over a file that could not be overwritten, and success is reported."
edits = [("volaris-tools/src/erase_dir.rs", "    handlers.into_iter().try_for_each(|h| h.join().unwrap())?;\n",
"""    handlers
        .into_iter()
        .map(|h| h.join().unwrap())
        .last()
        .unwrap_or(Ok(()))?;
""")]
rust = r'''
use std::fs::File;
use std::path::Path;
use std::sync::Arc;
use tools::storage::{Entry, Error, FileMode, FileStorage, Storage};
struct Faulty;
impl Storage<File> for Faulty {
    fn create_dir_all<P: AsRef<Path>>(&self, p: P) -> Result<(), Error> { FileStorage.create_dir_all(p) }
    fn create_file<P: AsRef<Path>>(&self, p: P) -> Result<Entry<File>, Error> { FileStorage.create_file(p) }
    fn read_file<P: AsRef<Path>>(&self, p: P) -> Result<Entry<File>, Error> { FileStorage.read_file(p) }
    fn write_file<P: AsRef<Path>>(&self, p: P) -> Result<Entry<File>, Error> { FileStorage.write_file(p) }
    fn overwrite_file<P: AsRef<Path>>(&self, p: P) -> Result<Entry<File>, Error> {
        if p.as_ref().ends_with("stuck") { return Err(Error::OpenFile(FileMode::Write)); }
        FileStorage.overwrite_file(p)
    }
    fn flush_file(&self, f: &Entry<File>) -> Result<(), Error> { FileStorage.flush_file(f) }
    fn file_len(&self, f: &Entry<File>) -> Result<usize, Error> { FileStorage.file_len(f) }
    fn remove_file(&self, f: Entry<File>) -> Result<(), Error> { FileStorage.remove_file(f) }
    fn remove_dir_all(&self, f: Entry<File>) -> Result<(), Error> { FileStorage.remove_dir_all(f) }
    fn read_dir(&self, f: &Entry<File>) -> Result<Vec<Entry<File>>, Error> {
        let mut v = FileStorage.read_dir(f)?;
        v.sort_by(|a, b| b.path().cmp(a.path()));
        Ok(v)
    }
    fn is_symlink<P: AsRef<Path>>(&self, p: P) -> bool { FileStorage.is_symlink(p) }
}
fn main() {
    std::env::set_current_dir(std::env::temp_dir()).unwrap();
    std::fs::create_dir("dir").unwrap();
    for f in ["dir/a", "dir/stuck", "dir/z"] {
        std::fs::write(f, b"content").unwrap();
    }
    let stor = Arc::new(Faulty);
    let entry = stor.read_file("dir").unwrap();
    let r = tools::erase_dir::execute(stor, tools::erase_dir::Request { entry, passes: 1 });
    if r.is_ok() || !Path::new("dir/stuck").exists() {
        bad("a file that could not be erased was removed with its directory");
    }
}
'''
