prop = "C14"
needs = "A directory that holds a link to a directory outside of it."
breaks = "Linked directories are walked into, so that erasing a directory overwrites and removes the files of another one."
edits = [("volaris-tools/src/storage.rs", """        walkdir::WalkDir::new(file.path())
            .into_iter()
""", """        walkdir::WalkDir::new(file.path()).follow_links(true)
            .into_iter()
""")]
rust = r'''
use std::sync::Arc;
use tools::storage::{FileStorage, Storage};
fn main() {
    std::env::set_current_dir(std::env::temp_dir()).unwrap();
    std::fs::create_dir("dir").unwrap();
    std::fs::create_dir("other").unwrap();
    std::fs::write("dir/a", b"content").unwrap();
    std::fs::write("other/b", b"content").unwrap();
    std::os::unix::fs::symlink("../other", "dir/link").unwrap();
    let stor = Arc::new(FileStorage);
    let entry = stor.read_file("dir").unwrap();
    tools::erase_dir::execute(stor, tools::erase_dir::Request { entry, passes: 1 }).expect("erase");
    if std::fs::read("other/b").ok().as_deref() != Some(b"content") || std::fs::metadata("dir").is_ok() {
        bad("a file outside of the directory was erased");
    }
}
'''
