prop = "C21"
needs = "Two temporary files at the same time, or a file planted under the name of the next one."
breaks = "The temporary file is named after the process, and one that exists is opened and cut: it is neither new nor private to the operation."
edits = [("volaris-tools/src/storage.rs", """        let file_name = Alphanumeric.sample_string(&mut rand::thread_rng(), 16);
        path.push(file_name);

        self.create_file(path)
""", """        path.push(format!("volaris-{}", std::process::id()));

        // one that an earlier process left behind is used again
        self.create_file(&path).or_else(|_| self.write_file(&path))
"""), ("volaris-tools/src/storage.rs", "use rand::distributions::{Alphanumeric, DistString};\n", "")]
rust = r'''
use tools::storage::{FileStorage, Storage};
fn main() {
    let (a, b) = (FileStorage.create_temp_file(), FileStorage.create_temp_file());
    match (a, b) {
        (Ok(a), Ok(b)) if a.path() != b.path() => {}
        _ => bad("two temporary files are one"),
    }
}
'''
