//! An in-memory `Storage` whose every mutation is journaled and can be made to fail.

use crate::io::{Class, Ev, FaultsRef, FileState, MemFile, Verdict};
use std::collections::BTreeMap;
use std::path::{Component, Path, PathBuf};
use std::sync::{Arc, Mutex};
use tools::storage::{Entry, Error, FileMode, Storage};

#[derive(Clone)]
pub enum Node {
    Dir,
    File(Arc<Mutex<FileState>>),
}

#[derive(Clone, Debug)]
pub enum SEv {
    Create(PathBuf),
    OpenWrite(PathBuf),
    MkDir(PathBuf),
    /// path, what the file held when it was removed, writes it had received
    Remove { path: PathBuf, content: Vec<u8>, log: Vec<Ev> },
    RemoveDir { path: PathBuf, files: Vec<PathBuf> },
}

#[derive(Default)]
pub struct Inner {
    pub nodes: BTreeMap<PathBuf, Node>,
    pub journal: Vec<SEv>,
}

pub struct MemStorage {
    pub inner: Mutex<Inner>,
    pub faults: Option<FaultsRef>,
    /// `write_file` empties the file, as the file-system storage does
    pub truncating: bool,
    pub logging: bool,
    /// only these storage calls are faultable, by name; empty: all
    pub rchunk: crate::data::Chunk,
    pub wchunk: crate::data::Chunk,
    /// faults confined to one file: its opening for writing, its I/O and its removal
    pub path_faults: BTreeMap<PathBuf, FaultsRef>,
    /// paths that are symbolic links: what is found there belongs to somebody else
    pub links: std::collections::BTreeSet<PathBuf>,
}

pub fn norm(p: &Path) -> PathBuf {
    let mut o = PathBuf::new();
    for c in p.components() {
        match c {
            Component::CurDir => {}
            Component::ParentDir => {
                if !o.pop() {
                    o.push("..");
                }
            }
            c => o.push(c.as_os_str()),
        }
    }
    o
}

impl MemStorage {
    pub fn new() -> Self {
        MemStorage {
            inner: Mutex::default(),
            faults: None,
            truncating: true,
            logging: false,
            rchunk: crate::data::Chunk::Full,
            wchunk: crate::data::Chunk::Full,
            path_faults: BTreeMap::new(),
            links: Default::default(),
        }
    }
    fn step_path(&self, p: &Path, e: Error, on: &'static str) -> Result<(), Error> {
        if let Some(f) = self.path_faults.get(p) {
            if !matches!(f.lock().unwrap().step(Class::Storage, on), Verdict::Go) {
                return Err(e);
            }
        }
        Ok(())
    }
    fn open_write(&self, path: &Path, truncate: bool) -> Result<Entry<MemFile>, Error> {
        self.step(Error::OpenFile(FileMode::Write), "write_file")?;
        let p = norm(path);
        self.step_path(&p, Error::OpenFile(FileMode::Write), "write_file")?;
        let mut i = self.inner.lock().unwrap();
        let n = i.nodes.get(&p).cloned();
        match n {
            Some(Node::File(st)) => {
                if truncate {
                    st.lock().unwrap().data.clear();
                }
                i.journal.push(SEv::OpenWrite(p));
                drop(i);
                Ok(self.handle(path.to_path_buf(), st))
            }
            _ => Err(Error::OpenFile(FileMode::Write)),
        }
    }
    fn step(&self, e: Error, on: &'static str) -> Result<(), Error> {
        if let Some(f) = &self.faults {
            if !matches!(f.lock().unwrap().step(Class::Storage, on), Verdict::Go) {
                return Err(e);
            }
        }
        Ok(())
    }
    fn handle(&self, path: PathBuf, st: Arc<Mutex<FileState>>) -> Entry<MemFile> {
        if self.logging {
            st.lock().unwrap().logging = true;
        }
        let mut f = MemFile::on(st).chunks(&self.rchunk, &self.wchunk);
        f.faults = self.path_faults.get(&norm(&path)).or(self.faults.as_ref()).cloned();
        if norm(&path).parent() == Some(std::env::temp_dir().as_path()) {
            f.tag = "temp";
        }
        Entry::verif_file(path, f)
    }
    pub fn put(&self, p: impl AsRef<Path>, data: Vec<u8>) {
        let p = norm(p.as_ref());
        let mut i = self.inner.lock().unwrap();
        let mut d = p.clone();
        while d.pop() && !d.as_os_str().is_empty() {
            i.nodes.entry(d.clone()).or_insert(Node::Dir);
        }
        i.nodes.insert(p, Node::File(Arc::new(Mutex::new(FileState { data, ..Default::default() }))));
    }
    pub fn mkdir(&self, p: impl AsRef<Path>) {
        let p = norm(p.as_ref());
        let mut i = self.inner.lock().unwrap();
        let mut d = p;
        loop {
            if d.as_os_str().is_empty() {
                break;
            }
            i.nodes.entry(d.clone()).or_insert(Node::Dir);
            if !d.pop() {
                break;
            }
        }
    }
    pub fn get(&self, p: impl AsRef<Path>) -> Option<Vec<u8>> {
        match self.inner.lock().unwrap().nodes.get(&norm(p.as_ref())) {
            Some(Node::File(f)) => Some(f.lock().unwrap().data.clone()),
            _ => None,
        }
    }
    pub fn is_dir(&self, p: impl AsRef<Path>) -> bool {
        matches!(self.inner.lock().unwrap().nodes.get(&norm(p.as_ref())), Some(Node::Dir))
    }
    /// path -> None for a directory, Some(content) for a file
    pub fn snapshot(&self) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
        self.inner
            .lock()
            .unwrap()
            .nodes
            .iter()
            .map(|(k, v)| {
                (
                    k.clone(),
                    match v {
                        Node::Dir => None,
                        Node::File(f) => Some(f.lock().unwrap().data.clone()),
                    },
                )
            })
            .collect()
    }
    pub fn journal(&self) -> Vec<SEv> {
        self.inner.lock().unwrap().journal.clone()
    }
    fn parent_ok(i: &Inner, p: &Path) -> bool {
        match p.parent() {
            None => true,
            Some(d) if d.as_os_str().is_empty() || d == Path::new("/") => true,
            Some(d) => matches!(i.nodes.get(d), Some(Node::Dir)),
        }
    }
}

impl Storage<MemFile> for MemStorage {
    fn create_dir_all<P: AsRef<Path>>(&self, path: P) -> Result<(), Error> {
        self.step(Error::CreateDir, "create_dir_all")?;
        let p = norm(path.as_ref());
        let mut i = self.inner.lock().unwrap();
        let mut chain = vec![];
        let mut d = p.clone();
        loop {
            if d.as_os_str().is_empty() {
                break;
            }
            chain.push(d.clone());
            if !d.pop() {
                break;
            }
        }
        for d in &chain {
            if matches!(i.nodes.get(d), Some(Node::File(_))) {
                return Err(Error::CreateDir);
            }
        }
        for d in chain.into_iter().rev() {
            i.nodes.entry(d).or_insert(Node::Dir);
        }
        i.journal.push(SEv::MkDir(p));
        Ok(())
    }
    fn create_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<MemFile>, Error> {
        self.step(Error::CreateFile, "create_file")?;
        let p = norm(path.as_ref());
        let mut i = self.inner.lock().unwrap();
        if i.nodes.contains_key(&p) || !Self::parent_ok(&i, &p) {
            // the temporary directory always exists
            if i.nodes.contains_key(&p) || p.parent() != Some(std::env::temp_dir().as_path()) {
                return Err(Error::CreateFile);
            }
        }
        let st = Arc::new(Mutex::new(FileState::default()));
        i.nodes.insert(p.clone(), Node::File(st.clone()));
        i.journal.push(SEv::Create(p));
        drop(i);
        Ok(self.handle(path.as_ref().to_path_buf(), st))
    }
    fn read_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<MemFile>, Error> {
        self.step(Error::OpenFile(FileMode::Read), "read_file")?;
        let p = norm(path.as_ref());
        let n = if p.as_os_str().is_empty() { Some(Node::Dir) } else { self.inner.lock().unwrap().nodes.get(&p).cloned() };
        match n {
            Some(Node::Dir) => Ok(Entry::Dir(path.as_ref().to_path_buf())),
            Some(Node::File(st)) => Ok(self.handle(path.as_ref().to_path_buf(), st)),
            None => Err(Error::OpenFile(FileMode::Read)),
        }
    }
    fn write_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<MemFile>, Error> {
        self.open_write(path.as_ref(), self.truncating)
    }
    fn overwrite_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<MemFile>, Error> {
        self.open_write(path.as_ref(), false)
    }
    fn is_symlink<P: AsRef<Path>>(&self, path: P) -> bool {
        self.links.contains(&norm(path.as_ref()))
    }
    fn flush_file(&self, file: &Entry<MemFile>) -> Result<(), Error> {
        self.step(Error::FlushFile, "flush_file")?;
        file.try_writer().map(|_| ())
    }
    fn file_len(&self, file: &Entry<MemFile>) -> Result<usize, Error> {
        self.step(Error::FileLen, "file_len")?;
        let n = file.try_reader()?.borrow().st.lock().unwrap().data.len();
        Ok(n)
    }
    fn remove_file(&self, file: Entry<MemFile>) -> Result<(), Error> {
        self.step(Error::RemoveFile, "remove_file")?;
        let p = norm(file.path());
        self.step_path(&p, Error::RemoveFile, "remove_file")?;
        let mut i = self.inner.lock().unwrap();
        match i.nodes.get(&p).cloned() {
            Some(Node::File(st)) => {
                i.nodes.remove(&p);
                let s = st.lock().unwrap();
                let ev = SEv::Remove { path: p, content: s.data.clone(), log: s.log.clone() };
                drop(s);
                i.journal.push(ev);
                Ok(())
            }
            _ => Err(Error::RemoveFile),
        }
    }
    fn remove_dir_all(&self, file: Entry<MemFile>) -> Result<(), Error> {
        self.step(Error::RemoveDir, "remove_dir_all")?;
        if !file.is_dir() {
            return Err(Error::RemoveDir);
        }
        let p = norm(file.path());
        let mut i = self.inner.lock().unwrap();
        let keys: Vec<PathBuf> = i.nodes.keys().filter(|k| k.starts_with(&p)).cloned().collect();
        if keys.is_empty() {
            return Err(Error::RemoveDir);
        }
        let files = keys.iter().filter(|k| matches!(i.nodes[*k], Node::File(_))).cloned().collect();
        for k in &keys {
            i.nodes.remove(k);
        }
        i.journal.push(SEv::RemoveDir { path: p, files });
        Ok(())
    }
    fn read_dir(&self, file: &Entry<MemFile>) -> Result<Vec<Entry<MemFile>>, Error> {
        self.step(Error::DirEntries, "read_dir")?;
        if !file.is_dir() {
            return Err(Error::FileAccess);
        }
        let root = file.path().to_path_buf();
        let p = norm(&root);
        let keys: Vec<(PathBuf, Node)> = self
            .inner
            .lock()
            .unwrap()
            .nodes
            .iter()
            .filter(|(k, _)| k.starts_with(&p))
            .map(|(k, n)| (k.clone(), n.clone()))
            .collect();
        Ok(keys
            .into_iter()
            .map(|(k, n)| {
                let rel = k.strip_prefix(&p).unwrap();
                let shown = if rel.as_os_str().is_empty() { root.clone() } else { root.join(rel) };
                match n {
                    Node::Dir => Entry::Dir(shown),
                    Node::File(st) => self.handle(shown, st),
                }
            })
            .collect())
    }
}
