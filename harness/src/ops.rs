//! Thin wrappers over the library's operations on in-memory files. A panic is not caught here:
//! it fails the case.

use crate::io::MemFile;
use crate::refc::{kdf_lib, Alg, Kdf};
use corecrypto::header::{HeaderType, HeaderVersion};
use corecrypto::primitives::Mode;
use corecrypto::protected::Protected;
use std::cell::RefCell;

pub type Cell = RefCell<MemFile>;
pub type R = Result<(), String>;

pub fn prot(pw: &[u8]) -> Protected<Vec<u8>> {
    Protected::new(pw.to_vec())
}

fn s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

pub fn header_type(version: u8, alg: Alg, memory: bool) -> HeaderType {
    HeaderType {
        version: match version {
            1 => HeaderVersion::V1,
            2 => HeaderVersion::V2,
            3 => HeaderVersion::V3,
            4 => HeaderVersion::V4,
            _ => HeaderVersion::V5,
        },
        algorithm: alg.lib(),
        mode: if memory { Mode::MemoryMode } else { Mode::StreamMode },
    }
}

pub fn version_no(v: &HeaderVersion) -> u8 {
    match v {
        HeaderVersion::V1 => 1,
        HeaderVersion::V2 => 2,
        HeaderVersion::V3 => 3,
        HeaderVersion::V4 => 4,
        HeaderVersion::V5 => 5,
    }
}

pub fn encrypt(version: u8, alg: Alg, kdf: Kdf, pw: &[u8], input: &Cell, out: &Cell, hdr: Option<&Cell>) -> R {
    tools::encrypt::execute(tools::encrypt::Request {
        reader: input,
        writer: out,
        header_writer: hdr,
        raw_key: prot(pw),
        header_type: header_type(version, alg, false),
        hashing_algorithm: kdf_lib(kdf),
    })
    .map_err(s)
}

pub fn decrypt(pw: &[u8], input: &Cell, out: &Cell, hdr: Option<&Cell>) -> R {
    tools::decrypt::execute(tools::decrypt::Request {
        header_reader: hdr,
        reader: input,
        writer: out,
        raw_key: prot(pw),
        on_decrypted_header: None,
    })
    .map_err(s)
}

pub fn decrypt_err(pw: &[u8], input: &Cell, out: &Cell, hdr: Option<&Cell>) -> Result<(), tools::decrypt::Error> {
    tools::decrypt::execute(tools::decrypt::Request {
        header_reader: hdr,
        reader: input,
        writer: out,
        raw_key: prot(pw),
        on_decrypted_header: None,
    })
}

/// Plain convenience: decrypts bytes.
pub fn decrypt_bytes(pw: &[u8], file: &[u8], hdr: Option<&[u8]>) -> (R, Vec<u8>) {
    let i = MemFile::new(file.to_vec()).cell();
    let o = MemFile::new(vec![]).cell();
    let h = hdr.map(|h| MemFile::new(h.to_vec()).cell());
    let r = decrypt(pw, &i, &o, h.as_ref());
    let b = o.borrow().contents();
    (r, b)
}

pub fn encrypt_bytes(version: u8, alg: Alg, kdf: Kdf, pw: &[u8], data: &[u8]) -> Result<Vec<u8>, String> {
    let i = MemFile::new(data.to_vec()).cell();
    let o = MemFile::new(vec![]).cell();
    encrypt(version, alg, kdf, pw, &i, &o, None)?;
    let b = o.borrow().contents();
    Ok(b)
}

pub fn hash(f: MemFile) -> Result<String, String> {
    tools::hash::execute(tools::hasher::Blake3Hasher::default(), tools::hash::Request { reader: RefCell::new(f) }).map_err(s)
}

pub fn key_add(h: &Cell, old: &[u8], new: &[u8], kdf: Kdf) -> Result<(), tools::key::Error> {
    tools::key::add::execute(tools::key::add::Request {
        handle: h,
        raw_key_old: prot(old),
        raw_key_new: prot(new),
        hash_algorithm: kdf_lib(kdf),
    })
}
pub fn key_change(h: &Cell, old: &[u8], new: &[u8], kdf: Kdf) -> Result<(), tools::key::Error> {
    tools::key::change::execute(tools::key::change::Request {
        handle: h,
        raw_key_old: prot(old),
        raw_key_new: prot(new),
        hash_algorithm: kdf_lib(kdf),
    })
}
pub fn key_delete(h: &Cell, old: &[u8]) -> Result<(), tools::key::Error> {
    tools::key::delete::execute(tools::key::delete::Request { handle: h, raw_key_old: prot(old) })
}
pub fn key_verify(h: &Cell, pw: &[u8]) -> Result<(), tools::key::Error> {
    tools::key::verify::execute(tools::key::verify::Request { handle: h, raw_key: prot(pw) })
}
pub fn dump(r: &Cell, w: &Cell) -> R {
    tools::header::dump::execute(tools::header::dump::Request { reader: r, writer: w }).map_err(s)
}
pub fn restore(r: &Cell, w: &Cell) -> R {
    tools::header::restore::execute(tools::header::restore::Request { reader: r, writer: w }).map_err(s)
}
pub fn strip(h: &Cell) -> R {
    tools::header::strip::execute(tools::header::strip::Request { handle: h }).map_err(s)
}
