#![allow(dead_code, unused_imports)]
use corecrypto::header::{Header, HeaderType, HeaderVersion, HashingAlgorithm};
use corecrypto::primitives::{Algorithm, Mode};
use corecrypto::protected::Protected;
use std::cell::RefCell;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

const FAST: HashingAlgorithm = HashingAlgorithm::Argon2id(1);
type Buf = RefCell<Cursor<Vec<u8>>>;

fn buf(b: &[u8]) -> Buf {
    RefCell::new(Cursor::new(b.to_vec()))
}
fn key(k: &[u8]) -> Protected<Vec<u8>> {
    Protected::new(k.to_vec())
}
fn v5(algorithm: Algorithm) -> HeaderType {
    HeaderType { version: HeaderVersion::V5, algorithm, mode: Mode::StreamMode }
}
fn encrypt(data: &[u8], k: &[u8], algorithm: Algorithm, kdf: HashingAlgorithm) -> Vec<u8> {
    let (i, o) = (buf(data), buf(b""));
    tools::encrypt::execute(tools::encrypt::Request {
        reader: &i, writer: &o, header_writer: None, raw_key: key(k), header_type: v5(algorithm), hashing_algorithm: kdf,
    }).expect("encrypt");
    o.into_inner().into_inner()
}
fn decrypt(file: &[u8], k: &[u8]) -> Result<Vec<u8>, String> {
    let (i, o) = (buf(file), buf(b""));
    tools::decrypt::execute(tools::decrypt::Request {
        header_reader: None, reader: &i, writer: &o, raw_key: key(k), on_decrypted_header: None,
    }).map_err(|e| e.to_string())?;
    Ok(o.into_inner().into_inner())
}
fn bad(why: &str) -> ! {
    eprintln!("{why}");
    std::process::exit(1)
}

