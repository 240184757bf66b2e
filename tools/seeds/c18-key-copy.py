prop = "C18"
needs = "Any key operation with a right password; the freed heap memory has to be searched for the data key."
breaks = "The buffer into which the keyslot's data key is decrypted is given back without being overwritten."
edits = [("volaris-tools/src/key.rs", """        let mut master_key_decrypted = master_key_result.unwrap();
""", """        let master_key_decrypted = master_key_result.unwrap();
"""), ("volaris-tools/src/key.rs", """        master_key_decrypted.zeroize();

        index = Some(i);
""", """
        index = Some(i);
"""), ("volaris-tools/src/key.rs", "use corecrypto::Zeroize;\n", "")]
rust = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
static ON: AtomicBool = AtomicBool::new(false);
static HITS: AtomicUsize = AtomicUsize::new(0);
static mut NEEDLE: [u8; 32] = [0; 32];
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(SeqCst) && l.size() >= 32 {
            let b = std::slice::from_raw_parts(p, l.size());
            let n = *std::ptr::addr_of!(NEEDLE);
            if b.windows(16).any(|w| w == &n[..16]) { HITS.fetch_add(1, SeqCst); }
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let f = encrypt(b"content", b"first", Algorithm::XChaCha20Poly1305, FAST);
    let (header, _) = Header::deserialize(&mut Cursor::new(f.clone())).unwrap();
    let k = corecrypto::key::decrypt_master_key(key(b"first"), &header).unwrap();
    unsafe { std::ptr::addr_of_mut!(NEEDLE).write(*k.expose()) };
    let h = buf(&f);
    ON.store(true, SeqCst);
    let r = tools::key::verify::execute(tools::key::verify::Request { handle: &h, raw_key: key(b"first") });
    ON.store(false, SeqCst);
    assert!(r.is_ok());
    if HITS.load(SeqCst) > 0 {
        bad("the data key is left in freed memory");
    }
}
'''
