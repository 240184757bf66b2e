//! Global allocator wrapper: tracks the heap use of a watched thread and looks for secrets in
//! the blocks that thread frees.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Watch;

pub struct State {
    pub needles: Vec<Vec<u8>>,
    pub hits: Cell<[u32; 8]>,
    pub cur: Cell<i64>,
    pub peak: Cell<i64>,
}

thread_local! {
    static STATE: Cell<*const State> = const { Cell::new(std::ptr::null()) };
}

fn state() -> Option<&'static State> {
    STATE.try_with(|s| unsafe { s.get().as_ref() }).ok().flatten()
}

fn scan(st: &State, p: *mut u8, n: usize) {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    for (i, nd) in st.needles.iter().enumerate().take(8) {
        if nd.is_empty() || nd.len() > n {
            continue;
        }
        let first = nd[0];
        let mut off = 0;
        while off + nd.len() <= n {
            match memchr(first, &b[off..=n - nd.len()]) {
                None => break,
                Some(k) => {
                    if b[off + k..off + k + nd.len()] == nd[..] {
                        let mut h = st.hits.get();
                        h[i] += 1;
                        st.hits.set(h);
                        break;
                    }
                    off += k + 1;
                }
            }
        }
    }
}

fn memchr(x: u8, b: &[u8]) -> Option<usize> {
    let p = unsafe { libc::memchr(b.as_ptr().cast(), i32::from(x), b.len()) };
    if p.is_null() {
        None
    } else {
        Some(p as usize - b.as_ptr() as usize)
    }
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if let Some(s) = state() {
            // what somebody else left in a block is not what its user leaves there
            if !p.is_null() && !s.needles.is_empty() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            let c = s.cur.get() + l.size() as i64;
            s.cur.set(c);
            if c > s.peak.get() {
                s.peak.set(c);
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if let Some(s) = state() {
            let c = s.cur.get() + l.size() as i64;
            s.cur.set(c);
            if c > s.peak.get() {
                s.peak.set(c);
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if let Some(s) = state() {
            // The state of AES lies aligned, and has room for another variant of it that is never
            // written: what the stack happened to hold gets copied along. Secrets are bytes.
            if l.align() < 16 {
                scan(s, p, l.size());
            }
            s.cur.set(s.cur.get() - l.size() as i64);
        }
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if state().is_some() {
            // move explicitly, so that the old block is seen when it is released
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}

pub struct Report {
    pub hits: [u32; 8],
    pub peak: i64,
}

/// Clears what earlier calls left on the stack.
#[inline(never)]
fn scrub() {
    let mut a = [0u8; 96 * 1024];
    std::hint::black_box(&mut a);
}

/// Runs `f` on this thread with the allocator watching it.
pub fn watch<T>(needles: Vec<Vec<u8>>, f: impl FnOnce() -> T) -> (T, Report) {
    let st = State { needles, hits: Cell::new([0; 8]), cur: Cell::new(0), peak: Cell::new(0) };
    scrub();
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            STATE.with(|s| s.set(std::ptr::null()));
        }
    }
    let r = {
        STATE.with(|s| s.set(&st));
        let _off = Off;
        f()
    };
    (r, Report { hits: st.hits.get(), peak: st.peak.get() })
}
