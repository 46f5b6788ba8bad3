//! The library as a 32-bit WebAssembly module: `run` takes the text of a call and leaves the
//! text of its outcome.  A panic ends the instance (trap).
#[path = "../../harness/src/call.rs"]
#[allow(dead_code)]
mod call;
use std::sync::Mutex;

static OUT: Mutex<Vec<u8>> = Mutex::new(Vec::new());

#[no_mangle]
pub extern "C" fn buffer(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}

/// # Safety
/// `p` comes from `buffer(n)`.
#[no_mangle]
pub unsafe extern "C" fn run(p: *mut u8, n: usize) -> usize {
    let text = String::from_utf8(Box::from_raw(std::slice::from_raw_parts_mut(p, n)).into_vec()).unwrap();
    let t: Vec<&str> = text.split(' ').collect();
    let o = call::Call::parse(&t).run().text().into_bytes();
    let mut g = OUT.lock().unwrap();
    *g = o;
    g.len()
}

#[no_mangle]
pub extern "C" fn result() -> *const u8 {
    OUT.lock().unwrap().as_ptr()
}

#[no_mangle]
pub extern "C" fn bits() -> u32 {
    usize::BITS
}
