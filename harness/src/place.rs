//! The same call at odd places of a program (C18): PLACE names one.
//!   drop    in a destructor, while a panic unwinds the stack
//!   tls     in the destructor of a thread-local variable that is older than anything the
//!           library keeps for its thread, after the thread has made the same call
//!   nested  inside of a destructor of a thread-local, while unwinding, on a named thread
//!   hook    in the program's panic hook, which is run by rejected calls of the library itself
//!   plain   on a thread of its own, with another amount of spare room in the arguments
use super::call::{Call, Outcome};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

type Box_ = Arc<Mutex<Option<Outcome>>>;
struct Late { call: Call, unwinding: bool, out: Box_ }
impl Drop for Late {
    fn drop(&mut self) {
        let (c, o) = (self.call.clone(), self.out.clone());
        if self.unwinding && !std::thread::panicking() {
            let _ = catch_unwind(AssertUnwindSafe(move || {
                let _l = Late { call: c, unwinding: true, out: o };
                panic!("place");
            }));
        } else {
            *o.lock().unwrap() = Some(c.run());
        }
    }
}
thread_local! { static LATE: RefCell<Option<Late>> = const { RefCell::new(None) } }

pub fn run(place: &str, name: &str, call: &Call, tid: impl FnOnce() + Send) -> Outcome {
    let out: Box_ = Arc::default();
    let o = out.clone();
    let (place, c) = (place.to_string(), call.clone());
    std::thread::scope(|s| {
        let name = if name.contains('\0') || name.is_empty() { "main" } else { name };
        let h = std::thread::Builder::new().name(name.into()).stack_size(2 << 20).spawn_scoped(s, move || {
            tid();
            match place.as_str() {
                "drop" => drop(Late { call: c, unwinding: true, out: o }),
                "tls" | "nested" => {
                    LATE.with(|l| *l.borrow_mut() = Some(Late { call: c.clone(), unwinding: place == "nested", out: o }));
                    let _ = c.run();
                }
                "hook" => {
                    let first = c.run();
                    // a panic inside of a hook ends any program
                    if first == Outcome::Panic || c.long() {
                        *o.lock().unwrap() = Some(first);
                        return;
                    }
                    let seen: Arc<Mutex<Vec<Outcome>>> = Arc::default();
                    let (s, x) = (seen.clone(), c.clone());
                    let old = std::panic::take_hook();
                    std::panic::set_hook(Box::new(move |_| { let v = x.run(); s.lock().unwrap().push(v); }));
                    let bad = |modified, n, t, r, c| Call::Lyra { modified, k: 32, pwd: vec![1; n], salt: vec![2; 8], t, r, c };
                    for m in [false, true] {
                        if m && !cfg!(lyra2_verif) { continue; }
                        for b in [bad(m, 5000, 1, 4, 4), bad(m, 8, 0, 4, 4), bad(m, 8, 1, 2, 4), bad(m, 8, 1, 4, 0), bad(m, 8, 1, 1 << 62, 4)] {
                            b.run();
                        }
                    }
                    Call::One { f: "lyra2sum".into(), input: vec![3; 900] }.run();
                    std::panic::set_hook(old);
                    let all = seen.lock().unwrap();
                    *o.lock().unwrap() = Some(all.iter().find(|v| **v != first).unwrap_or(&first).clone());
                }
                _ => {
                    let v = c.spare(1000).run_once();
                    *o.lock().unwrap() = Some(v);
                }
            }
        }).expect("thread");
        let _ = h.join();
    });
    let r = out.lock().unwrap().take();
    r.expect("place: no outcome")
}
