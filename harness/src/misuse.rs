//! Deliberate misuse of memory: a monitor that stays silent on these is of no use (C20).
pub fn misuse(kind: &str) {
    use std::hint::black_box;
    match kind {
        "outside" => {
            let v = vec![1u64; black_box(4)];
            black_box(unsafe { *v.as_ptr().add(black_box(4)) });
        }
        "stale" => {
            let mut v: Vec<u8> = Vec::with_capacity(black_box(64));
            unsafe { v.set_len(64) };
            if black_box(v)[3] == 7 {
                println!("seven");
            }
        }
        "race" => {
            static mut N: u64 = 0;
            let hs: Vec<_> = (0..2).map(|i| std::thread::spawn(move || for _ in 0..100 {
                unsafe { std::ptr::addr_of_mut!(N).write_volatile(i) };
            })).collect();
            for h in hs {
                h.join().unwrap();
            }
        }
        _ => panic!("unknown misuse"),
    }
}
