//! Deliberate faults: shows that the monitors of a build are alive. One per name.
use std::cell::UnsafeCell;
struct S(UnsafeCell<u64>);
unsafe impl Sync for S {}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let what = a.iter().position(|x| x == "--only").map(|i| a[i + 1].clone()).unwrap_or_default();
    if a.iter().any(|x| x == "--list") { return }
    hh::alloc::JUDGE.store(true, std::sync::atomic::Ordering::Relaxed);
    let n = std::hint::black_box(4usize);
    match what.as_str() {
        "race" => {
            let s = S(UnsafeCell::new(0));
            let b = std::sync::Barrier::new(2);
            std::thread::scope(|t| for _ in 0..2 { let (s, b) = (&s, &b); t.spawn(move || { b.wait(); for i in 0..1000 { unsafe { *s.0.get() += i } } }); });
            println!("{}", unsafe { *s.0.get() });
        }
        "overflow" => { let v = vec![1u64; n]; println!("{}", unsafe { *v.as_ptr().add(n) }); }
        "freed" => { let v = vec![1u64; n]; let p = v.as_ptr(); drop(v); println!("{}", unsafe { std::ptr::read_volatile(p) }); }
        "leak" => { for _ in 0..100 { std::mem::forget(std::hint::black_box(vec![1u64; n * 1000])) } }
        "alias" => {
            let mut v = vec![1u64; n];
            let p = v.as_mut_ptr();
            let r = &mut v[..];
            r[0] = 2;
            unsafe { *p = 3 }
            println!("{}", r[0]);
        }
        "precondition" => { let v = vec![1u64; n]; println!("{}", unsafe { v.get_unchecked(n) }); }
        "layout" => unsafe {
            let l = std::alloc::Layout::from_size_align(16 * n, 8).unwrap();
            let p = std::alloc::alloc(l);
            std::alloc::dealloc(std::hint::black_box(p), std::alloc::Layout::from_size_align(8 * n, 8).unwrap());
        },
        "tail" => { let mut v = vec![1u64; n]; unsafe { *v.as_mut_ptr().add(std::hint::black_box(n)) = 7 } drop(std::hint::black_box(v)); }
        _ => panic!("no such fault"),
    }
    println!("{{\"done\":true,\"truncated\":false,\"counters\":{{}},\"cases\":{{}},\"states\":0,\"judged\":0,\"samples\":[],\"ms\":0}}");
}
