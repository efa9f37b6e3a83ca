//! Run by Miri: first uses of the same calls by several threads, with random schedules
use sscanf::{sscanf, sscanf_get_regex, FromScanf};
use std::sync::Barrier;

#[derive(FromScanf)]
#[sscanf("{k:/[ab]/}={n:/[0-9]/}")]
struct Kv<'a> {
    k: &'a str,
    n: u8,
}
fn work(t: usize) -> usize {
    let text = format!("b={t}");
    let (a, b) = sscanf!(text, "{str:/[ab]/}={u8:/[0-9]/}").unwrap();
    assert!(b as usize == t && a.as_ptr() == text.as_ptr() && a.len() == 1);
    let kv = Kv::from_str(&text).unwrap();
    assert!(kv.k == a && kv.n as usize == t);
    assert!(Kv::from_str(a).is_err());
    sscanf_get_regex!("x") as *const _ as usize
}
fn main() {
    let threads = 2;
    let barrier = Barrier::new(threads);
    let seen: Vec<usize> = std::thread::scope(|s| {
        let h: Vec<_> = (0..threads)
            .map(|t| {
                let barrier = &barrier;
                s.spawn(move || {
                    barrier.wait();
                    work(t)
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    assert!(seen.iter().all(|p| *p == seen[0]), "threads see different regexes");
    println!("OBSERVED {}", threads * 4);
}
