//! Run by Miri: first and later uses of the same calls by several threads, with random schedules
use sscanf::{sscanf, sscanf_get_regex, FromScanf};
use std::sync::{Barrier, Mutex};

#[derive(FromScanf)]
#[sscanf("{k}={n}")]
struct Kv<'a> {
    k: &'a str,
    #[sscanf(map = |n: u8| n + 1)]
    n: u8,
}
#[derive(FromScanf, Debug, PartialEq)]
enum E {
    #[sscanf("a{}")]
    A(u8),
    #[sscanf("b")]
    B,
}
static SEEN: Mutex<Vec<usize>> = Mutex::new(vec![]);

fn work(t: usize) -> usize {
    let text = format!("k{t}={t}");
    let (a, b) = sscanf!(text, "{str}={u8}").unwrap();
    assert!(b as usize == t && a.as_ptr() == text.as_ptr() && a.len() == 2);
    assert!(sscanf!(text, "{str}").is_ok());
    SEEN.lock().unwrap().push(sscanf_get_regex!("{u8}") as *const _ as usize);
    let kv = Kv::from_str(&text).unwrap();
    assert!(kv.k == a && kv.n as usize == t + 1);
    assert_eq!(E::from_str("b").unwrap(), E::B);
    assert_eq!(E::from_str(&format!("a{t}")).unwrap(), E::A(t as u8));
    assert!(matches!(E::from_str("a300"), Err(sscanf::Error::ParsingFailed(_))));
    4
}
fn main() {
    let threads = 3;
    let barrier = Barrier::new(threads);
    let n: usize = std::thread::scope(|s| {
        let h: Vec<_> = (0..threads)
            .map(|t| {
                let barrier = &barrier;
                s.spawn(move || {
                    barrier.wait();
                    work(t)
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap()).sum()
    });
    let seen = SEEN.lock().unwrap();
    assert!(seen.iter().all(|p| *p == seen[0]), "threads see different regexes");
    println!("OBSERVED {}", n * 2);
}
