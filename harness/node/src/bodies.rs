use crate::database::Database;
use vnd::{any, bytes, check};

fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
/// one start of a node: the seed of its pair, and how often it was drawn
fn start(fresh: &[u8; 96]) -> (Option<[u8; 96]>, usize) {
    let mut calls = 0;
    let mut out = None;
    if let Ok(db) = Database::open("x") {
        let r = db.key_or_insert(|s| {
            calls += 1;
            s.clone_from_slice(fresh)
        });
        if let Ok((pk, sk)) = r {
            check!(same(&pk.0, &sk.0), "both keys of the same pair");
            let mut o = [0; 96];
            o.copy_from_slice(&pk.0);
            out = Some(o);
        }
    }
    (out, calls)
}
/// starts and crashes in turn; nothing fails
pub fn key_history() {
    sled::reset([false; 16]);
    let (a, b): ([u8; 96], [u8; 96]) = (bytes(), bytes());
    let (first, n) = start(&a);
    match first {
        Some(s) => check!(n == 1 && same(&s, &a), "the first start draws the seed once"),
        None => check!(false, "the first start gives a pair"),
    }
    if any::<bool>() {
        sled::crash(any());
    }
    let (second, n) = start(&b);
    match second {
        Some(s) => check!(n == 0 && same(&s, &a), "the second start gives the same pair"),
        None => check!(false, "the second start gives a pair"),
    }
    if any::<bool>() {
        sled::crash(any());
    }
    let (third, n) = start(&b);
    match third {
        Some(s) => check!(n == 0 && same(&s, &a), "the third start gives the same pair"),
        None => check!(false, "the third start gives a pair"),
    }
}
/// any operation of the store may fail
pub fn key_failure() {
    let mut fails = [false; 16];
    let mut i = 0;
    while i < 8 {
        fails[i] = any();
        i += 1;
    }
    sled::reset(fails);
    let (a, b): ([u8; 96], [u8; 96]) = (bytes(), bytes());
    let (first, n) = start(&a);
    unsafe { check!(first.is_none() == sled::FAILED, "a failure of the store is reported") }
    check!(n <= 1 && (first.is_none() || n == 1), "drawn at most once");
    if any::<bool>() {
        sled::crash(any());
    }
    unsafe {
        sled::STEP = 8;
        sled::FAILED = false;
    }
    let (second, m) = start(&b);
    match (first, second) {
        (_, None) => check!(false, "a later start gives a pair"),
        (Some(f), Some(s)) => check!(same(&f, &a) && same(&s, &a) && m == 0, "a pair that was given out stays"),
        (None, Some(s)) => check!(same(&s, &a) && m == 0 || same(&s, &b) && m == 1, "one of the seeds that were drawn"),
    }
}
