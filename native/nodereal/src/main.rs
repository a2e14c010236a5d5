//! The real database.rs on the real store, in a scratch directory.
#![allow(dead_code)]
#[path = "/repo/vru-node/src/database.rs"]
mod database;
use database::Database;
use std::{env, fs, path::PathBuf, process::Command};
use vnd::{any, bytes, check};

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Scratch {
    let d = env::temp_dir().join(format!("vru-key-{}-{:x}", std::process::id(), any::<u64>()));
    fs::create_dir(&d).expect("scratch directory");
    Scratch(d)
}
/// in this process, or in one that ends without any cleaning up
fn start(dir: &PathBuf, fresh: &[u8; 96], crash: bool) -> (String, usize) {
    if crash {
        let hex: String = fresh.iter().map(|b| format!("{:02x}", b)).collect();
        let o = Command::new(env::current_exe().unwrap()).arg("child").arg(dir).arg(hex).output().unwrap();
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let mut w = text.split_whitespace();
        return (w.next().unwrap_or("").to_string(), w.next().and_then(|n| n.parse().ok()).unwrap_or(9));
    }
    let mut n = 0;
    let db = Database::open(dir.join("db")).expect("open");
    let (pk, _) = db
        .key_or_insert(|s| {
            n += 1;
            s.clone_from_slice(fresh)
        })
        .expect("key");
    (pk.identity().to_string(), n)
}
fn key_survives() {
    let s = scratch();
    let (a, b): ([u8; 96], [u8; 96]) = (bytes(), bytes());
    let mut arr = rac::Array::default();
    arr.clone_from_slice(&a);
    let want = vru_session::handshake::PublicKey::gen(&arr).0.identity().to_string();
    let (i, n) = start(&s.0, &a, any());
    check!(n == 1 && i == want, "the first start draws the seed once");
    for _ in 0..2 {
        let (j, n) = start(&s.0, &b, any());
        check!(n == 0 && j == want, "later starts give the same pair, also after a crash");
    }
}
fn main() {
    let args: Vec<String> = env::args().collect();
    if args.len() == 4 && args[1] == "child" {
        let mut f = [0; 96];
        for i in 0..96 {
            f[i] = u8::from_str_radix(&args[3][2 * i..2 * i + 2], 16).unwrap();
        }
        let mut n = 0;
        let db = Database::open(PathBuf::from(&args[2]).join("db")).expect("open");
        let (pk, _) = db
            .key_or_insert(|s| {
                n += 1;
                s.clone_from_slice(&f)
            })
            .expect("key");
        println!("{} {}", pk.identity(), n);
        std::process::abort();
    }
    vnd::native::main(&[("key_survives", key_survives)])
}
