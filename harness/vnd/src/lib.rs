//! One harness body, two uses: under Kani `any` is a symbolic value, `assume` restricts it and
//! `check!` is a proof obligation; natively `any` is read from a recorded counterexample or drawn
//! from a generator, so that a failed obligation is replayed on the compiled code.

#[cfg(kani)]
mod imp {
    #[inline(always)]
    pub fn any<T: kani::Arbitrary>() -> T {
        kani::any()
    }
    #[inline(always)]
    pub fn bytes<const N: usize>() -> [u8; N] {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    pub use kani::Arbitrary as Any;
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;

    pub struct AssumeFailed;

    enum Mode {
        Tape,
        Random,
    }
    struct Src {
        mode: Mode,
        tape: Vec<u8>,
        pos: usize,
        state: u64,
        style: u64,
        log: Vec<u8>,
    }
    thread_local! {
        static SRC: RefCell<Src> = RefCell::new(Src {
            mode: Mode::Random, tape: Vec::new(), pos: 0, state: 1, style: 0, log: Vec::new(),
        });
    }
    pub fn set_tape(t: Vec<u8>) {
        SRC.with(|s| {
            let mut s = s.borrow_mut();
            s.mode = Mode::Tape;
            s.tape = t;
            s.pos = 0;
            s.log.clear();
        })
    }
    pub fn set_random(seed: u64) {
        SRC.with(|s| {
            let mut s = s.borrow_mut();
            s.mode = Mode::Random;
            s.state = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
            s.style = seed % 8;
            s.log.clear();
        })
    }
    pub fn take_log() -> Vec<u8> {
        SRC.with(|s| std::mem::take(&mut s.borrow_mut().log))
    }
    fn next64(s: &mut Src) -> u64 {
        s.state = s.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = s.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// `n` little-endian bytes of one scalar
    pub fn scalar(n: usize) -> u64 {
        SRC.with(|s| {
            let mut s = s.borrow_mut();
            let v = match s.mode {
                Mode::Tape => {
                    let mut v = 0u64;
                    for i in 0..n {
                        let p = s.pos;
                        let b = s.tape.get(p).copied().unwrap_or(0);
                        s.pos += 1;
                        v |= (b as u64) << (8 * i);
                    }
                    v
                }
                Mode::Random => {
                    let m = if n == 8 { u64::MAX } else { (1 << (8 * n)) - 1 };
                    let r = next64(&mut s);
                    // styles: mostly uniform, some runs concentrate on boundary values
                    match s.style {
                        0..=4 => (r >> 8) & m,
                        5 => match r % 4 {
                            0 => 0,
                            1 => m,
                            2 => (r >> 8) & m & 7,
                            _ => (r >> 8) & m,
                        },
                        6 => {
                            if r % 16 == 0 {
                                (r >> 8) & m
                            } else {
                                0
                            }
                        }
                        _ => {
                            if r % 3 == 0 {
                                (r >> 8) & m
                            } else {
                                m
                            }
                        }
                    }
                }
            };
            for i in 0..n {
                s.log.push((v >> (8 * i)) as u8);
            }
            v
        })
    }
    pub trait Any {
        fn draw() -> Self;
    }
    macro_rules! prim {
        ($($t:ty),*) => { $(impl Any for $t { fn draw() -> Self { scalar(core::mem::size_of::<$t>()) as $t } })* };
    }
    prim!(u8, u16, u32, u64, usize, i8, i16, i32, i64);
    impl Any for bool {
        fn draw() -> Self {
            scalar(1) & 1 == 1
        }
    }
    impl<T: Any, const N: usize> Any for [T; N] {
        fn draw() -> Self {
            core::array::from_fn(|_| T::draw())
        }
    }
    pub fn any<T: Any>() -> T {
        T::draw()
    }
    pub fn bytes<const N: usize>() -> [u8; N] {
        any()
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(AssumeFailed)
        }
    }
}

pub use imp::*;

/// a value below `n` (by reduction, so that native search does not discard draws)
#[inline(always)]
pub fn below(n: usize) -> usize {
    #[cfg(kani)]
    {
        let i: u16 = any();
        assume((i as usize) < n);
        i as usize
    }
    #[cfg(not(kani))]
    {
        (any::<u16>() as usize) % n
    }
}
#[inline(always)]
pub fn upto_u16(max: u16) -> u16 {
    let i: u16 = any();
    #[cfg(kani)]
    {
        assume(i <= max);
        i
    }
    #[cfg(not(kani))]
    {
        if i <= max {
            i
        } else {
            i % (max.wrapping_add(1).max(1))
        }
    }
}

#[macro_export]
macro_rules! check {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::assert($c, $m);
        #[cfg(not(kani))]
        assert!($c, $m);
    }};
}

/// `harnesses! { name => path::to::body, ... }` makes one Kani proof per entry (with a
/// reachability cover) and, natively, a table of names and bodies.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* $name:ident ),* $(,)?) => {
        #[cfg(kani)]
        mod proofs {
            #[allow(unused_imports)]
            use super::*;
            $( #[kani::proof] $(#[$m])* fn $name() { super::bodies::$name(); kani::cover!(true, "end of harness reached"); } )*
        }
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), bodies::$name as fn()) ),* ];
    };
}

#[cfg(not(kani))]
pub mod native {
    use super::imp::*;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::time::{Duration, Instant};

    pub enum Outcome {
        Held,
        Skipped,
        Failed(String),
    }
    pub fn run(f: fn()) -> Outcome {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(()) => Outcome::Held,
            Err(e) => {
                if e.downcast_ref::<AssumeFailed>().is_some() {
                    Outcome::Skipped
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    Outcome::Failed(s.to_string())
                } else if let Some(s) = e.downcast_ref::<String>() {
                    Outcome::Failed(s.clone())
                } else {
                    Outcome::Failed("panic".into())
                }
            }
        }
    }
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{:02x}", x)).collect()
    }
    fn unhex(s: &str) -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
    /// `replay NAME HEX` | `search NAME SECONDS SEED [MAXITER]` | `list`
    /// exit 0: held, 3: failing input found (printed), 2: usage
    pub fn main(table: &[(&str, fn())]) -> ! {
        let a: Vec<String> = std::env::args().collect();
        std::panic::set_hook(Box::new(|_| {}));
        let find = |n: &str| table.iter().find(|(k, _)| *k == n).map(|(_, f)| *f);
        let code = match a.get(1).map(|s| s.as_str()) {
            Some("list") => {
                for (n, _) in table {
                    println!("{}", n);
                }
                0
            }
            Some("replay") => match find(&a[2]) {
                None => 2,
                Some(f) => {
                    set_tape(unhex(a.get(3).map(|s| s.as_str()).unwrap_or("")));
                    match run(f) {
                        Outcome::Held => {
                            println!("HELD");
                            0
                        }
                        Outcome::Skipped => {
                            println!("SKIPPED");
                            0
                        }
                        Outcome::Failed(m) => {
                            println!("FAILED {} :: {} :: {}", a[2], m.replace('\n', " "), hex(&take_log()));
                            3
                        }
                    }
                }
            },
            Some("search") => {
                let secs: f64 = a[3].parse().unwrap();
                let seed: u64 = a[4].parse().unwrap();
                let maxit: u64 = a.get(5).and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
                let names: Vec<&str> = a[2].split(',').collect();
                let mut code = 0;
                for n in &names {
                    let Some(f) = find(n) else {
                        println!("UNKNOWN {}", n);
                        continue;
                    };
                    let t0 = Instant::now();
                    let per = Duration::from_secs_f64(secs / names.len() as f64);
                    let (mut held, mut skipped, mut i) = (0u64, 0u64, 0u64);
                    let mut failed = None;
                    while i < maxit && (i == 0 || t0.elapsed() < per) {
                        set_random(seed.wrapping_mul(1_000_003).wrapping_add(i));
                        match run(f) {
                            Outcome::Held => held += 1,
                            Outcome::Skipped => skipped += 1,
                            Outcome::Failed(m) => {
                                failed = Some(m);
                                break;
                            }
                        }
                        i += 1;
                    }
                    match failed {
                        Some(m) => {
                            println!("FAILED {} :: {} :: {}", n, m.replace('\n', " "), hex(&take_log()));
                            code = 3;
                        }
                        None => println!("SEARCHED {} held={} skipped={}", n, held, skipped),
                    }
                }
                code
            }
            _ => 2,
        };
        std::process::exit(code)
    }
}
