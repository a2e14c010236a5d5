//! Finite domains evaluated completely on the compiled code.
use rac::generic_array::{typenum::*, GenericArray};
use vnd::check;
use vru_kyber::verif::*;

pub const TABLE: &[(&str, fn())] = &[
    ("ex_coefficient_unary", ex_coefficient_unary as fn()),
    ("ex_acc_single", ex_acc_single as fn()),
    ("ex_ntt_forward_basis", ex_ntt_forward_basis as fn()),
    ("ex_ntt_inverse_basis", ex_ntt_inverse_basis as fn()),
    ("ntt_linear", ntt_linear as fn()),
    ("ntt_roundtrip", ntt_roundtrip as fn()),
    ("acc_random", acc_random as fn()),
];
const Q: u64 = 7681;

/// every 16-bit input
fn ex_coefficient_unary() {
    for a in 0..=u16::MAX {
        check!(Coefficient(a).freeze() as u64 == a as u64 % Q, "freeze is the canonical residue");
        let r = Coefficient::barrett_reduce(a).0;
        check!(r as u64 % Q == a as u64 % Q && r <= 11768, "barrett_reduce");
    }
}
/// every pair of reduced coefficients
fn ex_acc_single() {
    let mut threads = Vec::new();
    for t in 0..8u16 {
        threads.push(std::thread::spawn(move || {
            let mut a = t;
            while a <= 11768 {
                let x = Coefficient(a);
                for b in 0..=11768u16 {
                    let y = Coefficient(b);
                    let r = Coefficient::acc(std::iter::once((&x, &y))).0;
                    if r as u64 % Q != a as u64 * b as u64 % Q || r > 11768 {
                        return Some((a, b, r));
                    }
                }
                a += 8;
            }
            None
        }));
    }
    for t in threads {
        match t.join() {
            Ok(None) => {}
            Ok(Some((a, b, r))) => panic!("acc of the pair ({}, {}) is {}", a, b, r),
            Err(_) => panic!("acc panics on a pair of reduced coefficients"),
        }
    }
}
fn pow(b: u64, mut e: u64) -> u64 {
    let (mut r, mut b) = (1, b % Q);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % Q;
        }
        b = b * b % Q;
        e >>= 1;
    }
    r
}
/// the i-th evaluation point
pub fn root(i: usize) -> u64 {
    pow(62, 2 * (i as u8).reverse_bits() as u64 + 1)
}
fn poly(c: &[u64]) -> PolyInner<U32> {
    PolyInner { c: GenericArray::from_exact_iter(c.iter().map(|x| Coefficient(*x as u16))).unwrap() }
}
pub fn forward(c: &[u64]) -> Vec<u64> {
    Poly::<U32, B1>::verif_new(poly(c)).ntt().verif_inner().c.iter().map(|x| x.0 as u64).collect()
}
pub fn inverse(c: &[u64]) -> Vec<u64> {
    Poly::<U32, B0>::verif_new(poly(c)).ntt().verif_inner().c.iter().map(|x| x.0 as u64).collect()
}
/// forward transform of x^j is its evaluation at the 256 roots of x^256 + 1
fn ex_ntt_forward_basis() {
    for i in 0..256 {
        check!(pow(root(i), 256) == Q - 1, "evaluation points are roots of x^256+1");
        for k in 0..i {
            check!(root(i) != root(k), "evaluation points are distinct");
        }
    }
    for j in 0..256 {
        for s in [1u64, 7680] {
            let mut c = [0; 256];
            c[j] = s;
            let r = forward(&c);
            for i in 0..256 {
                if r[i] % Q != s * pow(root(i), j as u64) % Q {
                    panic!("forward transform of {}*x^{} is wrong at point {}", s, j, i)
                }
            }
        }
    }
}
/// inverse transform of the evaluations of x^j is x^j
fn ex_ntt_inverse_basis() {
    for j in 0..256 {
        let c: Vec<u64> = (0..256).map(|i| pow(root(i), j)).collect();
        let r = inverse(&c);
        for i in 0..256 {
            if r[i] % Q != (i as u64 == j) as u64 {
                panic!("inverse transform of the evaluations of x^{} is wrong at {}", j, i)
            }
        }
        let mut c = [0; 256];
        c[j as usize] = 1;
        let r = inverse(&c);
        let n1 = pow(256, Q - 2);
        for i in 0..256u64 {
            let want = n1 * pow(pow(root(j as usize), i), Q - 2) % Q;
            if r[i as usize] % Q != want {
                panic!("inverse transform of unit vector {} is wrong at {}", j, i)
            }
        }
    }
}
fn draw() -> Vec<u64> {
    (0..256).map(|_| vnd::upto_u16(11768) as u64).collect()
}
/// additivity on arbitrary reduced inputs (both transforms)
fn ntt_linear() {
    let (a, b) = (draw(), draw());
    let s: Vec<u64> = (0..256).map(|i| (a[i] + b[i]) % Q).collect();
    for f in [forward as fn(&[u64]) -> Vec<u64>, inverse] {
        let (x, y, z) = (f(&a), f(&b), f(&s));
        for i in 0..256 {
            check!(x[i] <= 11768 && y[i] <= 11768, "transform output range");
            check!((x[i] + y[i]) % Q == z[i] % Q, "transform is additive");
        }
    }
}
fn ntt_roundtrip() {
    let a = draw();
    let r = inverse(&forward(&a));
    for i in 0..256 {
        check!(r[i] % Q == a[i] % Q, "inverse transform undoes the forward transform");
    }
}
fn acc_random() {
    for w in 2..=4 {
        let a: Vec<Coefficient> = (0..w).map(|_| Coefficient(vnd::upto_u16(11768))).collect();
        let b: Vec<Coefficient> = (0..w).map(|_| Coefficient(vnd::upto_u16(11768))).collect();
        let r = Coefficient::acc(a.iter().zip(b.iter()));
        let want = (0..w).map(|i| a[i].0 as u64 * b[i].0 as u64).sum::<u64>() % Q;
        check!(r.0 as u64 % Q == want && r.0 <= 11768, "acc is the inner product");
    }
}
