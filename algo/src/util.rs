//! Alphabets of integers and the boring reference arithmetic.
use num::{BigInt, BigUint, One, Signed, Zero};
use std::collections::BTreeSet;

pub fn b(n: i128) -> BigInt {
    BigInt::from(n)
}
pub fn p2(k: usize) -> BigInt {
    BigInt::one() << k
}
pub fn p10(k: usize) -> BigInt {
    (0..k).fold(BigInt::one(), |a, _| a * 10)
}
pub fn big(s: &str) -> BigInt {
    s.parse().unwrap_or_else(|_| panic!("not an integer: {s}"))
}
pub fn digest<T: std::fmt::Display>(t: &T) -> u64 {
    mc::hash(&t.to_string())
}
pub fn nat(n: &BigInt) -> BigUint {
    n.to_biguint().expect("natural")
}

/// Dense integers -r..=r and everything near a power of two, a limb edge or a power of ten,
/// plus products and Fibonacci / factorial numbers; ordered by size, without repeats.
pub fn ints(r: i128, bits: &[usize], spread: i128, tens: &[usize]) -> Vec<BigInt> {
    let mut s = BTreeSet::new();
    for i in -r..=r {
        s.insert(b(i));
    }
    for &k in bits {
        for d in -spread..=spread {
            s.insert(p2(k) + d);
            s.insert(-(p2(k) + d));
        }
    }
    for &k in tens {
        for d in -1..=1 {
            s.insert(p10(k) + d);
            s.insert(-(p10(k) + d));
        }
    }
    by_size(s)
}
pub fn by_size(s: BTreeSet<BigInt>) -> Vec<BigInt> {
    let mut v: Vec<BigInt> = s.into_iter().collect();
    v.sort_by_key(|x| (x.abs(), x.is_negative()));
    v
}
/// Structured numbers: highly composite, primes around limb edges, Fibonacci pairs, squares.
pub fn special() -> Vec<BigInt> {
    let mut s = BTreeSet::new();
    let (mut x, mut y) = (b(0), b(1));
    for i in 0..200 {
        if i % 23 < 2 {
            s.insert(x.clone());
        }
        let z = &x + &y;
        x = y;
        y = z;
    }
    let mut f = b(1);
    for i in 1..=40 {
        f = f * i;
        if i % 5 == 0 {
            s.insert(f.clone());
            s.insert(&f + 1);
        }
    }
    let mut q = b(1);
    for p in [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53] {
        q = q * p;
        s.insert(q.clone());
        s.insert(-&q);
    }
    for t in ["4294967291", "4294967311", "18446744073709551557", "18446744073709551629", "2147483647", "2305843009213693951", "170141183460469231731687303715884105727", "1000000007", "998244353", "65537", "6700417", "641"] {
        s.insert(big(t));
        s.insert(-big(t));
        s.insert(big(t) * big(t));
        s.insert(big(t) * 6);
    }
    by_size(s)
}

/// Euclid's machine: the state is the pair, one subtraction-free step per transition.
pub fn euclid(a: &BigInt, c: &BigInt) -> (BigInt, u64) {
    let (mut x, mut y) = (a.abs(), c.abs());
    let mut n = 0;
    while !y.is_zero() {
        let r = &x % &y;
        x = y;
        y = r;
        n += 1;
    }
    (x, n)
}
pub fn fold(a: &BigInt, m: &BigInt) -> BigInt {
    let r = a % m;
    if r.is_negative() {
        r + m.abs()
    } else {
        r
    }
}
