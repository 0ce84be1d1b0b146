//! C07 .. C09: factorials and Fibonacci numbers as chains of states.
use crate::util::*;
use mc::{clip, Explorer, Spec, Tier};
use num::{BigInt, BigUint, One, Signed, Zero};
use sm_algorithm as sm;

fn same(what: &str, got: &BigUint, want: &BigUint) -> Result<u64, String> {
    if got == want {
        Ok(got.bits() as u64)
    } else {
        Err(format!("{what} gave {}, want {}", clip(&got.to_string()), clip(&want.to_string())))
    }
}

// ------------------------------------------------------------------ C07
pub struct Factorial;
fn fact_ok(n: usize, w: &BigUint) -> Result<u64, String> {
    same(&format!("{n}! (natural route)"), &sm::factorial_fold_u(n), w)?;
    match sm::factorial_i(&b(n as i128)) {
        Ok(v) if v.is_negative() => Err(format!("{n}! is negative")),
        Ok(v) => same(&format!("{n}! (integer route)"), &nat(&v), w),
        Err(e) => Err(format!("{n}! gave the error {e}")),
    }
}
fn fact_refused(n: &BigInt) -> Result<u64, String> {
    let inf = *n >= b(isize::MIN as i128) && n.is_negative();
    match sm::factorial_i(n) {
        Ok(v) => Err(format!("{n}! gave the value {}", clip(&v.to_string()))),
        Err(sm::Error::ComplexInfinity) if inf => Ok(1),
        Err(sm::Error::ComplexInfinity) if n.is_negative() => Ok(1),
        Err(sm::Error::OverFlow) if !inf => Ok(2),
        Err(e) => Err(format!("{n}! gave the error {e}")),
    }
}
/// Product of lo..=hi by splitting: independent of the chain, used to start it in the middle.
fn prod(lo: u64, hi: u64) -> BigUint {
    if lo > hi {
        return BigUint::one();
    }
    if hi - lo < 8 {
        return (lo..=hi).fold(BigUint::one(), |a, x| a * x);
    }
    let m = (lo + hi) / 2;
    prod(lo, m) * prod(m + 1, hi)
}
impl Spec for Factorial {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn explore(&self, x: &mut Explorer) {
        let (dense, bits): (u64, &[u32]) = if x.quick() { (6000, &[12, 13, 14, 15, 16]) } else { (20000, &[12, 13, 14, 15, 16, 17, 18]) };
        let mut w = BigUint::one();
        for n in 0..=dense {
            if n > 0 {
                w = w * n;
            }
            x.trans(1);
            if x.mine() {
                x.state();
                x.judge(format_args!("factorial {n}"), || fact_ok(n as usize, &w));
            }
        }
        for &k in bits {
            for d in [-1i64, 0, 1] {
                if x.mine() {
                    let n = ((1i64 << k) + d) as u64;
                    x.state();
                    x.trans(1);
                    let w = prod(1, n);
                    x.judge(format_args!("factorial {n}"), || fact_ok(n as usize, &w));
                }
            }
        }
        let mut round = vec![3000u64, 5000, 9999, 10000, 10001, 12345, 20000, 30001, 40000, 49999, 50001, 70007, 80000, 90001, 99_999, 100_000, 100_001, 110_003];
        round.extend((6000..50_000).step_by(if x.quick() { 911 } else { 97 }));
        if !x.quick() {
            round.extend([150_001, 200_001, 300_007, 400_000]);
        }
        for &n in round.iter().rev() {
            if x.mine() {
                x.state();
                x.trans(1);
                let w = prod(1, n);
                x.judge(format_args!("factorial {n}"), || fact_ok(n as usize, &w));
            }
        }
        for n in ints(3000, &[15, 16, 31, 32, 33, 47, 62, 63, 64, 65, 95, 96, 127, 128, 129, 256], 3, &[3, 6, 9, 18, 19, 20, 40]) {
            let out = n > b(isize::MAX as i128) || n.is_negative();
            if out && x.mine() {
                x.state();
                x.trans(1);
                x.judge(format_args!("factorial {n}"), || fact_refused(&n));
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let n = big(c.split(' ').nth(1).unwrap());
        if n.is_negative() || n > b(isize::MAX as i128) {
            return fact_refused(&n).map(|_| ());
        }
        let k: u64 = n.to_string().parse().unwrap();
        let mut w = BigUint::one();
        for i in 1..=k {
            w = w * i;
        }
        fact_ok(k as usize, &w).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        let (d, k) = if t == Tier::Quick { (6000, 16) } else { (20000, 18) };
        format!("the chain (n, n!) for every n <= {d}, both entry points in every state; n = 2^k-1, 2^k, 2^k+1 up to k = {k} and 18 round numbers and neighbours to 110003 (thorough 400000), every 911th (97th) to 50000; every negative to -3000 and around every limb edge; naturals beyond the machine word")
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["num-bigint multiplication and comparison are right".into()]
    }
}

// ------------------------------------------------------------------ C08, C09
/// (F(n), F(n+1)) by doubling: the state jump n -> 2n, 2n+1.
fn fib_jump(n: u64) -> (BigUint, BigUint) {
    let (mut a, mut c) = (BigUint::zero(), BigUint::one());
    for i in (0..64 - n.leading_zeros()).rev() {
        let t = &c * 2u32 - &a;
        let (x, y) = (&a * &t, &a * &a + &c * &c);
        if n >> i & 1 == 1 {
            c = &x + &y;
            a = y;
        } else {
            a = x;
            c = y;
        }
    }
    (a, c)
}
fn fib_nat_ok(n: usize, w: &BigUint, fold: bool) -> Result<u64, String> {
    if fold {
        same(&format!("F({n}) (folding route)"), &sm::fibonacci_fold_u(n), w)?;
    }
    same(&format!("F({n}) (fast route)"), &sm::fibonacci_fast_u(n), w)
}
fn edges(top: u32) -> Vec<u64> {
    let mut v = vec![];
    for k in 12..=top {
        for d in -3i64..=3 {
            v.push(((1i64 << k) + d) as u64);
        }
        v.push(3 << (k - 1));
        v.push((3 << (k - 1)) + 1);
    }
    v.extend((60_000..400_000).step_by(1499));
    for n in [10_000, 20_001, 50_000, 65_521, 70_001, 80_000, 90_001, 99_999, 100_000, 100_001, 120_000, 150_001, 200_000, 250_001, 300_000, 500_001, 777_777, 1_000_000, 1_234_567, 1_500_001] {
        v.push(n)
    }
    v.sort();
    v.dedup();
    v
}
pub struct FibNat;
impl Spec for FibNat {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn explore(&self, x: &mut Explorer) {
        let (dense, fold_to, top) = if x.quick() { (60_000u64, 15_000u64, 21) } else { (150_000, 30_000, 23) };
        let (mut a, mut c) = (BigUint::zero(), BigUint::one());
        for n in 0..=dense {
            if x.mine() {
                x.state();
                x.judge(format_args!("fibonacci {n}"), || fib_nat_ok(n as usize, &a, n <= fold_to || n % 97 == 0));
            }
            let z = &a + &c;
            a = c;
            c = z;
            x.trans(1);
            if n % 256 == 0 {
                x.beat()
            }
        }
        for n in edges(top) {
            if x.mine() {
                let (w, _) = fib_jump(n);
                x.state();
                x.trans(64 - n.leading_zeros() as u64);
                x.judge(format_args!("fibonacci {n}"), || fib_nat_ok(n as usize, &w, n <= 270_000));
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let n: u64 = c.split(' ').nth(1).unwrap().parse().unwrap();
        let w = if n <= 40_000 {
            let (mut a, mut c) = (BigUint::zero(), BigUint::one());
            for _ in 0..n {
                let z = &a + &c;
                a = c;
                c = z;
            }
            a
        } else {
            fib_jump(n).0
        };
        fib_nat_ok(n as usize, &w, n <= 270_000).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        let (d, f, k) = if t == Tier::Quick { (60000, 15000, 21) } else { (150000, 30000, 23) };
        format!("the chain (F(n), F(n+1)) for every n <= {d}, fast route in every state, folding route to {f}, every 97th beyond; n = 2^k-3 .. 2^k+3, 3*2^k, 3*2^k+1 up to k = {k} round numbers and every 1499th to 400000 by the doubling walk, folding route to 270000")
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["num-bigint addition, multiplication and comparison are right".into()]
    }
}

pub struct FibInt;
fn fib_int_ok(n: &BigInt, w: Option<&BigInt>) -> Result<u64, String> {
    match (sm::fibonacci_i(n), w) {
        (Ok(v), Some(w)) if v == *w => Ok(v.bits() as u64 * 2 + v.is_negative() as u64),
        (Ok(v), Some(w)) => Err(format!("F({n}) gave {}, want {}", clip(&v.to_string()), clip(&w.to_string()))),
        (Ok(v), None) => Err(format!("F({n}) gave {}", clip(&v.to_string()))),
        (Err(sm::Error::OverFlow), None) => Ok(1),
        (Err(e), _) => Err(format!("F({n}) gave the error {e}")),
    }
}
fn fib_signed(n: i64) -> BigInt {
    let w = BigInt::from(fib_jump(n.unsigned_abs()).0);
    if n < 0 && n % 2 == 0 {
        -w
    } else {
        w
    }
}
impl Spec for FibInt {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn explore(&self, x: &mut Explorer) {
        let (dense, top) = if x.quick() { (60_000i128, 21) } else { (150_000, 23) };
        // forwards and backwards along F(n+1) = F(n) + F(n-1)
        for dir in [1i128, -1] {
            let (mut a, mut c) = (b(0), b(1)); // F(n), F(n+dir); F(-1) = 1 as well
            for k in 0..=dense {
                let n = dir * k;
                if x.mine() {
                    x.state();
                    x.judge(format_args!("fibonacci_i {n}"), || fib_int_ok(&b(n), Some(&a)));
                }
                let z = if dir == 1 { &a + &c } else { &a - &c };
                a = c;
                c = z;
                x.trans(1);
            }
        }
        for n in edges(top) {
            for s in [1, -1] {
                if x.mine() {
                    let n = n as i64 * s;
                    let w = fib_signed(n);
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("fibonacci_i {n}"), || fib_int_ok(&b(n as i128), Some(&w)));
                }
            }
        }
        for n in ints(0, &[63, 64, 65, 96, 127, 128, 129, 256, 1024], 3, &[19, 20, 40, 100]) {
            if (n > b(isize::MAX as i128) || n < b(isize::MIN as i128)) && x.mine() {
                x.state();
                x.trans(1);
                x.judge(format_args!("fibonacci_i {n}"), || fib_int_ok(&n, None));
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let n = big(c.split(' ').nth(1).unwrap());
        if n > b(isize::MAX as i128) || n < b(isize::MIN as i128) {
            return fib_int_ok(&n, None).map(|_| ());
        }
        let k: i64 = n.to_string().parse().unwrap();
        fib_int_ok(&n, Some(&fib_signed(k))).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        let (d, k) = if t == Tier::Quick { (60000, 21) } else { (150000, 23) };
        format!("the recurrence walked forwards and backwards for every |n| <= {d}; ±(2^k+d), ±3*2^k to k = {k}, round numbers and every 1499th to 400000 by the doubling walk; indices outside the machine word around every limb edge")
    }
}
