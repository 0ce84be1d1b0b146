//! C10 .. C12: prime sums and counts against a sieve walk.
use crate::util::*;
use mc::{Explorer, Spec, Tier};
use num::{BigInt, Signed};
use sm_algorithm as sm;

/// Odd-only segmented sieve: calls `f(lo, hi, primes in lo..hi)` segment by segment.
pub fn sieve(top: u64, mut f: impl FnMut(u64)) {
    if top >= 2 {
        f(2);
    }
    let r = {
        let mut r = (top as f64).sqrt() as u64 + 2;
        while r * r > top {
            r -= 1
        }
        r
    };
    let mut small = vec![];
    let mut mark = vec![true; r as usize + 1];
    for i in 2..=r as usize {
        if mark[i] {
            small.push(i as u64);
            let mut j = i * i;
            while j <= r as usize {
                mark[j] = false;
                j += i
            }
        }
    }
    const SEG: u64 = 1 << 19;
    let mut lo = 3u64;
    let mut seg = vec![true; (SEG / 2) as usize];
    while lo <= top {
        let hi = (lo + SEG).min(top + 1); // lo odd, covers odd lo..hi
        seg.iter_mut().for_each(|x| *x = true);
        for &p in small.iter().skip(1) {
            if p * p >= hi {
                break;
            }
            let mut s = ((lo + p - 1) / p).max(p) * p;
            if s % 2 == 0 {
                s += p
            }
            while s < hi {
                seg[((s - lo) / 2) as usize] = false;
                s += 2 * p;
            }
        }
        let mut i = lo;
        while i < hi {
            if seg[((i - lo) / 2) as usize] {
                f(i)
            }
            i += 2;
        }
        lo += SEG;
    }
}

/// Sum and number of primes up to n by Lucy's recurrence on flat arrays: independent of the sieve.
pub fn lucy(n: u64) -> (u128, u128) {
    if n < 2 {
        return (0, 0);
    }
    let mut r = (n as f64).sqrt() as u64;
    while r * r > n {
        r -= 1
    }
    while (r + 1) * (r + 1) <= n {
        r += 1
    }
    let tri = |v: u64| {
        let v = v as u128;
        (if v % 2 == 0 { v / 2 * (v + 1) } else { (v + 1) / 2 * v }) - 1
    };
    let mut lo: Vec<(u128, u64)> = (0..=r).map(|i| if i == 0 { (0, 0) } else { (tri(i), i - 1) }).collect();
    let mut hi: Vec<(u128, u64)> = (0..=r).map(|i| if i == 0 { (0, 0) } else { (tri(n / i), n / i - 1) }).collect();
    for p in 2..=r {
        if lo[p as usize].1 == lo[p as usize - 1].1 {
            continue;
        }
        let (sp, cp) = lo[p as usize - 1];
        let p2 = p * p;
        for i in 1..=r.min(n / p2) {
            let (s, c) = if i * p <= r { hi[(i * p) as usize] } else { lo[(n / (i * p)) as usize] };
            hi[i as usize].0 -= p as u128 * (s - sp);
            hi[i as usize].1 -= c - cp;
        }
        for v in (p2..=r).rev() {
            let (s, c) = lo[(v / p) as usize];
            lo[v as usize].0 -= p as u128 * (s - sp);
            lo[v as usize].1 -= c - cp;
        }
    }
    (hi[1].0, hi[1].1 as u128)
}

fn sum_ok(n: u64, w: u128) -> Result<u64, String> {
    let v = sm::prime_sum_u128(n);
    if v != w {
        return Err(format!("the primes up to {n} sum to {v} (wide route), want {w}"));
    }
    if w <= u64::MAX as u128 {
        let v = sm::prime_sum_u64(n);
        if v as u128 != w {
            return Err(format!("the primes up to {n} sum to {v} (machine route), want {w}"));
        }
    }
    Ok(mc::hash(&w.to_string()))
}
/// Arguments around squares and prime squares, where the recurrence changes shape.
fn shapes(limit: u64, each: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut r = 2u64;
    let mut last = 0;
    while r * r <= limit {
        if r < 60 || r - last >= r / each + 1 {
            last = r;
            for s in [r * r, r * (r + 1), r * (r - 1)] {
                for d in 0..3 {
                    v.push(s + d - 1);
                }
            }
        }
        r += 1;
    }
    let mut p = 1u64;
    while p < limit {
        for d in 0..3 {
            v.push(p + d - 1);
        }
        p *= 2;
    }
    let mut p = 1u64;
    while p < limit {
        for d in 0..3 {
            v.push(p + d - 1);
            v.push(3 * p + d)
        }
        p *= 10;
    }
    v.retain(|&x| x <= limit);
    v.sort();
    v.dedup();
    v
}
pub struct PrimeSum;
impl Spec for PrimeSum {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn explore(&self, x: &mut Explorer) {
        let (dense, limit, big): (u64, u64, &[u64]) = if x.quick() {
            (60_000, 20_000_000, &[100_000_000, 1_000_000_007, 4_294_967_295, 4_294_967_296, 4_294_967_311, 6_074_001_000, 10_000_000_000, 29_505_444_490, 29_505_444_491])
        } else {
            (600_000, 400_000_000, &[1_000_000_007, 4_294_967_295, 4_294_967_296, 6_074_000_998, 6_074_001_000, 8_589_934_592, 10_000_000_000, 29_505_444_490, 29_505_444_491, 100_000_000_000])
        };
        // dense walk: the state is (n, sum of the primes up to n)
        let mut prime = vec![false; dense as usize + 1];
        sieve(dense, |p| prime[p as usize] = true);
        let mut s = 0u128;
        for n in 0..=dense {
            if prime[n as usize] {
                s += n as u128;
            }
            x.trans(1);
            if x.mine() {
                x.state();
                x.judge(format_args!("primesum {n}"), || sum_ok(n, s));
            }
        }
        // the shapes beyond, in one sieve run
        let v: Vec<u64> = shapes(limit, if x.quick() { 25 } else { 60 }).into_iter().filter(|&n| n > dense).collect();
        let mut want = Vec::with_capacity(v.len());
        let (mut i, mut s, mut steps) = (0, 0u128, 0);
        sieve(limit, |p| {
            while i < v.len() && v[i] < p {
                want.push(s);
                i += 1;
            }
            s += p as u128;
            steps += 1;
        });
        while want.len() < v.len() {
            want.push(s);
        }
        x.trans(steps);
        for (&n, &w) in v.iter().zip(&want).rev() {
            if x.mine() {
                x.state();
                x.judge(format_args!("primesum {n}"), || sum_ok(n, w));
            }
        }
        for &n in big {
            if x.mine() {
                x.announce(&format!("primesum {n}"));
                let w = lucy(n).0;
                x.state();
                x.trans(1);
                x.judge(format_args!("primesum {n}"), || sum_ok(n, w));
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let n: u64 = c.split(' ').nth(1).unwrap().parse().unwrap();
        let w = if n <= 200_000_000 {
            let mut s = 0u128;
            sieve(n, |p| s += p as u128);
            s
        } else {
            lucy(n).0
        };
        sum_ok(n, w).map(|_| ())
    }
    fn case_limit(&self) -> u64 {
        120
    }
    fn bounds(&self, t: Tier) -> String {
        if t == Tier::Quick {
            "the sieve walk (n, S(n)) for every n <= 60000, both routes; r^2, r(r+1), r(r-1), 2^k, 10^k and their neighbours up to 2e7; 1e8, 1e9+7, around 2^32, the edges of a sum of 63 and 64 bits (6.07e9, 2.95e10)".into()
        } else {
            "the sieve walk (n, S(n)) for every n <= 600000, both routes; r^2, r(r+1), r(r-1), 2^k, 10^k and their neighbours up to 4e8; selected n to 1e11, including both sides of the 64-bit edge".into()
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["beyond the sieve walk the reference is this crate's own Lucy recurrence, cross-checked against the sieve by a unit test".into()]
    }
}

// ------------------------------------------------------------------ C11, C12: published values
/// OEIS A006880: primes below 10^k.
pub const COUNT: &[&str] = &[
    "0", "4", "25", "168", "1229", "9592", "78498", "664579", "5761455", "50847534", "455052511", "4118054813", "37607912018", "346065536839", "3204941750802",
    "29844570422669", "279238341033925", "2623557157654233", "24739954287740860", "234057667276344607", "2220819602560918840", "21127269486018731928",
    "201467286689315906290", "1925320391606803968923", "18435599767349200867866", "176846309399143769411680", "1699246750872437141327603", "16352460426841680446427399",
];
/// OEIS A046731: sum of the primes below 10^k.
pub const SUM: &[&str] = &[
    "0", "17", "1060", "76127", "5736396", "454396537", "37550402023", "3203324994356", "279209790387276", "24739512092254535", "2220822432581729238",
    "201467077743744681014", "18435588552550705911377", "1699246443377779418889494", "157589260710736940541561021", "14692398516908006398225702366",
    "1376110854313351899159632866552", "129408626276669278966252031311350", "12212914292949226570880576733896687", "1156251260549368082781614413945980126",
    "109778913483063648128485839045703833541", "10449550362130704786220283253063405651965", "996973504763259668279213971353794878368213",
    "95320530117168404458544684912403185555509650", "9131187511156941634384410084928380134453142199", "876268031750623105684911815303505535704119354853",
];
fn ten(n: &BigInt) -> Option<usize> {
    let s = n.to_string();
    (s.starts_with('1') && s[1..].bytes().all(|c| c == b'0')).then(|| s.len() - 1)
}
fn psum_ok(n: &BigInt, w: Option<&BigInt>) -> Result<u64, String> {
    match (sm::prime_sum_i(n), w) {
        (Ok(v), Some(w)) if v == *w => Ok(digest(&v)),
        (Ok(v), Some(w)) => Err(format!("the primes up to {n} sum to {v}, want {w}")),
        (Ok(v), None) if n.is_negative() => Err(format!("the primes up to {n} sum to {v}")),
        (Ok(v), None) => plausible(n, &v, true),
        (Err(sm::Error::Undefined(_)), _) if n.is_negative() => Ok(1),
        (Err(sm::Error::Unimplemented), None) if !n.is_negative() && *n >= p2(64) => Ok(2),
        (Err(e), _) => Err(format!("prime sum of {n} gave the error {e}")),
    }
}
/// A value nobody tabulated is still held to the prime number theorem.
fn plausible(n: &BigInt, v: &BigInt, sum: bool) -> Result<u64, String> {
    let x: f64 = n.to_string().parse().unwrap();
    let got: f64 = v.to_string().parse().unwrap();
    let want = if sum { li(x * x) } else { li(x) };
    if (got / want - 1.0).abs() > 1e-6 {
        return Err(format!("{v} is not plausible for {n}: about {want:e}"));
    }
    Ok(digest(v))
}
/// Logarithmic integral by its convergent series.
pub fn li(x: f64) -> f64 {
    let l = x.ln();
    let (mut s, mut t) = (0.5772156649015329 + l.ln(), 1.0);
    for k in 1..400 {
        t *= l / k as f64;
        s += t / k as f64;
    }
    s
}
pub struct PrimeSumInt;
impl Spec for PrimeSumInt {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn explore(&self, x: &mut Explorer) {
        let (dense, neg, deep) = if x.quick() { (40_000u64, 5000i128, 11usize) } else { (400_000, 100_000, 13) };
        let mut prime = vec![false; dense as usize + 1];
        sieve(dense, |p| prime[p as usize] = true);
        let mut s = b(0);
        for n in 0..=dense {
            if prime[n as usize] {
                s = s + n;
            }
            x.trans(1);
            if x.mine() {
                x.state();
                x.judge(format_args!("psum {n}"), || psum_ok(&b(n as i128), Some(&s)));
            }
        }
        // powers of ten: published values, and the reference itself as far as it reaches
        for (k, w) in SUM.iter().enumerate() {
            if x.mine() {
                let n = p10(k);
                x.state();
                x.trans(1);
                x.judge(format_args!("psum {n}"), || psum_ok(&n, Some(&big(w))));
                if k <= deep {
                    x.announce(&format!("psum {n}"));
                    assert_eq!(lucy(10u64.pow(k as u32)).0.to_string(), *w, "reference table");
                }
            }
        }
        // near the table keys, where a lookup must not answer
        for k in 5..=(if x.quick() { 8 } else { 9 }) {
            for d in [-2i128, -1, 1, 2, 9, 10] {
                if x.mine() {
                    let n = 10i128.pow(k) + d;
                    let w = b(lucy(n as u64).0 as i128);
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("psum {n}"), || psum_ok(&b(n), Some(&w)));
                }
            }
        }
        // squares and powers of two beyond the walk, and the edges of the words in the recurrence
        let mut v = shapes(if x.quick() { 2_000_000 } else { 40_000_000 }, 12);
        v.retain(|&n| n > dense && ten(&b(n as i128)).is_none());
        v.extend([4_294_967_295, 4_294_967_296, 4_294_967_297, 6_074_001_000, 29_505_444_491]);
        if !x.quick() {
            v.extend([6_074_000_999, 8_589_934_592, 17_179_869_184, 29_505_444_490]);
        }
        for &n in v.iter().rev() {
            if x.mine() {
                x.announce(&format!("psum {n}"));
                let w = big(&lucy(n).0.to_string());
                x.state();
                x.trans(1);
                x.judge(format_args!("psum {n}"), || psum_ok(&b(n as i128), Some(&w)));
            }
        }
        for k in 20..=60usize {
            for d in [-1i128, 0, 1, 7] {
                if x.mine() {
                    let n = p10(k) + d;
                    if d == 0 && k < SUM.len() {
                        continue;
                    }
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("psum {n}"), || psum_ok(&n, None));
                }
            }
        }
        for n in ints(neg, &[31, 32, 33, 62, 63, 64, 65, 66, 95, 96, 127, 128, 129, 256], 3, &(1..=60).collect::<Vec<_>>()) {
            if (n.is_negative() || n >= p2(64)) && ten(&n).is_none() && x.mine() {
                x.state();
                x.trans(1);
                x.judge(format_args!("psum {n}"), || psum_ok(&n, None));
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let n = big(c.split(' ').nth(1).unwrap());
        let w = match ten(&n) {
            Some(k) if k < SUM.len() => Some(big(SUM[k])),
            _ if n.is_negative() || n >= p2(64) => None,
            _ => {
                let k: u64 = n.to_string().parse().unwrap();
                let mut s = 0u128;
                if k <= 10_000_000 {
                    sieve(k, |p| s += p as u128);
                } else {
                    s = lucy(k).0;
                }
                Some(big(&s.to_string()))
            }
        };
        psum_ok(&n, w.as_ref()).map(|_| ())
    }
    fn case_limit(&self) -> u64 {
        120
    }
    fn bounds(&self, t: Tier) -> String {
        let (d, g, k) = if t == Tier::Quick { (40000, 5000, 11) } else { (400000, 100000, 13) };
        format!("the sieve walk for every n <= {d}; 10^0 .. 10^25 against published values (recomputed up to 10^{k} in this run); neighbours of the powers of ten to 1e8; squares and their neighbours, 2^32 and 6.07e9; every negative to -{g}, around limb edges and around minus the powers of ten; naturals from 2^64 to 10^60")
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["values for 10^14 .. 10^25 are the published ones (OEIS A046731), held in this crate".into()]
    }
}

pub struct PrimeCount;
fn pcount_ok(n: &BigInt, w: Option<&BigInt>) -> Result<u64, String> {
    match (sm::prime_count_i(n), w) {
        (Ok(v), Some(w)) if v == *w => Ok(digest(&v)),
        (Ok(v), Some(w)) => Err(format!("{v} primes up to {n}, want {w}")),
        (Ok(v), None) if n.is_negative() => Err(format!("{v} primes up to {n}")),
        (Ok(v), None) => plausible(n, &v, false),
        (Err(sm::Error::Undefined(_)), _) if n.is_negative() => Ok(1),
        (Err(sm::Error::Unimplemented), _) if !n.is_negative() && !ten(n).map_or(false, |k| k < COUNT.len()) => Ok(2),
        (Err(e), _) => Err(format!("prime count of {n} gave the error {e}")),
    }
}
impl Spec for PrimeCount {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn explore(&self, x: &mut Explorer) {
        let (dense, neg, deep) = if x.quick() { (40_000u64, 5000i128, 11usize) } else { (1_000_000, 100_000, 13) };
        let mut prime = vec![false; dense as usize + 1];
        sieve(dense, |p| prime[p as usize] = true);
        let mut s = b(0);
        for n in 0..=dense {
            if prime[n as usize] {
                s = s + 1;
            }
            x.trans(1);
            if x.mine() {
                x.state();
                x.judge(format_args!("pcount {n}"), || pcount_ok(&b(n as i128), Some(&s)));
            }
        }
        for (k, w) in COUNT.iter().enumerate() {
            if x.mine() {
                let n = p10(k);
                x.state();
                x.trans(1);
                x.judge(format_args!("pcount {n}"), || pcount_ok(&n, Some(&big(w))));
                if k <= deep {
                    x.announce(&format!("pcount {n}"));
                    assert_eq!(lucy(10u64.pow(k as u32)).1.to_string(), *w, "reference table");
                }
            }
        }
        for k in 5..=9 {
            for d in [-2i128, -1, 1, 2, 9, 10] {
                if x.mine() {
                    let n = 10i128.pow(k) + d;
                    x.announce(&format!("pcount {n}"));
                    let w = b(lucy(n as u64).1 as i128);
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("pcount {n}"), || pcount_ok(&b(n), Some(&w)));
                }
            }
        }
        for k in 10..=60usize {
            for d in [-1i128, 0, 1, 7] {
                if x.mine() && (d != 0 || k >= COUNT.len()) {
                    let n = p10(k) + d;
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("pcount {n}"), || pcount_ok(&n, None));
                }
            }
        }
        for n in ints(neg, &[31, 32, 33, 62, 63, 64, 65, 66, 95, 96, 127, 128, 129, 256], 3, &(1..=60).collect::<Vec<_>>()) {
            if (n.is_negative() || n >= p2(62)) && ten(&n).is_none() && x.mine() {
                x.state();
                x.trans(1);
                x.judge(format_args!("pcount {n}"), || pcount_ok(&n, None));
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let n = big(c.split(' ').nth(1).unwrap());
        let w = match ten(&n) {
            Some(k) if k < COUNT.len() => Some(big(COUNT[k])),
            _ if n.is_negative() || n >= p10(10) => None,
            _ => Some(big(&lucy(n.to_string().parse().unwrap()).1.to_string())),
        };
        pcount_ok(&n, w.as_ref()).map(|_| ())
    }
    fn case_limit(&self) -> u64 {
        120
    }
    fn bounds(&self, t: Tier) -> String {
        let (d, g, k) = if t == Tier::Quick { (40000, 5000, 11) } else { (1000000, 100000, 13) };
        format!("the sieve walk for every n <= {d}; 10^0 .. 10^27 against published values (recomputed up to 10^{k} in this run); neighbours of the powers of ten; every negative to -{g}, around limb edges and around minus the powers of ten; naturals to 10^60")
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["values for 10^14 .. 10^27 are the published ones (OEIS A006880), held in this crate".into()]
    }
}

#[test]
fn references_agree() {
    for n in [0u64, 1, 2, 3, 4, 8, 9, 10, 24, 25, 26, 1000, 999_983, 1_000_003, 12_345_678] {
        let (mut s, mut c) = (0u128, 0u128);
        sieve(n, |p| {
            s += p as u128;
            c += 1
        });
        assert_eq!((s, c), lucy(n), "{n}");
    }
    for (k, w) in SUM.iter().enumerate().skip(6) {
        let got: f64 = w.parse().unwrap();
        let x = 10f64.powi(k as i32);
        assert!((got / li(x * x) - 1.0).abs() < 40.0 * x.ln() / x.sqrt(), "{k}");
        // an odd prime each: the parity of the sum is that of the count
        let (s, c) = (big(w), big(COUNT[k]) - 1);
        assert_eq!((s % 2 + 2) % 2, (c % 2 + 2) % 2, "{k}");
    }
    for (k, w) in COUNT.iter().enumerate().skip(6) {
        let x = 10f64.powi(k as i32);
        let got: f64 = w.parse().unwrap();
        assert!((got / li(x) - 1.0).abs() < 4.0 * x.ln() / x.sqrt(), "{k}");
    }
}
