//! C01 .. C06: powers, gcd, modular arithmetic, remainders.
use crate::util::*;
use mc::{Explorer, Spec, Tier};
use num::{BigInt, One, Signed, Zero};
use sm_algorithm as sm;

const LIMBS: &[usize] = &[7, 8, 15, 16, 24, 31, 32, 33, 47, 48, 53, 62, 63, 64, 65, 95, 96, 127, 128, 129, 191, 192, 256];

// ------------------------------------------------------------------ C01
pub struct Power;
fn power_ok(a: &BigInt, e: &BigInt, want: Option<&BigInt>) -> Result<u64, String> {
    let r = sm::power_iu(a, &nat(e));
    match r {
        Ok(v) => match want {
            Some(w) if *w == v => Ok(mc::hash("v") ^ v.bits() as u64),
            Some(w) => Err(format!("{a}^{e} gave {}, want {}", mc::clip(&v.to_string()), mc::clip(&w.to_string()))),
            None => Err(format!("{a}^{e} gave {}", mc::clip(&v.to_string()))),
        },
        Err(sm::Error::Indeterminate) if a.is_zero() && e.is_zero() => Ok(1),
        // a result of at least 2^32 bits may be refused; ±1 only for an exponent out of range
        Err(sm::Error::OverFlow) if *e >= p2(32) && !a.is_zero() && !a.is_one() => Ok(2),
        Err(x) => Err(format!("{a}^{e} gave the error {x}")),
    }
}
/// a^e by left-to-right squaring, one transition per bit.
fn squaring(a: &BigInt, e: u64) -> (BigInt, u64) {
    let mut w = BigInt::one();
    let bits = 64 - e.leading_zeros();
    for i in (0..bits).rev() {
        w = &w * &w;
        if e >> i & 1 == 1 {
            w = w * a;
        }
    }
    (w, bits as u64)
}
impl Power {
    fn bases(t: Tier) -> Vec<BigInt> {
        let mut v = ints(if t == Tier::Quick { 2000 } else { 6000 }, LIMBS, 2, &[1, 2, 3, 6, 9, 10, 18, 19, 20, 38, 39]);
        v.extend(special());
        v.sort_by_key(|x| (x.abs(), x.is_negative()));
        v.dedup();
        v
    }
    fn huge() -> Vec<BigInt> {
        let mut v = vec![];
        for k in [32, 33, 48, 63, 64, 65, 96, 127, 128, 200] {
            for d in -1..=2 {
                let e = p2(k) + d;
                v.push(e);
            }
        }
        v
    }
}
impl Spec for Power {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn explore(&self, x: &mut Explorer) {
        let (depth, long) = if x.quick() { (400, 3000u64) } else { (1500, 30_000) };
        for a in Power::bases(x.tier) {
            if !x.mine() {
                continue;
            }
            // the chain a^0 -> a^1 -> ... ; every state is compared
            let mut w = BigInt::one();
            let top = if a.abs() <= b(20) { long } else if a.abs() < p2(64) { depth } else { depth / 4 };
            for e in 0..=top {
                x.state();
                let want = if a.is_zero() && e == 0 { None } else { Some(&w) };
                x.judge(format_args!("power {a} {e}"), || power_ok(&a, &b(e as i128), want));
                w = w * &a;
                x.trans(1);
            }
        }
        // bases whose chain never grows: every exponent is answered
        for a in -1..=1i128 {
            for e in ints(0, LIMBS, 2, &[3, 9, 10, 19, 20, 30, 40]).into_iter().filter(|e| e.is_positive()) {
                if x.mine() {
                    x.state();
                    let w = if a == -1 && (&e % b(2)).is_zero() { b(1) } else { b(a) };
                    x.trans(1);
                    x.judge(format_args!("power {a} {e}"), || power_ok(&b(a), &e, Some(&w)));
                }
            }
        }
        // exponents that no machine can answer for other bases: a refusal, never a value
        for a in [-18446744073709551617i128, -4294967297, -1000, -10, -3, -2, 2, 3, 7, 10, 12345, 4294967296, 18446744073709551616] {
            for e in Power::huge() {
                if x.mine() && e >= p2(32) {
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("power {a} {e}"), || power_ok(&b(a), &e, None));
                }
            }
        }
        // wide exponents on small bases, reference by squaring
        let mut wide: Vec<u64> = vec![4095, 5000, 9999, 10_000, 10_001, 20_000, 32_767, 50_000];
        for k in 12..=(if x.quick() { 16 } else { 18 }) {
            wide.extend([(1 << k) - 1, 1 << k, (1 << k) + 1, 3 << (k - 1), (1 << k) + (1 << (k - 3))]);
        }
        for e in wide {
            for a in [-10i128, -7, -3, 3, 5, 6, 7, 9, 10, 11, 255, 257, -65537, 1000003] {
                if x.mine() {
                    x.state();
                    let (w, n) = squaring(&b(a), e);
                    x.trans(n);
                    x.judge(format_args!("power {a} {e}"), || power_ok(&b(a), &b(e as i128), Some(&w)));
                }
            }
        }
        // exponents in between
        for e in (3001..66_000u64).step_by(if x.quick() { 641 } else { 101 }) {
            for a in [2i128, 3, -7, 10, -12] {
                if x.mine() {
                    x.state();
                    let (w, n) = squaring(&b(a), e);
                    x.trans(n);
                    x.judge(format_args!("power {a} {e}"), || power_ok(&b(a), &b(e as i128), Some(&w)));
                }
            }
        }
        // powers of two are shifts: long exponents in one step each
        let bits: &[usize] = if x.quick() { &[10, 12, 14, 15, 16, 17, 18, 20, 21, 22, 24] } else { &[10, 12, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24] };
        for &k in bits {
            for d in -1i128..=1 {
                for (base, w) in [(2, 1), (4, 2), (16, 4), (256, 8), (-2, 1), (-8, 3)] {
                    if x.quick() && k > 21 && w > 1 {
                        continue;
                    }
                    if x.mine() {
                        let e = (1i128 << k) + d;
                        x.state();
                        x.trans(1);
                        let mut want = p2(e as usize * w);
                        if base < 0 && e % 2 != 0 {
                            want = -want;
                        }
                        x.judge(format_args!("power {base} {e}"), || power_ok(&b(base), &b(e), Some(&want)));
                    }
                }
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let f: Vec<&str> = c.split(' ').collect();
        let (a, e) = (big(f[1]), big(f[2]));
        if e >= p2(32) {
            let want = if a.is_zero() { Some(b(0)) } else if a.is_one() { Some(b(1)) } else if a == b(-1) { Some(if (&e % b(2)).is_zero() { b(1) } else { b(-1) }) } else { None };
            return power_ok(&a, &e, want.as_ref()).map(|_| ());
        }
        let w = squaring(&a, e.to_string().parse().unwrap()).0;
        power_ok(&a, &e, if a.is_zero() && e.is_zero() { None } else { Some(&w) }).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        format!(
            "chains a^0 -> a^1 -> ... for every |a| <= {} and every ±(2^k+d), ±(10^k+d) and structured base ({} bases); chain length {} for |a| <= 20, {} below 2^64, a quarter of that beyond; base 0, ±1 on exponents around every limb edge; exponents to 66000 at every 641st (101st), 2^k+d >= 2^32 on other bases",
            if t == Tier::Quick { 2000 } else { 6000 },
            Power::bases(t).len(),
            if t == Tier::Quick { 3000 } else { 30000 },
            if t == Tier::Quick { 400 } else { 1500 }
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["num-bigint addition, multiplication, shifts and comparison are right".into()]
    }
}

// ------------------------------------------------------------------ C02
pub struct ExtGcd;
fn ext_ok(a: &BigInt, c: &BigInt, g: &BigInt) -> Result<u64, String> {
    let (r, v) = sm::extended_gcd2(a, c);
    if r != *g {
        return Err(format!("gcd({a}, {c}) gave {r}, want {g}"));
    }
    if v.len() != 2 {
        return Err(format!("{} coefficients", v.len()));
    }
    if a * &v[0] + c * &v[1] != *g {
        return Err(format!("{a}*{} + {c}*{} is not {g}", v[0], v[1]));
    }
    Ok(digest(&r))
}
/// The pairs every gcd-like check walks: dense × dense, boundary × boundary, and operands
/// with a planted common divisor.
fn pairs(x: &mut Explorer, dense: i128, mut f: impl FnMut(&mut Explorer, &BigInt, &BigInt)) {
    for a in -dense..=dense {
        if !x.mine() {
            continue;
        }
        let a = b(a);
        for c in -dense..=dense {
            f(x, &a, &b(c));
        }
    }
    let quick = x.quick();
    let mut edge = ints(4, LIMBS, if quick { 1 } else { 2 }, &[3, 9, 10, 18, 19, 20, 38]);
    edge.extend(special());
    edge.sort_by_key(|x| (x.abs(), x.is_negative()));
    edge.dedup();
    for a in &edge {
        if !x.mine() {
            continue;
        }
        for c in &edge {
            f(x, a, c);
        }
        for c in -30i128..=30 {
            if c.abs() > 4 {
                f(x, a, &b(c));
                f(x, &b(c), a);
            }
        }
    }
    // planted common divisors
    let gs: Vec<BigInt> = vec![b(2), b(3), b(12), b(65536), p2(32), p2(32) + 1, p2(64), p2(64) - 59, p2(64) * 15, p10(20), p2(127) - 1];
    let us: Vec<i128> = vec![-1000003, -4294967297, -17, -12, -5, -1, 1, 4, 9, 13, 25, 4294967291, 18446744073709551629, 1 << 100];
    for g in &gs {
        for &u in &us {
            if !x.mine() {
                continue;
            }
            for &v in &us {
                f(x, &(g * b(u)), &(g * b(v)));
            }
        }
    }
}
const PATHS: &str = "every path of Euclid's machine of up to 4 (thorough 5) steps over 10 (13) quotients from 1 to 10^30, runs of one quotient of every length to 1500 (6000), pairs of 118 operands of 257 to 8192 bits";
/// Euclid's machine run backwards from (g, 0): every list of quotients is a path of the machine.
fn up(g: &BigInt, qs: &[BigInt]) -> (BigInt, BigInt) {
    let (mut x, mut y) = (g.clone(), b(0));
    for q in qs {
        let n = q * &x + &y;
        y = x;
        x = n;
    }
    (x, y)
}
/// Every short path of Euclid's machine with small and wide quotients, runs of every length, and very wide operands.
fn paths(x: &mut Explorer, top: usize, mut f: impl FnMut(&mut Explorer, &BigInt, &BigInt)) {
    let quick = x.quick();
    let mut qs: Vec<BigInt> = vec![b(1), b(2), b(3), p2(31), p2(32) - 1, p2(32), p2(63), p2(64) - 1, p2(64) + 1, p10(30)];
    if !quick {
        qs.extend([b(10), p2(16) - 1, p2(128) - 1]);
    }
    let gs = [b(1), b(6), p2(64) + 13];
    let top = if quick { top } else { top + 1 };
    let mut level: Vec<Vec<BigInt>> = vec![vec![]];
    for _ in 0..top {
        let mut next = vec![];
        for p in &level {
            for q in &qs {
                let mut p = p.clone();
                p.push(q.clone());
                if x.mine() {
                    for (i, g) in gs.iter().enumerate() {
                        let (u, v) = up(g, &p);
                        match i {
                            0 => f(x, &u, &v),
                            1 => f(x, &v, &u),
                            _ => f(x, &-u, &v),
                        }
                    }
                }
                next.push(p);
            }
        }
        level = next;
    }
    // one quotient taken n times: every number of steps
    for (q, top) in [(b(1), if quick { 1500 } else { 6000 }), (b(2), 600), (p2(32), 200), (p2(64) - 1, 120)] {
        for g in [b(1), b(15)] {
            let (mut u, mut v) = (g.clone(), b(0));
            for n in 1..=top {
                let w = &q * &u + &v;
                v = u;
                u = w;
                if x.mine() {
                    f(x, &u, &v);
                    if n % 7 == 0 {
                        f(x, &v, &u);
                        f(x, &-&u, &v);
                        f(x, &v, &-&u);
                        f(x, &-&u, &-&v);
                    }
                }
            }
        }
    }
    // very wide operands
    let mut v = vec![];
    for k in [257usize, 320, 383, 384, 511, 512, 513, 640, 1000, 1023, 1024, 1025, 2047, 2048, 4096, 8191] {
        for d in [-3i128, -1, 0, 1, 9] {
            v.push(p2(k) + d);
        }
    }
    for k in [50, 77, 100, 154, 155, 200, 308, 309, 616, 1000, 2000] {
        v.extend([p10(k), p10(k) + 1, (p10(k) - 1) / 9]);
    }
    v.extend([b(1), b(-2), b(97), p2(64) - 59, -(p2(127) - 1)]);
    for a in &v {
        if x.mine() {
            for c in &v {
                f(x, a, c);
                f(x, &-a, c);
            }
        }
    }
}
impl Spec for ExtGcd {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn explore(&self, x: &mut Explorer) {
        let d = if x.quick() { 900 } else { 3000 };
        let f = |x: &mut Explorer, a: &BigInt, c: &BigInt| {
            let (g, n) = euclid(a, c);
            x.state();
            x.trans(n.max(1));
            x.judge(format_args!("egcd {a} {c}"), || ext_ok(a, c, &g));
        };
        pairs(x, d, f);
        paths(x, 4, f);
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let f: Vec<&str> = c.split(' ').collect();
        let (a, c) = (big(f[1]), big(f[2]));
        ext_ok(&a, &c, &euclid(&a, &c).0).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        format!("every pair |a|,|b| <= {}; every pair of limb-edge, power-of-ten, Fibonacci, factorial, primorial and large-prime operands with every sign; 11 planted common divisors × 14² cofactors; {PATHS}; Euclid machine run to its final state for each", if t == Tier::Quick { 900 } else { 3000 })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["num-bigint remainder, multiplication and addition are right".into()]
    }
}

// ------------------------------------------------------------------ C03
pub struct Coprime;
fn coprime_ok(a: &BigInt, c: &BigInt, g: &BigInt) -> Result<u64, String> {
    let r = sm::is_coprime(a.clone(), c.clone());
    if r != g.is_one() {
        return Err(format!("coprime({a}, {c}) gave {r}, but the gcd is {g}"));
    }
    Ok(r as u64)
}
impl Spec for Coprime {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn explore(&self, x: &mut Explorer) {
        let d = if x.quick() { 1500 } else { 5000 };
        let f = |x: &mut Explorer, a: &BigInt, c: &BigInt| {
            let (g, n) = euclid(a, c);
            x.state();
            x.trans(n.max(1));
            x.judge(format_args!("coprime {a} {c}"), || coprime_ok(a, c, &g));
        };
        pairs(x, d, f);
        paths(x, 4, f);
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let f: Vec<&str> = c.split(' ').collect();
        let (a, c) = (big(f[1]), big(f[2]));
        coprime_ok(&a, &c, &euclid(&a, &c).0).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        format!("every pair |a|,|b| <= {}; every pair of limb-edge and structured operands with every sign; planted common divisors; {PATHS}", if t == Tier::Quick { 1500 } else { 5000 })
    }
}

// ------------------------------------------------------------------ C04
pub struct Inverse;
/// The residue walk 0 -> a -> 2a -> ... over Z_m: which residues does it reach, and when?
fn orbit(a: u64, m: u64) -> Vec<Option<u64>> {
    let mut at = vec![None; m as usize];
    let (mut r, mut k) = (0, 0);
    while at[r as usize].is_none() {
        at[r as usize] = Some(k);
        k += 1;
        r = (r + a) % m;
    }
    at
}
fn inverse_ok(a: &BigInt, m: &BigInt, exists: bool) -> Result<u64, String> {
    match sm::modulo_inverse(a, m) {
        None if exists => Err(format!("no inverse of {a} modulo {m}, but there is one")),
        None => Ok(0),
        Some(v) if !exists => Err(format!("{v} is given as the inverse of {a} modulo {m}, but there is none")),
        Some(v) => {
            if !((a * &v - b(1)) % m).is_zero() {
                return Err(format!("{a}*{v} is not 1 modulo {m}"));
            }
            if m.is_positive() && v.is_negative() {
                return Err(format!("the inverse of {a} modulo {m} is given as {v}, which is negative"));
            }
            Ok(digest(&v))
        }
    }
}
/// Lifts of a residue: the same class seen through small, large and negative representatives.
fn lifts(m: i128) -> Vec<BigInt> {
    let m = b(m);
    vec![b(0), -&m, m.clone(), &m * -2, &m * 3, &m * p2(32), -(&m * p2(32)), &m * (p2(64) + 1), -(&m * (p2(64) + 1))]
}
impl Spec for Inverse {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn explore(&self, x: &mut Explorer) {
        let top = if x.quick() { 900 } else { 3000 };
        for m in 1..=top {
            if !x.mine() {
                continue;
            }
            let ls = lifts(m as i128);
            for r in 0..m {
                let o = orbit(r, m);
                let exists = o[(1 % m) as usize].is_some();
                x.trans(o.iter().flatten().count() as u64);
                for l in &ls {
                    let a = b(r as i128) + l;
                    let mm = b(m as i128);
                    x.state();
                    x.judge(format_args!("inverse {a} {mm}"), || inverse_ok(&a, &mm, exists));
                }
            }
        }
        let f = |x: &mut Explorer, a: &BigInt, m: &BigInt| {
            if m.is_positive() {
                let (g, n) = euclid(a, m);
                x.state();
                x.trans(n.max(1));
                x.judge(format_args!("inverse {a} {m}"), || inverse_ok(a, m, g.is_one()));
            }
        };
        pairs(x, 40, f);
        paths(x, 4, f);
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let f: Vec<&str> = c.split(' ').collect();
        let (a, m) = (big(f[1]), big(f[2]));
        inverse_ok(&a, &m, euclid(&a, &m).0.is_one()).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        format!("every modulus 1..={} and every residue class through 9 representatives (small, negative, beyond 32 and 64 bits), existence decided by the residue walk over Z_m; limb-edge and structured pairs with positive modulus; {PATHS}", if t == Tier::Quick { 900 } else { 3000 })
    }
}

// ------------------------------------------------------------------ C05
pub struct Division;
fn division_ok(a: &BigInt, c: &BigInt, m: &BigInt, exists: bool) -> Result<u64, String> {
    match sm::modulo_division(a, c, m) {
        None if exists => Err(format!("no solution of {c}*x = {a} modulo {m}, but there is one")),
        None => Ok(0),
        Some(v) if !exists => Err(format!("{v} is given as a solution of {c}*x = {a} modulo {m}, but there is none")),
        Some(v) => {
            if !((c * &v - a) % m).is_zero() {
                return Err(format!("{c}*{v} is not {a} modulo {m}"));
            }
            Ok(digest(&v))
        }
    }
}
impl Spec for Division {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn explore(&self, x: &mut Explorer) {
        let (top, mid) = if x.quick() { (48u64, 150u64) } else { (100, 400) };
        for m in 1..=mid {
            let ls: Vec<BigInt> = if m <= top { lifts(m as i128) } else { vec![b(0), -b(m as i128)] };
            for r in 0..m {
                if !x.mine() {
                    continue;
                }
                let o = orbit(r, m);
                x.trans(o.iter().flatten().count() as u64);
                let mm = b(m as i128);
                for t in 0..m {
                    let exists = o[t as usize].is_some();
                    for (i, l) in ls.iter().enumerate() {
                        for (j, k) in ls.iter().enumerate() {
                            if m > 12 && i > 2 && j > 2 {
                                continue;
                            }
                            let (a, c) = (b(t as i128) + k, b(r as i128) + l);
                            x.state();
                            x.judge(format_args!("division {a} {c} {mm}"), || division_ok(&a, &c, &mm, exists));
                        }
                    }
                }
            }
        }
        let f = |x: &mut Explorer, c: &BigInt, m: &BigInt| {
            if m.is_positive() {
                let (g, n) = euclid(c, m);
                x.trans(n.max(1));
                for (i, a) in [b(0), b(1), b(-1), b(42), g.clone(), -&g, &g * 7, &g * &g * 5 + &g, &g + 1, c.clone(), m - 1, m * 3 + &g, p2(64) - 1, p2(63) * &g, &g / 2 + 1, &g * 3 / 2 + 1].into_iter().enumerate() {
                    if m.bits() > 256 && ![1, 3, 6, 8, 10].contains(&i) {
                        continue;
                    }
                    let ex = (&a % &g).is_zero();
                    x.state();
                    x.judge(format_args!("division {a} {c} {m}"), || division_ok(&a, c, m, ex));
                }
            }
        };
        pairs(x, 12, f);
        paths(x, 3, f);
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let f: Vec<&str> = c.split(' ').collect();
        let (a, c, m) = (big(f[1]), big(f[2]), big(f[3]));
        let g = euclid(&c, &m).0;
        division_ok(&a, &c, &m, (&a % &g).is_zero()).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        let (a, c) = if t == Tier::Quick { (48, 150) } else { (100, 400) };
        format!("every modulus 1..={c}, every dividend and divisor class, through up to 81 pairs of representatives (moduli up to {a}: negative, beyond 32 and 64 bits), solvability decided by the residue walk; limb-edge and structured divisor/modulus pairs with 16 dividends each; {PATHS}, one step shorter, with the same dividends, 5 beyond 256 bits")
    }
}

// ------------------------------------------------------------------ C06
pub struct Crt;
fn crt_ok(u: &[BigInt], m: &[BigInt], coprime: bool) -> Result<u64, String> {
    let show = |v: &[BigInt]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    match sm::chinese_remainder(u, m) {
        None if coprime && u.len() == m.len() => Err(format!("no answer for residues {} modulo {}", show(u), show(m))),
        None => Ok(0),
        Some(v) if u.len() != m.len() => Err(format!("{v} for {} residues and {} moduli", u.len(), m.len())),
        Some(v) if !coprime => Err(format!("{v} for moduli {} that share a divisor", show(m))),
        Some(v) => {
            for (a, b) in u.iter().zip(m) {
                if !((&v - a) % b).is_zero() {
                    return Err(format!("{v} is not {a} modulo {b} (residues {} modulo {})", show(u), show(m)));
                }
            }
            Ok(digest(&v))
        }
    }
}
fn crt_case(x: &mut Explorer, u: &[BigInt], m: &[BigInt], coprime: bool) {
    x.state();
    let j = |v: &[BigInt]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    x.judge(format_args!("crt {};{}", j(u), j(m)), || crt_ok(u, m, coprime));
}
fn pairwise(m: &[BigInt]) -> bool {
    (0..m.len()).all(|i| (0..i).all(|j| euclid(&m[i], &m[j]).0.is_one()))
}
fn residue_patterns(m: &[BigInt]) -> Vec<Vec<BigInt>> {
    let n = m.len();
    let mut v: Vec<Vec<BigInt>> = vec![
        vec![b(0); n],
        vec![b(1); n],
        vec![b(-1); n],
        m.iter().map(|x| x - 1).collect(),
        m.to_vec(),
        m.iter().map(|x| -x).collect(),
        (0..n).map(|i| b(i as i128)).collect(),
        (0..n).map(|i| b(n as i128 - i as i128)).collect(),
        m.iter().map(|x| x / 2).collect(),
        m.iter().map(|x| x / 3 + x * 5).collect(),
        m.iter().map(|x| x / 2 - x * (p2(64) + 3)).collect(),
        m.iter().enumerate().map(|(i, x)| if i % 2 == 0 { x - 1 } else { b(-2) }).collect(),
    ];
    for i in 0..n {
        let mut w = vec![b(0); n];
        w[i] = b(1);
        v.push(w.clone());
        w[i] = &m[i] - 1;
        v.push(w);
    }
    v
}
impl Spec for Crt {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn explore(&self, x: &mut Explorer) {
        let quick = x.quick();
        // the joint clock: every tuple of small moduli, every reading of the clocks
        let (t1, t2, t3, t4) = if quick { (200, 30, 13, 7) } else { (1000, 60, 18, 9) };
        let mut tuples: Vec<Vec<u64>> = vec![vec![]];
        for a in 1..=t1 {
            tuples.push(vec![a]);
        }
        for a in 1..=t2 {
            for c in 1..=t2 {
                tuples.push(vec![a, c]);
            }
        }
        for a in 1..=t3 {
            for c in 1..=t3 {
                for d in 1..=t3 {
                    tuples.push(vec![a, c, d]);
                }
            }
        }
        for a in 1..=t4 {
            for c in 1..=t4 {
                for d in 1..=t4 {
                    for e in 1..=t4 {
                        tuples.push(vec![a, c, d, e]);
                    }
                }
            }
        }
        for t in &tuples {
            if !x.mine() {
                continue;
            }
            let m: Vec<BigInt> = t.iter().map(|&v| b(v as i128)).collect();
            let total: u64 = t.iter().product();
            // run the clocks until they return to zero
            let mut seen = std::collections::HashSet::new();
            let mut s = vec![0u64; t.len()];
            while seen.insert(s.clone()) {
                for (i, v) in s.iter_mut().enumerate() {
                    *v = (*v + 1) % t[i];
                }
                x.trans(1);
            }
            // pairwise coprime exactly when the clocks reach every joint reading
            let coprime = seen.len() as u64 == total;
            let mut k = vec![0u64; t.len()];
            for _ in 0..total {
                let u: Vec<BigInt> = k.iter().map(|&v| b(v as i128)).collect();
                crt_case(x, &u, &m, coprime);
                if total <= 400 {
                    let w: Vec<BigInt> = u.iter().zip(&m).enumerate().map(|(i, (u, m))| if i % 2 == 0 { u - m * 2 } else { u + m * 3 }).collect();
                    crt_case(x, &w, &m, coprime);
                }
                for (i, v) in k.iter_mut().enumerate() {
                    *v += 1;
                    if *v < t[i] {
                        break;
                    }
                    *v = 0;
                }
            }
        }
        // long systems: first primes, prime powers, with one modulus repeated or shared or one
        let primes: Vec<i128> = (2..2000).filter(|n| (2..*n).all(|d| n % d != 0)).collect();
        for n in 1..=(if quick { 32 } else { 70 }) {
            for rot in 0..4 {
                if !x.mine() {
                    continue;
                }
                let mut m: Vec<BigInt> = primes[..n].iter().map(|&p| b(p)).collect();
                match rot {
                    1 => m.reverse(),
                    2 => m = m.iter().enumerate().map(|(i, p)| if i % 3 == 0 { p * p } else { p.clone() }).collect(),
                    3 => m[n / 2] = b(1),
                    _ => {}
                }
                x.trans(n as u64);
                for u in residue_patterns(&m) {
                    crt_case(x, &u, &m, true);
                }
                for bad in 0..n.min(6) {
                    let mut w = m.clone();
                    w.push(&m[bad] * b(401));
                    let cop = m[bad].is_one();
                    let u = vec![b(1); w.len()];
                    crt_case(x, &u, &w, cop);
                    w.rotate_right(1);
                    crt_case(x, &u, &w, cop);
                }
                // lengths that differ are refused
                let u = vec![b(1); n + 1];
                crt_case(x, &u, &m, true);
                crt_case(x, &u[..n - 1], &m, true);
            }
        }
        // longer ones
        let more: Vec<usize> = if quick { (33..=130).chain([150, 199, 200, 201, 255, 256, 257, 300]).collect() } else { (71..=303).collect() };
        for n in more {
            for rot in 0..2 {
                if !x.mine() {
                    continue;
                }
                let mut m: Vec<BigInt> = primes[..n].iter().map(|&p| b(p)).collect();
                if rot == 1 {
                    m.reverse();
                }
                x.trans(n as u64);
                for (i, u) in residue_patterns(&m).iter().enumerate() {
                    if [3, 6, 10].contains(&i) || i == 12 + n % 5 || i + 1 == 12 + 2 * n {
                        crt_case(x, u, &m, true);
                    }
                }
                let u = vec![b(1); n + 1];
                crt_case(x, &u, &m, true);
                m[n / 2] = &m[n / 2] * &m[n - 1];
                crt_case(x, &u[..n], &m, false);
            }
        }
        // a divisor shared by one pair of moduli, at every pair of places
        for n in 2..=(if quick { 12 } else { 20 }) {
            for i in 0..n {
                if !x.mine() {
                    continue;
                }
                for j in 0..n {
                    if i != j {
                        let mut m: Vec<BigInt> = primes[..n].iter().map(|&p| b(p)).collect();
                        m[j] = &m[j] * &m[i];
                        x.trans(n as u64);
                        for u in [vec![b(0); n], vec![b(1); n], (0..n).map(|i| b(i as i128)).collect()] {
                            crt_case(x, &u, &m, false);
                        }
                        m[j] = m[i].clone();
                        crt_case(x, &vec![b(0); n], &m, false);
                        crt_case(x, &vec![b(1); n], &m, false);
                    }
                }
            }
        }
        // wide moduli
        let wide: Vec<BigInt> = vec![p2(8), p2(16) + 1, p2(31) - 1, p2(32) - 5, p2(32), p2(32) + 15, p2(61) - 1, p2(63) - 25, p2(64) - 59, p2(64), p2(64) + 13, p2(89) - 1, p2(127) - 1, p10(9) + 7, p10(18) + 9, b(998244353), b(1), b(3), b(1000)];
        for i in 0..wide.len() {
            for j in 0..wide.len() {
                if !x.mine() {
                    continue;
                }
                for k in 0..=wide.len() {
                    let mut m = vec![wide[i].clone(), wide[j].clone()];
                    if k < wide.len() {
                        m.push(wide[k].clone())
                    }
                    let c = pairwise(&m);
                    x.trans(3);
                    for u in residue_patterns(&m) {
                        crt_case(x, &u, &m, c);
                    }
                }
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let (u, m) = c.strip_prefix("crt ").unwrap().split_once(';').unwrap();
        let p = |s: &str| -> Vec<BigInt> { s.split(',').filter(|s| !s.is_empty()).map(big).collect() };
        let (u, m) = (p(u), p(m));
        crt_ok(&u, &m, pairwise(&m)).map(|_| ())
    }
    fn bounds(&self, t: Tier) -> String {
        let q = t == Tier::Quick;
        let (t1, t2, t3, t4) = if q { (200, 30, 13, 7) } else { (1000, 60, 18, 9) };
        format!("joint clocks of every modulus tuple: 1 modulus <= {t1}, 2 <= {t2}, 3 <= {t3}, 4 <= {t4}, with every residue tuple (and shifted representatives); systems of up to {} moduli with 12+2n residue patterns, shared divisors planted, lengths off by one; of every length to {} and some to 303 with 7 patterns; a divisor shared at every pair of places of up to {} moduli; every pair and triple of 19 wide moduli up to 2^127", if q { 32 } else { 70 }, if q { 130 } else { 303 }, if q { 12 } else { 20 })
    }
}
