//! The library seen as a set of calls with comparable answers.
use crate::util::big;
use mc::guarded;
use num::{BigInt, BigUint};
use sm_algorithm as sm;

fn ans<T: std::fmt::Display>(r: sm::Result<T>) -> String {
    match r {
        Ok(v) => format!("ok {v}"),
        Err(e) => format!("error {e}"),
    }
}
fn opt<T: std::fmt::Display>(r: Option<T>) -> String {
    match r {
        Some(v) => format!("some {v}"),
        None => "none".into(),
    }
}
fn list(s: &str) -> Vec<BigInt> {
    s.split(',').filter(|s| !s.is_empty()).map(big).collect()
}

/// Performs the call a line of text names, e.g. `power 2 10` or `crt 2,3,2 3,5,7`.
pub fn call(op: &str) -> String {
    let f: Vec<&str> = op.split(' ').collect();
    let i = |k: usize| big(f[k]);
    let u = |k: usize| -> usize { f[k].parse().expect("usize") };
    guarded(|| match f[0] {
        "power" => {
            let e: BigUint = f[2].parse().unwrap();
            ans(sm::power_iu(&i(1), &e))
        }
        "egcd" => {
            let (g, v) = sm::extended_gcd2(&i(1), &i(2));
            format!("{g} {v:?}")
        }
        "coprime" => sm::is_coprime(i(1), i(2)).to_string(),
        "inverse" => opt(sm::modulo_inverse(&i(1), &i(2))),
        "division" => opt(sm::modulo_division(&i(1), &i(2), &i(3))),
        "crt" => opt(sm::chinese_remainder(&list(f.get(1).unwrap_or(&"")), &list(f.get(2).unwrap_or(&"")))),
        "fact" => ans(sm::factorial_i(&i(1))),
        "factu" => sm::factorial_fold_u(u(1)).to_string(),
        "fib" => ans(sm::fibonacci_i(&i(1))),
        "fibf" => sm::fibonacci_fast_u(u(1)).to_string(),
        "fibs" => sm::fibonacci_fold_u(u(1)).to_string(),
        "psum" => ans(sm::prime_sum_i(&i(1))),
        "psum64" => sm::prime_sum_u64(u(1) as u64).to_string(),
        "psum128" => sm::prime_sum_u128(u(1) as u64).to_string(),
        "pcount" => ans(sm::prime_count_i(&i(1))),
        x => panic!("no such call: {x}"),
    })
    .unwrap_or_else(|e| e)
}

/// Calls chosen to collide: equal low bytes, low words, absolute values, argument sets.
pub const WIDE: &[&str] = &[
    "power 2 10", "power 2 266", "power 258 10", "power -2 10", "power 2 65546", "power 10 2", "power 0 0", "power 0 5", "power 5 0", "power 1 18446744073709551616", "power 3 1099511627776", "power 18446744073709551618 10", "power 2 11", "power 2 1", "power -1 3",
    "egcd 12 18", "egcd 18 12", "egcd -12 18", "egcd 12 -18", "egcd 18446744073709551628 18", "egcd 0 0", "egcd 0 5", "egcd 30 42", "egcd 42 30", "egcd 314 271",
    "coprime 12 18", "coprime 12 19", "coprime -12 19", "coprime 18446744073709551628 18", "coprime 1 0",
    "inverse 3 7", "inverse 7 3", "inverse 3 11", "inverse -3 7", "inverse 10 7", "inverse 2 4", "inverse 3 4", "inverse 18446744073709551619 7", "inverse 3 18446744073709551623", "inverse 3 263",
    "division 42 32 98", "division 1 2 4", "division 2 2 4", "division 4 2 6", "division 4 2 7", "division 2 4 7", "division 4 2 18446744073709551622", "division -4 2 6", "division 0 3 5",
    "crt 2,3,2 3,5,7", "crt 2,3 3,5", "crt 3,2 5,3", "crt 3,2,2 5,3,7", "crt 2,3,2 3,5,8", "crt 1,1 2,4", "crt 1 2,3", "crt", "crt 0,3,4 3,4,5", "crt -1,3,4 3,4,5",
    "fact 0", "fact 1", "fact 5", "fact 20", "fact 21", "fact 25", "fact 100", "fact 261", "fact -1", "fact -5", "fact 18446744073709551621", "factu 5", "factu 20", "factu 21", "factu 100", "factu 261",
    "fib 0", "fib 1", "fib 10", "fib -10", "fib -9", "fib 9", "fib 93", "fib 100", "fib 266", "fib 1001", "fib -1001", "fib 18446744073709551626", "fibf 0", "fibf 2", "fibf 10", "fibf 93", "fibf 94", "fibf 100", "fibf 266", "fibf 1001", "fibf 1000", "fibs 0", "fibs 10", "fibs 11", "fibs 100", "fibs 266",
    "psum 0", "psum 10", "psum 11", "psum 266", "psum -1", "psum -10", "psum 1000000000000", "psum 18446744073709551626", "psum 100", "psum 99", "psum64 0", "psum64 1", "psum64 10", "psum64 100", "psum64 99", "psum64 101", "psum64 266", "psum64 1000", "psum128 10", "psum128 100", "psum128 120", "psum128 121",
    "pcount 10", "pcount 11", "pcount 100", "pcount 1000", "pcount -10", "pcount -1", "pcount 0", "pcount 1", "pcount 18446744073709551626",
];
pub const NARROW: &[&str] = &[
    "power 2 10", "power 2 266", "power -2 10", "power 10 2", "power 0 0", "power 3 1099511627776", "egcd 12 18", "egcd 18 12", "egcd -12 18", "coprime 12 19", "coprime 12 18", "inverse 3 7", "inverse 7 3", "inverse 3 11", "inverse 2 4", "division 4 2 6", "division 4 2 7",
    "division 1 2 4", "crt 2,3,2 3,5,7", "crt 2,3 3,5", "crt 1,1 2,4", "fact 5", "fact 20", "fact 100", "fact -5", "factu 5", "factu 21", "fib 10", "fib -10", "fib 100", "fibf 10", "fibf 94", "fibf 100", "fibs 10", "fibs 100", "psum 10", "psum 11", "psum -1", "psum64 10", "psum64 100",
    "psum64 99", "pcount 10", "pcount 11", "pcount -10",
];
