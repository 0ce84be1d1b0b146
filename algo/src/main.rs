mod basic;
mod chains;
mod history;
mod ops;
mod primes;
mod util;
fn main() {
    mc::main(vec![
        Box::new(basic::Power),
        Box::new(basic::ExtGcd),
        Box::new(basic::Coprime),
        Box::new(basic::Inverse),
        Box::new(basic::Division),
        Box::new(basic::Crt),
        Box::new(chains::Factorial),
        Box::new(chains::FibNat),
        Box::new(chains::FibInt),
        Box::new(primes::PrimeSum),
        Box::new(primes::PrimeSumInt),
        Box::new(primes::PrimeCount),
        Box::new(history::History),
    ])
}
