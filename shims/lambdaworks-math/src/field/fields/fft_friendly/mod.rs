pub mod stark_252_prime_field;
pub mod u64_goldilocks;
