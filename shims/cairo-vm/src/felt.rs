use lambdaworks_math::field::element::FieldElement;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use std::fmt;

pub type Inner = FieldElement<Stark252PrimeField>;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Felt252(pub Inner);

impl Felt252 {
    pub fn new<T: Into<Felt252>>(v: T) -> Self {
        v.into()
    }
    pub fn from_hex(s: &str) -> Option<Self> {
        Inner::from_hex(s).ok().map(Felt252)
    }
    pub fn to_le_bytes(&self) -> [u8; 32] {
        self.0.to_bytes_le()
    }
    pub fn to_be_bytes(&self) -> [u8; 32] {
        self.0.to_bytes_be()
    }
    pub fn to_usize(&self) -> Option<usize> {
        let r = self.0.representative();
        if r.limbs[..3].iter().all(|l| *l == 0) { Some(r.limbs[3] as usize) } else { None }
    }
    pub fn is_zero(&self) -> bool {
        self.0 == Inner::zero()
    }
}
impl fmt::Debug for Felt252 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl From<usize> for Felt252 {
    fn from(v: usize) -> Self {
        Felt252(Inner::from(v as u64))
    }
}
impl From<u64> for Felt252 {
    fn from(v: u64) -> Self {
        Felt252(Inner::from(v))
    }
}
impl fmt::Display for Felt252 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
