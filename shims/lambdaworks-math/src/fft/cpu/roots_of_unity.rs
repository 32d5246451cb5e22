use crate::fft::errors::FFTError;
use crate::field::{element::FieldElement, traits::IsFFTField};

/// offset * w^i for i in 0..count, w a primitive 2^n-th root of unity.
pub fn get_powers_of_primitive_root_coset<F: IsFFTField>(
    n: u64,
    count: usize,
    offset: &FieldElement<F>,
) -> Result<Vec<FieldElement<F>>, FFTError> {
    let root = F::get_primitive_root_of_unity(n)?;
    let mut acc = offset.clone();
    let mut out = Vec::with_capacity(count);
    for _ in 0..count {
        out.push(acc.clone());
        acc = &acc * &root;
    }
    Ok(out)
}
