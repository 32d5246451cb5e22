use super::errors::FFTError;
use crate::field::{element::FieldElement, traits::IsFFTField};
use crate::polynomial::Polynomial;

pub trait FFTPoly<F: IsFFTField> {
    fn evaluate_fft(&self, blowup_factor: usize, domain_size: Option<usize>) -> Result<Vec<FieldElement<F>>, FFTError>;
    fn evaluate_offset_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
        offset: &FieldElement<F>,
    ) -> Result<Vec<FieldElement<F>>, FFTError>;
    fn interpolate_fft(fft_evals: &[FieldElement<F>]) -> Result<Polynomial<FieldElement<F>>, FFTError>;
    fn interpolate_offset_fft(
        fft_evals: &[FieldElement<F>],
        offset: &FieldElement<F>,
    ) -> Result<Polynomial<FieldElement<F>>, FFTError>;
}

fn fft<F: IsFFTField>(a: &mut [FieldElement<F>], root: &FieldElement<F>) {
    let n = a.len();
    // bit reversal
    let bits = n.trailing_zeros();
    for i in 0..n {
        let j = if bits == 0 { 0 } else { i.reverse_bits() >> (usize::BITS - bits) };
        if i < j {
            a.swap(i, j);
        }
    }
    let mut len = 2;
    while len <= n {
        let mut wl = root.clone();
        let mut m = n;
        while m > len {
            wl = wl.square();
            m /= 2;
        }
        let half = len / 2;
        let mut tw = Vec::with_capacity(half);
        let mut w = FieldElement::one();
        for _ in 0..half {
            tw.push(w.clone());
            w = &w * &wl;
        }
        for s in (0..n).step_by(len) {
            for k in 0..half {
                let u = a[s + k].clone();
                let v = &a[s + k + half] * &tw[k];
                a[s + k] = &u + &v;
                a[s + k + half] = &u - &v;
            }
        }
        len *= 2;
    }
}

impl<F: IsFFTField> FFTPoly<F> for Polynomial<FieldElement<F>> {
    fn evaluate_fft(&self, blowup_factor: usize, domain_size: Option<usize>) -> Result<Vec<FieldElement<F>>, FFTError> {
        let domain_size = domain_size.unwrap_or(0);
        let len = self.coeff_len().max(domain_size).next_power_of_two() * blowup_factor;
        if !len.is_power_of_two() {
            return Err(FFTError::InputError(len));
        }
        let mut c = self.coefficients.clone();
        if c.iter().all(|x| x == &FieldElement::zero()) {
            return Ok(vec![FieldElement::zero(); len]);
        }
        c.resize(len, FieldElement::zero());
        let root = F::get_primitive_root_of_unity(len.trailing_zeros() as u64)?;
        fft(&mut c, &root);
        Ok(c)
    }

    fn evaluate_offset_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
        offset: &FieldElement<F>,
    ) -> Result<Vec<FieldElement<F>>, FFTError> {
        self.scale(offset).evaluate_fft(blowup_factor, domain_size)
    }

    fn interpolate_fft(fft_evals: &[FieldElement<F>]) -> Result<Polynomial<FieldElement<F>>, FFTError> {
        let n = fft_evals.len();
        if !n.is_power_of_two() {
            return Err(FFTError::InputError(n));
        }
        let mut c = fft_evals.to_vec();
        let root = F::get_primitive_root_of_unity(n.trailing_zeros() as u64)?.inv();
        fft(&mut c, &root);
        let ninv = FieldElement::<F>::from(n as u64).inv();
        for x in c.iter_mut() {
            *x = &*x * &ninv;
        }
        Ok(Polynomial::new(&c))
    }

    fn interpolate_offset_fft(
        fft_evals: &[FieldElement<F>],
        offset: &FieldElement<F>,
    ) -> Result<Polynomial<FieldElement<F>>, FFTError> {
        let p = Self::interpolate_fft(fft_evals)?;
        Ok(p.scale(&offset.inv()))
    }
}
