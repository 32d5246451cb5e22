use crate::field::{element::FieldElement, traits::IsField};
use std::ops::{self, Add, Mul, Neg, Sub};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Polynomial<FE> {
    pub coefficients: Vec<FE>,
}

#[derive(Debug, PartialEq, Eq)]
pub enum InterpolateError {
    UnequalLengths(usize, usize),
    NonUniqueXs,
}

impl<F: IsField> Polynomial<FieldElement<F>> {
    pub fn new(coefficients: &[FieldElement<F>]) -> Self {
        let n = coefficients
            .iter()
            .rposition(|c| c != &FieldElement::zero())
            .map(|i| i + 1)
            .unwrap_or(0);
        Self { coefficients: coefficients[..n].to_vec() }
    }
    pub fn new_monomial(coefficient: FieldElement<F>, degree: usize) -> Self {
        let mut c = vec![FieldElement::zero(); degree];
        c.push(coefficient);
        Self::new(&c)
    }
    pub fn zero() -> Self {
        Self::new(&[])
    }
    pub fn interpolate(xs: &[FieldElement<F>], ys: &[FieldElement<F>]) -> Result<Self, InterpolateError> {
        if xs.len() != ys.len() {
            return Err(InterpolateError::UnequalLengths(xs.len(), ys.len()));
        }
        for i in 0..xs.len() {
            for j in 0..i {
                if xs[i] == xs[j] {
                    return Err(InterpolateError::NonUniqueXs);
                }
            }
        }
        let mut res = Self::zero();
        for i in 0..xs.len() {
            let mut term = Self::new_monomial(ys[i].clone(), 0);
            for j in 0..xs.len() {
                if i != j {
                    let d = (&xs[i] - &xs[j]).inv();
                    term = term * Self::new(&[-(&xs[j] * &d), d]);
                }
            }
            res = res + term;
        }
        Ok(res)
    }
    pub fn evaluate(&self, x: &FieldElement<F>) -> FieldElement<F> {
        self.coefficients
            .iter()
            .rev()
            .fold(FieldElement::zero(), |acc, c| c + acc * x)
    }
    pub fn evaluate_slice(&self, input: &[FieldElement<F>]) -> Vec<FieldElement<F>> {
        input.iter().map(|x| self.evaluate(x)).collect()
    }
    pub fn degree(&self) -> usize {
        self.coefficients.len().saturating_sub(1)
    }
    pub fn leading_coefficient(&self) -> FieldElement<F> {
        self.coefficients.last().cloned().unwrap_or(FieldElement::zero())
    }
    pub fn coefficients(&self) -> &[FieldElement<F>] {
        &self.coefficients
    }
    pub fn coeff_len(&self) -> usize {
        self.coefficients.len()
    }
    pub fn is_zero(&self) -> bool {
        self.coefficients.is_empty()
    }
    pub fn differentiate(&self) -> Self {
        Self::new(
            &self.coefficients.iter().enumerate().skip(1)
                .map(|(i, c)| c * FieldElement::<F>::from(i as u64))
                .collect::<Vec<_>>(),
        )
    }
    /// Quotient by (x - b) computed in place, ignoring the remainder.
    pub fn ruffini_division_inplace(&mut self, b: &FieldElement<F>) {
        let mut c = FieldElement::zero();
        for coeff in self.coefficients.iter_mut().rev() {
            *coeff = &*coeff + b * &c;
            std::mem::swap(coeff, &mut c);
        }
        self.coefficients.pop();
    }
    pub fn ruffini_division(&self, b: &FieldElement<F>) -> Self {
        let mut p = self.clone();
        p.ruffini_division_inplace(b);
        Self::new(&p.coefficients)
    }
    pub fn long_division_with_remainder(self, dividend: &Self) -> (Self, Self) {
        if dividend.coefficients.len() > self.coefficients.len() {
            return (Self::zero(), self);
        }
        let mut n = self;
        let mut q = vec![FieldElement::zero(); n.coeff_len()];
        let denominator = dividend.leading_coefficient().inv();
        while n.coeff_len() >= dividend.coeff_len() && n.coeff_len() > 0 {
            let shift = n.degree() - dividend.degree();
            let c = n.leading_coefficient() * &denominator;
            q[shift] = c.clone();
            n = n - dividend.clone() * Self::new_monomial(c, shift);
        }
        (Self::new(&q), n)
    }
    pub fn div_with_ref(self, dividend: &Self) -> Self {
        self.long_division_with_remainder(dividend).0
    }
    pub fn mul_with_ref(&self, factor: &Self) -> Self {
        if self.coefficients.is_empty() || factor.coefficients.is_empty() {
            return Self::zero();
        }
        let mut c = vec![FieldElement::zero(); self.coeff_len() + factor.coeff_len() - 1];
        for (i, a) in self.coefficients.iter().enumerate() {
            for (j, b) in factor.coefficients.iter().enumerate() {
                c[i + j] += a * b;
            }
        }
        Self::new(&c)
    }
    pub fn scale(&self, factor: &FieldElement<F>) -> Self {
        let mut pow = FieldElement::one();
        let mut c = Vec::with_capacity(self.coeff_len());
        for a in &self.coefficients {
            c.push(a * &pow);
            pow = &pow * factor;
        }
        Self { coefficients: c }
    }
    pub fn scale_coeffs(&self, factor: &FieldElement<F>) -> Self {
        Self::new(&self.coefficients.iter().map(|a| a * factor).collect::<Vec<_>>())
    }
    /// Pads the shorter of the two with zero coefficients (results are not canonical on purpose).
    pub fn pad_with_zero_coefficients(pa: &Self, pb: &Self) -> (Self, Self) {
        let mut a = pa.clone();
        let mut b = pb.clone();
        let n = a.coeff_len().max(b.coeff_len());
        a.coefficients.resize(n, FieldElement::zero());
        b.coefficients.resize(n, FieldElement::zero());
        (a, b)
    }
    /// p(x) = even(x^2) + x * odd(x^2)
    pub fn even_odd_decomposition(&self) -> (Self, Self) {
        let even: Vec<_> = self.coefficients.iter().step_by(2).cloned().collect();
        let odd: Vec<_> = self.coefficients.iter().skip(1).step_by(2).cloned().collect();
        (Self::new(&even), Self::new(&odd))
    }
    pub fn break_in_parts(&self, n: usize) -> Vec<Self> {
        (0..n)
            .map(|i| Self::new(&self.coefficients.iter().skip(i).step_by(n).cloned().collect::<Vec<_>>()))
            .collect()
    }
}

pub fn compose<F: IsField>(a: &Polynomial<FieldElement<F>>, b: &Polynomial<FieldElement<F>>) -> Polynomial<FieldElement<F>> {
    a.coefficients.iter().rev().fold(Polynomial::zero(), |acc, c| {
        acc * b + Polynomial::new_monomial(c.clone(), 0)
    })
}

macro_rules! polyop {
    ($tr:ident, $f:ident, $body:expr) => {
        impl<F: IsField> $tr<&Polynomial<FieldElement<F>>> for &Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, rhs: &Polynomial<FieldElement<F>>) -> Self::Output {
                let g: fn(&Polynomial<FieldElement<F>>, &Polynomial<FieldElement<F>>) -> Polynomial<FieldElement<F>> = $body;
                g(self, rhs)
            }
        }
        impl<F: IsField> $tr<Polynomial<FieldElement<F>>> for Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, rhs: Polynomial<FieldElement<F>>) -> Self::Output { (&self).$f(&rhs) }
        }
        impl<F: IsField> $tr<&Polynomial<FieldElement<F>>> for Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, rhs: &Polynomial<FieldElement<F>>) -> Self::Output { (&self).$f(rhs) }
        }
        impl<F: IsField> $tr<Polynomial<FieldElement<F>>> for &Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, rhs: Polynomial<FieldElement<F>>) -> Self::Output { self.$f(&rhs) }
        }
        // polynomial op constant and constant op polynomial
        impl<F: IsField> $tr<&FieldElement<F>> for &Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, rhs: &FieldElement<F>) -> Self::Output { self.$f(&Polynomial::new_monomial(rhs.clone(), 0)) }
        }
        impl<F: IsField> $tr<FieldElement<F>> for &Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, rhs: FieldElement<F>) -> Self::Output { self.$f(&rhs) }
        }
        impl<F: IsField> $tr<&FieldElement<F>> for Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, rhs: &FieldElement<F>) -> Self::Output { (&self).$f(rhs) }
        }
        impl<F: IsField> $tr<FieldElement<F>> for Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, rhs: FieldElement<F>) -> Self::Output { (&self).$f(&rhs) }
        }
        impl<F: IsField> $tr<&Polynomial<FieldElement<F>>> for &FieldElement<F> {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, rhs: &Polynomial<FieldElement<F>>) -> Self::Output { (&Polynomial::new_monomial(self.clone(), 0)).$f(rhs) }
        }
        impl<F: IsField> $tr<Polynomial<FieldElement<F>>> for &FieldElement<F> {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, rhs: Polynomial<FieldElement<F>>) -> Self::Output { self.$f(&rhs) }
        }
        impl<F: IsField> $tr<&Polynomial<FieldElement<F>>> for FieldElement<F> {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, rhs: &Polynomial<FieldElement<F>>) -> Self::Output { (&self).$f(rhs) }
        }
        impl<F: IsField> $tr<Polynomial<FieldElement<F>>> for FieldElement<F> {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, rhs: Polynomial<FieldElement<F>>) -> Self::Output { (&self).$f(&rhs) }
        }
    };
}

fn zip_long<F: IsField>(
    a: &Polynomial<FieldElement<F>>,
    b: &Polynomial<FieldElement<F>>,
    f: impl Fn(&FieldElement<F>, &FieldElement<F>) -> FieldElement<F>,
) -> Polynomial<FieldElement<F>> {
    let n = a.coeff_len().max(b.coeff_len());
    let z = FieldElement::zero();
    Polynomial::new(
        &(0..n)
            .map(|i| f(a.coefficients.get(i).unwrap_or(&z), b.coefficients.get(i).unwrap_or(&z)))
            .collect::<Vec<_>>(),
    )
}
polyop!(Add, add, |a, b| zip_long(a, b, |x, y| x + y));
polyop!(Sub, sub, |a, b| zip_long(a, b, |x, y| x - y));
polyop!(Mul, mul, |a, b| a.mul_with_ref(b));

impl<F: IsField> Neg for Polynomial<FieldElement<F>> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::new(&self.coefficients.iter().map(|c| -c).collect::<Vec<_>>())
    }
}
impl<F: IsField> Neg for &Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn neg(self) -> Polynomial<FieldElement<F>> {
        -self.clone()
    }
}
impl<F: IsField> ops::Div<Polynomial<FieldElement<F>>> for Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn div(self, d: Polynomial<FieldElement<F>>) -> Self::Output {
        self.div_with_ref(&d)
    }
}
