//! C21: soundness error over all verifier coins stays within the protocol bound.
#[path = "../../kit/fam.rs"]
mod fam;
#[path = "../../kit/proto.rs"]
mod proto;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_crypto::hooks;
use lambdaworks_math::field::fields::u64_prime_field::U64PrimeField;
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::traits::{ByteConversion, Serializable};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::proof::stark::StarkProof;
use lambdaworks_stark::starks::prover::prove;
use lambdaworks_stark::starks::verifier::verify;
use proto::*;
use std::sync::Arc;

type P13 = U64PrimeField<13>;
type P17 = U64PrimeField<17>;
type P97 = U64PrimeField<97>;
type Rows<F> = Vec<Vec<E<F>>>;

/// All coins of one conversation, in the order they are drawn.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Coins {
    rap: Vec<u64>,
    coef: Vec<u64>,
    /// unusable out-of-domain candidates drawn first
    refused: Vec<u64>,
    z: u64,
    deep: Vec<u64>,
    zeta: Vec<u64>,
    iota: Vec<u64>,
}
impl Coins {
    fn play(&self) {
        let mut all: Vec<Option<[u8; 32]>> = vec![];
        for v in self.rap.iter().chain(&self.coef).chain(&self.refused).chain([&self.z]).chain(&self.deep).chain(&self.zeta) {
            all.push(Some(coin_field(*v)));
        }
        all.push(None); // seed of the work puzzle
        all.extend(self.iota.iter().map(|v| Some(coin_index(*v))));
        hooks::set_script(Some(Box::new(move |k, _| all.get(k).copied().flatten())));
    }
}
fn silence() {
    hooks::set_script(None);
}

struct Statement<F: IsFFTField> {
    spec: Arc<Spec<F>>,
    n: usize,
    o: ProofOptions,
    blowup: usize,
    q: usize,
    coins: u64,
    /// out-of-domain points the verifier can draw
    zs: Vec<u64>,
}
impl<F: IsFFTField> Statement<F>
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    fn new(spec: Spec<F>, n: usize, blowup: usize, q: usize, off: u64) -> Self {
        assert!(legal_offset::<F>(off, n, blowup) && spec.carried_by(n, blowup));
        let coins = 1u64 << (F::field_bit_size() - 1);
        let t = powers(&root_of::<F>(n), n, &E::<F>::one());
        let l = powers(&root_of::<F>(n * blowup), n * blowup, &E::<F>::from(off));
        let zs = (0..coins)
            .filter(|v| {
                let z = E::<F>::from(*v);
                !t.contains(&z) && !l.contains(&z) && !l.contains(&(&z * &z))
            })
            .collect();
        Statement { spec: Arc::new(spec), n, o: opts(blowup as u8, q, off, 0), blowup, q, coins, zs }
    }
    fn size(&self) -> usize {
        self.n * self.blowup
    }
    fn layers(&self) -> usize {
        (self.n.trailing_zeros() as usize).max(1)
    }
    fn n_coef(&self) -> usize {
        2 * self.spec.bnd.len() + 2 * self.spec.cons.len()
    }
    fn n_deep(&self) -> usize {
        2 + self.spec.n_cols() * self.spec.offsets.len()
    }
    fn pairs(&self, v: &[u64]) -> (Vec<(E<F>, E<F>)>, Vec<(E<F>, E<F>)>) {
        let (b, c) = (self.spec.bnd.len(), self.spec.cons.len());
        let f = |i: usize| E::<F>::from(v[i]);
        ((0..b).map(|i| (f(i), f(b + i))).collect(), (0..c).map(|i| (f(2 * b + i), f(2 * b + c + i))).collect())
    }
    fn verdict(&self, p: &StarkProof<F>) -> Result<bool, String> {
        guard(|| verify::<F, FamAir<F>>(p, &self.spec, &self.o))
    }
    fn name(&self) -> String {
        format!("{} n={} blow-up {} {} queries", self.spec.name(), self.n, self.blowup, self.q)
    }
}
/// Every sequence of `len` values from `menu`.
fn product(menu: &[u64], len: usize) -> Vec<Vec<u64>> {
    let mut all = vec![vec![]];
    for _ in 0..len {
        all = all.into_iter().flat_map(|v| menu.iter().map(move |x| v.iter().copied().chain([*x]).collect())).collect();
    }
    all
}
fn chosen(ch: &mut Ch, menu: &[u64], len: usize) -> Vec<u64> {
    (0..len).map(|_| ch.of(menu)).collect()
}
fn all_coins(k: u64) -> Vec<u64> {
    (0..k).collect()
}

fn bool_spec<F: IsFFTField>(offsets: Vec<usize>, bnd: Vec<Bnd<F>>) -> Spec<F> {
    let cons = vec![con_of(Kind::Bool, 0, &offsets, 0).unwrap()];
    Spec { main: vec![Kind::Bool], aux: vec![], offsets, cons, bnd, bound_mult: 2, n_rap: 0, aux_fault: None }
}
fn alt_spec<F: IsFFTField>() -> Spec<F> {
    let offsets = vec![0, 1];
    let cons = vec![con_of(Kind::Alt, 0, &offsets, 0).unwrap()];
    Spec { main: vec![Kind::Alt], aux: vec![], offsets, cons, bnd: vec![], bound_mult: 1, n_rap: 0, aux_fault: None }
}
fn sq_spec<F: IsFFTField>(bnd: Vec<Bnd<F>>) -> Spec<F> {
    let offsets = vec![0, 1];
    let cons = vec![con_of(Kind::Sq, 0, &offsets, 0).unwrap()];
    Spec { main: vec![Kind::Sq], aux: vec![], offsets, cons, bnd, bound_mult: 2, n_rap: 0, aux_fault: None }
}
fn scaled_spec<F: IsFFTField>() -> Spec<F> {
    let offsets = vec![0];
    let cons = vec![
        Con { terms: vec![Term { coef: 1, cells: vec![(0, 1)], rap: None }, Term { coef: -1, cells: vec![(0, 0)], rap: Some(0) }], degree: 1, exempt: 0 },
    ];
    Spec { main: vec![Kind::Free], aux: vec![Aux::Scaled(0)], offsets, cons, bnd: vec![], bound_mult: 1, n_rap: 1, aux_fault: None }
}
fn col<F: IsFFTField>(v: &[u64]) -> Rows<F> {
    v.iter().map(|x| vec![E::<F>::from(*x)]).collect()
}

/// A system and its satisfying table.
fn truth<F: IsFFTField>(which: usize, n: usize) -> (Spec<F>, Rows<F>) {
    let one = |v: u64| E::<F>::from(v);
    match which {
        0 => (bool_spec(vec![0], vec![]), col(&(0..n).map(|i| (i % 3 == 1) as u64).collect::<Vec<_>>())),
        1 => (alt_spec(), (0..n).map(|i| vec![fe::<F>(if i % 2 == 0 { 5 } else { -5 })]).collect()),
        2 => (bool_spec(vec![0], vec![Bnd { col: 0, step: n - 1, value: one((n as u64 - 1) % 3 % 2) }]), col(&(0..n).map(|i| (i as u64) % 3 % 2).collect::<Vec<_>>())),
        3 => (scaled_spec(), col(&(0..n).map(|i| 3 + i as u64 * i as u64).collect::<Vec<_>>())),
        _ => {
            let mut v = vec![one(2)];
            for i in 1..n {
                v.push(&v[i - 1] * &v[i - 1] + &one(1));
            }
            (sq_spec(vec![Bnd { col: 0, step: 0, value: one(2) }]), v.into_iter().map(|x| vec![x]).collect())
        }
    }
}

/// Coins a stage may take: the whole space or a menu.
struct Menus {
    rap: Vec<u64>,
    coef: Vec<u64>,
    z: Option<Vec<u64>>,
    deep: Vec<u64>,
    zeta: Vec<u64>,
    refused: usize,
}
/// A true statement: every conversation ends in acceptance.
fn complete<F: IsFFTField>(ch: &mut Ch, s: &Statement<F>, rows: &Rows<F>, m: &Menus)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let rap = chosen(ch, &m.rap, s.spec.n_rap);
    let coef = chosen(ch, &m.coef, s.n_coef());
    let z = ch.of(m.z.as_ref().unwrap_or(&s.zs));
    let deep = chosen(ch, &m.deep, s.n_deep());
    let unusable: Vec<u64> = (0..s.coins).filter(|v| !s.zs.contains(v)).collect();
    let k = ch.range(0, m.refused);
    let refused = chosen(ch, &unusable, k);
    ch.state(&(s.name(), &rap, &coef, z, &deep, &refused));
    ch.outcome("true statement");
    for zeta in product(&m.zeta, s.layers()) {
        for iota in product(&all_coins(s.size() as u64), s.q) {
            let c = Coins { rap: rap.clone(), coef: coef.clone(), refused: refused.clone(), z, deep: deep.clone(), zeta: zeta.clone(), iota };
            let what = || format!("{} coins {c:?}", s.name());
            c.play();
            let p = guard(|| prove::<F, FamAir<F>>(&table(rows), &s.spec, &s.o));
            ch.ops(1);
            ch.validated(1);
            match p {
                Ok(Ok(p)) => {
                    c.play();
                    let r = s.verdict(&p);
                    silence();
                    if !ch.check(r == Ok(true), "true-statement-rejected", || format!("{r:?}: {}", what())) {
                        return;
                    }
                }
                e => {
                    silence();
                    return ch.fail("no-proof-of-true-statement", format!("{:?}: {}", e.map(|r| r.map(|_| ()).map_err(|e| format!("{e:?}"))), what()));
                }
            }
        }
    }
}

/// A false statement proved as if it were true: acceptance needs the composition identity to hold
/// at the random point by luck.
fn straight<F: IsFFTField>(ch: &mut Ch, s: &Statement<F>, rows: &Rows<F>, coefs: &[u64])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let (k, n) = (s.n_coef(), s.n);
    ch.state(&(s.name(), format!("{rows:?}")));
    let mut total = 0u64;
    let mut lucky = 0u64;
    let mut dead = 0u64; // coefficients for which every point accepts
    for rap in product(coefs, s.spec.n_rap) {
        let rap_f: Vec<E<F>> = rap.iter().map(|v| E::<F>::from(*v)).collect();
        if s.spec.violated(&s.spec.full_rows(rows, &rap_f), &rap_f).is_none() {
            continue;
        }
        for coef in product(coefs, k) {
            let mut here = 0;
            for z in &s.zs {
                total += 1;
                let c = Coins { rap: rap.clone(), coef: coef.clone(), refused: vec![], z: *z, deep: (0..s.n_deep() as u64).map(|i| 1 + i * 5 % s.coins).collect(), zeta: vec![3 % s.coins; s.layers()], iota: vec![total % s.size() as u64; s.q] };
                let what = || format!("{} table {rows:?} coins {c:?}", s.name());
                c.play();
                let p = guard(|| prove::<F, FamAir<F>>(&table(rows), &s.spec, &s.o));
                ch.ops(1);
                let Ok(Ok(p)) = p else {
                    silence();
                    return ch.fail("prover-panics", format!("{:?}: {}", p.err(), what()));
                };
                c.play();
                let bad = judge(&s.spec, n, &p, &s.o);
                c.play();
                let r = s.verdict(&p);
                silence();
                ch.validated(1);
                if !ch.check(r == Ok(bad.is_empty()), "verdict", || format!("{r:?}, but the checks failing are {bad:?}: {}", what())) {
                    return;
                }
                here += (r == Ok(true)) as u64;
            }
            if here == s.zs.len() as u64 {
                dead += 1;
            }
            lucky += here;
            // a non-zero polynomial of degree below |D| + n vanishing on D has at most n - 1 other roots
            if here < s.zs.len() as u64 {
                ch.check(here <= n as u64 - 1, "too-many-points-accept", || format!("{here} of {} out-of-domain points accept under coefficients {coef:?}: {} table {rows:?}", s.zs.len(), s.name()));
            }
        }
    }
    if total == 0 {
        return ch.outcome("true statement");
    }
    let m = coefs.len() as u64;
    let most = m.pow(s.spec.n_rap as u32) * m.pow(k as u32 - 1);
    // with few points, small degree already covers them all
    if s.zs.len() > n - 1 {
        ch.check(dead <= most, "too-many-coefficients-accept", || format!("{dead} coefficient choices (more than {most}) accept at every point: {} table {rows:?}", s.name()));
    }
    ch.outcome(if lucky == 0 { "false statement: never accepted" } else { "false statement: accepted for some coins" });
}

/// A false statement with an out-of-domain value chosen so that the composition identity holds:
/// acceptance needs the folding phase to miss that the DEEP function is not low-degree.
fn lying<F: IsFFTField>(ch: &mut Ch, s: &Statement<F>, rows: &Rows<F>, m: &Menus, sets: &[u32])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let (n, d) = (s.n, s.size());
    let cells = s.spec.offsets.len() * s.spec.n_cols();
    let lie = ch.range(0, 1 + cells);
    let play = ch.pick(1 + s.blowup + sets.len());
    let fri = match play {
        0 => Fri::Interp,
        p if p <= s.blowup => Fri::LastAt(p - 1),
        p => Fri::Through(sets[p - 1 - s.blowup]),
    };
    let rap = chosen(ch, &m.rap, s.spec.n_rap);
    let coef = chosen(ch, &m.coef, s.n_coef());
    let z = ch.of(m.z.as_ref().unwrap_or(&s.zs));
    let deep = chosen(ch, &m.deep, s.n_deep());
    ch.state(&(s.name(), format!("{rows:?}"), lie, play, &rap, &coef, z, &deep));
    let base = Coins { rap, coef, refused: vec![], z, deep, zeta: vec![1; s.layers()], iota: vec![0; s.q] };
    // the lie that makes the identity hold
    let f = |v: u64| E::<F>::from(v);
    let zf = f(z);
    base.play();
    let honest = make(&s.spec, rows, &s.o, Cheat::None);
    silence();
    let fr = &honest.proof.trace_ood_frame_evaluations;
    let (h1, h2) = (&honest.proof.composition_poly_even_ood_evaluation, &honest.proof.composition_poly_odd_ood_evaluation);
    let rap_f: Vec<E<F>> = base.rap.iter().map(|v| f(*v)).collect();
    let (bco, tco) = s.pairs(&base.coef);
    let p = {
        // the modulus, from -1
        let mut v = 1u64;
        let mut x = E::<F>::one();
        while x != E::<F>::zero() {
            x = x + E::<F>::one();
            v += 1;
        }
        v
    };
    let delta = (0..p).find(|delta| {
        let (mut a, mut b) = (h1.clone(), h2.clone());
        match lie {
            0 => a = a + f(*delta),
            1 => b = b + f(*delta),
            _ => {}
        }
        let cell = |r: usize, c: usize| {
            let v = fr.get_row(r)[c].clone();
            if lie >= 2 && (r, c) == ((lie - 2) / s.spec.n_cols(), (lie - 2) % s.spec.n_cols()) {
                v + f(*delta)
            } else {
                v
            }
        };
        composition_at(&s.spec, n, &zf, &cell, &rap_f, &bco, &tco) == a + &zf * b
    });
    let Some(delta) = delta else {
        return ch.outcome("no such lie");
    };
    if delta == 0 {
        return ch.outcome("identity holds by luck");
    }
    // the pole of the DEEP function and the coin in front of it
    let (pole, weight) = match lie {
        0 => (&zf * &zf, f(base.deep[0])),
        1 => (&zf * &zf, f(base.deep[1])),
        k => {
            let (r, c) = ((k - 2) / s.spec.n_cols(), (k - 2) % s.spec.n_cols());
            (&zf * root_of::<F>(n).pow(s.spec.offsets[r]), f(base.deep[2 + c * s.spec.offsets.len() + r]))
        }
    };
    if weight == E::<F>::zero() {
        return ch.outcome("the lie has weight zero");
    }
    let mut accepted = 0u64;
    let mut bad_zetas = 0u64;
    let all = all_coins(d as u64);
    let zetas = product(&m.zeta, s.layers());
    for zeta in &zetas {
        let mut a = pole.clone();
        let mut folds_flat = false;
        for v in zeta {
            folds_flat |= &a + &f(*v) == E::<F>::zero();
            a = &a * &a;
        }
        bad_zetas += folds_flat as u64;
        for iota in product(&all, s.q) {
            let c = Coins { zeta: zeta.clone(), iota, ..base.clone() };
            c.play();
            let made = make(&s.spec, rows, &s.o, Cheat::Lie(lie, delta, fri));
            c.play();
            let bad = judge(&s.spec, n, &made.proof, &s.o);
            c.play();
            let r = s.verdict(&made.proof);
            silence();
            ch.ops(1);
            ch.validated(1);
            let what = || format!("lie {lie} by {delta}, {fri:?}, {} table {rows:?} coins {c:?}", s.name());
            if !ch.check(r == Ok(bad.is_empty()), "verdict", || format!("{r:?}, but the checks failing are {bad:?}: {}", what())) {
                return;
            }
            accepted += (r == Ok(true)) as u64;
        }
    }
    // The DEEP function is c / (x - pole) plus a polynomial of degree below |D|/2 (the halves of any
    // composition): it meets a polynomial of degree below n in at most |D|/2 points, and as long as
    // no challenge folds the pole away the final value is met on at most half of the last domain.
    let half = d as u64 / 2;
    let q = s.q as u32;
    let conv = (d as u64).pow(q);
    let good = zetas.len() as u64 - bad_zetas;
    let bound = match fri {
        Fri::Through(_) => zetas.len() as u64 * half.pow(q),
        _ => bad_zetas * conv + good * half.pow(q),
    };
    ch.check(accepted <= bound, "soundness-error", || {
        format!("{accepted} of {} conversations accept, the bound is {bound}: lie {lie}, {fri:?}, {} table {rows:?} coins {base:?}", zetas.len() as u64 * conv, s.name())
    });
    ch.outcome(match accepted {
        0 => "false statement: never accepted",
        _ if accepted == bound => "false statement: accepted exactly as often as the bound allows",
        _ => "false statement: accepted less often than the bound",
    });
}

/// Two stages take every value, the others stay fixed.
fn two_open<F: IsFFTField>(ch: &mut Ch, n: usize, blowup: usize, off: u64)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let which = ch.pick(5);
    let (spec, rows) = truth::<F>(which, n);
    let s = Statement::new(spec, n, blowup, 1, off);
    let k = [s.spec.n_rap, s.n_coef(), 1, s.n_deep(), s.layers(), 1];
    let len: usize = k.iter().sum();
    let seed = ch.pick(2) as u64;
    let i = ch.pick(len);
    let j = ch.pick(len);
    if j <= i {
        return ch.outcome("same pair");
    }
    let zi = k[0] + k[1];
    let menu = |at: usize| -> Vec<u64> {
        if at == zi {
            s.zs.clone()
        } else if at == len - 1 {
            all_coins(s.size() as u64)
        } else {
            all_coins(s.coins)
        }
    };
    let mut v: Vec<u64> = (0..len).map(|t| { let m = menu(t); m[(t as u64 * 7 + 3 + seed * 11) as usize % m.len()] }).collect();
    ch.state(&(which, n, blowup, off, seed, i, j));
    ch.outcome("true statement");
    for a in menu(i) {
        for b in menu(j) {
            v[i] = a;
            v[j] = b;
            let mut it = v.iter().copied();
            let mut take = |m: usize| -> Vec<u64> { it.by_ref().take(m).collect() };
            let c = Coins { rap: take(k[0]), coef: take(k[1]), refused: vec![], z: take(1)[0], deep: take(k[3]), zeta: take(k[4]), iota: take(1) };
            c.play();
            let p = guard(|| prove::<F, FamAir<F>>(&table(&rows), &s.spec, &s.o));
            c.play();
            let made = make(&s.spec, &rows, &s.o, Cheat::None);
            let r = match &p {
                Ok(Ok(p)) => {
                    c.play();
                    s.verdict(p)
                }
                Ok(Err(e)) => Err(format!("{e:?}")),
                Err(e) => Err(e.clone()),
            };
            silence();
            ch.ops(1);
            ch.validated(1);
            let what = || format!("{} offset {off} coins {c:?}", s.name());
            if !ch.check(r == Ok(true), "true-statement-rejected", || format!("{r:?}: {}", what())) {
                return;
            }
            if let Ok(Ok(p)) = &p {
                ch.check(p.serialize() == made.proof.serialize(), "prover-differs-from-the-protocol", what);
            }
        }
    }
}

fn main() {
    harness::main("C21", Level::ModelChecking, |ctx| {
        ctx.rule("true statements over F13 under every coin sequence, over F17/F97 under every value of every two coins; false statements: every table, coefficient and point over small fields for the straightforward prover, every point, weight, folding challenge and query for the provers that lie about one out-of-domain value and play the folding phase in every listed way; acceptances counted exactly; non-trivial: distinct statement and coins outside the counted stage");
        ctx.assume("prover strategies are the straightforward one and one lie per proof followed by the listed folding strategies");
        // 13 has 3-bit coins: every conversation
        let c13 = all_coins(8);
        let t = ctx.thorough();
        let few = |full: bool| if full { all_coins(8) } else { vec![0, 1, 6] };
        let m = Menus { rap: c13.clone(), coef: few(t), z: None, deep: few(true), zeta: c13.clone(), refused: 0};
        let (spec, rows) = truth::<P13>(0, 2);
        let s = Statement::new(spec, 2, 2, 1, 2);
        ctx.explore("true: F13, every conversation about one constraint", |ch| complete(ch, &s, &rows, &m));
        let (spec, rows) = truth::<P13>(1, 2);
        let s = Statement::new(spec, 2, 2, 1, 2);
        let m = Menus { rap: c13.clone(), coef: few(t), z: None, deep: few(t), zeta: c13.clone(), refused: 0};
        ctx.explore("true: F13, every conversation about a next-row constraint", |ch| complete(ch, &s, &rows, &m));
        let (spec, rows) = truth::<P13>(2, 2);
        let s = Statement::new(spec, 2, 2, 1, 2);
        let m = Menus { rap: c13.clone(), coef: vec![0, 1, 6], z: None, deep: few(t), zeta: c13.clone(), refused: 0};
        ctx.explore("true: F13, a boundary condition too", |ch| complete(ch, &s, &rows, &m));
        let (spec, rows) = truth::<P13>(3, 2);
        let s = Statement::new(spec, 2, 2, 1, 2);
        let m = Menus { rap: c13.clone(), coef: vec![0, 1, 6], z: None, deep: few(t), zeta: c13.clone(), refused: 0};
        ctx.explore("true: F13, an auxiliary column too", |ch| complete(ch, &s, &rows, &m));
        for which in 0..4 {
            let (spec, rows) = truth::<P13>(which, 2);
            let s = Statement::new(spec, 2, 2, 1, 2);
            let m = Menus { rap: vec![0, 3], coef: vec![1, 6], z: None, deep: vec![0, 5], zeta: c13.clone(), refused: if t { 3 } else { 2 } };
            ctx.explore(&format!("true: F13, unusable candidates first, system {which}"), |ch| complete(ch, &s, &rows, &m));
        }
        ctx.explore("true: F17, two coins open", |ch| two_open::<P17>(ch, 2, 4, 3));
        ctx.explore("true: F17, two coins open, longer", |ch| two_open::<P17>(ch, 4, 2, 5));
        if t {
            ctx.explore("true: F97, two coins open", |ch| two_open::<P97>(ch, 4, 4, 5));
        }

        // false statements, straightforward prover
        let f17 = all_coins(16);
        let tables: Vec<u64> = if t { all_coins(17) } else { vec![0, 1, 2, 5, 9, 16] };
        for which in 0..4 {
            let (spec, _) = truth::<P17>(which, 2);
            let s = Statement::new(spec, 2, 2, 1, 3);
            let coefs = if which < 2 { f17.clone() } else { vec![0, 1, 2, 11] };
            ctx.explore(&format!("false: F17, straightforward, system {which}"), |ch| {
                let rows = col::<P17>(&[ch.of(&tables), ch.of(&tables)]);
                let mut spec = (*s.spec).clone();
                if !spec.aux.is_empty() {
                    spec.aux_fault = Some((ch.pick(2), 0, 1 + ch.pick(3) as u64));
                }
                let s = Statement::new(spec, 2, 2, 1, 3);
                straight(ch, &s, &rows, &coefs)
            });
        }
        let (spec, _) = truth::<P17>(0, 2);
        ctx.explore("false: F17, straightforward, wider domain", |ch| {
            let s = Statement::new(spec.clone(), 2, 4, 1, 3);
            let rows = col::<P17>(&[ch.of(&tables), ch.of(&tables)]);
            straight(ch, &s, &rows, &f17)
        });
        ctx.explore("false: F17, straightforward, longer", |ch| {
            let (spec, _) = truth::<P17>(ch.pick(2), 4);
            let s = Statement::new(spec, 4, 2, 1, 3);
            let v = ch.of(&[2u64, 3, 7]);
            let mut r = vec![1u64, 16, 1, 16];
            if s.spec.main[0] == Kind::Bool {
                r = vec![0, 1, 1, 0];
            }
            r[ch.pick(4)] = v;
            straight(ch, &s, &col::<P17>(&r), &[0, 1, 2, 11])
        });

        // false statements, one lie
        let subsets = |d: u32, n: u32| -> Vec<u32> { (0..1u32 << d).filter(|m| m.count_ones() == n).collect() };
        let lies = |which: usize, q: usize, ch: &mut Ch| {
            let (spec, _) = truth::<P17>(which, 2);
            let rows = match which {
                1 => col::<P17>(&[ch.of(&[5, 0]), 3]),
                3 => col::<P17>(&[3, 4]),
                _ => col::<P17>(&[ch.of(&[0, 4]), ch.of(&[2, 9])]),
            };
            let spec = Spec { aux_fault: (which == 3).then_some((1, 0, 2)), ..spec };
            let s = Statement::new(spec, 2, 2, q, 3);
            let few = if t { vec![0, 1, 3, 7] } else { vec![1, 7] };
            let one = which == 0 && q == 1;
            let m = Menus {
                rap: vec![2],
                coef: if t { vec![1, 4] } else { vec![1 + which as u64] },
                z: None,
                deep: if one && t { vec![0, 1, 2, 5, 9, 15] } else if one { vec![0, 1, 9] } else { few },
                zeta: f17.clone(),
                refused: 0,
            };
            lying(ch, &s, &rows, &m, &subsets(4, 2))
        };
        for which in 0..4 {
            ctx.explore(&format!("false: F17, one lie, system {which}"), |ch| lies(which, 1, ch));
        }
        ctx.explore("false: F17, one lie, two queries", |ch| lies(0, 2, ch));
        ctx.explore("false: F17, one lie, wider domain", |ch| {
            let (spec, _) = truth::<P17>(0, 2);
            let s = Statement::new(spec, 2, 4, 1, 3);
            let m = Menus { rap: vec![], coef: vec![1, 4], z: None, deep: vec![1, 7], zeta: f17.clone(), refused: 0};
            let sets: Vec<u32> = subsets(8, 2).into_iter().step_by(if t { 1 } else { 4 }).collect();
            lying(ch, &s, &col::<P17>(&[0, 4]), &m, &sets)
        });
        ctx.explore("false: F17, one lie, longer", |ch| {
            let (spec, _) = truth::<P17>(0, 4);
            let s = Statement::new(spec, 4, 2, 1, 3);
            let m = Menus { rap: vec![], coef: vec![1], z: Some(if t { s.zs.clone() } else { s.zs[..2].to_vec() }), deep: vec![2], zeta: f17.clone(), refused: 0 };
            let sets: Vec<u32> = subsets(8, 4).into_iter().step_by(if t { 3 } else { 23 }).collect();
            lying(ch, &s, &col::<P17>(&[0, 4, 1, 0]), &m, &sets)
        });
    });
}
