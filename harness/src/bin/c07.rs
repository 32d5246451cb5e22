//! C07: prover and verifier transcripts stay in lockstep, and every message is absorbed once, in the
//! gap between challenges the protocol puts it in.
#[path = "../../kit/fam.rs"]
mod fam;
#[path = "../../kit/mutate.rs"]
mod mutate;
#[path = "../../kit/proto.rs"]
mod proto;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_crypto::hooks::{self, Event};
use lambdaworks_math::field::fields::fft_friendly::{
    stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G,
};
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::proof::stark::StarkProof;
use lambdaworks_stark::starks::{prover::prove, verifier::verify};
use mutate::*;
use proto::{coin_field, powers, root_of, to_felt};
use std::sync::Arc;

fn menu(cols: usize) -> Menu {
    use Kind::*;
    Menu {
        offsets: vec![vec![0, 1], vec![0, 1, 2], vec![0], vec![0, 2], vec![1, 0], vec![2, 0, 1], vec![0, 1, 1], vec![1]],
        kinds: vec![Fib, Sq, Cube, SquareOf(0), Bool],
        max_cols: cols,
        aux: vec![vec![], vec![Aux::Scaled(0)], vec![Aux::Perm(0, 0)], vec![Aux::Perm(0, 0), Aux::Scaled(0)]],
        extra: vec![0, 1],
        bnd: 5,
    }
}

/// (bytes absorbed, challenge drawn after them); the last entry has no challenge.
type Gaps = Vec<(Vec<u8>, Option<[u8; 32]>)>;
fn gaps(ev: &[Event]) -> Gaps {
    let mut v = vec![];
    let mut cur = vec![];
    for e in ev {
        match e {
            Event::Append(b) => cur.extend(b),
            Event::Challenge(c) => v.push((std::mem::take(&mut cur), Some(*c))),
        }
    }
    v.push((cur, None));
    v
}

/// Where the protocol puts each message: (name, number of challenges drawn before, bytes).
fn plan<F: IsFFTField>(spec: &Spec<F>, p: &StarkProof<F>, q: usize, retries: usize) -> (Vec<(String, usize, Vec<u8>)>, usize)
where
    FieldElement<F>: ByteConversion,
{
    let mut v = vec![("main trace root".to_string(), 0, p.lde_trace_merkle_roots[0].to_vec())];
    let mut k = spec.n_rap;
    if !spec.aux.is_empty() {
        v.push(("auxiliary trace root".into(), k, p.lde_trace_merkle_roots[1].to_vec()));
    }
    k += 2 * spec.bnd.len() + 2 * spec.cons.len();
    v.push(("composition root".into(), k, p.composition_poly_root.to_vec()));
    k += 1 + retries;
    let mut b = p.composition_poly_even_ood_evaluation.to_bytes_be();
    b.extend(p.composition_poly_odd_ood_evaluation.to_bytes_be());
    let f = &p.trace_ood_frame_evaluations;
    for r in 0..f.num_rows() {
        for x in f.get_row(r) {
            b.extend(x.to_bytes_be());
        }
    }
    v.push(("out-of-domain values".into(), k, b));
    k += 2 + spec.n_cols() * spec.offsets.len();
    for (i, r) in p.fri_layers_merkle_roots.iter().enumerate() {
        v.push((format!("folding root {}", i.min(1)), k, r.to_vec()));
        k += 1;
    }
    v.push(("final value".into(), k, p.fri_last_value.to_bytes_be()));
    k += 1;
    v.push(("nonce".into(), k, p.nonce.to_be_bytes().to_vec()));
    (v, k + q)
}

fn conforms<F: IsFFTField>(ch: &Ch, who: &str, g: &Gaps, spec: &Spec<F>, p: &StarkProof<F>, q: usize, retries: usize, what: &dyn Fn() -> String)
where
    FieldElement<F>: ByteConversion,
{
    let (msgs, total) = plan(spec, p, q, retries);
    ch.check(g.len() == total + 1, &format!("{who}:number-of-challenges"), || format!("{} challenges, protocol {total}: {}", g.len() - 1, what()));
    let mut at: Vec<Vec<u8>> = vec![vec![]; total + 1];
    let mut names: Vec<String> = vec![String::new(); total + 1];
    for (n, k, b) in &msgs {
        at[*k].extend(b);
        names[*k] = format!("{}{n}", names[*k]);
    }
    for k in 0..g.len().min(total + 1) {
        ch.ops(1);
        let key = if names[k].is_empty() { "between messages".to_string() } else { names[k].clone() };
        if !ch.check(g[k].0 == at[k], &format!("{who}:absorbs:{key}"), || {
            format!("after {k} challenges {} bytes absorbed, protocol has {} ({}): {}", g[k].0.len(), at[k].len(), names[k], what())
        }) {
            return;
        }
    }
}

fn run<F: IsFFTField>(ch: &mut Ch, m: &Menu, lens: &[usize], blow: &[u8], qs: &[usize], retry: bool)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let n = ch.of(lens);
    let Some((spec, rows)) = choose::<F>(ch, n, m) else { return };
    let (b, q, gr) = (ch.of(blow), ch.of(qs), ch.of(&[0u8, 2]));
    listen::<F>(ch, n, spec, rows, b, q, gr, retry);
}

/// One honest run, and changed proofs to a listening verifier.
#[allow(clippy::too_many_arguments)]
fn listen<F: IsFFTField>(ch: &mut Ch, n: usize, spec: Spec<F>, rows: Vec<Vec<E<F>>>, b: u8, q: usize, gr: u8, retry: bool)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let o = opts(b, q, 7, gr);
    if !spec.carried_by(n, b as usize) {
        return;
    }
    let big = n * b as usize;
    let spec = Arc::new(spec);
    let zi = spec.n_rap + 2 * spec.bnd.len() + 2 * spec.cons.len();
    let mut bads: Vec<E<F>> = vec![];
    if retry {
        let one = E::<F>::one();
        let t = powers::<F>(&root_of::<F>(n), n, &one);
        let l = powers::<F>(&root_of::<F>(big), big, &E::<F>::from(7u64));
        let all: Vec<E<F>> = t.into_iter().chain(l).collect();
        for _ in 0..ch.range(1, 2) {
            bads.push(ch.of(&all));
        }
    }
    // only values a masked challenge can take
    let coin = |x: &E<F>| {
        let bytes = x.to_bytes_be();
        let mut c = [0u8; 32];
        c[32 - bytes.len()..].copy_from_slice(&bytes);
        c
    };
    let bads: Vec<[u8; 32]> = bads.iter().filter(|x| to_felt::<F>(coin(x)) == **x).map(coin).collect();
    let script = || {
        let b = bads.clone();
        hooks::set_script(Some(Box::new(move |k, _| if k >= zi && k < zi + b.len() { Some(b[k - zi]) } else { None })));
    };
    let what = || format!("{} n={n} {o:?} in-domain candidates {}", spec.name(), bads.len());
    script();
    hooks::start_recording();
    let pr = guard(|| prove::<F, FamAir<F>>(&table(&rows), &spec, &o));
    let pe = gaps(&hooks::stop_recording());
    let Ok(Ok(proof)) = pr else {
        hooks::set_script(None);
        return ch.outcome("no proof");
    };
    let im = image(&proof);
    conforms(ch, "prover", &pe, &spec, &proof, q, bads.len(), &what);
    let listen = |p: &StarkProof<F>| {
        script();
        hooks::start_recording();
        let r = guard(|| verify::<F, FamAir<F>>(p, &spec, &o));
        (gaps(&hooks::stop_recording()), r)
    };
    let (ve, r) = listen(&proof);
    ch.validated(2);
    ch.state(&(spec.name(), n, b, q, gr, bads.len()));
    ch.outcome(match r {
        Ok(true) => "accepted",
        Ok(false) => "rejected",
        Err(_) => "verifier panicked",
    });
    ch.check(ve == pe, "lockstep", || {
        let i = (0..ve.len().min(pe.len())).find(|i| ve[*i] != pe[*i]).unwrap_or(ve.len().min(pe.len()));
        format!("prover and verifier differ after {i} challenges ({} vs {}): {}", pe.len(), ve.len(), what())
    });
    conforms(ch, "verifier", &ve, &spec, &proof, q, bads.len(), &what);
    // a verifier given other messages absorbs those other messages
    if n <= 8 && !retry {
        let one = E::<F>::one();
        let f = &proof.trace_ood_frame_evaluations;
        let (fr, fc) = (f.num_rows(), f.num_columns());
        let mut ps: Vec<Place> = vec![Place::Even, Place::Odd, Place::Last];
        ps.extend((0..fr).flat_map(|r| (0..fc).map(move |c| Place::OodFrame(r, c))));
        let mut changed = vec![];
        for at in ps {
            let mut p = copy(&proof);
            let c = cell(&mut p, at);
            *c = &*c + &one;
            changed.push(p);
        }
        let nd = 1 + proof.lde_trace_merkle_roots.len() + proof.fri_layers_merkle_roots.len();
        for i in 0..nd {
            let mut p = copy(&proof);
            digests(&mut p).swap_remove(i).1[5] ^= 4;
            changed.push(p);
        }
        let mut p = copy(&proof);
        p.nonce ^= 1 << 40;
        changed.push(p);
        for p in &changed {
            debug_assert!(image(p) != im);
            let (e, _) = listen(p);
            ch.validated(1);
            // the transcript part of verification may be cut short only by a rejection before it starts
            if e.len() > 1 {
                conforms(ch, "verifier(changed proof)", &e, &spec, p, q, 0, &what);
            }
        }
    }
    hooks::set_script(None);
    if n == 4 {
        ch.sample(|| serde_json::json!({"system": spec.name(), "events": pe.len()}));
    }
    let _ = coin_field(0);
}

fn main() {
    harness::main("C07", Level::ModelChecking, |ctx| {
        ctx.rule("system x length x options (x out-of-domain candidates that must be redrawn); both parties' transcripts recorded and compared with each other and with the protocol's order; non-trivial: distinct system, length and options");
        ctx.explore("one column", |ch| {
            run::<G>(ch, &menu(1), &ch.ctx.tier(vec![2, 4, 8], vec![1, 2, 4, 8, 16, 32]), &[2, 4], &[1, 3], false)
        });
        ctx.explore("two columns", |ch| run::<G>(ch, &menu(2), &[4], &[4], &[1], false));
        ctx.explore("Stark252", |ch| run::<S>(ch, &menu(1), &ch.ctx.tier(vec![4], vec![4, 8]), &[4], &[2], false));
        ctx.explore("out-of-domain point redrawn", |ch| {
            let mut m = menu(1);
            m.kinds.truncate(2);
            m.offsets.truncate(2);
            m.bnd = 2;
            m.extra = vec![0];
            run::<G>(ch, &m, &[2, 4], &[2], &[1], true)
        });
        // many of one thing, few of the others
        ctx.explore("large counts", |ch| {
            let t = ch.ctx.thorough();
            let many: &[usize] = if t { &[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] } else { &[17, 33, 65, 129, 257] };
            let (mut cols, mut aux, mut nb, mut n, mut q, mut offsets) = (2, 1, 2, 8, 2, vec![0, 1]);
            match ch.pick(6) {
                0 => cols = ch.of(many),
                1 => aux = ch.of(many),
                2 => {
                    n = 64;
                    cols = 8;
                    nb = ch.of(many)
                }
                3 => n = 1 << ch.range(4, if t { 12 } else { 10 }),
                4 => q = ch.of(many),
                _ => offsets = (0..ch.range(2, 7)).collect(),
            }
            let (spec, rows) = big::<G>(n, cols, aux, nb, &offsets);
            let b = ch.of(&[2u8, 4, 8]);
            listen::<G>(ch, n, spec, rows, b, q, 1, false)
        });
    });
}
