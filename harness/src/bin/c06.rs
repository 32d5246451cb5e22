//! C06: the verifier answers for proofs of every shape, and rejects every shape but the protocol's.
#[path = "../../kit/cairo.rs"]
mod cairo;
#[path = "../../kit/fam.rs"]
mod fam;
#[path = "../../kit/mutate.rs"]
mod mutate;
#[path = "../../kit/proto.rs"]
mod proto;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_crypto::hooks;
use lambdaworks_math::field::fields::fft_friendly::{
    stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G,
};
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::cairo::air::{generate_cairo_proof, verify_cairo_proof, MemorySegment, PublicInputs};
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::example::{
    fibonacci_2_columns,
    fibonacci_rap::{fibonacci_rap_trace, FibonacciRAP, FibonacciRAPPublicInputs},
    quadratic_air, simple_fibonacci,
};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::prover::prove;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::starks::verifier::verify;
use mutate::*;
use proto::*;
use std::sync::Arc;

#[global_allocator]
static A: harness::alloc_guard::Guarded = harness::alloc_guard::Guarded;

fn menu(cols: usize) -> Menu {
    use Kind::*;
    Menu {
        offsets: vec![vec![0, 1], vec![0, 1, 2], vec![0]],
        kinds: vec![Fib, SquareOf(0), Bool],
        max_cols: cols,
        aux: vec![vec![], vec![Aux::Scaled(0)], vec![Aux::Perm(0, 0), Aux::Scaled(0)]],
        extra: vec![0],
        bnd: 2,
    }
}

/// Number of challenges drawn before the query indices.
fn draws<F: IsFFTField>(spec: &Spec<F>, layers: usize) -> usize {
    spec.n_rap + 2 * spec.bnd.len() + 2 * spec.cons.len() + 1 + 2 + spec.n_cols() * spec.offsets.len() + layers + 1
}

/// The file of the repository a panic comes from.
fn culprit(e: &str) -> String {
    let file = e.trim_start_matches("panic at ").split(':').next().unwrap_or("");
    match file.strip_prefix("/repo/") {
        Some(f) => f.to_string(),
        None if file.starts_with("src") => file.to_string(),
        None => "library".to_string(),
    }
}

fn expect_reject<F: IsFFTField>(
    ch: &Ch,
    key: &str,
    p: &StarkProofOf<F>,
    spec: &Arc<Spec<F>>,
    o: &ProofOptions,
    what: &dyn Fn() -> String,
) where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    ch.ops(1);
    ch.validated(1);
    match guard(|| verify::<F, FamAir<F>>(p, spec, o)) {
        Ok(false) => ch.outcome("rejected"),
        Ok(true) => ch.fail(format!("accepted:{key}"), what()),
        Err(e) => {
            let file = culprit(&e);
            ch.fail(format!("panic:{key}:{file}"), format!("{e}: {}", what()))
        }
    }
}
/// As `expect_reject` for any constraint system; `verdict` is what the answer has to be, if that is settled.
fn answers<A: AIR>(ch: &Ch, key: &str, p: &StarkProofOf<A::Field>, pubs: &A::PublicInputs, o: &ProofOptions, verdict: Option<bool>, what: &dyn Fn() -> String)
where
    FieldElement<A::Field>: ByteConversion + Send + Sync,
{
    judge_answer(ch, key, guard(|| verify::<A::Field, A>(p, pubs, o)), verdict, what)
}
fn judge_answer(ch: &Ch, key: &str, answer: Result<bool, String>, verdict: Option<bool>, what: &dyn Fn() -> String) {
    ch.ops(1);
    ch.validated(1);
    match answer {
        Ok(v) if verdict.map_or(true, |w| w == v) => ch.outcome(if v { "accepted" } else { "rejected" }),
        Ok(v) => ch.fail(format!("{}:{key}", if v { "accepted" } else { "rejected" }), what()),
        Err(e) => {
            let file = culprit(&e);
            ch.fail(format!("panic:{key}:{file}"), format!("{e}: {}", what()))
        }
    }
}
/// Every change of shape of an honest proof of one of the library's own systems, and every other public input in `others`.
/// `recorded` names the recorded finding, if any, that makes the verifier panic on this statement and length.
fn own<A: AIR + Send + Sync>(
    ch: &mut Ch,
    name: &str,
    t: &TraceTable<A::Field>,
    pubs: &A::PublicInputs,
    o: &ProofOptions,
    max_len: usize,
    others: &[(String, A::PublicInputs)],
    recorded: fn(&A::PublicInputs, usize) -> Option<&'static str>,
) where
    FieldElement<A::Field>: ByteConversion + Send + Sync,
    A::RAPChallenges: Send + Sync,
{
    let Ok(Ok(p)) = guard(|| prove::<A::Field, A>(t, pubs, o)) else { return ch.outcome("not-proved") };
    let n = p.trace_length;
    let judge = |key: &str, q: &StarkProofOf<A::Field>, x: &A::PublicInputs, verdict: Option<bool>, what: &dyn Fn() -> String| {
        let answer = guard(|| verify::<A::Field, A>(q, x, o));
        match recorded(x, q.trace_length) {
            Some(finding) if answer.is_err() => {
                ch.ops(1);
                ch.fail(finding, format!("{}: {}", answer.unwrap_err(), what()))
            }
            _ => judge_answer(ch, key, answer, verdict, what),
        }
    };
    answers::<A>(ch, &format!("{name}:honest"), &p, pubs, o, Some(true), &|| format!("{name} n={n} {o:?}"));
    for s in shapes(&p, max_len) {
        let mut q = copy(&p);
        reshape(&mut q, &s);
        ch.state(&(name, n, o.fri_number_of_queries, s.clone()));
        judge(&format!("{name}:{}", label(&s)), &q, pubs, Some(false), &|| format!("{name} n={n} {o:?}: {s:?}"));
    }
    for (w, x) in others {
        ch.state(&(name, n, w.clone()));
        judge(&format!("{name}:public"), &p, x, None, &|| format!("{name} n={n} {o:?}: public inputs {w}"));
        for m in 0..=2 * n {
            let mut q = copy(&p);
            q.trace_length = m;
            judge(&format!("{name}:public+length"), &q, x, if m == n { None } else { Some(false) }, &|| {
                format!("{name} n={n} {o:?}: public inputs {w}, length {m}")
            });
        }
    }
}
fn own_systems<F: IsFFTField>(ch: &mut Ch, lens: &[usize], queries: &[usize])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let n = ch.of(lens);
    let o = opts(2, ch.of(queries), 7, 0);
    let big = 1 << 12;
    let e = |x: u64| FieldElement::<F>::from(x);
    let fib = |x: u64| simple_fibonacci::FibonacciPublicInputs { a0: e(x), a1: e(1) };
    let fibs: Vec<_> = [0u64, 2, u64::MAX].map(|x| (format!("a0={x}"), fib(x))).into();
    match ch.pick(4) {
        0 if n > 2 => own::<simple_fibonacci::FibonacciAIR<F>>(ch, "fibonacci", &simple_fibonacci::fibonacci_trace([e(1), e(1)], n), &fib(1), &o, big, &fibs, |_, _| None),
        1 => own::<fibonacci_2_columns::Fibonacci2ColsAIR<F>>(ch, "two-columns", &fibonacci_2_columns::fibonacci_trace_2_columns([e(1), e(1)], n), &fib(1), &o, big, &fibs, |_, _| None),
        2 => {
            let q = |x: u64| quadratic_air::QuadraticPublicInputs { a0: e(x) };
            own::<quadratic_air::QuadraticAIR<F>>(ch, "quadratic", &quadratic_air::quadratic_trace(e(3), n), &q(3), &o, big, &[("a0=0".into(), q(0))], |_, _| None)
        }
        3 if n >= 4 => {
            let steps = ch.range(n / 2 + 1, n - 1).max(4);
            let rap = |steps: usize| FibonacciRAPPublicInputs { steps, a0: e(1), a1: e(1) };
            let others: Vec<_> = (0..=2 * n + 4)
                .chain([100, 1 << 20, 1 << 32, 1 << 63, usize::MAX - 3, usize::MAX - 2, usize::MAX - 1, usize::MAX])
                .map(|s| (format!("steps={s}"), rap(s)))
                .collect();
            own::<FibonacciRAP<F>>(ch, "fibonacci-rap", &fibonacci_rap_trace([e(1), e(1)], steps), &rap(steps), &o, 64, &others, |x, n| {
                (x.steps > n.saturating_add(2)).then_some("fibonacci-rap-more-steps-than-rows")
            })
        }
        _ => {}
    }
}
/// Proofs of bounded Cairo programs.
fn cairo_proofs(ch: &mut Ch, programs: &[&[usize]], queries: &[usize]) {
    let ts = ch.of(programs);
    let rc = ch.flag();
    let o = opts(2, ch.of(queries), 3, 0);
    let made = guard(|| {
        let run = cairo::run_of(ts, 20)?;
        let range = if rc { Some(0..0) } else { None };
        let mut p = run.public(range, None);
        let main = build_main_trace(&run.registers(), &run.memory(), &mut p);
        let proof = generate_cairo_proof(&main, &p, &o).ok()?;
        Some((p, proof))
    });
    let Ok(Some((p, proof))) = made else { return ch.outcome("not-proved") };
    let n = proof.trace_length;
    let what = || format!("program {ts:?} range-check segment {rc} of {n} rows, {} steps", p.num_steps);
    let run = |proof: &StarkProofOf<S>, p: &PublicInputs| guard(|| verify_cairo_proof(proof, p, &o));
    judge_answer(ch, "cairo:honest", run(&proof, &p), Some(true), &what);
    for s in shapes(&proof, 1 << 12) {
        // wide frames: only sizes near the right ones
        if let Shape::Frame(k, w) = s {
            let (rows, cols) = (2, proof.trace_ood_frame_evaluations.num_columns());
            let near = |x: usize, y: usize| x.abs_diff(y) <= 1 || x <= 2;
            if !(near(k, rows * cols) || near(k, cols)) || !(near(w, cols) || w > 2 * cols) {
                continue;
            }
        }
        let mut q = copy(&proof);
        reshape(&mut q, &s);
        ch.state(&(ts, rc, o.fri_number_of_queries, s.clone()));
        judge_answer(ch, &format!("cairo:{}", label(&s)), run(&q, &p), Some(false), &|| format!("{}: {s:?}", what()));
    }
    // the length of the trace against what the public inputs say of it
    for steps in (0..=2 * n + 1).chain([1 << 16, 1 << 32, 1 << 63, usize::MAX]) {
        for len in [0, 1, 2, n / 2, n, 2 * n, 4 * n] {
            let mut q = copy(&proof);
            q.trace_length = len;
            let mut p2 = p.clone();
            p2.num_steps = steps;
            ch.state(&(ts, rc, steps, len));
            let verdict = Some(steps == p.num_steps && len == n);
            judge_answer(ch, "cairo:steps+length", run(&q, &p2), verdict, &|| format!("{}: {steps} steps claimed, length {len}", what()));
        }
    }
    // the columns follow from the memory segments
    let mut p2 = p.clone();
    if rc {
        p2.memory_segments.clear();
    } else {
        p2.memory_segments.insert(MemorySegment::RangeCheck, 0..0);
    }
    judge_answer(ch, "cairo:segments", run(&proof, &p2), Some(false), &|| format!("{}: other segments", what()));
}
type StarkProofOf<F> = lambdaworks_stark::starks::proof::stark::StarkProof<F>;

fn label(s: &Shape) -> String {
    let t = format!("{s:?}");
    t.split(|c: char| c.is_ascii_digit()).next().unwrap().trim_end_matches('(').replace(['(', ' ', ','], "")
}

fn setup<F: IsFFTField>(ch: &mut Ch, lens: &[usize], m: &Menu, qs: &[usize]) -> Option<(Arc<Spec<F>>, Vec<Vec<E<F>>>, usize, ProofOptions)>
where
    FieldElement<F>: ByteConversion,
{
    let n = ch.of(lens);
    let (spec, rows) = choose::<F>(ch, n, m)?;
    let q = ch.of(qs);
    let o = opts(2, q, 7, 0);
    if !spec.carried_by(n, 2) {
        return None;
    }
    Some((Arc::new(spec), rows, n, o))
}

fn singles<F: IsFFTField>(ch: &mut Ch, m: &Menu, lens: &[usize], base: &[Cheat])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let Some((spec, rows, n, o)) = setup::<F>(ch, lens, m, &[1, 2]) else { return };
    let cheat = ch.of(base);
    let honest = make(&spec, &rows, &o, cheat);
    if cheat == Cheat::None {
        let r = guard(|| verify::<F, FamAir<F>>(&honest.proof, &spec, &o));
        if r != Ok(true) {
            ch.outcome("honest-not-accepted");
        }
    }
    let max_len = 1 << 12;
    for s in shapes(&honest.proof, max_len) {
        let mut p = copy(&honest.proof);
        reshape(&mut p, &s);
        ch.state(&(spec.name(), n, o.fri_number_of_queries, cheat, s.clone()));
        expect_reject(ch, &label(&s), &p, &spec, &o, &|| {
            format!("{s:?} on a {cheat:?} proof: {} n={n} queries {}", spec.name(), o.fri_number_of_queries)
        });
    }
}

fn pairs<F: IsFFTField>(ch: &mut Ch, m: &Menu, lens: &[usize], cheats: &[Cheat])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let Some((spec, rows, n, o)) = setup::<F>(ch, lens, m, &[1]) else { return };
    let cheat = ch.of(cheats);
    let honest = make(&spec, &rows, &o, cheat);
    let all: Vec<Shape> = shapes(&honest.proof, 1 << 7)
        .into_iter()
        .filter(|s| !matches!(s, Shape::Grow(_, k) if *k > 2) && !matches!(s, Shape::Frame(n, w) if *n > 16 || *w > 16))
        .filter(|s| !matches!(s, Shape::TraceLength(k) if *k > 16 && *k < 1 << 20))
        .collect();
    let a = ch.of(&all);
    for b in &all {
        let mut p = copy(&honest.proof);
        reshape(&mut p, &a);
        if !reshape(&mut p, b) || image(&p) == image(&honest.proof) {
            continue;
        }
        ch.state(&(spec.name(), cheat, a.clone(), b.clone()));
        expect_reject(ch, &format!("{}+{}", label(&a), label(b)), &p, &spec, &o, &|| {
            format!("{a:?} then {b:?} on a {cheat:?} proof: {} n={n}", spec.name())
        });
    }
}

/// Extreme values everywhere: in every field element and digest of the proof, the nonce, and the options it is verified with.
fn scalars<F: IsFFTField>(ch: &mut Ch, m: &Menu, lens: &[usize])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let Some((spec, rows, n, o)) = setup::<F>(ch, lens, m, &[2]) else { return };
    let honest = make(&spec, &rows, &o, Cheat::None);
    let v = |key: &str, p: &StarkProofOf<F>, o: &ProofOptions, what: &dyn Fn() -> String| answers::<FamAir<F>>(ch, key, p, &spec, o, None, what);
    let vals = [E::<F>::zero(), E::<F>::one(), -E::<F>::one()];
    for x in &vals {
        let mut all = copy(&honest.proof);
        for at in places(&honest.proof) {
            let mut p = copy(&honest.proof);
            *cell(&mut p, at) = x.clone();
            *cell(&mut all, at) = x.clone();
            ch.state(&(spec.name(), n, at, format!("{x:?}")));
            v("value", &p, &o, &|| format!("{at:?} = {x:?}: {} n={n}", spec.name()));
        }
        v("all-values", &all, &o, &|| format!("every value {x:?}: {} n={n}", spec.name()));
    }
    let count = digests(&mut copy(&honest.proof)).len();
    for b in [0u8, 255] {
        let mut all = copy(&honest.proof);
        digests(&mut all).into_iter().for_each(|(_, d)| *d = [b; 32]);
        v("all-digests", &all, &o, &|| format!("every digest {b}: {} n={n}", spec.name()));
        for i in 0..count {
            let mut p = copy(&honest.proof);
            *digests(&mut p)[i].1 = [b; 32];
            ch.state(&(spec.name(), n, i, b));
            v("digest", &p, &o, &|| format!("digest {i} = {b}: {} n={n}", spec.name()));
        }
    }
    for nonce in [0, 1, 255, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX] {
        for g in [0u8, 1, 20, 63, 64, 65, 255] {
            let mut p = copy(&honest.proof);
            p.nonce = nonce;
            let o = opts(2, 2, 7, g);
            ch.state(&(spec.name(), n, nonce, g));
            v("nonce", &p, &o, &|| format!("nonce {nonce}, work {g}: {} n={n}", spec.name()));
        }
    }
    // other options than those of the proof
    for (b, q, c) in [(4u8, 2usize, 7u64), (128, 2, 7), (2, 0, 7), (2, 3, 7), (2, 2, 3), (2, 2, u64::MAX), (2, 2, 1 << 40)] {
        let o = opts(b, q, c, 0);
        if legal_offset::<F>(c, n, b as usize) {
            ch.state(&(spec.name(), n, b, q, c));
            v("options", &honest.proof, &o, &|| format!("verified with {o:?}: {} n={n}", spec.name()));
        }
    }
}

fn resize<F: IsFFTField>(p: &mut StarkProofOf<F>, l: List, k: usize) {
    let n = len(p, l);
    if k < n {
        reshape(p, &Shape::Cut(l, k));
    } else if k > n {
        reshape(p, &Shape::Grow(l, k - n));
    }
}
/// Every assignment of lengths to the lists that the verifier walks in step with each other.
fn together<F: IsFFTField>(ch: &mut Ch, m: &Menu, lens: &[usize])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let n = ch.of(lens);
    let Some((spec, rows)) = choose::<F>(ch, n, m) else { return };
    if !spec.carried_by(n, 2) {
        return;
    }
    let spec = Arc::new(spec);
    let group = ch.pick(4);
    let queries = ch.of(if group == 1 { &[0usize, 1, 2, 3] } else { &[1usize, 2] });
    let o = opts(2, queries, 7, 0);
    let honest = make(&spec, &rows, &o, Cheat::None);
    let q = if queries > 0 { ch.pick(queries) } else { 0 };
    let layers = honest.proof.fri_layers_merkle_roots.len();
    let lists: Vec<List> = match group {
        // the layers of a query
        0 => vec![List::FriRoots, List::SymPaths(q), List::SymEvals(q), List::Paths(q), List::Evals(q)],
        // the queries
        1 => vec![List::Queries, List::Openings],
        // the parts of an opening
        2 => vec![List::Roots, List::TracePaths(q), List::TraceEvals(q), List::CompPath(q)],
        // the paths of a query
        _ => (0..layers).flat_map(|k| [List::Path(q, k), List::SymPath(q, k)]).collect(),
    };
    let mut probe = copy(&honest.proof);
    let sizes: Vec<usize> = lists.iter().map(|l| len(&mut probe, *l)).collect();
    if group == 3 && layers > 2 && q > 0 {
        return;
    }
    let mut at = vec![0usize; lists.len()];
    loop {
        if at != sizes && (0..lists.len()).all(|i| sizes[i] > 0 || at[i] == 0) {
            let mut p = copy(&honest.proof);
            for (l, k) in lists.iter().zip(&at) {
                resize(&mut p, *l, *k);
            }
            ch.state(&(spec.name(), n, queries, q, group, at.clone()));
            expect_reject(ch, &format!("lengths-{group}"), &p, &spec, &o, &|| format!("{lists:?} of lengths {at:?} for {sizes:?}: {} n={n}", spec.name()));
        }
        let Some(i) = (0..at.len()).find(|i| at[*i] <= sizes[*i]) else { return };
        at[..i].iter_mut().for_each(|x| *x = 0);
        at[i] += 1;
    }
}

/// Provers that follow the transcript of a protocol with fewer or more messages.
fn consistent<F: IsFFTField>(ch: &mut Ch, m: &Menu, lens: &[usize])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let Some((spec, rows, n, o)) = setup::<F>(ch, lens, m, &[1]) else { return };
    let big = n * 2;
    let iota = ch.pick(big);
    let layers = (n.trailing_zeros() as usize).max(1);
    let mut v = vec![Cheat::NoAuxRoot, Cheat::PhantomAux, Cheat::ExtraOodRow, Cheat::ExtraOodCol];
    v.retain(|c| match c {
        Cheat::NoAuxRoot => !spec.aux.is_empty(),
        Cheat::PhantomAux => spec.aux.is_empty(),
        _ => true,
    });
    v.extend((0..=layers + 1).filter(|k| *k != layers).map(|k| Cheat::Layers(k, iota)));
    for w in [Which::Main, Which::Aux, Which::Comp].into_iter().chain((0..layers).map(Which::Fri)) {
        if w != Which::Aux || !spec.aux.is_empty() {
            v.extend([1, 2, 9, 64].map(|levels| Cheat::Depth(w, levels, iota)));
            v.push(Cheat::Depth(w, -1, iota));
        }
    }
    for c in v {
        let k = match c {
            Cheat::Layers(k, _) => k,
            _ => layers,
        };
        let d = draws(&spec, k);
        hooks::set_script(Some(Box::new(move |i, _| if i == d { Some(coin_index(iota as u64)) } else { None })));
        let made = make(&spec, &rows, &o, c);
        ch.state(&(spec.name(), n, iota, c));
        let key = format!("{c:?}").split('(').next().unwrap().to_string();
        expect_reject(ch, &key, &made.proof, &spec, &o, &|| format!("{c:?}: {} n={n} iota {iota}", spec.name()));
        hooks::set_script(None);
    }
}

/// A proof that is consistent in every visible dimension but claims a huge trace. Run in a child process
/// with bounded memory: returns false on anything but a verdict.
fn huge_answers(log: usize) -> bool {
    let exe = std::env::current_exe().unwrap();
    let out = std::process::Command::new(exe).arg("child").arg(log.to_string()).output().unwrap();
    String::from_utf8_lossy(&out.stdout).contains("ANSWER")
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
fn child(log: usize) {
    // 4 GB of address space, 60 s of processor time
    unsafe {
        setrlimit(9, &[4 << 30, 4 << 30]);
        setrlimit(0, &[60, 60]);
    }
    let n = 1usize << log;
    let spec: Arc<Spec<S>> = Arc::new(tiny_spec());
    let o = opts(2, 1, 3, 0);
    let one = E::<S>::one();
    let path = |d: usize| lambdaworks_crypto::merkle_tree::proof::Proof { merkle_path: vec![[1u8; 32]; d] };
    let p = StarkProofOf::<S> {
        trace_length: n,
        lde_trace_merkle_roots: vec![[1; 32]],
        trace_ood_frame_evaluations: lambdaworks_stark::starks::frame::Frame::new(vec![one; 2], 1),
        composition_poly_root: [2; 32],
        composition_poly_even_ood_evaluation: one,
        composition_poly_odd_ood_evaluation: one,
        fri_layers_merkle_roots: vec![[3; 32]; log],
        fri_last_value: one,
        query_list: vec![lambdaworks_stark::starks::fri::fri_decommit::FriDecommitment {
            layers_auth_paths_sym: (0..log).map(|k| path(log + 1 - k)).collect(),
            layers_evaluations_sym: vec![one; log],
            layers_auth_paths: (0..log).map(|k| path(log + 1 - k)).collect(),
            layers_evaluations: vec![one; log],
        }],
        deep_poly_openings: vec![lambdaworks_stark::starks::proof::stark::DeepPolynomialOpenings {
            lde_composition_poly_proof: path(log + 1),
            lde_composition_poly_even_evaluation: one,
            lde_composition_poly_odd_evaluation: one,
            lde_trace_merkle_proofs: vec![path(log + 1)],
            lde_trace_evaluations: vec![one],
        }],
        nonce: 0,
    };
    let r = std::panic::catch_unwind(|| verify::<S, FamAir<S>>(&p, &spec, &o));
    if let Ok(v) = r {
        println!("ANSWER {v}");
    }
}
fn tiny_spec<F: IsFFTField>() -> Spec<F> {
    let cell = |r: usize| Term { coef: if r == 1 { 1 } else { -2 }, cells: vec![(r, 0)], rap: None };
    Spec {
        main: vec![Kind::Free],
        aux: vec![],
        offsets: vec![0, 1],
        cons: vec![Con { terms: vec![cell(1), cell(0)], degree: 1, exempt: 1 }],
        bnd: vec![],
        bound_mult: 1,
        n_rap: 0,
        aux_fault: None,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("child") {
        return child(a[2].parse().unwrap());
    }
    harness::main("C06", Level::FaultEnumeration, |ctx| {
        ctx.rule("a proof (honest or forged) x one or two changes of list lengths, frame dimensions or trace length, or a prover following a shorter/longer transcript; non-trivial: the shape differs from the protocol's");
        ctx.set_hang_limit(60);
        harness::alloc_guard::set_limit(3 << 30);
        let lens = ctx.tier(vec![1, 2, 4, 8], vec![1, 2, 4, 8, 16]);
        ctx.explore("one change of shape, Goldilocks", |ch| {
            singles::<G>(ch, &menu(2), &lens, &[Cheat::None])
        });
        ctx.explore("one change of shape, Stark252", |ch| singles::<S>(ch, &menu(1), &[4], &[Cheat::None]));
        ctx.explore("one change of shape on forged proofs", |ch| {
            let f = [Cheat::P0(1), Cheat::Ood(0, 1), Cheat::Last(1), Cheat::Leaf(Which::Main, None), Cheat::Leaf(Which::Comp, None), Cheat::Leaf(Which::Fri(0), None), Cheat::Leaf(Which::Aux, None), Cheat::P0OpenTrace(1, 0)];
            singles::<G>(ch, &menu(1), &[4], &f)
        });
        ctx.explore("two changes of shape", |ch| {
            let mut m = menu(1);
            if !ctx.thorough() {
                m.kinds = vec![Kind::Fib, Kind::Bool];
                m.offsets = vec![vec![0, 1], vec![0]];
                m.bnd = 1;
            }
            pairs::<G>(ch, &m, &ctx.tier(vec![4usize], vec![2, 4, 8]), &ctx.tier(vec![Cheat::None], vec![Cheat::None, Cheat::P0(1), Cheat::Last(1)]))
        });
        ctx.explore("self-consistent shorter or longer protocols", |ch| consistent::<G>(ch, &menu(2), &[2, 4, 8]));
        let tl = ctx.tier(vec![1usize, 2, 4, 8], vec![1, 2, 4, 8, 16]);
        ctx.explore("lengths of lists walked together", |ch| {
            let mut m = menu(1);
            m.bnd = 1;
            m.kinds = vec![Kind::Fib];
            if ch.flag() {
                together::<S>(ch, &m, &tl[..3])
            } else {
                together::<G>(ch, &m, &tl)
            }
        });
        ctx.explore("extreme values", |ch| if ch.flag() { scalars::<S>(ch, &menu(1), &[4]) } else { scalars::<G>(ch, &menu(2), &lens) });
        let (ol, oq) = ctx.tier((vec![2usize, 4, 8], vec![1usize]), (vec![2, 4, 8, 16, 32], vec![1, 2]));
        ctx.explore("the library's own systems", |ch| own_systems::<G>(ch, &ol, &oq));
        let programs: &[&[usize]] = ctx.tier(&[&[], &[0], &[2, 1, 0, 4, 0]], &[&[], &[0], &[1], &[2], &[3], &[2, 1, 0, 4, 0], &[0; 14]]);
        ctx.explore("Cairo proofs", |ch| cairo_proofs(ch, programs, ctx.tier(&[1], &[1, 2])));
        ctx.explore("huge but consistent trace length", |ch| {
            let log = ch.of(&[16usize, 30, 40, 60]);
            ch.check(huge_answers(log), &format!("huge-trace-length-2^{log}"), || {
                format!("no answer within 4 GB and 60 s for a well-shaped proof claiming 2^{log} rows")
            });
        });
    });
}
