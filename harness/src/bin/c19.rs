//! C19: parallel proving is schedule-independent and equals sequential proving.
//!
//! Built twice: the sequential build proves every statement and records the bytes; the build with
//! parallelism, whose parallel regions run under an explicit scheduler, must reproduce them under
//! every explored schedule.
#[path = "../../kit/cairo.rs"]
mod cairo;
#[path = "../../kit/fam.rs"]
mod fam;
use fam::*;
use harness::{guard, h64, Ch, Ctx, Level};
use lambdaworks_math::field::fields::fft_friendly::{stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G};
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::traits::{ByteConversion, Serializable};
use lambdaworks_stark::cairo::air::generate_cairo_proof;
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::prover::prove;
use rayon::sched::{self, Plan, Preempt};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

/// What proving gives: a digest of the bytes, or how it fails.
fn shown(r: Result<Result<Vec<u8>, String>, String>) -> String {
    match r {
        Ok(Ok(b)) => format!("{} bytes {:016x}{:016x}", b.len(), h64(&b), h64(&(&b, 1))),
        Ok(Err(_)) => "refused".into(),
        Err(_) => "panic".into(),
    }
}

struct Statement {
    name: String,
    prove: Box<dyn Fn() -> Result<Vec<u8>, String>>,
}

/// 0: few statements, 1: more
fn menu(size: usize) -> Menu {
    use Kind::*;
    Menu {
        offsets: if size == 0 { vec![vec![0, 1, 2]] } else { vec![vec![0, 1], vec![0, 1, 2]] },
        kinds: vec![Fib, SquareOf(0)],
        max_cols: 2,
        aux: vec![vec![], vec![Aux::Perm(0, 0)]],
        extra: if size == 0 { vec![0] } else { vec![0, 1] },
        bnd: 2,
    }
}

fn family<F: IsFFTField + 'static>(ch: &mut Ch, size: usize, big: bool) -> Option<Statement>
where
    FieldElement<F>: ByteConversion + Send + Sync,
    F::BaseType: Send + Sync,
{
    let n = ch.of(if big { &[8usize, 16][..] } else { &[4, 8][..] });
    let (blowup, queries, grinding) = ch.of(&[(2u8, 2usize, 0u8), (4, 1, 2)]);
    let (spec, rows) = choose::<F>(ch, n, &menu(size))?;
    if !spec.carried_by(n, blowup as usize) {
        return None;
    }
    let o = opts(blowup, queries, 3, grinding);
    let name = format!("{} rows, blowup {blowup}, {queries} queries, grinding {grinding}: {}", n, spec.name());
    let spec = Arc::new(spec);
    Some(Statement { name, prove: Box::new(move || prove::<F, FamAir<F>>(&table(&rows), &spec, &o).map(|p| p.serialize()).map_err(|e| format!("{e:?}"))) })
}

/// Many rows, columns, randomized columns or boundary conditions.
fn large(ch: &mut Ch) -> Option<Statement> {
    let sizes = [(64usize, 2usize, 1usize, 2usize), (8, 33, 0, 2), (8, 2, 17, 40), (256, 1, 0, 1), (16, 129, 3, 65)];
    let (n, cols, aux, nb) = ch.of(if ch.ctx.thorough() { &sizes[..] } else { &sizes[..3] });
    let (spec, rows) = fam::big::<G>(n, cols, aux, nb, &[0, 1]);
    let o = opts(4, 2, 3, 1);
    let name = format!("{n} rows, {cols} columns, {aux} randomized, {nb} boundary conditions");
    let spec = Arc::new(spec);
    Some(Statement { name, prove: Box::new(move || prove::<G, FamAir<G>>(&table(&rows), &spec, &o).map(|p| p.serialize()).map_err(|e| format!("{e:?}"))) })
}

fn program(ch: &mut Ch) -> Option<Statement> {
    let ts = ch.of(&[vec![], vec![0, 4], vec![16, 0, 18], vec![2, 13, 0, 10]]);
    let rc = ch.flag();
    let run = cairo::run_of(&ts, 12)?;
    let o = cairo::opts(ch.of(&[2, 4]), 2);
    let regs = run.registers();
    let mem = run.memory();
    let out = run.code_len + 2..run.code_len + 3;
    let mut p = run.public(rc.then(|| out.clone()), None);
    let main = guard(|| build_main_trace(&regs, &mem, &mut p)).ok()?;
    let name = format!("Cairo program {ts:?}, {} rows, range-check segment {rc}, blowup {}", main.n_rows(), o.blowup_factor);
    Some(Statement { name, prove: Box::new(move || generate_cairo_proof(&main, &p, &o).map(|p| p.serialize()).map_err(|e| format!("{e:?}"))) })
}

fn permutation(mut k: usize, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for i in (1..=n).rev() {
        let f: usize = (1..i).product();
        out.push(left.remove(k / f));
        k %= f;
    }
    out
}
/// Number of orders tried in a region of `n` tasks: all of them when there are few, otherwise every
/// order one move away from the sequential one, its reverses and rotations.
fn orders(n: usize, all: usize) -> usize {
    if n <= all {
        (1..=n).product()
    } else {
        3 * n + 2
    }
}
fn order(k: usize, n: usize, all: usize) -> Vec<usize> {
    if n <= all {
        return permutation(k, n);
    }
    let mut v: Vec<usize> = (0..n).collect();
    match k {
        0 => v.reverse(),
        1 => v = (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        k if k < n + 2 => v.rotate_left(k - 2),
        k if k < 2 * n + 2 => {
            let t = v.remove(k - n - 2);
            v.insert(0, t);
        }
        k => {
            let t = v.remove(k - 2 * n - 2);
            v.push(t);
        }
    }
    v
}
fn policy(k: usize, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    match k {
        0 => {}
        1 => v.reverse(),
        2 => v.rotate_left(n.min(1)),
        3 => v.rotate_right(n.min(1)),
        _ => v = (1..n).step_by(2).chain((0..n).step_by(2)).collect(),
    }
    v
}
fn staffed(v: Vec<usize>, workers: usize) -> Vec<(usize, usize)> {
    v.into_iter().enumerate().map(|(i, t)| (t, match workers { 0 => 0, 1 => i % 2, _ => i % 64 })).collect()
}

type Book = Mutex<BTreeMap<String, String>>;
struct Base {
    name: String,
    regions: Vec<usize>,
}

fn sequential(ctx: &Ctx, book: &Book, space: &str, f: impl Fn(&mut Ch) -> Option<Statement> + Sync) {
    ctx.explore(space, |ch| {
        let Some(s) = f(ch) else { return };
        let key = format!("{space} {:?}", ch.choices());
        let first = shown(guard(|| (s.prove)()));
        let second = shown(guard(|| (s.prove)()));
        ch.validated(2);
        ch.state(&(&key, &first));
        ch.check(first == second, "not-reproducible", || format!("{}: {first}, then {second}", s.name));
        if !first.contains("bytes") {
            ch.fail("not-proved", format!("{}: {first}", s.name));
        }
        book.lock().unwrap().insert(key, first);
        ch.outcome("statements proved twice by the sequential build");
    });
}

struct Depth {
    all: usize,
    at: Vec<usize>,
    pairs: bool,
    few: bool,
}

fn parallel(ctx: &Ctx, book: &Book, bases: &Mutex<HashMap<String, Arc<Base>>>, space: &str, d: &Depth, f: impl Fn(&mut Ch) -> Option<Statement> + Sync) {
    ctx.explore(space, |ch| {
        let Some(s) = f(ch) else { return };
        let key = format!("{space} {:?}", ch.choices());
        let Some(golden) = book.lock().unwrap().get(&key).cloned() else {
            ctx.error(format!("no sequential proof of {key}"));
            return;
        };
        let known = bases.lock().unwrap().get(&key).cloned();
        let base = match known {
            Some(b) => b,
            None => {
                sched::set(None);
                let a = shown(guard(|| (s.prove)()));
                let regions = sched::regions();
                ch.check(a == golden, "differs-from-sequential", || format!("{}: {golden} sequentially, {a} with parallelism, tasks in order", s.name));
                let b = Arc::new(Base { name: s.name.clone(), regions });
                bases.lock().unwrap().insert(key, b.clone());
                b
            }
        };
        if base.regions.is_empty() {
            return ch.fail("no-parallel-region", base.name.clone());
        }
        let rs = base.regions.clone();
        // the schedule: what happens in each region
        let mut plan: BTreeMap<usize, Plan> = BTreeMap::new();
        let mut everywhere: Option<(usize, usize)> = None;
        let mut chunk = 0;
        let kind = ch.pick(if d.pairs { 4 } else { 3 });
        match kind {
            0 => {
                let r = ch.pick(rs.len());
                let k = ch.pick(if d.few { orders(rs[r], d.all).min(12) } else { orders(rs[r], d.all) });
                let w = ch.pick(if d.few { 2 } else { 3 });
                plan.insert(r, Plan { order: staffed(order(k, rs[r], d.all), w), preempt: None });
            }
            1 => {
                let r = ch.pick(rs.len());
                if rs[r] < 2 {
                    return;
                }
                let t = ch.pick(if d.few { rs[r].min(3) } else { rs[r] });
                let at = ch.of(&d.at);
                let others = if ch.flag() { rs[r] - 1 } else { 1 };
                let mut v: Vec<usize> = (0..rs[r]).collect();
                let t0 = v.remove(t);
                v.insert(0, t0);
                plan.insert(r, Plan { order: staffed(v, ch.pick(2)), preempt: Some(Preempt { task: t, at, others }) });
            }
            2 => {
                everywhere = Some((ch.pick(5), ch.pick(3)));
                chunk = ch.of(&[1, 2, 3, 1000]);
            }
            _ => {
                let (a, b) = (ch.pick(rs.len()), ch.pick(rs.len()));
                if a >= b {
                    return;
                }
                for r in [a, b] {
                    let k = 1 + ch.pick(4);
                    plan.insert(r, Plan { order: staffed(policy(k, rs[r]), ch.pick(2)), preempt: None });
                }
            }
        }
        let want = rs.clone();
        let said = format!("{plan:?} everywhere {everywhere:?} split of {chunk}");
        let hash = h64(&(&said, &base.name));
        let drift = Arc::new(Mutex::new(false));
        let drifted = drift.clone();
        sched::set_chunk(chunk);
        sched::set(Some(Box::new(move |r, n| {
            if let Some((k, w)) = everywhere {
                return Plan { order: staffed(policy(k, n), w), preempt: None };
            }
            if want.get(r) != Some(&n) {
                // regions depend on the splitting (or on the schedule, which the bytes then show)
                *drift.lock().unwrap() = true;
                return Plan::in_order(n);
            }
            plan.get(&r).cloned().unwrap_or_else(|| Plan::in_order(n))
        })));
        let got = shown(guard(|| (s.prove)()));
        let (regions, suspended) = (sched::regions(), sched::suspended());
        sched::set(None);
        sched::set_chunk(0);
        if *drifted.lock().unwrap() {
            ch.outcome("regions split differently");
        }
        ch.state(&hash);
        ch.ops(regions.iter().sum::<usize>() as u64);
        ch.validated(1);
        ch.check(got == golden, "schedule-dependent", || format!("{}: {golden} sequentially, {got} under {said}", s.name));
        ch.outcome(match (kind, suspended > 0) {
            (0, _) => "one region reordered",
            (1, true) => "a task preempted",
            (1, false) => "preemption point beyond the task",
            (2, _) => "all regions reordered",
            _ => "two regions reordered",
        });
        ch.sample(|| serde_json::json!({"statement": s.name, "regions": regions, "schedule": said}));
    });
}

fn main() {
    harness::main("C19", Level::ModelChecking, |ctx| {
        ctx.rule("state = (statement, schedule); transition = one parallel task run; every schedule is executed on the real prover and its bytes compared with those of the sequential build");
        let path = format!("{}/work/c19-{}.json", ctx.root(), ctx.tier);
        let book: Book = Default::default();
        let thorough = ctx.thorough();
        let (size, few_size) = if thorough { (1, 0) } else { (0, 0) };
        if cfg!(feature = "parallel") {
            #[cfg(feature = "parallel")]
            let _ = lambdaworks_math::YIELD.set(sched::yield_point);
            ctx.assume("rayon is replaced by a deterministic scheduler; tasks switch only at field operations and task boundaries, and one task is preempted per run");
            match std::fs::read_to_string(&path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
                Some(b) => *book.lock().unwrap() = b,
                None => return ctx.error("no record from the sequential build".into()),
            }
            let bases = Default::default();
            let at: Vec<usize> = if thorough { (0..40).chain([60, 100, 200, 400]).collect() } else { vec![0, 1, 2, 3, 5, 8, 13, 30, 80] };
            let d = Depth { all: if thorough { 5 } else { 4 }, at: at.clone(), pairs: true, few: false };
            parallel(ctx, &book, &bases, "goldilocks", &d, |ch| family::<G>(ch, size, false));
            let few = Depth { all: 3, at: if thorough { at } else { vec![0, 1, 5, 30] }, pairs: false, few: true };
            parallel(ctx, &book, &bases, "stark252", &few, |ch| family::<S>(ch, few_size, false));
            parallel(ctx, &book, &bases, "cairo", &few, program);
            parallel(ctx, &book, &bases, "large", &few, large);
            if thorough {
                parallel(ctx, &book, &bases, "larger", &few, |ch| family::<G>(ch, 1, true));
            }
        } else {
            ctx.assume("proofs are compared by length and a 128-bit digest");
            sequential(ctx, &book, "goldilocks", |ch| family::<G>(ch, size, false));
            sequential(ctx, &book, "stark252", |ch| family::<S>(ch, few_size, false));
            sequential(ctx, &book, "cairo", program);
            sequential(ctx, &book, "large", large);
            if thorough {
                sequential(ctx, &book, "larger", |ch| family::<G>(ch, 1, true));
            }
            let text = serde_json::to_string(&*book.lock().unwrap()).unwrap();
            let _ = std::fs::create_dir_all(format!("{}/work", ctx.root()));
            if let Err(e) = std::fs::write(&path, text) {
                ctx.error(format!("{path}: {e}"));
            }
        }
    });
}
