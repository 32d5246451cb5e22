//! C16: Cairo proofs verify end to end and bind every public claim.
#[path = "../../kit/cairo.rs"]
mod cairo;
use cairo::*;
use harness::{guard, Ch, Level};
use lambdaworks_crypto::fiat_shamir::default_transcript::DefaultTranscript;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField as S;
use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::cairo::air::*;
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::cairo::runner::run::{generate_prover_args, CairoVersion};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::proof::stark::StarkProof;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use std::ops::Range;

type Proof = StarkProof<S>;

struct Proved {
    p: PublicInputs,
    proof: Proof,
    o: ProofOptions,
    /// memory of the run, to know which claims are true
    mem: Vec<(FE, FE)>,
}

/// Proves and verifies, also after a round trip through bytes.
fn prove_run(ch: &Ch, main: TraceTable<S>, p: PublicInputs, mem: Vec<(FE, FE)>, o: ProofOptions, what: &dyn Fn() -> String) -> Option<Proved> {
    let proof = match guard(|| generate_cairo_proof(&main, &p, &o)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => {
            ch.fail("not-proved", format!("{}: {e:?}", what()));
            return None;
        }
        Err(e) => {
            ch.fail("prover-panics", format!("{}: {e}", what()));
            return None;
        }
    };
    ch.validated(1);
    match guard(|| verify_cairo_proof(&proof, &p, &o)) {
        Ok(true) => {}
        Ok(false) => {
            ch.fail("honest-refused", what());
            return None;
        }
        Err(e) => {
            ch.fail("verifier-panics", format!("{}, honest proof: {e}", what()));
            return None;
        }
    }
    // what a proof file holds
    let bytes = guard(|| (proof.serialize(), p.serialize()));
    let back = bytes.map(|(a, b)| guard(move || (Proof::deserialize(&a), PublicInputs::deserialize(&b))));
    match back {
        Ok(Ok((Ok(proof2), Ok(p2)))) => {
            let ok = guard(|| verify_cairo_proof(&proof2, &p2, &o)).unwrap_or(false);
            ch.check(ok, "honest-refused-after-serialization", what);
            let ok = guard(|| verify_cairo_proof(&proof2, &p, &o)).unwrap_or(false) && guard(|| verify_cairo_proof(&proof, &p2, &o)).unwrap_or(false);
            ch.check(ok, "honest-refused-after-serialization", what);
        }
        _ => ch.fail("not-serializable", what()),
    }
    Some(Proved { p, proof, o, mem })
}

fn refused(ch: &Ch, b: &Proved, key: &str, q: &PublicInputs, what: &dyn Fn() -> String) {
    ch.ops(1);
    match guard(|| verify_cairo_proof(&b.proof, q, &b.o)) {
        Ok(false) => {}
        Ok(true) => ch.fail(&*format!("accepted-{key}"), format!("{}: the proof is also accepted for {}", what(), show(q, &b.p))),
        Err(e) => ch.fail(&*format!("panic-{key}"), format!("{}: the verifier panics for {}: {e}", what(), show(q, &b.p))),
    }
}

/// The claims in which the inputs differ.
fn show(q: &PublicInputs, p: &PublicInputs) -> String {
    let mut s = vec![];
    let d = |x: &FE| format!("{:?}", x.representative());
    for (n, a, b) in [("pc_init", q.pc_init, p.pc_init), ("ap_init", q.ap_init, p.ap_init), ("fp_init", q.fp_init, p.fp_init), ("pc_final", q.pc_final, p.pc_final), ("ap_final", q.ap_final, p.ap_final)] {
        if a != b {
            s.push(format!("{n} {} for {}", d(&a), d(&b)));
        }
    }
    for (n, a, b) in [("range_check_min", q.range_check_min, p.range_check_min), ("range_check_max", q.range_check_max, p.range_check_max)] {
        if a != b {
            s.push(format!("{n} {a:?} for {b:?}"));
        }
    }
    if q.num_steps != p.num_steps {
        s.push(format!("num_steps {} for {}", q.num_steps, p.num_steps));
    }
    for (a, v) in &q.public_memory {
        match p.public_memory.get(a) {
            None => s.push(format!("new cell {} = {}", d(a), d(v))),
            Some(w) if w != v => s.push(format!("cell {} = {} for {}", d(a), d(v), d(w))),
            _ => {}
        }
    }
    for a in p.public_memory.keys() {
        if !q.public_memory.contains_key(a) {
            s.push(format!("no cell {}", d(a)));
        }
    }
    if q.memory_segments != p.memory_segments {
        s.push(format!("segments {:?} for {:?}", q.memory_segments, p.memory_segments));
    }
    s.join(", ")
}

/// Every change of a single claim, over the value menus.
fn single(b: &Proved, deep: bool) -> Vec<(&'static str, PublicInputs)> {
    let p = &b.p;
    let mut all: Vec<(&'static str, PublicInputs)> = vec![];
    let one = FE::one();
    let regs = [p.pc_init, p.ap_init, p.fp_init, p.pc_final, p.ap_final];
    let names = ["pc_init", "ap_init", "fp_init", "pc_final", "ap_final"];
    for k in 0..5 {
        let v = regs[k];
        let mut vs = vec![v + one, v - one, FE::zero(), -v, v + v, v + FE::from(1u64 << 16), v + FE::from(1u64 << 32) * FE::from(1u64 << 32), v + FE::from(2u64).pow(128u64)];
        vs.extend(regs);
        vs.extend((1..=if deep { 40 } else { 6 }).map(FE::from));
        for w in vs {
            if w == v {
                continue;
            }
            let mut q = p.clone();
            *[&mut q.pc_init, &mut q.ap_init, &mut q.fp_init, &mut q.pc_final, &mut q.ap_final][k] = w;
            all.push((names[k], q));
        }
    }
    // step counts: every row, and counts that are the same row modulo the length of the trace
    let (n, k) = (b.proof.trace_length, p.num_steps);
    let mut counts: Vec<usize> = (0..=(n + 2).min(if deep { 300 } else { 40 })).collect();
    counts.extend([n - 1, n, n + 1, n + k, 2 * n + k, k + (1 << 16), k.wrapping_add(1 << 32), k.wrapping_add(1 << 63), usize::MAX, usize::MAX - n + 1 + k, k.wrapping_sub(n)]);
    for c in counts {
        if c != k {
            let mut q = p.clone();
            q.num_steps = c;
            all.push(("num_steps", q));
        }
    }
    for which in 0..2 {
        let v = [p.range_check_min, p.range_check_max][which];
        let x = v.unwrap_or(0);
        let mut vs = vec![None, Some(0), Some(1), Some(u16::MAX), Some(x.wrapping_add(1)), Some(x.wrapping_sub(1)), Some(x ^ 0x8000), Some(x.swap_bytes()), p.range_check_min, p.range_check_max, Some(0x7fff), Some(0x8000)];
        if deep {
            vs.extend((0..16).map(|s| Some(x ^ (1 << s))));
        }
        vs.retain(|w| *w != v);
        for w in vs {
            let mut q = p.clone();
            if which == 0 {
                q.range_check_min = w;
            } else {
                q.range_check_max = w;
            }
            all.push((["range_check_min", "range_check_max"][which], q));
        }
    }
    let mut cells: Vec<(FE, FE)> = p.public_memory.iter().map(|(a, v)| (*a, *v)).collect();
    cells.sort_by(|x, y| x.0.representative().cmp(&y.0.representative()));
    let past = cells.iter().filter_map(|(a, _)| small(a)).max().unwrap_or(0);
    for (i, (a, v)) in cells.iter().enumerate() {
        let mut vs = vec![*v + one, *v - one, FE::zero(), one, -*v, *v + *v, *a];
        vs.extend(cells.iter().map(|c| c.1));
        for w in vs {
            if w != *v {
                let mut q = p.clone();
                q.public_memory.insert(*a, w);
                all.push(("memory-value", q));
            }
        }
        let mut to: Vec<FE> = vec![FE::zero(), -one, FE::from(past + 1), FE::from(past + 2), *a + FE::from(1u64 << 32) * FE::from(1u64 << 32), -*a];
        to.extend(b.mem.iter().map(|c| c.0).take(if deep { 64 } else { 12 }));
        for t in to {
            if !p.public_memory.contains_key(&t) {
                let mut q = p.clone();
                q.public_memory.remove(a);
                q.public_memory.insert(t, *v);
                all.push(("memory-address", q));
            }
        }
        let mut q = p.clone();
        q.public_memory.remove(a);
        all.push(("memory-removed", q));
        for (c, w) in cells.iter().skip(i + 1) {
            let mut q = p.clone();
            q.public_memory.remove(c);
            if i + 1 < cells.len() {
                all.push(("memory-removed", q.clone()));
            }
            if w != v {
                q.public_memory.insert(*a, *w);
                q.public_memory.insert(*c, *v);
                all.push(("memory-swapped", q));
            }
        }
    }
    let mut extra: Vec<(FE, FE)> = vec![(-one, FE::zero()), (FE::from(past + 1000), one)];
    for v in [FE::zero(), one, -one] {
        extra.push((FE::zero(), v));
        extra.push((FE::from(past + 1), v));
    }
    extra.extend(b.mem.iter().copied());
    extra.extend(b.mem.iter().map(|(a, v)| (*a, *v + one)));
    for (a, v) in extra {
        if !p.public_memory.contains_key(&a) {
            let mut q = p.clone();
            q.public_memory.insert(a, v);
            all.push((if a == FE::zero() { "memory-cell-zero" } else { "memory-added" }, q));
        }
    }
    let mut q = p.clone();
    q.public_memory.clear();
    all.push(("memory-removed", q));
    // whether the range-check builtin is in use
    let mut q = p.clone();
    if q.memory_segments.remove(&MemorySegment::RangeCheck).is_none() {
        q.memory_segments.insert(MemorySegment::RangeCheck, 1..2);
    }
    all.push(("range-check-segment", q));
    all
}

/// Two or more changed claims at once.
fn double(b: &Proved) -> Vec<(&'static str, PublicInputs)> {
    let p = &b.p;
    let mut all = vec![];
    let mut change: Vec<Box<dyn Fn(&mut PublicInputs)>> = vec![
        Box::new(|q| q.pc_init = q.pc_init + FE::one()),
        Box::new(|q| q.ap_init = q.ap_init + FE::one()),
        Box::new(|q| q.ap_init = q.ap_init - FE::one()),
        Box::new(|q| q.fp_init = q.fp_init + FE::one()),
        Box::new(|q| q.fp_init = q.fp_init - FE::one()),
        Box::new(|q| q.pc_final = q.pc_final + FE::one()),
        Box::new(|q| q.ap_final = q.ap_final + FE::one()),
        Box::new(|q| q.ap_final = q.ap_final - FE::one()),
        Box::new(|q| q.num_steps += 1),
        Box::new(|q| q.num_steps = q.num_steps.wrapping_sub(1)),
        Box::new(|q| q.num_steps = 0),
        Box::new(|q| q.range_check_min = q.range_check_min.map(|x| x.wrapping_sub(1))),
        Box::new(|q| q.range_check_max = q.range_check_max.map(|x| x.wrapping_add(1))),
        Box::new(|q| q.range_check_min = None),
        Box::new(|q| q.range_check_max = None),
        Box::new(|q| std::mem::swap(&mut q.range_check_min, &mut q.range_check_max)),
        Box::new(|q| std::mem::swap(&mut q.ap_init, &mut q.ap_final)),
        Box::new(|q| std::mem::swap(&mut q.pc_init, &mut q.pc_final)),
        Box::new(|q| {
            if q.memory_segments.remove(&MemorySegment::RangeCheck).is_none() {
                q.memory_segments.insert(MemorySegment::RangeCheck, 1..2);
            }
        }),
    ];
    let keys: Vec<FE> = {
        let mut k: Vec<FE> = p.public_memory.keys().copied().collect();
        k.sort_by(|x, y| x.representative().cmp(&y.representative()));
        k
    };
    for a in keys.iter().take(3).chain(keys.last()).copied() {
        change.push(Box::new(move |q| {
            q.public_memory.remove(&a);
        }));
        for d in [1i64, -1] {
            change.push(Box::new(move |q| {
                if let Some(v) = q.public_memory.get(&a).copied() {
                    q.public_memory.insert(a, v + fe(d));
                }
            }));
        }
    }
    for i in 0..change.len() {
        for j in i + 1..change.len() {
            let mut q = p.clone();
            change[i](&mut q);
            change[j](&mut q);
            let same = show(&q, p).is_empty();
            if !same {
                all.push(("two-claims", q));
            }
        }
    }
    all
}

fn sweep(ch: &Ch, b: &Proved, deep: bool, what: &dyn Fn() -> String) {
    for (key, q) in single(b, deep) {
        refused(ch, b, key, &q, what);
    }
    if deep {
        for (key, q) in double(b) {
            refused(ch, b, key, &q, what);
        }
    }
}

fn memory_of(run: &Run) -> Vec<(FE, FE)> {
    run.mem.iter().map(|(a, v)| (FE::from(*a), *v)).collect()
}

fn from_run(ch: &Ch, run: &Run, rc: Option<Range<u64>>, out: Option<Range<u64>>, o: ProofOptions, what: &dyn Fn() -> String) -> Option<Proved> {
    let made = guard(|| {
        let mut p = run.public(rc, out);
        let main = build_main_trace(&run.registers(), &run.memory(), &mut p);
        (main, p)
    });
    match made {
        Ok((main, p)) => prove_run(ch, main, p, memory_of(run), o, what),
        Err(e) => {
            ch.fail("no-trace", format!("{}: {e}", what()));
            None
        }
    }
}

fn main() {
    harness::main("C16", Level::ModelChecking, |ctx| {
        ctx.rule("every bounded program run by the independent machine (or by the virtual machine stand-in through the runner), proved, verified, verified again after serialization, and verified against every change of one public claim over a value menu (and every pair of changes of a shorter menu); non-trivial: distinct program/segments/options");
        ctx.assume("public inputs chosen after the coins are known are recorded findings: the transcript does not absorb the public inputs");
        let depth = ctx.tier(2, 3);
        ctx.explore("programs", |ch| {
            let n = ch.range(0, depth);
            let ts: Vec<usize> = (0..n).map(|_| ch.pick(TEMPLATES)).collect();
            let rc = ch.flag();
            let Some(run) = run_of(&ts, ctx.tier(12, 20)) else {
                ch.outcome("program not executable");
                return;
            };
            let at = run.code_len + 1;
            let what = || format!("program {ts:?}, range check {rc}");
            let Some(b) = from_run(ch, &run, rc.then_some(at..at + 1), None, opts(2, 3), &what) else {
                return;
            };
            ch.state(&(&ts, rc));
            ch.outcome("program proved");
            sweep(ch, &b, n <= 1, &what);
        });
        // completeness further out: every pair of instructions, all step counts, all options
        ctx.explore("completeness", |ch| {
            let n = ctx.tier(3, 4);
            let ts: Vec<usize> = (0..n).map(|_| ch.pick(TEMPLATES)).collect();
            let Some(run) = run_of(&ts, 24) else {
                ch.outcome("program not executable");
                return;
            };
            ch.state(&ts);
            ch.outcome("program proved");
            from_run(ch, &run, None, None, opts(2, 1), &|| format!("program {ts:?}"));
        });
        ctx.explore("step counts and options", |ch| {
            let steps = ch.range(1, ctx.tier(18, 70));
            let blowup = ch.of(&[2u8, 4, 8]);
            let queries = ch.of(&[1usize, 2, 5]);
            let offset = ch.of(&[3u64, 5]);
            let grinding = ch.of(&[0u8, 3]);
            let run = run_of(&vec![0; steps - 1], steps).unwrap();
            let o = ProofOptions { blowup_factor: blowup, fri_number_of_queries: queries, coset_offset: offset, grinding_factor: grinding };
            ch.state(&ch.choices());
            let what = || format!("{steps} steps, blow-up {blowup}, {queries} queries, offset {offset}, grinding {grinding}");
            if let Some(b) = from_run(ch, &run, None, None, o, &what) {
                if queries == 1 {
                    let mut q = b.p.clone();
                    q.ap_final = q.ap_final + FE::one();
                    refused(ch, &b, "ap_final", &q, &what);
                    let mut q = b.p.clone();
                    q.num_steps += b.proof.trace_length;
                    refused(ch, &b, "num_steps", &q, &what);
                }
            }
        });
        // through the runner: builtins, segments and outputs
        ctx.explore("compiled programs", |ch| {
            let vals = |ch: &mut Ch, menu: &[FE], most: usize| -> Option<Vec<FE>> {
                let n = ch.range(0, most + 1);
                (n > 0).then(|| (0..n - 1).map(|_| ch.of(menu)).collect())
            };
            let big = FE::from(2u64).pow(128u64) - FE::one();
            let out = vals(ch, &[fe(0), fe(7), fe(-1)], ctx.tier(2, 3));
            let rc = vals(ch, &[fe(0), fe(0x12345), big], ctx.tier(2, 3));
            let pad = ch.of(&[0, 1, 5, 20]);
            let (code, names) = builtin_main(out.as_deref(), rc.as_deref(), pad);
            let what = || format!("compiled program with output {out:?}, range checks {rc:?}, {pad} pushes");
            let program = json(&code, &names, &[("main", 0)]);
            // the frame: builtin pointers, return values, pushes
            let frame = names.len() + 2 + pad + out.as_ref().map_or(0, |o| o.len()) + rc.as_ref().map_or(0, |o| o.len()) + names.len();
            let start = (1 + code.len() + frame) as u64;
            let range = out.as_ref().filter(|_| ch.flag()).map(|o| start..start + o.len() as u64);
            let (main, p) = match guard(|| generate_prover_args(&program, &CairoVersion::V0, &range)) {
                Ok(Ok(x)) => x,
                Ok(Err(e)) => return ch.fail("program-refused", format!("{}: {e:?}", what())),
                Err(e) => return ch.fail("runner-panics", format!("{}: {e}", what())),
            };
            if let (Some(o), Some(r)) = (&out, &range) {
                for (v, a) in o.iter().zip(r.clone()) {
                    ch.check(p.public_memory.get(&FE::from(a)) == Some(v), "output-not-public", || format!("{}: output cell {a} should be {v:?}", what()));
                }
            }
            ch.state(&ch.choices());
            ch.outcome("compiled program proved");
            let mem = vec![];
            let Some(b) = prove_run(ch, main, p, mem, opts(2, 2), &what) else {
                return;
            };
            let small_case = out.as_ref().map_or(0, |o| o.len()) + rc.as_ref().map_or(0, |o| o.len()) <= 1;
            if small_case && pad <= 1 || ctx.thorough() {
                sweep(ch, &b, false, &what);
            }
        });
        let many: Vec<usize> = ctx.tier(vec![65, 257], vec![16, 17, 33, 64, 65, 128, 129, 255, 256, 257, 300, 1000]);
        ctx.explore("large programs", |ch| {
            let kind = ch.pick(5);
            let n = ch.of(&many);
            let value = |k: usize| fe(3 * k as i64 + 1);
            let (out, rc, pad): (Option<Vec<FE>>, Option<Vec<FE>>, usize) = match kind {
                0 => (Some((0..n).map(value).collect()), None, 0),
                1 => (Some(vec![fe(5)]), Some((0..n).map(value).collect()), 0),
                2 => (None, Some(vec![fe(9)]), n),
                _ => (Some(vec![]), None, 0),
            };
            let what = || format!("large program of kind {kind}, size {n}");
            let made = if kind < 3 {
                let (code, names) = builtin_main(out.as_deref(), rc.as_deref(), pad);
                let program = json(&code, &names, &[("main", 0)]);
                let len = |v: &Option<Vec<FE>>| v.as_ref().map_or(0, |o| o.len());
                let start = (1 + code.len() + 2 * names.len() + 2 + pad + len(&out) + len(&rc)) as u64;
                let range = out.as_ref().map(|o| start..start + o.len() as u64);
                let r = guard(|| generate_prover_args(&program, &CairoVersion::V0, &range));
                if let (Ok(Ok((_, p))), Some(o), Some(r)) = (&r, &out, &range) {
                    let bad = o.iter().zip(r.clone()).find(|(v, a)| p.public_memory.get(&FE::from(*a)) != Some(v));
                    ch.check(bad.is_none(), "output-not-public", || format!("{}: output {bad:?}", what()));
                }
                match r {
                    Ok(Ok(x)) => x,
                    Ok(Err(e)) => return ch.fail("program-refused", format!("{}: {e:?}", what())),
                    Err(e) => return ch.fail("runner-panics", format!("{}: {e}", what())),
                }
            } else {
                // a loop: many steps, little code; an instruction far from its data: many holes in memory and offsets
                let run = if kind == 3 {
                    run_of(&[0, 22], n).unwrap()
                } else {
                    let far = ins(('a', n as i32), ('f', -1), ('i', 1), Res::Op1, Pc::Next, Ap::Same, Opc::Assert);
                    let mut code = vec![FE::from(far.word()), FE::from(7)];
                    code.extend(assemble(&[]));
                    call_main(&code, &[], 12).unwrap()
                };
                let r = guard(|| {
                    let mut p = run.public(None, None);
                    let main = build_main_trace(&run.registers(), &run.memory(), &mut p);
                    (main, p)
                });
                match r {
                    Ok(x) => x,
                    Err(e) => return ch.fail("no-trace", format!("{}: {e}", what())),
                }
            };
            let Some(b) = prove_run(ch, made.0, made.1, vec![], opts(2, 2), &what) else { return };
            ch.state(&(kind, n));
            ch.outcome("large program proved");
            let mut cells: Vec<(FE, FE)> = b.p.public_memory.iter().map(|(a, v)| (*a, *v)).collect();
            cells.sort_by(|x, y| x.0.representative().cmp(&y.0.representative()));
            let marks = [0, 1, 2, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024];
            for (i, (a, v)) in cells.iter().enumerate() {
                if !(marks.contains(&i) || i + 2 >= cells.len()) {
                    continue;
                }
                let mut q = b.p.clone();
                q.public_memory.insert(*a, *v + FE::one());
                refused(ch, &b, "memory-value", &q, &what);
                let mut q = b.p.clone();
                q.public_memory.remove(a);
                refused(ch, &b, "memory-removed", &q, &what);
                let mut q = b.p.clone();
                q.public_memory.remove(a);
                q.public_memory.insert(-*a, *v);
                refused(ch, &b, "memory-address", &q, &what);
            }
            for k in 0..8 {
                let mut q = b.p.clone();
                match k {
                    0 => q.pc_init = q.pc_init + FE::one(),
                    1 => q.ap_init = q.ap_init + FE::one(),
                    2 => q.fp_init = q.fp_init + FE::one(),
                    3 => q.pc_final = q.pc_final + FE::one(),
                    4 => q.ap_final = q.ap_final + FE::one(),
                    5 => q.num_steps += 1,
                    6 => q.num_steps -= 1,
                    _ => q.num_steps += b.proof.trace_length,
                }
                refused(ch, &b, ["pc_init", "ap_init", "fp_init", "pc_final", "ap_final", "num_steps", "num_steps", "num_steps"][k], &q, &what);
            }
        });
        // the claims are not in the transcript, so they can be solved for after the coins are known
        ctx.explore("claims chosen after the coins", |ch| {
            let ts = [vec![], vec![0], vec![2]][ch.pick(3)].clone();
            let kind = ch.pick(3);
            ch.state(&ch.choices());
            let run = run_of(&ts, 12).unwrap();
            let what = || format!("program {ts:?}");
            let Some(b) = from_run(ch, &run, None, None, opts(2, 3), &what) else {
                return;
            };
            let mut t = DefaultTranscript::new();
            t.append(&b.proof.lde_trace_merkle_roots[0]);
            let air = CairoAIR::new(b.proof.trace_length, &b.p, &b.o);
            let c = air.build_rap_challenges(&mut t);
            let mut q = b.p.clone();
            let (a1, a2) = (FE::one(), FE::from(2u64));
            match kind {
                0 => {
                    // a cell whose factor is zero
                    q.public_memory.insert(a1, (c.z_memory - a1) * c.alpha_memory.inv());
                    refused(ch, &b, "public-memory-hits-z", &q, &what);
                }
                1 => {
                    // a cell whose factor is that of the dummy accesses
                    q.public_memory.insert(-c.alpha_memory, FE::one());
                    refused(ch, &b, "public-memory-added-after-coins", &q, &what);
                }
                _ => {
                    // two cells whose factors have the right product
                    let key = |a: FE, v: FE| c.z_memory - (a + c.alpha_memory * v);
                    let (Some(v1), Some(v2)) = (q.public_memory.get(&a1).copied(), q.public_memory.get(&a2).copied()) else {
                        return;
                    };
                    let w1 = v1 + FE::one();
                    let need = key(a1, v1) * key(a2, v2) * key(a1, w1).inv();
                    let w2 = (c.z_memory - need - a2) * c.alpha_memory.inv();
                    q.public_memory.insert(a1, w1);
                    q.public_memory.insert(a2, w2);
                    refused(ch, &b, "public-memory-changed-after-coins", &q, &what);
                }
            }
        });
    });
}
