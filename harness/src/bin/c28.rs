//! C28: running a program reports its true execution and never a silent failure.
#[path = "../../kit/cairo.rs"]
mod cairo;
use cairo::*;
use cairo_vm::hooks::{Fault, RunRecord, FAULT, LAST_LAYOUT, LAST_RUN, MAX_STEPS};
use harness::{guard, Ch, Level};
use lambdaworks_stark::cairo::air::{MemorySegment, MemorySegmentMap, PublicInputs};
use lambdaworks_stark::cairo::cairo_layout::CairoLayout;
use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::cairo::register_states::RegisterStates;
use lambdaworks_stark::cairo::runner::run::{generate_prover_args, run_program, CairoVersion};
use serde_json::{json as js, Value};
use std::collections::BTreeMap;
use std::ops::Range;

/// The layouts and the names the virtual machine knows them by.
const LAYOUTS: [(CairoLayout, &str); 10] = [
    (CairoLayout::Plain, "plain"),
    (CairoLayout::Small, "small"),
    (CairoLayout::Dex, "dex"),
    (CairoLayout::Recursive, "recursive"),
    (CairoLayout::Starknet, "starknet"),
    (CairoLayout::StarknetWithKeccak, "starknet_with_keccak"),
    (CairoLayout::RecursiveLargeOutput, "recursive_large_output"),
    (CairoLayout::AllCairo, "all_cairo"),
    (CairoLayout::AllSolidity, "all_solidity"),
    (CairoLayout::Dynamic, "dynamic"),
];
/// Builtins in the order in which a program receives their pointers.
const BUILTINS: [&str; 8] = ["output", "pedersen", "range_check", "ecdsa", "bitwise", "ec_op", "keccak", "poseidon"];
fn offered(layout: &str) -> &'static [&'static str] {
    match layout {
        "plain" => &[],
        "small" | "dex" => &["output", "pedersen", "range_check", "ecdsa"],
        "recursive" | "recursive_large_output" => &["output", "pedersen", "range_check", "bitwise"],
        "starknet" => &["output", "pedersen", "range_check", "ecdsa", "bitwise", "ec_op", "poseidon"],
        "all_solidity" | "dynamic" => &["output", "pedersen", "range_check", "ecdsa", "bitwise", "ec_op"],
        _ => &BUILTINS,
    }
}

/// What a finished run looks like, worked out without the code under test.
struct Wanted {
    run: Run,
    len: usize,
    rc: Option<Range<u64>>,
}
/// A value of the initial memory: a number, or the start of a segment.
#[derive(Clone, Copy)]
enum Val {
    Num(FE),
    Seg(usize),
}
/// Executes over segments 0 (program), 1 (frame), others in order; their final places depend on
/// how far each of them is used, so the first pass runs with the segments far apart.
/// `fixed` gives the sizes of segments that are not measured.
fn machine(program: &[Val], code_len: usize, entry: u64, stack: &[Val], segments: usize, data: &[(usize, Vec<FE>)], max: usize) -> Option<(Run, Vec<Range<u64>>)> {
    let gap = 1u64 << 20;
    let pass = |bases: &[u64], end: u64| {
        let v = |x: &Val| match x {
            Val::Num(f) => *f,
            Val::Seg(s) => FE::from(bases[*s]),
        };
        let mut mem = BTreeMap::new();
        for (i, w) in program.iter().enumerate() {
            mem.insert(bases[0] + i as u64, v(w));
        }
        for (i, w) in stack.iter().enumerate() {
            mem.insert(bases[1] + i as u64, v(w));
        }
        for (s, d) in data {
            for (i, w) in d.iter().enumerate() {
                mem.insert(bases[*s] + i as u64, *w);
            }
        }
        // the caller's frame pointer and the return address, both behind everything
        let top = bases[1] + stack.len() as u64;
        mem.insert(top, FE::from(end));
        mem.insert(top + 1, FE::from(end));
        let run = execute(mem, code_len as u64, (bases[0] + entry, top + 2, top + 2), end, max)?;
        // must have returned
        (run.steps.last()?.next_pc == Some(end)).then_some(run)
    };
    let far: Vec<u64> = (0..segments as u64).map(|s| 1 + s * gap).collect();
    let first = pass(&far, 1 + (segments as u64 + 1) * gap)?;
    let mut bases = vec![];
    let mut at = 1;
    for s in 0..segments {
        bases.push(at);
        let used = first.mem.range(far[s]..far[s] + gap).next_back().map(|(a, _)| a + 1 - far[s]).unwrap_or(0);
        at += used;
    }
    let run = pass(&bases, at)?;
    if run.mem.keys().next_back()? >= &at {
        return None;
    }
    bases.push(at);
    Some((run, bases.windows(2).map(|w| w[0]..w[1]).collect()))
}
/// A Cairo 0 program from an entry point, with the pointers of its builtins.
fn cairo0(code: &[FE], entry: u64, names: &[&str], max: usize) -> Option<Wanted> {
    let mut order: Vec<&str> = names.to_vec();
    order.sort_by_key(|n| BUILTINS.iter().position(|b| b == n));
    let program: Vec<Val> = code.iter().map(|w| Val::Num(*w)).collect();
    let stack: Vec<Val> = (0..order.len()).map(|k| Val::Seg(2 + k)).collect();
    let (run, segs) = machine(&program, code.len(), entry, &stack, 2 + order.len(), &[], max)?;
    let rc = order.iter().position(|n| *n == "range_check").map(|k| segs[2 + k].clone());
    Some(Wanted { run, len: code.len(), rc })
}
/// A Cairo 1 contract: range check, system calls, builtin costs and (empty) call data.
fn cairo1(code: &[FE], max: usize) -> Option<Wanted> {
    let mut program: Vec<Val> = code.iter().map(|w| Val::Num(*w)).collect();
    program.push(Val::Num(FE::from(0x208B7FFF7FFF7FFEu64)));
    program.push(Val::Seg(4));
    let stack = [Val::Seg(2), Val::Num(FE::from(u64::MAX)), Val::Seg(3), Val::Seg(5), Val::Seg(5)];
    let (run, segs) = machine(&program, code.len(), 0, &stack, 6, &[(4, vec![fe(0); 5])], max)?;
    Some(Wanted { run, len: code.len(), rc: Some(segs[2].clone()) })
}

type Reported = (RegisterStates, CairoMemory, usize, Option<Range<u64>>);
/// One call of the runner, with its outcome as a value.
fn call(entry: Option<&str>, layout: CairoLayout, content: &[u8], version: &CairoVersion, fault: Option<Fault>) -> Result<Result<Reported, String>, String> {
    LAST_RUN.with(|l| *l.borrow_mut() = None);
    LAST_LAYOUT.with(|l| *l.borrow_mut() = None);
    FAULT.with(|f| *f.borrow_mut() = fault);
    MAX_STEPS.with(|m| *m.borrow_mut() = 4000);
    let r = guard(|| run_program(entry, layout, content, version).map_err(|e| format!("{e:?}")));
    FAULT.with(|f| *f.borrow_mut() = None);
    r
}
fn asked() -> Option<RunRecord> {
    LAST_RUN.with(|l| l.borrow().clone())
}
/// Compares a reported run with the one that took place.
fn compare(ch: &Ch, got: &Reported, want: &Wanted, what: &dyn Fn() -> String) {
    let rows: Vec<(u64, u64, u64)> = got.0.rows.iter().map(|r| (r.pc, r.ap, r.fp)).collect();
    let steps: Vec<(u64, u64, u64)> = want.run.steps.iter().map(|s| (s.pc, s.ap, s.fp)).collect();
    ch.check(rows == steps, "registers", || format!("{}: {} reported steps, {} real ones, first difference at {:?}", what(), rows.len(), steps.len(), rows.iter().zip(&steps).position(|(a, b)| a != b)));
    let mem: BTreeMap<u64, FE> = got.1.data.iter().map(|(a, v)| (*a, *v)).collect();
    if mem != want.run.mem {
        let odd = mem.iter().find(|(a, v)| want.run.mem.get(a) != Some(v)).map(|(a, v)| (*a, v.representative()));
        let miss = want.run.mem.iter().find(|(a, v)| mem.get(a) != Some(v)).map(|(a, v)| (*a, v.representative()));
        ch.fail("memory", format!("{}: reported {odd:?}, real {miss:?} ({} cells against {})", what(), mem.len(), want.run.mem.len()));
    }
    ch.check(got.2 == want.len, "code-length", || format!("{}: {} instead of {}", what(), got.2, want.len));
    ch.check(got.3 == want.rc, "range-check-segment", || format!("{}: {:?} instead of {:?}", what(), got.3, want.rc));
    ch.ops(steps.len() as u64);
    ch.validated(1);
}
/// Checks the public inputs derived from a run.
fn public(ch: &Ch, p: &PublicInputs, want: &Wanted, out: &Option<Range<u64>>, filled: bool, what: &dyn Fn() -> String) {
    let (first, last) = (&want.run.steps[0], want.run.steps.last().unwrap());
    let u = |x: u64| FE::from(x);
    let ok = (p.pc_init, p.ap_init, p.fp_init, p.pc_final, p.ap_final) == (u(first.pc), u(first.ap), u(first.fp), u(last.pc), u(last.ap));
    ch.check(ok, "public-registers", || format!("{}: {:?}", what(), [&p.pc_init, &p.ap_init, &p.fp_init, &p.pc_final, &p.ap_final].map(|x| x.representative())));
    ch.check(p.num_steps == want.run.steps.len(), "public-steps", || format!("{}: {}", what(), p.num_steps));
    let mut cells: BTreeMap<u64, FE> = BTreeMap::new();
    for a in (1..=want.len as u64).chain(out.clone().unwrap_or(0..0)) {
        cells.insert(a, want.run.mem[&a]);
    }
    let got: BTreeMap<u64, FE> = p.public_memory.iter().filter_map(|(a, v)| Some((small(a)?, *v))).collect();
    ch.check(got == cells && p.public_memory.len() == cells.len(), "public-memory", || format!("{}: cells {:?}, expected {:?}", what(), got.keys().collect::<Vec<_>>(), cells.keys().collect::<Vec<_>>()));
    let mut segs = MemorySegmentMap::new();
    if let Some(r) = &want.rc {
        segs.insert(MemorySegment::RangeCheck, r.clone());
    }
    if let Some(r) = out {
        segs.insert(MemorySegment::Output, r.clone());
    }
    ch.check(p.memory_segments == segs, "public-segments", || format!("{}: {:?} instead of {segs:?}", what(), p.memory_segments));
    if filled {
        let offs = want.run.steps.iter().flat_map(|s| s.ins.off).map(|o| (o + 0x8000) as u16);
        let (lo, hi) = (offs.clone().min(), offs.max());
        ch.check(p.range_check_min == lo && p.range_check_max == hi, "public-range", || format!("{}: {:?}..{:?} instead of {lo:?}..{hi:?}", what(), p.range_check_min, p.range_check_max));
    } else {
        ch.check(p.range_check_min.is_none() && p.range_check_max.is_none(), "public-range", || what());
    }
}
/// A failure must come back as an error.
fn must_fail(ch: &Ch, r: &Result<Result<Reported, String>, String>, key: &str, what: &dyn Fn() -> String) {
    match r {
        Err(p) => ch.fail(&*format!("panic:{key}"), format!("{}: {p}", what())),
        Ok(Ok(r)) => ch.fail(&*format!("silent:{key}"), format!("{}: reported as a run of {} steps", what(), r.0.rows.len())),
        Ok(Err(_)) => ch.outcome("failure reported as an error"),
    }
}
fn must_work(ch: &Ch, r: Result<Result<Reported, String>, String>, what: &dyn Fn() -> String) -> Option<Reported> {
    match r {
        Err(p) => ch.fail("panic", format!("{}: {p}", what())),
        Ok(Err(e)) => ch.fail("refused", format!("{}: {e}", what())),
        Ok(Ok(r)) => {
            ch.outcome("run reported");
            return Some(r);
        }
    }
    None
}

/// Templates that need no arguments.
const FREE: [usize; 8] = [0, 4, 5, 9, 11, 13, 16, 22];
fn free(ts: &[usize]) -> Vec<FE> {
    let mut v = vec![0];
    v.extend(ts);
    assemble(&v)
}
/// `main` with the pointers of the given builtins: range-checks the values and hands all back.
fn pointers(names: &[&str], rc: &[FE], out: &[FE]) -> Vec<FE> {
    let mut order: Vec<&str> = names.to_vec();
    order.sort_by_key(|n| BUILTINS.iter().position(|b| b == n));
    let n = order.len() as i32;
    let mut code = vec![];
    let mut uses = vec![0i32; order.len()];
    for (k, name) in order.iter().enumerate() {
        let vals: &[FE] = match *name {
            "range_check" => rc,
            "output" => out,
            _ => &[],
        };
        for (j, v) in vals.iter().enumerate() {
            code.push(FE::from(ins(('a', 0), ('f', -1), ('i', 1), Res::Op1, Pc::Next, Ap::One, Opc::Assert).word()));
            code.push(*v);
            code.push(FE::from(ins(('a', -1), ('f', k as i32 - 2 - n), ('p', j as i32), Res::Op1, Pc::Next, Ap::Same, Opc::Assert).word()));
        }
        uses[k] = vals.len() as i32;
    }
    for k in 0..order.len() {
        code.push(FE::from(ins(('a', 0), ('f', k as i32 - 2 - n), ('i', 1), Res::Add, Pc::Next, Ap::One, Opc::Assert).word()));
        code.push(fe(uses[k] as i64));
    }
    code.push(FE::from(template(18, 0, 0).0.word()));
    code
}
fn contract(code: &[FE], hints: Value) -> Value {
    let words: Value = serde_json::from_slice::<Value>(&json(code, &[], &[])).unwrap()["data"].clone();
    js!({"prime": "0x800000000000011000000000000000000000000000000000000000000000001", "compiler_version": "1.1.0", "bytecode": words, "hints": hints,
         "entry_points_by_type": {"EXTERNAL": [{"selector": "0x0", "offset": 0, "builtins": ["range_check"]}], "L1_HANDLER": [], "CONSTRUCTOR": []}})
}
/// A contract that range-checks `n` values and pushes `pad` others.
fn contract_code(values: &[FE], pad: usize) -> Vec<FE> {
    let mut code = vec![];
    let push = |code: &mut Vec<FE>, v: FE| {
        code.push(FE::from(ins(('a', 0), ('f', -1), ('i', 1), Res::Op1, Pc::Next, Ap::One, Opc::Assert).word()));
        code.push(v);
    };
    for (j, v) in values.iter().enumerate() {
        push(&mut code, *v);
        // the range-check pointer is the first of five arguments
        code.push(FE::from(ins(('a', -1), ('f', -7), ('p', j as i32), Res::Op1, Pc::Next, Ap::Same, Opc::Assert).word()));
    }
    for k in 0..pad {
        push(&mut code, fe(k as i64 + 2));
    }
    code.push(FE::from(template(18, 0, 0).0.word()));
    code
}
const CASM: &str = "/repo/cairo_programs/cairo1/fibonacci_cairo1.casm";

extern "C" {
    fn dup2(old: i32, new: i32) -> i32;
}

fn main() {
    // the runner prints every error; the explored ones are expected
    if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
        // SAFETY: both descriptors are open
        unsafe { dup2(std::os::fd::AsRawFd::as_raw_fd(&f), 2) };
    }
    harness::main("C28", Level::FaultEnumeration, |ctx| {
        ctx.rule("every layout x builtin set x entry point x program of up to the stated number of instructions, with the run recomputed by an independent machine with its own relocation; every cut and every removed or damaged part of compiled programs and contracts; every failure point of the virtual machine; every output range; non-trivial: distinct program, layout, entry and failure");
        ctx.assume("the virtual machine is a stand-in that follows the interface of cairo-vm 0.6.0");
        let version = |v1: bool| if v1 { CairoVersion::V1 } else { CairoVersion::V0 };

        ctx.explore("layouts, builtins and entries", |ch| {
            let (layout, name) = ch.of(&LAYOUTS.each_ref().map(|l| l));
            let set = ch.pick(1 << BUILTINS.len());
            let names: Vec<&str> = (0..BUILTINS.len()).filter(|b| set >> b & 1 == 1).map(|b| BUILTINS[b]).collect();
            if !ch.ctx.thorough() && names.len() > 3 && names.len() < 7 {
                return;
            }
            let entry = ch.of(&[None, Some("main"), Some("other"), Some("absent"), Some(""), Some("__main__.main")]);
            let rc: Vec<FE> = if names.contains(&"range_check") { (0..ch.pick(3)).map(|k| fe(9 + k as i64)).collect() } else { vec![] };
            let out: Vec<FE> = if names.contains(&"output") { (0..ch.pick(2)).map(|k| fe(-4 - k as i64)).collect() } else { vec![] };
            let code = pointers(&names, &rc, &out);
            // a second entry that leaves the values out
            let skip = 3 * (rc.len() + out.len());
            let other = if rc.is_empty() && out.is_empty() { 0 } else { skip };
            let mut code = code;
            let both = code.len();
            code.extend(pointers(&names, &[], &[]));
            let _ = other;
            let content = json(&code, &names, &[("main", 0), ("other", both)]);
            ch.state(&(name, set, entry, rc.len(), out.len()));
            let what = || format!("layout {name}, builtins {names:?}, entry {entry:?}, {} checked and {} output values", rc.len(), out.len());
            let r = call(entry, layout.clone(), &content, &CairoVersion::V0, None);
            let Some(a) = asked() else {
                ch.fail("not-run", format!("{}: the virtual machine was not asked", what()));
                return;
            };
            ch.check(a.layout == *name, "layout", || format!("{}: asked for layout {}", what(), a.layout));
            ch.check(a.entrypoint == entry.unwrap_or("main"), "entry", || format!("{}: asked for entry {}", what(), a.entrypoint));
            ch.check(a.trace_enabled && a.relocate_mem && !a.proof_mode, "mode", || format!("{}: {a:?}", what()));
            let known = matches!(entry, None | Some("main") | Some("other"));
            if !known || names.iter().any(|n| !offered(name).contains(n)) {
                must_fail(ch, &r, if known { "builtin" } else { "entry" }, &what);
                return;
            }
            let Some(got) = must_work(ch, r, &what) else { return };
            let at = if entry == Some("other") { both as u64 } else { 0 };
            let Some(want) = cairo0(&code, at, &names, 200) else {
                ch.fail("reference", format!("{}: the reference machine does not run it", what()));
                return;
            };
            compare(ch, &got, &want, &what);
        });

        let depth = ctx.tier(3, 5);
        ctx.explore("programs", |ch| {
            let n = ch.range(0, depth);
            let ts: Vec<usize> = (0..n).map(|_| ch.of(&FREE)).collect();
            let code = free(&ts);
            let want = cairo0(&code, 0, &[], 300);
            ch.state(&ts);
            let what = || format!("program {ts:?}");
            let r = call(None, CairoLayout::Plain, &json(&code, &[], &[("main", 0)]), &CairoVersion::V0, None);
            match want {
                Some(want) => {
                    if matches!(&r, Ok(Err(e)) if e.contains("relocatable")) {
                        ch.outcome("arithmetic on addresses refused by the machine");
                        return;
                    }
                    let Some(got) = must_work(ch, r, &what) else { return };
                    compare(ch, &got, &want, &what);
                }
                None => must_fail(ch, &r, "program", &what),
            }
        });

        ctx.explore("prover arguments", |ch| {
            // what the prover is given: trace and public inputs of the run, for every output range
            let kind = ch.pick(4);
            let (content, want, v) = match kind {
                0 => {
                    let ts: Vec<usize> = (0..ch.range(0, 2)).map(|_| ch.of(&FREE)).collect();
                    let code = free(&ts);
                    (json(&code, &[], &[("main", 0)]), cairo0(&code, 0, &[], 100), false)
                }
                1 => {
                    let rc = ch.range(0, 2);
                    let out = ch.range(0, 2);
                    let rc: Vec<FE> = (0..rc).map(|k| fe(70000 + k as i64)).collect();
                    let out: Vec<FE> = (0..out).map(|k| fe(k as i64 - 1)).collect();
                    let code = pointers(&["output", "range_check"], &rc, &out);
                    (json(&code, &["output", "range_check"], &[("main", 0)]), cairo0(&code, 0, &["output", "range_check"], 100), false)
                }
                2 => {
                    // more outputs, checked values and steps than a byte counts
                    let rc: Vec<FE> = (0..ch.of(&[1usize, 65, 257])).map(|k| fe(70000 + k as i64)).collect();
                    let out: Vec<FE> = (0..ch.of(&[1usize, 65, 257])).map(|k| fe(k as i64 - 1)).collect();
                    let code = pointers(&["output", "range_check"], &rc, &out);
                    (json(&code, &["output", "range_check"], &[("main", 0)]), cairo0(&code, 0, &["output", "range_check"], 10000), false)
                }
                _ => {
                    let rc: Vec<FE> = (0..ch.range(0, 2)).map(|k| fe(5 + k as i64)).collect();
                    let code = contract_code(&rc, ch.range(0, 2));
                    (serde_json::to_vec(&contract(&code, js!([]))).unwrap(), cairo1(&code, 100), true)
                }
            };
            let Some(want) = want else {
                ch.outcome("program not executable");
                return;
            };
            // any run of cells that hold values
            let cells: Vec<u64> = want.run.mem.keys().copied().collect();
            let out = match ch.pick(2) {
                0 => None,
                _ => {
                    let (from, n) = if kind == 2 {
                        (ch.of(&[cells[0], cells[cells.len() / 2], cells[cells.len() - 1]]), ch.of(&[0u64, 1, 64, 65, 256, 257, 300]))
                    } else {
                        (ch.of(&cells), ch.range(0, ch.ctx.tier(2, 4)) as u64)
                    };
                    // the last cells, when counted from the end
                    let from = if kind == 2 && from == cells[cells.len() - 1] { (from + 1).saturating_sub(n) } else { from };
                    if !(from..from + n).all(|a| want.run.mem.contains_key(&a)) {
                        return;
                    }
                    Some(from..from + n)
                }
            };
            ch.state(&ch.choices());
            let what = || format!("kind {kind}, {} steps, output range {out:?}", want.run.steps.len());
            LAST_RUN.with(|l| *l.borrow_mut() = None);
            LAST_LAYOUT.with(|l| *l.borrow_mut() = None);
            let (t, p) = match guard(|| generate_prover_args(&content, &version(v), &out)) {
                Ok(Ok(r)) => r,
                Ok(Err(e)) if format!("{e:?}").contains("relocatable") => {
                    ch.outcome("arithmetic on addresses refused by the machine");
                    return;
                }
                Ok(Err(e)) => {
                    ch.fail("refused", format!("{}: {e:?}", what()));
                    return;
                }
                Err(e) => {
                    ch.fail("panic", format!("{}: {e}", what()));
                    return;
                }
            };
            let layout = LAST_LAYOUT.with(|l| l.borrow().clone());
            ch.check(layout.as_deref() == Some(if v { "plain" } else { "small" }), "layout", || format!("{}: {layout:?}", what()));
            public(ch, &p, &want, &out, true, &what);
            // and the derivation on its own, from the reference run
            let mut q = match guard(|| want.run.public(want.rc.clone(), out.clone())) {
                Ok(q) => q,
                Err(e) => {
                    ch.fail("panic", format!("{}: {e}", what()));
                    return;
                }
            };
            public(ch, &q, &want, &out, false, &what);
            let Ok(u) = guard(|| build_main_trace(&want.run.registers(), &want.run.memory(), &mut q)) else { return };
            ch.check(t.table == u.table && t.n_cols == u.n_cols, "trace", || format!("{}: the trace is not that of the run", what()));
            ch.validated(1);
            ch.outcome("prover arguments");
        });

        ctx.explore("failures of the machine", |ch| {
            let v1 = ch.flag();
            let (layout, name) = ch.of(&LAYOUTS.each_ref().map(|l| l));
            let fault = ch.of(&[None, Some(Fault::Run), Some(Fault::Trace), Some(Fault::New), Some(Fault::Init), Some(Fault::Load(0)), Some(Fault::Load(1)), Some(Fault::Load(2)), Some(Fault::Relocate), Some(Fault::Contract)]);
            let by_args = ch.flag();
            let code = contract_code(&[], 2);
            let content = if v1 { serde_json::to_vec(&contract(&code, js!([]))).unwrap() } else { json(&code, &[], &[("main", 0)]) };
            ch.state(&ch.choices());
            let what = || format!("layout {name}, Cairo {}, {fault:?}", v1 as u8);
            if by_args {
                FAULT.with(|f| *f.borrow_mut() = fault.clone());
                let r = guard(|| generate_prover_args(&content, &version(v1), &None).map(|_| ()).map_err(|e| format!("{e:?}")));
                let hit = FAULT.with(|f| f.borrow_mut().take()).is_none() && fault.is_some();
                match r {
                    Err(p) => ch.fail(&*format!("panic:{fault:?}"), format!("{}: {p}", what())),
                    Ok(r) => {
                        ch.check(r.is_err() == hit, &format!("silent:{fault:?}"), || format!("{}: failure reached: {hit}, {r:?}", what()));
                    }
                }
                return;
            }
            LAST_LAYOUT.with(|l| *l.borrow_mut() = None);
            FAULT.with(|f| *f.borrow_mut() = fault.clone());
            MAX_STEPS.with(|m| *m.borrow_mut() = 4000);
            let r = guard(|| run_program(None, layout.clone(), &content, &version(v1)).map_err(|e| format!("{e:?}")));
            let hit = FAULT.with(|f| f.borrow_mut().take()).is_none() && fault.is_some();
            let asked = LAST_LAYOUT.with(|l| l.borrow().clone());
            ch.check(asked.is_none() || asked.as_deref() == Some(*name), "layout", || format!("{}: asked for {asked:?}", what()));
            if hit {
                must_fail(ch, &r, &format!("{fault:?}"), &what);
            } else {
                ch.check(asked.is_some(), "layout", || format!("{}: no layout was asked for", what()));
                let Some(got) = must_work(ch, r, &what) else { return };
                let want = if v1 { cairo1(&code, 50) } else { cairo0(&code, 0, &[], 50) }.unwrap();
                compare(ch, &got, &want, &what);
            }
        });

        ctx.explore("programs that cannot run", |ch| {
            let (layout, name) = ch.of(&LAYOUTS.each_ref().map(|l| l));
            let v1 = ch.flag();
            let push = |v: i64| vec![FE::from(ins(('a', 0), ('f', -1), ('i', 1), Res::Op1, Pc::Next, Ap::One, Opc::Assert).word()), fe(v)];
            let ret = FE::from(template(18, 0, 0).0.word());
            let before = ch.range(0, 2);
            let mut code: Vec<FE> = (0..before).flat_map(|k| push(k as i64)).collect();
            let kind = ch.pick(11);
            match kind {
                // an assertion that does not hold
                0 => code.extend([push(5), vec![FE::from(ins(('a', -1), ('f', -1), ('i', 1), Res::Op1, Pc::Next, Ap::Same, Opc::Assert).word()), fe(6), ret]].concat()),
                // falls off the end of the code
                1 => code.extend(push(5)),
                // words that are no instructions
                2 => code.extend([fe(-1), ret]),
                3 => code.extend([FE::from(1u64 << 63), ret]),
                4 => code.extend([FE::from(0x7u64 << 60 | 0x7fff7fff8000), ret]),
                5 => code.extend([FE::from(3u64 << 53 | 0x7fff7fff8000), ret]),
                // an operand that has no value
                6 => code.extend([FE::from(ins(('a', 3), ('a', 4), ('a', 5), Res::Op1, Pc::Next, Ap::Same, Opc::Assert).word()), ret]),
                // a cell below the frame
                7 => code.extend([FE::from(ins(('a', 0), ('f', -1), ('f', -900), Res::Op1, Pc::Next, Ap::One, Opc::Assert).word()), ret]),
                // endless
                8 => code.extend([FE::from(ins(('f', -1), ('f', -1), ('i', 1), Res::Op1, Pc::Rel, Ap::Same, Opc::Nop).word()), fe(0)]),
                // jumps outside
                9 => code.extend([FE::from(ins(('f', -1), ('f', -1), ('i', 1), Res::Op1, Pc::Rel, Ap::Same, Opc::Nop).word()), fe(500)]),
                // adds two pointers
                _ => code.extend([FE::from(ins(('a', 0), ('f', -1), ('f', -1), Res::Add, Pc::Next, Ap::One, Opc::Assert).word()), ret]),
            }
            let content = if v1 { serde_json::to_vec(&contract(&code, js!([]))).unwrap() } else { json(&code, &[], &[("main", 0)]) };
            ch.state(&ch.choices());
            let r = call(None, layout.clone(), &content, &version(v1), None);
            if v1 && kind == 1 {
                // behind the code of a contract there is a return
                let what = || format!("contract without return, {before} pushes");
                if let (Some(got), Some(want)) = (must_work(ch, r, &what), cairo1(&code, 50)) {
                    compare(ch, &got, &want, &what);
                }
                return;
            }
            must_fail(ch, &r, if v1 { "contract" } else { "program" }, &|| format!("layout {name}, Cairo {}, kind {kind} behind {before} pushes", v1 as u8));
            ch.validated(1);
        });

        let (rc2, rc2_names) = builtin_main(None, Some(&[fe(5)]), 1);
        let compact = json(&rc2, &rc2_names, &[("main", 0)]);
        let small_contract = contract(&contract_code(&[fe(4)], 1), js!([]));
        let casm: Option<Value> = std::fs::read(CASM).ok().and_then(|b| serde_json::from_slice(&b).ok());
        let mut texts: Vec<(bool, Value)> = vec![(false, serde_json::from_slice(&compact).unwrap()), (true, small_contract)];
        texts.extend(casm.clone().map(|c| (true, c)));
        ctx.explore("cut programs", |ch| {
            let (v1, v) = &texts[ch.pick(texts.len())];
            let b = serde_json::to_vec(v).unwrap();
            let n = ch.range(0, b.len());
            let tail = ch.of(&[&b""[..], b"}", b"\0", b"]}", b"\"]}"]);
            if n == b.len() && tail.is_empty() {
                let r = call(None, CairoLayout::Small, &b, &version(*v1), None);
                must_work(ch, r, &|| "the intact file".to_string());
                return;
            }
            let cut = [&b[..n], tail].concat();
            if serde_json::from_slice::<Value>(&cut).is_ok() {
                ch.outcome("still JSON");
                return;
            }
            ch.state(&(v1, n, tail));
            let r = call(None, CairoLayout::Small, &cut, &version(*v1), None);
            must_fail(ch, &r, if *v1 { "contract-file" } else { "program-file" }, &|| format!("first {n} of {} bytes, then {tail:?}", b.len()));
        });
        ctx.explore("damaged parts", |ch| {
            let (v1, v) = &texts[ch.pick(2)];
            let keys: &[&str] = if *v1 { &["bytecode", "hints", "prime", "compiler_version", "entry_points_by_type"] } else { &["data", "builtins", "identifiers"] };
            let key = ch.of(keys);
            let how = ch.pick(8);
            let mut w = v.clone();
            let o = w.as_object_mut().unwrap();
            match how {
                0 => {
                    o.remove(key);
                }
                1 => o[key] = Value::Null,
                2 => o[key] = js!(7),
                3 => o[key] = js!("x"),
                4 => o[key] = js!([7]),
                5 => o[key] = js!(["zz"]),
                6 => o[key] = js!([]),
                _ => o[key] = js!({}),
            }
            // parts nobody needs for running may well be odd
            let strings = ["prime", "compiler_version"];
            let harmless = key == "entry_points_by_type" && how > 0
                || strings.contains(&key) && how == 3
                || ["hints", "bytecode"].contains(&key) && how == 6;
            if harmless {
                ch.outcome("harmless");
                return;
            }
            ch.state(&(v1, key, how));
            let r = call(None, CairoLayout::Small, &serde_json::to_vec(&w).unwrap(), &version(*v1), None);
            must_fail(ch, &r, if *v1 { "contract-file" } else { "program-file" }, &|| format!("{key} damaged in way {how}"));
        });
        ctx.explore("one damaged word", |ch| {
            // every word of a program replaced: either it still runs, and then truthfully, or it is an error
            let v1 = ch.flag();
            let code = if v1 { contract_code(&[fe(4), fe(5)], 1) } else { free(&[9, 16, 4]) };
            let at = ch.pick(code.len());
            let mut code = code;
            let how = ch.pick(if ch.ctx.thorough() { 64 + 6 } else { 16 + 6 });
            let menu = [fe(0), fe(1), fe(2), fe(-1), FE::from(template(18, 0, 0).0.word()), FE::from(u64::MAX)];
            code[at] = if how < 6 {
                menu[how]
            } else {
                let Some(w) = small(&code[at]) else { return };
                let bit = if ch.ctx.thorough() { how - 6 } else { 48 + how - 6 };
                FE::from(w ^ 1 << bit)
            };
            ch.state(&(v1, at, how));
            let content = if v1 { serde_json::to_vec(&contract(&code, js!([]))).unwrap() } else { json(&code, &[], &[("main", 0)]) };
            let r = call(None, CairoLayout::Small, &content, &version(v1), None);
            let what = || format!("Cairo {}, word {at} replaced in way {how}", v1 as u8);
            match &r {
                Err(p) => ch.fail(if v1 { "panic:contract" } else { "panic:program" }, format!("{}: {p}", what())),
                Ok(Err(_)) => ch.outcome("failure reported as an error"),
                Ok(Ok(got)) => match if v1 { cairo1(&code, 300) } else { cairo0(&code, 0, &[], 300) } {
                    Some(want) => {
                        ch.outcome("run reported");
                        compare(ch, got, &want, &what)
                    }
                    None => ch.outcome("outside the reference machine"),
                },
            }
        });
        ctx.explore("contracts", |ch| {
            let n = ch.range(0, ch.ctx.tier(3, 4));
            let values: Vec<FE> = (0..n).map(|_| ch.of(&[fe(0), fe(77), FE::from_hex("ffffffffffffffffffffffffffffffff").unwrap(), FE::from_hex("100000000000000000000000000000000").unwrap()])).collect();
            let pad = ch.range(0, 2);
            let (layout, _) = ch.of(&LAYOUTS.each_ref().map(|l| l));
            let code = contract_code(&values, pad);
            ch.state(&ch.choices());
            let what = || format!("contract with checked values {values:?} and {pad} pushes");
            let r = call(None, layout.clone(), &serde_json::to_vec(&contract(&code, js!([]))).unwrap(), &CairoVersion::V1, None);
            if values.iter().any(|v| v.representative().limbs[1] != 0) {
                must_fail(ch, &r, "range", &what);
                return;
            }
            let Some(got) = must_work(ch, r, &what) else { return };
            let Some(want) = cairo1(&code, 100) else {
                ch.fail("reference", what());
                return;
            };
            compare(ch, &got, &want, &what);
        });
        if let Some(c) = &casm {
            ctx.explore("hints of the shipped contract", |ch| {
                // with its hints it runs; a hint lost or damaged makes it an error or a truthful run
                let hints = c["hints"].as_array().unwrap();
                let drop = ch.pick(hints.len() + 1);
                let how = if drop < hints.len() { ch.pick(3) } else { 0 };
                let mut w = c.clone();
                if drop < hints.len() {
                    let h = w["hints"].as_array_mut().unwrap();
                    match how {
                        0 => {
                            h.remove(drop);
                        }
                        1 => h[drop][1] = js!([{"NoSuchHint": {}}]),
                        _ => h[drop][0] = js!(1),
                    }
                }
                ch.state(&(drop, how));
                let what = || format!("hint {drop} of {} changed in way {how}", hints.len());
                match call(None, CairoLayout::Plain, &serde_json::to_vec(&w).unwrap(), &CairoVersion::V1, None) {
                    Err(p) => ch.fail("panic:hint", format!("{}: {p}", what())),
                    Ok(Err(e)) => {
                        ch.check(drop < hints.len(), "refused", || format!("{}: {e}", what()));
                        ch.outcome("failure reported as an error");
                    }
                    Ok(Ok(got)) => {
                        // its range-check cells are the cells of the third segment
                        let rc = got.3.clone().unwrap_or(0..0);
                        let start = got.1.get(&(got.0.rows[0].fp - 7)).and_then(small);
                        ch.check(Some(rc.start) == start, "range-check-segment", || format!("{}: {rc:?}, the contract was given {start:?}", what()));
                        let syscalls = got.1.get(&(got.0.rows[0].fp - 5)).and_then(small);
                        ch.check(Some(rc.end) == syscalls, "range-check-segment", || format!("{}: {rc:?}, the next segment starts at {syscalls:?}", what()));
                        ch.outcome("run reported");
                    }
                }
            });
        }
    });
}
